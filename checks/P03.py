"""P03: relations between the estimators."""
from symnp.api import *
from checks.common import Log
from obp.ope import *
from obp.ope import (
    DirectMethod,
    DoublyRobust,
    DoublyRobustWithShrinkage,
    InverseProbabilityWeighting,
    ReplayMethod,
    SelfNormalizedDoublyRobust,
    SelfNormalizedInverseProbabilityWeighting,
    SubGaussianDoublyRobust,
    SubGaussianInverseProbabilityWeighting,
    SwitchDoublyRobust,
)

BOUNDS = "2-3 rounds, 2-3 actions, 1-2 positions; all real inputs arbitrary"

SIZES = [dict(n=2, k=2, L=2, pos="given"), dict(n=3, k=2, L=1, pos="none")]
BIG = [dict(n=2, k=3, L=1, pos="given"), dict(n=4, k=2, L=1, pos="none"), dict(n=3, k=2, L=2, pos="given")]


@harness(cases=SIZES, thorough=BIG)
def zero_model_gives_weighting(ctx, n, k, L, pos):
    d = Log(ctx, n, k, L, pos=pos)
    lam = ctx.real("lam", lo=0, nice=(0.1, 4))
    lam1 = ctx.real("lam1", lo=0, hi=1)
    q0 = np.zeros((n, k, L))
    kw = d.kw()
    dr = DoublyRobust(lambda_=lam).estimate_policy_value(**kw, estimated_rewards_by_reg_model=q0)
    ctx.eq("dr=ipw", dr, InverseProbabilityWeighting(lambda_=lam).estimate_policy_value(**kw))
    dr = SubGaussianDoublyRobust(lambda_=lam1).estimate_policy_value(**kw, estimated_rewards_by_reg_model=q0)
    ctx.eq("sgdr=sgipw", dr, SubGaussianInverseProbabilityWeighting(lambda_=lam1).estimate_policy_value(**kw))
    ctx.assume(total(d.weights()) > 0)
    dr = SelfNormalizedDoublyRobust().estimate_policy_value(**kw, estimated_rewards_by_reg_model=q0)
    ctx.eq("sndr=snipw", dr, SelfNormalizedInverseProbabilityWeighting().estimate_policy_value(**kw))


@harness(cases=SIZES, thorough=BIG)
def hyperparameter_limits(ctx, n, k, L, pos):
    d = Log(ctx, n, k, L, q=True, pos=pos)
    kw = d.kw()
    dm = DirectMethod().estimate_policy_value(**kw)
    dr = DoublyRobust().estimate_policy_value(**kw)
    ipw = InverseProbabilityWeighting().estimate_policy_value(**kw)
    w = d.weights()
    for x in w:
        ctx.assume(x > 0)
    for name, cls in (("dr", DoublyRobust), ("switch", SwitchDoublyRobust), ("os", DoublyRobustWithShrinkage)):
        ctx.eq(name + " at 0 is dm", cls(lambda_=0.0).estimate_policy_value(**kw), dm)
        ctx.eq(name + " at inf is dr", cls(lambda_=np.inf).estimate_policy_value(**kw), dr)
    ctx.eq("sgdr at 0 is dr", SubGaussianDoublyRobust(lambda_=0.0).estimate_policy_value(**kw), dr)
    ctx.eq("sgipw at 0 is ipw", SubGaussianInverseProbabilityWeighting(lambda_=0.0).estimate_policy_value(**kw), ipw)
    lam = ctx.real("lam", lo=0, nice=(0.1, 4))
    for x in w:
        ctx.assume(x <= lam)
    for name, cls in (("dr", DoublyRobust), ("switch", SwitchDoublyRobust)):
        ctx.eq(name + " above all weights is dr", cls(lambda_=lam).estimate_policy_value(**kw), dr)
    ctx.eq("ipw above all weights", InverseProbabilityWeighting(lambda_=lam).estimate_policy_value(**kw), ipw)


@harness(cases=SIZES, thorough=BIG)
def perfect_model(ctx, n, k, L, pos):
    """With predictions that match the observed rewards every DR variant is DM."""
    d = Log(ctx, n, k, L, q=True, pos=pos)
    r = np.array([0.0] * n) if not ctx.sym else A.sa([0.0] * n)
    for i in range(n):
        r[i] = d.q[i, d.action[i], d.posn[i]]
    kw = d.kw()
    kw["reward"] = r
    ctx.assume(total(d.weights()) > 0)
    lam = ctx.real("lam", lo=0, nice=(0.1, 4))
    dm = DirectMethod().estimate_policy_value(**kw)
    for name, est in (
        ("dr", DoublyRobust(lambda_=lam)),
        ("sndr", SelfNormalizedDoublyRobust()),
        ("switch", SwitchDoublyRobust(lambda_=lam)),
        ("os", DoublyRobustWithShrinkage(lambda_=lam)),
        ("sg", SubGaussianDoublyRobust(lambda_=0.5)),
    ):
        ctx.eq(name + "=dm", est.estimate_policy_value(**kw), dm)


@harness(cases=SIZES, thorough=BIG)
def on_policy(ctx, n, k, L, pos):
    """Evaluating the logging policy itself gives the average logged reward."""
    d = Log(ctx, n, k, L, pos=pos, positive=True)
    ps = np.array([0.0] * n) if not ctx.sym else A.sa([0.0] * n)
    for i in range(n):
        ps[i] = d.pi[i, d.action[i], d.posn[i]]
    kw = d.kw()
    kw["pscore"] = ps
    m = mean(list(d.reward))
    ctx.eq("ipw", InverseProbabilityWeighting().estimate_policy_value(**kw), m)
    ctx.eq("snipw", SelfNormalizedInverseProbabilityWeighting().estimate_policy_value(**kw), m)
    ctx.eq("sgipw", SubGaussianInverseProbabilityWeighting(lambda_=0.3).estimate_policy_value(**kw), m)
    ctx.eq("ipw clipped at one", InverseProbabilityWeighting(lambda_=1.0).estimate_policy_value(**kw), m)


@harness(cases=SIZES, thorough=BIG)
def self_normalized_in_range(ctx, n, k, L, pos):
    d = Log(ctx, n, k, L, pos=pos)
    w = d.weights()
    ctx.assume(total(w) > 0)
    lo = ctx.real("rmin", nice=(-3, 0))
    hi = ctx.real("rmax", nice=(0, 3))
    for i in range(n):
        ctx.assume(d.reward[i] >= lo)
        ctx.assume(d.reward[i] <= hi)
    v = SelfNormalizedInverseProbabilityWeighting().estimate_policy_value(**d.kw())
    ctx.le("above the smallest reward", lo, v)
    ctx.le("below the largest reward", v, hi)
    iw = ctx.reals("iw", n, lo=0, nice=(0, 4))
    ctx.assume(total(list(iw)) > 0)
    v = BalancedInverseProbabilityWeighting().estimate_policy_value(**d.kw(), estimated_importance_weights=iw)
    ctx.le("balanced above the smallest reward", lo, v)
    ctx.le("balanced below the largest reward", v, hi)


@harness(cases=SIZES, thorough=BIG)
def reward_shift(ctx, n, k, L, pos):
    """Self-normalized, direct and replay estimates move with the rewards."""
    d = Log(ctx, n, k, L, q=True, pos=pos)
    c = ctx.real("c", nice=(-3, 3))
    ctx.assume(total(d.weights()) > 0)
    kw = d.kw()
    kw2 = dict(kw, reward=d.reward + c, estimated_rewards_by_reg_model=d.q + c)
    for name, e in (("snipw", SelfNormalizedInverseProbabilityWeighting()), ("dm", DirectMethod()), ("dr", DoublyRobust())):
        ctx.eq(name, e.estimate_policy_value(**kw2), e.estimate_policy_value(**kw) + c)


@harness(cases=SIZES, thorough=BIG)
def deterministic_policy_replay(ctx, n, k, L, pos):
    """For a deterministic policy and uniform logging, replay is self-normalized weighting."""
    d = Log(ctx, n, k, L, pos=pos)
    pi = np.zeros((n, k, L))
    chosen = ctx.ints("chosen", (n, L), k)
    for i in range(n):
        for l in range(L):
            pi[i, chosen[i, l], l] = 1.0
    hit = [1.0 if chosen[i, d.posn[i]] == d.action[i] else 0.0 for i in range(n)]
    ctx.assume(sum(hit) > 0)
    kw = d.kw()
    kw["action_dist"] = pi
    kw["pscore"] = np.full(n, 1.0 / k)
    ctx.eq(
        "rm=snipw",
        ReplayMethod().estimate_policy_value(**kw),
        SelfNormalizedInverseProbabilityWeighting().estimate_policy_value(**kw),
    )


def everyone(ctx):
    lam = ctx.real("lam", lo=0, lo_open=True, nice=(0.1, 4))
    lam1 = ctx.real("lam1", lo=0, hi=1)
    return (
        ("replay", ReplayMethod()),
        ("ipw", InverseProbabilityWeighting(lambda_=lam)),
        ("snipw", SelfNormalizedInverseProbabilityWeighting()),
        ("sgipw", SubGaussianInverseProbabilityWeighting(lambda_=lam1)),
        ("dm", DirectMethod()),
        ("dr", DoublyRobust(lambda_=lam)),
        ("sndr", SelfNormalizedDoublyRobust()),
        ("switch", SwitchDoublyRobust(lambda_=lam)),
        ("os", DoublyRobustWithShrinkage(lambda_=lam)),
        ("sgdr", SubGaussianDoublyRobust(lambda_=lam1)),
    )


@harness(cases=[dict(n=2, k=2, L=1, pos="given"), dict(n=3, k=2, L=1, pos="none")], thorough=[dict(n=2, k=2, L=2, pos="given")])
def order_of_rounds(ctx, n, k, L, pos):
    """Reordering the logged rounds changes no estimate."""
    d = Log(ctx, n, k, L, q=True, pos=pos)
    ctx.assume(total(d.weights()) > 0)
    kw = d.kw()
    perm = np.array([1, 0] if n == 2 else [2, 0, 1])
    kw2 = {key: (v[perm] if v is not None else None) for key, v in kw.items()}
    for name, e in everyone(ctx):
        ctx.eq(name, e.estimate_policy_value(**kw2), e.estimate_policy_value(**kw))


@harness(cases=[dict(n=2, k=2, L=1, pos="given"), dict(n=3, k=2, L=1, pos="none")], thorough=[dict(n=2, k=2, L=2, pos="given")])
def reward_scale(ctx, n, k, L, pos):
    """Scaling rewards and predictions scales every estimate."""
    d = Log(ctx, n, k, L, q=True, pos=pos)
    c = ctx.real("c", nice=(-3, 3))
    ctx.assume(total(d.weights()) > 0)
    kw = d.kw()
    kw2 = dict(kw, reward=d.reward * c, estimated_rewards_by_reg_model=d.q * c)
    for name, e in everyone(ctx):
        ctx.eq(name, e.estimate_policy_value(**kw2), e.estimate_policy_value(**kw) * c)
