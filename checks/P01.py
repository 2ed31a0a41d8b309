"""P01: weighting estimators compute their defining formulas."""
from symnp.api import *
from checks.common import Log, WideLog, shrink_ipw
from obp.ope import (
    BalancedInverseProbabilityWeighting,
    InverseProbabilityWeighting,
    ReplayMethod,
    SelfNormalizedInverseProbabilityWeighting,
    SubGaussianInverseProbabilityWeighting,
)

BOUNDS = "1-3 rounds, 2-3 actions, 1-2 positions; rewards, propensities, policies, weights and lambda arbitrary reals (and large logs of 1030 rounds or 300 actions with arbitrary rewards and the rest fixed)"

SIZES = [dict(n=2, k=2, L=2, pos="given"), dict(n=3, k=2, L=1, pos="none"), dict(n=2, k=3, L=1, pos="given")]
BIG = [dict(n=4, k=2, L=1, pos="none"), dict(n=3, k=3, L=1, pos="none"), dict(n=3, k=2, L=2, pos="given")]


def grid(sizes, **axes):
    return [dict(**s, **a) for s in sizes for a in product(**axes)]


@harness(cases=grid(SIZES, est_ps=[False, True]), thorough=grid(BIG, est_ps=[False, True]), ints=[("reward",), ("reward", "pi", "pscore", "est_pscore")])
def ipw(ctx, n, k, L, pos, est_ps):
    d = Log(ctx, n, k, L, pos=pos, est_pscore=True)
    lam = ctx.real("lam", lo=0, nice=(0.1, 4))
    est = InverseProbabilityWeighting(lambda_=lam, use_estimated_pscore=est_ps)
    w = shrink_ipw("clip", d.weights(d.est_pscore if est_ps else None), lam)
    ctx.eq("value", est.estimate_policy_value(**d.kw()), mean(w[i] * d.reward[i] for i in range(n)))


@harness(cases=grid(SIZES, est_ps=[False, True]), thorough=grid(BIG, est_ps=[False, True]), ints=[("reward",), ("reward", "pi", "pscore", "est_pscore")])
def ipw_unclipped(ctx, n, k, L, pos, est_ps):
    d = Log(ctx, n, k, L, pos=pos, est_pscore=True)
    est = InverseProbabilityWeighting(use_estimated_pscore=est_ps)
    w = d.weights(d.est_pscore if est_ps else None)
    ctx.eq("value", est.estimate_policy_value(**d.kw()), mean(w[i] * d.reward[i] for i in range(n)))


@harness(cases=grid(SIZES, est_ps=[False, True]), thorough=grid(BIG, est_ps=[False, True]), ints=[("reward",), ("reward", "pi", "pscore", "est_pscore")])
def snipw(ctx, n, k, L, pos, est_ps):
    d = Log(ctx, n, k, L, pos=pos, est_pscore=True)
    w = d.weights(d.est_pscore if est_ps else None)
    ctx.assume(total(w) > 0)
    est = SelfNormalizedInverseProbabilityWeighting(use_estimated_pscore=est_ps)
    ctx.eq(
        "value",
        est.estimate_policy_value(**d.kw()),
        total(w[i] * d.reward[i] for i in range(n)) / total(w),
    )


@harness(cases=grid(SIZES, est_ps=[False, True]), thorough=grid(BIG, est_ps=[False, True]), ints=[("reward",), ("reward", "pi", "pscore", "est_pscore")])
def sgipw(ctx, n, k, L, pos, est_ps):
    d = Log(ctx, n, k, L, pos=pos, est_pscore=True)
    lam = ctx.real("lam", lo=0, hi=1)
    est = SubGaussianInverseProbabilityWeighting(lambda_=lam, use_estimated_pscore=est_ps)
    w = shrink_ipw("sg", d.weights(d.est_pscore if est_ps else None), lam)
    ctx.eq("value", est.estimate_policy_value(**d.kw()), mean(w[i] * d.reward[i] for i in range(n)))


@harness(cases=SIZES, thorough=BIG, ints=[("reward",), ("reward", "iw")])
def balanced(ctx, n, k, L, pos):
    d = Log(ctx, n, k, L, pos=pos)
    lam = ctx.real("lam", lo=0, nice=(0.1, 4))
    iw = ctx.reals("iw", n, lo=0, nice=(0, 4))
    w = [smin(x, lam) for x in iw]
    ctx.assume(total(w) > 0)
    est = BalancedInverseProbabilityWeighting(lambda_=lam)
    ctx.eq(
        "value",
        est.estimate_policy_value(**d.kw(), estimated_importance_weights=iw),
        total(w[i] * d.reward[i] for i in range(n)) / total(w),
    )


@harness(cases=SIZES, thorough=BIG, ints=[("reward",), ("reward", "pi", "pscore", "est_pscore")])
def replay_method(ctx, n, k, L, pos):
    """Mean reward over the rounds whose logged action the policy takes surely."""
    d = Log(ctx, n, k, L, pos=pos)
    got = ReplayMethod().estimate_policy_value(**d.kw())
    m = [where(d.pi[i, d.action[i], d.posn[i]] == 1, 1.0, 0.0) for i in range(n)]
    cnt = total(m)
    if cnt > 0:
        ctx.eq("value", got, total(m[i] * d.reward[i] for i in range(n)) / cnt)
    else:
        ctx.eq("value without matches", got, 0.0)


@harness(cases=[dict(n=1030, k=3, L=2, pos="given"), dict(n=70, k=300, L=1, pos="none")], thorough=[dict(n=4200, k=2, L=1, pos="none")])
def wide(ctx, n, k, L, pos):
    """Large logs: arbitrary rewards, everything else fixed."""
    d = WideLog(ctx, n, k, L, pos)
    r = d.reward
    for est_ps in (False, True):
        w = d.weights(d.est_pscore if est_ps else None)
        cl, sg = shrink_ipw("clip", w, 1.5), shrink_ipw("sg", w, 0.3)
        for name, est, v in (
            ("ipw", InverseProbabilityWeighting(use_estimated_pscore=est_ps), total(w[i] * r[i] for i in range(n)) / n),
            ("clipped ipw", InverseProbabilityWeighting(lambda_=1.5, use_estimated_pscore=est_ps), total(cl[i] * r[i] for i in range(n)) / n),
            ("snipw", SelfNormalizedInverseProbabilityWeighting(use_estimated_pscore=est_ps), total(w[i] * r[i] for i in range(n)) / total(w)),
            ("sgipw", SubGaussianInverseProbabilityWeighting(lambda_=0.3, use_estimated_pscore=est_ps), total(sg[i] * r[i] for i in range(n)) / n),
        ):
            ctx.eq(f"{name} {est_ps}", est.estimate_policy_value(**d.kw()), v)
    iw = np.minimum(np.array(d.weights()) + 0.25, 2.0)
    ctx.eq("balanced", BalancedInverseProbabilityWeighting(lambda_=2.0).estimate_policy_value(**d.kw(), estimated_importance_weights=iw), total(iw[i] * r[i] for i in range(n)) / total(iw))
    sure = np.zeros_like(d.pi)
    for i in range(n):
        sure[i, (d.action[i] + (i % 3 == 0)) % k, :] = 1.0
    hit = [float(i % 3 != 0) for i in range(n)]
    kw = dict(d.kw(), action_dist=sure)
    ctx.eq("replay", ReplayMethod().estimate_policy_value(**kw), total(hit[i] * r[i] for i in range(n)) / total(hit))
