"""P02: model-assisted estimators compute their defining formulas."""
from symnp.api import *
from checks.common import Log, WideLog, shrink_ipw
from obp.ope import (
    DirectMethod,
    DoublyRobust,
    DoublyRobustWithShrinkage,
    SelfNormalizedDoublyRobust,
    SubGaussianDoublyRobust,
    SwitchDoublyRobust,
)

BOUNDS = "2-3 rounds, 2-3 actions, 1-2 positions; rewards, propensities, policies, predicted rewards and lambda arbitrary reals (and large logs of 1030 rounds or 300 actions with arbitrary rewards and the rest fixed)"

SIZES = [dict(n=2, k=2, L=2, pos="given"), dict(n=3, k=2, L=1, pos="none"), dict(n=2, k=3, L=1, pos="given")]
BIG = [dict(n=4, k=2, L=1, pos="none"), dict(n=3, k=3, L=1, pos="none"), dict(n=3, k=2, L=2, pos="given")]


def grid(sizes, **axes):
    return [dict(**s, **a) for s in sizes for a in product(**axes)]


@harness(cases=SIZES, thorough=BIG, ints=[("reward",), ("q",), ("reward", "pi", "pscore", "est_pscore")])
def dm(ctx, n, k, L, pos):
    d = Log(ctx, n, k, L, q=True, pos=pos)
    ctx.eq("value", DirectMethod().estimate_policy_value(**d.kw()), mean(d.q_expected()))


KINDS = {
    "dr": (DoublyRobust, "clip", dict(lo=0, nice=(0.1, 4))),
    "switch": (SwitchDoublyRobust, "switch", dict(lo=0, nice=(0.1, 4))),
    "os": (DoublyRobustWithShrinkage, "os", dict(lo=0, nice=(0.1, 4))),
    "sg": (SubGaussianDoublyRobust, "sg", dict(lo=0, hi=1)),
}


@harness(
    cases=grid(SIZES, kind=["dr", "switch", "os", "sg"], est_ps=[False, True]),
    thorough=grid(BIG, kind=["dr", "switch", "os", "sg"], est_ps=[False, True]), ints=[("reward",), ("q",), ("reward", "pi", "pscore", "est_pscore")],
)
def doubly_robust(ctx, n, k, L, pos, kind, est_ps):
    d = Log(ctx, n, k, L, q=True, pos=pos, est_pscore=True)
    cls, tr, opt = KINDS[kind]
    lam = ctx.real("lam", **opt)
    w = shrink_ipw(tr, d.weights(d.est_pscore if est_ps else None), lam)
    est = cls(lambda_=lam, use_estimated_pscore=est_ps)
    qf, qe = d.q_factual(), d.q_expected()
    ctx.eq(
        "value",
        est.estimate_policy_value(**d.kw()),
        mean(qe[i] + w[i] * (d.reward[i] - qf[i]) for i in range(n)),
    )


@harness(cases=grid(SIZES, kind=["dr", "switch", "os"]), thorough=grid(BIG, kind=["dr", "switch", "os"]), ints=[("reward",), ("q",), ("reward", "pi", "pscore", "est_pscore")])
def unlimited(ctx, n, k, L, pos, kind):
    """An infinite hyperparameter leaves the weights as they are."""
    d = Log(ctx, n, k, L, q=True, pos=pos)
    w = d.weights()
    est = KINDS[kind][0](lambda_=np.inf)
    qf, qe = d.q_factual(), d.q_expected()
    ctx.eq(
        "value",
        est.estimate_policy_value(**d.kw()),
        mean(qe[i] + w[i] * (d.reward[i] - qf[i]) for i in range(n)),
    )


@harness(cases=grid(SIZES, est_ps=[False, True]), thorough=grid(BIG, est_ps=[False, True]), ints=[("reward",), ("q",), ("reward", "pi", "pscore", "est_pscore")])
def sndr(ctx, n, k, L, pos, est_ps):
    d = Log(ctx, n, k, L, q=True, pos=pos, est_pscore=True)
    w = d.weights(d.est_pscore if est_ps else None)
    ctx.assume(total(w) > 0)
    est = SelfNormalizedDoublyRobust(use_estimated_pscore=est_ps)
    qf, qe = d.q_factual(), d.q_expected()
    ctx.eq(
        "value",
        est.estimate_policy_value(**d.kw()),
        mean(qe) + total(w[i] * (d.reward[i] - qf[i]) for i in range(n)) / total(w),
    )


@harness(cases=[dict(n=1030, k=3, L=2, pos="given"), dict(n=70, k=300, L=1, pos="none")], thorough=[dict(n=4200, k=2, L=1, pos="none")])
def wide(ctx, n, k, L, pos):
    """Large logs: arbitrary rewards, everything else fixed."""
    d = WideLog(ctx, n, k, L, pos, q=True)
    qe, qf, r = d.q_expected(), d.q_factual(), d.reward
    ctx.eq("dm", DirectMethod().estimate_policy_value(**d.kw()), mean(qe))
    for est_ps in (False, True):
        w = d.weights(d.est_pscore if est_ps else None)
        for kind, lam in (("dr", 1.5), ("switch", 1.25), ("os", 2.0), ("sg", 0.3)):
            cls, tr, _ = KINDS[kind]
            v = shrink_ipw(tr, w, lam)
            ctx.eq(f"{kind} {est_ps}", cls(lambda_=lam, use_estimated_pscore=est_ps).estimate_policy_value(**d.kw()), total(qe[i] + v[i] * (r[i] - qf[i]) for i in range(n)) / n)
        est = SelfNormalizedDoublyRobust(use_estimated_pscore=est_ps)
        ctx.eq(f"sndr {est_ps}", est.estimate_policy_value(**d.kw()), mean(qe) + total(w[i] * (r[i] - qf[i]) for i in range(n)) / total(w))
