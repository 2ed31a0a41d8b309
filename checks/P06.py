"""P06: interval estimates are bootstrap intervals of the estimator's own round values."""
from symnp.api import *
from checks.common import Log, check_interval, rank_value, shrink_ipw
from obp.ope import (
    BalancedInverseProbabilityWeighting,
    DirectMethod,
    DoublyRobust,
    DoublyRobustTuning,
    DoublyRobustWithShrinkage,
    DoublyRobustWithShrinkageTuning,
    InverseProbabilityWeighting,
    InverseProbabilityWeightingTuning,
    ReplayMethod,
    SelfNormalizedDoublyRobust,
    SelfNormalizedInverseProbabilityWeighting,
    SubGaussianDoublyRobust,
    SubGaussianDoublyRobustTuning,
    SubGaussianInverseProbabilityWeighting,
    SubGaussianInverseProbabilityWeightingTuning,
    SwitchDoublyRobust,
    SwitchDoublyRobustTuning,
)
from obp.utils import estimate_confidence_interval_by_bootstrap

BOUNDS = "1-3 samples, 1-3 bootstrap resamples with every choice of resampled indices, fixed confidence levels; sample values, logged data and hyperparameters arbitrary reals; plus one fixed sequence of 150 resamples, or of 1030 samples, known up to a shift"


@harness(
    cases=product(n=[2], B=[1, 2, 3], alpha=[0.05, 0.3]) + product(n=[3], B=[1], alpha=[0.1, 1.0]) + [dict(n=1, B=2, alpha=0.0)],
    thorough=product(n=[3], B=[2], alpha=[0.1, 1.0]) + product(n=[2], B=[4], alpha=[0.2]),
)
def bootstrap(ctx, n, B, alpha):
    z = ctx.reals("z", n, nice=(-3, 3))
    res = estimate_confidence_interval_by_bootstrap(z, alpha=alpha, n_bootstrap_samples=B, random_state=7)
    check_interval(ctx, res, z, B, alpha)
    lo, up = f"{100 * (1. - alpha)}% CI (lower)", f"{100 * (1. - alpha)}% CI (upper)"
    ctx.le("ordered", res[lo], res[up])
    big, small = z[0], z[0]
    for x in z[1:]:
        big, small = smax(big, x), smin(small, x)
    ctx.le("not above the largest sample", res[up], big)
    ctx.le("not below the smallest sample", small, res[lo])


@harness(cases=product(n=[2], B=[2]))
def reproducible(ctx, n, B):
    z = ctx.reals("z", n, nice=(-3, 3))
    a = estimate_confidence_interval_by_bootstrap(z, alpha=0.2, n_bootstrap_samples=B, random_state=3)
    b = estimate_confidence_interval_by_bootstrap(z, alpha=0.2, n_bootstrap_samples=B, random_state=3)
    for k in a:
        ctx.eq(k, a[k], b[k])


EST = {
    "replay": (ReplayMethod, None, False),
    "ipw": (InverseProbabilityWeighting, "clip", False),
    "snipw": (SelfNormalizedInverseProbabilityWeighting, "none", False),
    "sgipw": (SubGaussianInverseProbabilityWeighting, "sg", False),
    "balanced": (BalancedInverseProbabilityWeighting, "clip", False),
    "dm": (DirectMethod, None, True),
    "dr": (DoublyRobust, "clip", True),
    "sndr": (SelfNormalizedDoublyRobust, "none", True),
    "switch": (SwitchDoublyRobust, "switch", True),
    "os": (DoublyRobustWithShrinkage, "os", True),
    "sgdr": (SubGaussianDoublyRobust, "sg", True),
}


def fixed_action_log(ctx, n, k, L, model, pos):
    d = Log(ctx, n, k, L, q=model, pos=pos, est_pscore=True)
    return d


def round_values(d, kind, tr, model, lam, ps, iw=None):
    n = d.n
    if kind == "dm":
        return d.q_expected()
    if kind == "replay":
        m = [where(d.pi[i, d.action[i], d.posn[i]] == 1, 1.0, 0.0) for i in range(n)]
        c = mean(m)
        return [m[i] * d.reward[i] / where(c > 0, c, 1.0) for i in range(n)]
    w = d.weights(ps) if iw is None else list(iw)
    w = shrink_ipw(tr, w, lam)
    if kind in ("snipw", "sndr", "balanced"):
        m = mean(w)
        w = [x / m for x in w]
    if model:
        qf, qe = d.q_factual(), d.q_expected()
        return [qe[i] + w[i] * (d.reward[i] - qf[i]) for i in range(n)]
    return [w[i] * d.reward[i] for i in range(n)]


@harness(
    cases=[
        dict(kind=k, est_ps=e, B=1, pos="given", L=1)
        for k in EST
        for e in ((False,) if k in ("replay", "dm", "balanced") else (False, True))
    ]
    + [dict(kind=k, est_ps=False, B=1, pos="none", L=1) for k in EST]
    + [dict(kind=k, est_ps=False, B=2, pos="none", L=1) for k in ("ipw", "dm")],
    thorough=[dict(kind=k, est_ps=False, B=1, pos="given", L=2) for k in EST], ints=[("reward",)],
)
def estimators(ctx, kind, est_ps, B, pos, L):
    cls, tr, model = EST[kind]
    n, k = 2, 2
    d = Log(ctx, n, k, L, q=model, pos=pos, est_pscore=True)
    kw = dict(d.kw())
    opts = {}
    lam = None
    if tr in ("clip", "switch", "os"):
        lam = ctx.real("lam", lo=0, lo_open=True, nice=(0.1, 4))
    elif tr == "sg":
        lam = ctx.real("lam", lo=0, hi=1)
    if lam is not None:
        opts["lambda_"] = lam
    if kind not in ("replay", "dm", "balanced"):
        opts["use_estimated_pscore"] = est_ps
    iw = None
    if kind == "balanced":
        iw = ctx.reals("iw", n, lo=0, nice=(0, 4))
        kw["estimated_importance_weights"] = iw
    ps = d.est_pscore if est_ps else None
    if kind in ("snipw", "sndr"):
        ctx.assume(total(d.weights(ps)) > 0)
    if kind == "balanced":
        ctx.assume(total(iw) > 0)
    est = cls(**opts)
    alpha = 0.1
    z = round_values(d, kind, tr, model, lam, ps, iw)
    res = est.estimate_interval(**kw, alpha=alpha, n_bootstrap_samples=B, random_state=5)
    check_interval(ctx, res, z, B, alpha)


TUNE = {
    "ipw": (InverseProbabilityWeightingTuning, "clip", False),
    "dr": (DoublyRobustTuning, "clip", True),
    "switch": (SwitchDoublyRobustTuning, "switch", True),
    "os": (DoublyRobustWithShrinkageTuning, "os", True),
    "sgipw": (SubGaussianInverseProbabilityWeightingTuning, "sg", False),
    "sgdr": (SubGaussianDoublyRobustTuning, "sg", True),
}


@harness(cases=product(kind=list(TUNE), est_ps=[False, True], method=["mse", "slope"]), ints=[("reward",)])
def tuned(ctx, kind, est_ps, method):
    """With a single candidate the interval is that of the estimator at that value."""
    cls, tr, model = TUNE[kind]
    d = Log(ctx, 2, 2, 1, q=model, pos="none", est_pscore=True)
    lam = ctx.real("lam", lo=0, hi=1, lo_open=True, nice=(0.05, 0.95))
    ps = d.est_pscore if est_ps else None
    est = cls(lambdas=[lam], tuning_method=method, use_bias_upper_bound=False, use_estimated_pscore=est_ps)
    z = round_values(d, kind, tr, model, lam, ps)
    res = est.estimate_interval(**d.kw(), alpha=0.1, n_bootstrap_samples=1, random_state=5)
    check_interval(ctx, res, z, 1, 0.1)


@harness(cases=[dict(n=30, B=150, alpha=0.1), dict(n=1030, B=3, alpha=0.3)], thorough=[dict(n=40, B=1100, alpha=0.05)])
def wide(ctx, n, B, alpha):
    """Many samples or resamples: one sequence of resampled indices, values known up to a common shift."""
    ctx.fixed_choices = True
    s = ctx.real("shift", nice=(-3, 3))
    i = np.arange(n)
    base = ((i * i * 7 + 3 * i) % 101) / 16.0
    z = [float(b) + s for b in base]
    res = estimate_confidence_interval_by_bootstrap(A.build(z) if ctx.sym else np.array(z), alpha=alpha, n_bootstrap_samples=B, random_state=7)
    idx = ctx.draws
    ctx.check("number of draws", len(idx) == n * B)
    if len(idx) != n * B:
        return
    means = [float(np.mean(base[np.array(idx[b * n:(b + 1) * n])])) for b in range(B)]
    lo, up = f"{100 * (1. - alpha)}% CI (lower)", f"{100 * (1. - alpha)}% CI (upper)"
    ctx.eq("mean", res["mean"], float(np.mean(means)) + s)
    ctx.eq("lower", res[lo], rank_value(means, alpha / 2) + s)
    ctx.eq("upper", res[up], rank_value(means, 1 - alpha / 2) + s)
