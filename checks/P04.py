"""P04: hyperparameter tuning picks the candidate its criterion prescribes."""
from symnp.api import *
from symnp.stubs import t_quantile
from checks.common import Log, shrink_ipw
from obp.ope import (
    DoublyRobustTuning,
    DoublyRobustWithShrinkageTuning,
    InverseProbabilityWeightingTuning,
    SubGaussianDoublyRobustTuning,
    SubGaussianInverseProbabilityWeightingTuning,
    SwitchDoublyRobustTuning,
)

BOUNDS = "2 rounds, 2 actions, 2-3 candidate values; rewards (and, for the MSE criterion, weights, predictions and candidates) reals of magnitude at most 1000"
ASSUMPTIONS = ["ties between candidates are left open"]

KINDS = {
    "ipw": (InverseProbabilityWeightingTuning, "clip", False),
    "dr": (DoublyRobustTuning, "clip", True),
    "switch": (SwitchDoublyRobustTuning, "switch", True),
    "os": (DoublyRobustWithShrinkageTuning, "os", True),
    "sgipw": (SubGaussianInverseProbabilityWeightingTuning, "sg", False),
    "sgdr": (SubGaussianDoublyRobustTuning, "sg", True),
}


def variance(xs):
    m = mean(xs)
    return mean((x - m) * (x - m) for x in xs)


def data(ctx, n, k, model, est_ps, concrete):
    """Logged data; with `concrete` the weights are fixed and rewards are free."""
    d = Log.__new__(Log)
    d.n, d.k, d.L = n, k, 1
    d.position = None
    d.posn = np.zeros(n, dtype=int)
    if concrete:
        d.action = np.array([i % k for i in range(n)])
        d.reward = ctx.reals("reward", n, lo=-1000, hi=1000, nice=(-3, 3))
        ps = [0.2, 0.5, 0.8][:n]
        d.pscore = ctx.arr(ps if not est_ps else [0.9] * n)
        d.est_pscore = ctx.arr(ps)
        pi = np.zeros((n, k, 1))
        for i in range(n):
            pi[i, :, 0] = (1 - [0.6, 0.3, 0.5][i]) / (k - 1)
            pi[i, d.action[i], 0] = [0.6, 0.3, 0.5][i]
        d.pi = ctx.arr(pi)
        if model:
            d.q = np.zeros((n, k, 1))
            for i in range(n):
                for a in range(k):
                    d.q[i, a, 0] = 0.25 * i + 0.5 * a
            d.q = ctx.arr(d.q)
        return d
    d.action = ctx.ints("action", n, k)
    d.reward = ctx.reals("reward", n, lo=-1000, hi=1000, nice=(-3, 3))
    d.pscore = ctx.reals("pscore", n, lo=0, hi=1, lo_open=True, nice=(0.1, 1))
    d.est_pscore = ctx.reals("est_pscore", n, lo=0, hi=1, lo_open=True, nice=(0.1, 1))
    d.pi = np.swapaxes(ctx.simplex("pi", (n, 1, k)), 1, 2).copy()
    if model:
        d.q = ctx.reals("q", (n, k, 1), lo=-1000, hi=1000, nice=(-2, 2))
    return d


def rounds(d, tr, model, lam, ps):
    w = d.weights(ps)
    wh = shrink_ipw(tr, w, lam)
    if model:
        qe, qf = d.q_expected(), d.q_factual()
        rr = [qe[i] + wh[i] * (d.reward[i] - qf[i]) for i in range(d.n)]
        res = [d.reward[i] - qf[i] for i in range(d.n)]
    else:
        rr = [wh[i] * d.reward[i] for i in range(d.n)]
        res = list(d.reward)
    return w, wh, rr, res


def scores(d, tr, model, lams, ps, ub, delta):
    out = []
    n = d.n
    for lam in lams:
        w, wh, rr, res = rounds(d, tr, model, lam, ps)
        b = mean((w[i] - wh[i]) * res[i] for i in range(n))
        b = where(b >= 0, b, -b)
        if ub:
            lg = np.log(2.0 / delta)
            m = w[0]
            for x in w[1:]:
                m = smax(m, x)
            b = b + np.sqrt(2.0 * mean(x * x for x in w) * lg / n) + 2.0 * m * lg / (3.0 * n)
        out.append((variance(rr) / n + b * b, mean(rr)))
    return out


@harness(
    cases=product(kind=list(KINDS), est_ps=[False, True], ub=[False, True], free=[False]),
    thorough=product(kind=list(KINDS), est_ps=[False], ub=[False], free=[True]), ints=[("reward",)],
)
def mse(ctx, kind, est_ps, ub, free):
    cls, tr, model = KINDS[kind]
    n, k = 2, 2
    d = data(ctx, n, k, model, est_ps, not free)
    ps = d.est_pscore if est_ps else None
    lams = [0.2, 0.9] if kind.startswith("sg") else [0.5, 2.5]
    order = ctx.choice("order", 2)
    given = lams if order == 0 else lams[::-1]
    est = cls(lambdas=list(given), tuning_method="mse", use_bias_upper_bound=ub, delta=0.1, use_estimated_pscore=est_ps)
    got = est.estimate_policy_value(**d.kw())
    sc = scores(d, tr, model, lams, ps, ub, 0.1)
    (s0, v0), (s1, v1) = sc
    ctx.assume(abs(s0 - s1) > 1e-3)
    ctx.eq("estimate at the candidate with the smallest estimated error", got, where(s0 < s1, v0, v1))


@harness(cases=product(kind=["ipw", "switch", "sgdr"], nl=[3]), thorough=product(kind=["dr", "os", "sgipw"], nl=[3]))
def mse_three(ctx, kind, nl):
    cls, tr, model = KINDS[kind]
    d = data(ctx, 2, 2, model, False, True)
    lams = [0.1, 0.5, 1.0] if kind.startswith("sg") else [0.4, 1.0, 3.0]
    est = cls(lambdas=list(lams), tuning_method="mse", use_bias_upper_bound=False)
    got = est.estimate_policy_value(**d.kw())
    sc = scores(d, tr, model, lams, None, False, 0.1)
    for i in range(nl):
        for j in range(i):
            ctx.assume(abs(sc[i][0] - sc[j][0]) > 1e-3)
    best = where(
        sc[0][0] < sc[1][0],
        where(sc[0][0] < sc[2][0], sc[0][1], sc[2][1]),
        where(sc[1][0] < sc[2][0], sc[1][1], sc[2][1]),
    )
    ctx.eq("estimate at the best of three", got, best)


def slope_select(ctx, th, cn):
    """SLOPE: largest width first, stop before the first inconsistent interval."""
    m = len(th)
    idx = list(range(m))
    for i in range(m):
        for j in range(m - 1 - i):
            if cn[idx[j]] < cn[idx[j + 1]]:
                idx[j], idx[j + 1] = idx[j + 1], idx[j]
    C = np.sqrt(6.0) - 1.0
    for t in range(1, m):
        i = idx[t]
        for j in idx[:t]:
            diff = th[i] - th[j]
            if not (diff <= cn[i] + C * cn[j] and -diff <= cn[i] + C * cn[j]):
                return idx[t - 1]
    return idx[-1]


@harness(
    cases=product(kind=list(KINDS), est_ps=[False], nl=[2]) + product(kind=["ipw", "os"], est_ps=[True], nl=[2]) + product(kind=["ipw", "switch"], est_ps=[False], nl=[3]),
    thorough=product(kind=["dr", "os", "sgipw", "sgdr"], est_ps=[True], nl=[3]), ints=[("reward",)],
)
def slope(ctx, kind, est_ps, nl):
    cls, tr, model = KINDS[kind]
    n, k = 2, 2
    d = data(ctx, n, k, model, est_ps, True)
    ps = d.est_pscore if est_ps else None
    lams = ([0.1, 0.9, 0.5] if kind.startswith("sg") else [0.4, 3.5, 1.1])[:nl]
    delta = 0.3
    th, cn = [], []
    for lam in lams:
        w, wh, rr, res = rounds(d, tr, model, lam, ps)
        th.append(mean(rr))
        # the standard error of two samples is half their distance
        z = (rr[0] - rr[1]) / 2.0
        cn.append(where(z >= 0, z, -z) * t_quantile(n - 1, 1.0 - delta))
    # stay away from ties and boundary cases
    for i in range(nl):
        for j in range(i):
            ctx.assume(abs(cn[i] - cn[j]) > 1e-3)
            C = np.sqrt(6.0) - 1.0
            for a, b in ((i, j), (j, i)):
                g = abs(th[a] - th[b]) - (cn[a] + C * cn[b])
                ctx.assume(abs(g) > 1e-3)
    want = th[slope_select(ctx, th, cn)]
    est = cls(lambdas=list(lams), tuning_method="slope", delta=delta, use_estimated_pscore=est_ps)
    ctx.eq("estimate at the selected candidate", est.estimate_policy_value(**d.kw()), want)


@harness(cases=product(kind=list(KINDS), method=["mse", "slope"]))
def single_candidate(ctx, kind, method):
    """With one candidate, tuning is the estimator at that value."""
    cls, tr, model = KINDS[kind]
    d = data(ctx, 2, 2, model, False, False)
    lam = ctx.real("lam", lo=0, hi=1, nice=(0.05, 0.95))
    est = cls(lambdas=[lam], tuning_method=method, use_bias_upper_bound=False)
    w, wh, rr, res = rounds(d, tr, model, lam, None)
    ctx.eq("value", est.estimate_policy_value(**d.kw()), mean(rr))
