"""P07: estimators for data collected by several loggers."""
from symnp.api import *
from checks.common import Log, WideLog, check_interval
from obp.ope import (
    MultiLoggersBalancedDoublyRobust,
    MultiLoggersBalancedInverseProbabilityWeighting,
    MultiLoggersNaiveDoublyRobust,
    MultiLoggersNaiveInverseProbabilityWeighting,
    MultiLoggersWeightedDoublyRobust,
    MultiLoggersWeightedInverseProbabilityWeighting,
)

BOUNDS = "2-4 rounds, 2-3 actions, 1-2 positions, 1-2 loggers with arbitrary labels; rewards, propensities, policies, predictions and the clipping threshold arbitrary reals; 1 bootstrap resample (and large logs of 1030 rounds with arbitrary rewards and the rest fixed)"

EST = {
    ("naive", False): MultiLoggersNaiveInverseProbabilityWeighting,
    ("balanced", False): MultiLoggersBalancedInverseProbabilityWeighting,
    ("weighted", False): MultiLoggersWeightedInverseProbabilityWeighting,
    ("naive", True): MultiLoggersNaiveDoublyRobust,
    ("balanced", True): MultiLoggersBalancedDoublyRobust,
    ("weighted", True): MultiLoggersWeightedDoublyRobust,
}


def variance(xs):
    m = mean(xs)
    return mean((x - m) * (x - m) for x in xs)


def setup(ctx, kind, model, n, k, L, pos, est_ps, clip, strata=None):
    d = Log(ctx, n, k, L, q=model, pos=pos, est_pscore=True)
    kw = dict(d.kw())
    kw["pscore_avg"] = ctx.reals("pscore_avg", n, lo=0, hi=1, lo_open=True, nice=(0.1, 1))
    kw["estimated_pscore_avg"] = ctx.reals("est_pscore_avg", n, lo=0, hi=1, lo_open=True, nice=(0.1, 1))
    kw["stratum_idx"] = np.array(strata if strata is not None else [0] * n)
    names = {
        ("naive", False): "pscore",
        ("naive", True): "estimated_pscore",
        ("weighted", False): "pscore",
        ("weighted", True): "estimated_pscore",
        ("balanced", False): "pscore_avg",
        ("balanced", True): "estimated_pscore_avg",
    }
    ps = kw[names[kind, est_ps]]
    w = d.weights(ps)
    opts = dict(use_estimated_pscore=est_ps)
    if clip:
        lam = ctx.real("lam", lo=0, lo_open=True, nice=(0.1, 4))
        opts["lambda_"] = lam
        w = [smin(x, lam) for x in w]
    est = EST[kind, model](**opts)
    if model:
        qe, qf = d.q_expected(), d.q_factual()
    else:
        qe, qf = [0.0] * n, [0.0] * n
    res = [w[i] * (d.reward[i] - qf[i]) for i in range(n)]
    if kind == "weighted":
        st = list(kw["stratum_idx"])
        var = {}
        for s in sorted(set(st)):
            v = variance([qe[i] + res[i] for i in range(n) if st[i] == s])
            ctx.assume(v > 0)
            var[s] = v
        tot = total(float(st.count(s)) / var[s] for s in sorted(var))
        # the precision weights of the loggers
        lw = {s: n / (var[s] * tot) for s in var}
        res = [lw[st[i]] * res[i] for i in range(n)]
    z = [qe[i] + res[i] for i in range(n)]
    return est, kw, z


SIZES = [dict(n=2, k=2, L=2, pos="given"), dict(n=3, k=2, L=1, pos="none"), dict(n=2, k=3, L=1, pos="given")]


@harness(
    cases=[dict(**s, kind=kd, model=m, est_ps=e, clip=c) for s in SIZES for kd in ("naive", "balanced") for m in (False, True) for e in (False, True) for c in (False, True)],
    thorough=[dict(n=4, k=2, L=1, pos="none", kind=kd, model=m, est_ps=False, clip=True) for kd in ("naive", "balanced") for m in (False, True)], ints=[("reward",), ("reward", "pi", "pscore", "est_pscore")],
)
def naive_balanced(ctx, n, k, L, pos, kind, model, est_ps, clip):
    est, kw, z = setup(ctx, kind, model, n, k, L, pos, est_ps, clip)
    ctx.eq("value", est.estimate_policy_value(**kw), mean(z))


PATTERNS = [[0, 0, 1, 1], [5, 2, 5, 2], [1, 1, 1, 1], [3, 0, 0, 3]]


@harness(
    cases=[dict(model=m, est_ps=e, clip=c, strata=s) for m in (False, True) for e, c, s in ((False, False, 0), (True, False, 1), (False, False, 2), (False, True, 1), (False, False, 3))],
    thorough=[dict(model=m, est_ps=e, clip=c, strata=s) for m in (False, True) for e in (False, True) for c in (False, True) for s in (0, 3)], ints=[("reward",)],
)
def weighted(ctx, model, est_ps, clip, strata):
    est, kw, z = setup(ctx, "weighted", model, 4, 2, 1, "none", est_ps, clip, PATTERNS[strata])
    ctx.eq("value", est.estimate_policy_value(**kw), mean(z))


@harness(cases=product(kind=["naive", "balanced"], model=[False, True], est_ps=[False, True], pos=["given", "none"]), ints=[("reward",)])
def intervals(ctx, kind, model, est_ps, pos):
    est, kw, z = setup(ctx, kind, model, 2, 2, 1, pos, est_ps, True)
    res = est.estimate_interval(**kw, alpha=0.1, n_bootstrap_samples=1, random_state=5)
    check_interval(ctx, res, z, 1, 0.1)


@harness(cases=product(model=[False, True], est_ps=[False, True], pos=["given", "none"]), ints=[("reward",)])
def weighted_interval(ctx, model, est_ps, pos):
    n = 2
    est, kw, z = setup(ctx, "weighted", model, n, 2, 1, pos, est_ps, True, [4, 4])
    res = est.estimate_interval(**kw, alpha=0.1, n_bootstrap_samples=1, random_state=5)
    check_interval(ctx, res, z, 1, 0.1)


@harness(cases=product(model=[False, True]))
def one_logger(ctx, model):
    """With one logger, the three variants coincide (average propensity = propensity)."""
    n, k = 3, 2
    d = Log(ctx, n, k, 1, q=model, pos="none")
    kw = dict(d.kw(), pscore_avg=d.pscore, stratum_idx=np.zeros(n, dtype=int))
    a = EST["naive", model]().estimate_policy_value(**kw)
    ctx.eq("balanced", EST["balanced", model]().estimate_policy_value(**kw), a)
    w = d.weights()
    if model:
        qe, qf = d.q_expected(), d.q_factual()
        z = [qe[i] + w[i] * (d.reward[i] - qf[i]) for i in range(n)]
    else:
        z = [w[i] * d.reward[i] for i in range(n)]
    ctx.assume(variance(z) > 0)
    ctx.eq("weighted", EST["weighted", model]().estimate_policy_value(**kw), a)


@harness(cases=[dict(n=1030, k=3, L=2, pos="given"), dict(n=70, k=300, L=1, pos="none")], thorough=[dict(n=4200, k=2, L=1, pos="none")])
def wide(ctx, n, k, L, pos):
    """Large logs: arbitrary rewards, everything else fixed."""
    d = WideLog(ctx, n, k, L, pos, q=True)
    kw = dict(d.kw(), pscore_avg=d.pscore * 0.5 + 0.25, estimated_pscore_avg=d.est_pscore * 0.5 + 0.25, stratum_idx=np.arange(n) % 7)
    qe, qf, r = d.q_expected(), d.q_factual(), d.reward
    for kind, key in (("naive", "pscore"), ("balanced", "pscore_avg")):
        for est_ps in (False, True):
            w = [smin(x, 1.5) for x in d.weights(kw["estimated_" + key if est_ps else key])]
            for model in (False, True):
                est = EST[kind, model](lambda_=1.5, use_estimated_pscore=est_ps)
                z = [qe[i] + w[i] * (r[i] - qf[i]) if model else w[i] * r[i] for i in range(n)]
                ctx.eq(f"{kind} {model} {est_ps}", est.estimate_policy_value(**kw), total(z) / n)


@harness(cases=[dict(n=260, K=7, model=m) for m in (False, True)] + [dict(n=1030, K=130, model=m) for m in (False, True)])
def wide_weighted(ctx, n, K, model):
    """Many rounds and loggers: one arbitrary reward, everything else fixed."""
    d = WideLog(ctx, n, 3, 1, "none", q=True, sym="none")
    st = (np.arange(n) * 3) % K
    x = ctx.real("reward", nice=(-3, 3))
    r = [float(v) for v in d.reward]
    r[-1] = x
    kw = dict(d.kw(), reward=A.build(r) if ctx.sym else np.array(r), stratum_idx=st)
    qe, qf, w = d.q_expected(), d.q_factual(), d.weights()
    if not model:
        qe, qf = [0.0] * n, [0.0] * n
    res = [w[i] * (r[i] - qf[i]) for i in range(n)]
    var = {}
    for s in range(K):
        var[s] = variance([qe[i] + res[i] for i in range(n) if st[i] == s])
    tot = total(float((st == s).sum()) / var[s] for s in range(K))
    val = total(qe) / n + total(total(res[i] for i in range(n) if st[i] == s) / (var[s] * tot) for s in range(K))
    ctx.eq("value", EST["weighted", model]().estimate_policy_value(**kw), val)
