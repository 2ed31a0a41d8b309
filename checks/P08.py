"""P08: estimators for continuous actions."""
from symnp.api import *
from checks.common import check_interval
from obp.ope import (
    KernelizedDoublyRobust,
    KernelizedInverseProbabilityWeighting,
    KernelizedSelfNormalizedInverseProbabilityWeighting,
)

BOUNDS = "1-4 rounds; actions, rewards, densities, predictions and the bandwidth arbitrary reals; 1 bootstrap resample (and large logs of 1030 rounds with arbitrary rewards and the rest fixed)"
ASSUMPTIONS = ["exp and cos are uninterpreted functions with the axioms of symnp/core.py"]

EST = {
    "ipw": KernelizedInverseProbabilityWeighting,
    "snipw": KernelizedSelfNormalizedInverseProbabilityWeighting,
    "dr": KernelizedDoublyRobust,
}
KERNELS = ["gaussian", "epanechnikov", "triangular", "cosine"]


def kernel(name, u):
    if name == "gaussian":
        return np.exp(-(u * u) / 2.0) / np.sqrt(2.0 * np.pi)
    inside = (u > -1.0) & (u < 1.0)
    if name == "epanechnikov":
        return where(inside, 0.75 * (1.0 - u * u), 0.0)
    if name == "triangular":
        return where(inside, 1.0 - where(u >= 0, u, -u), 0.0)
    if not is_sym(u):
        return (np.pi / 4) * np.cos(np.pi * u / 2) if inside else 0.0
    # cos(pi/2 * clip(u)): zero outside by the value of cos at +-pi/2
    c = smin(smax(u, -1.0), 1.0)
    return (np.pi / 4) * np.cos(c * np.pi / 2)


def setup(ctx, kind, kern, n, far=None):
    b = ctx.reals("logged_action", n, nice=(-1, 1))
    e = ctx.reals("eval_action", n, nice=(-1, 1))
    r = ctx.reals("reward", n, nice=(-3, 3))
    p = ctx.reals("density", n, lo=0, lo_open=True, nice=(0.1, 2))
    h = ctx.real("bandwidth", lo=0, lo_open=True, nice=(0.3, 3))
    kw = dict(reward=r, action_by_behavior_policy=b, pscore=p, action_by_evaluation_policy=e)
    q = [0.0] * n
    if kind == "dr":
        q = ctx.reals("q", n, nice=(-2, 2))
        kw["estimated_rewards_by_reg_model"] = q
    w = [kernel(kern, (e[i] - b[i]) / h) / p[i] for i in range(n)]
    if kind == "snipw":
        ctx.assume(total(w) > 0)
        m = mean(w)
        z = [w[i] * r[i] / m for i in range(n)]
    else:
        z = [q[i] + w[i] * (r[i] - q[i]) / h for i in range(n)]
    return EST[kind](kernel=kern, bandwidth=h), kw, z


@harness(cases=product(kind=list(EST), kern=KERNELS, n=[1, 2, 3]), thorough=product(kind=list(EST), kern=KERNELS, n=[4]), ints=[("reward",), ("logged_action", "eval_action"), ("reward", "logged_action", "eval_action", "density", "q")])
def value(ctx, kind, kern, n):
    est, kw, z = setup(ctx, kind, kern, n)
    ctx.eq("value", est.estimate_policy_value(**kw), mean(z))


@harness(cases=product(kind=list(EST), kern=KERNELS), ints=[("reward",), ("logged_action", "eval_action"), ("reward", "logged_action", "eval_action", "density", "q")])
def interval(ctx, kind, kern):
    est, kw, z = setup(ctx, kind, kern, 2)
    res = est.estimate_interval(**kw, alpha=0.1, n_bootstrap_samples=1, random_state=5)
    check_interval(ctx, res, z, 1, 0.1)


@harness(cases=product(kern=KERNELS))
def kernels(ctx, kern):
    """Kernels are non-negative, symmetric and (but the Gaussian) vanish outside [-1, 1]."""
    from obp.ope.estimators_continuous import kernel_functions

    f = kernel_functions[kern]
    u = ctx.reals("u", 1, nice=(-2, 2))
    k1, k2 = f(u.copy())[0], f(-u)[0]
    ctx.eq("symmetric", k1, k2)
    if kern != "cosine":
        ctx.check("non-negative", k1 >= 0)
    if kern in ("epanechnikov", "triangular"):
        ctx.assume((u[0] > 1) | (u[0] < -1))
        ctx.eq("vanishes", k1, 0.0)


@harness(cases=product(kern=KERNELS))
def exact_model(ctx, kern):
    """Predictions that match the rewards make DR the average prediction; zero ones make it IPW."""
    n = 2
    est, kw, z = setup(ctx, "dr", kern, n)
    ctx.eq("q=r", est.estimate_policy_value(**dict(kw, estimated_rewards_by_reg_model=kw["reward"])), mean(kw["reward"]))
    ipw = EST["ipw"](kernel=kern, bandwidth=est.bandwidth).estimate_policy_value(**kw)
    ctx.eq("q=0", est.estimate_policy_value(**dict(kw, estimated_rewards_by_reg_model=kw["reward"] * 0.0)), ipw)


@harness(cases=product(kern=KERNELS))
def in_range(ctx, kern):
    """Self-normalized estimates stay in the range of the rewards."""
    n = 2
    est, kw, z = setup(ctx, "snipw", kern, n)
    if kern == "cosine":
        # cos is non-negative on [-pi/2, pi/2]
        u = [(kw["action_by_evaluation_policy"][i] - kw["action_by_behavior_policy"][i]) / est.bandwidth for i in range(n)]
        for x in u:
            ctx.assume(kernel(kern, x) >= 0)
    v = est.estimate_policy_value(**kw)
    r = kw["reward"]
    ctx.le("upper", v, smax(r[0], r[1]))
    ctx.le("lower", smin(r[0], r[1]), v)


@harness(cases=product(kern=KERNELS, n=[1030]), thorough=product(kern=KERNELS, n=[4200]))
def wide(ctx, kern, n):
    """Large logs: arbitrary rewards, everything else fixed."""
    i = np.arange(n)
    b, e = ((i * 7) % 31) / 16.0 - 1.0, ((i * 5) % 23) / 12.0 - 1.0
    p, q = ((i * 3) % 11 + 1) / 8.0, ((i * 13) % 17) / 8.0 - 1.0
    r = ctx.reals("reward", n, nice=(-3, 3))
    kw = dict(reward=r, action_by_behavior_policy=b, pscore=p, action_by_evaluation_policy=e, estimated_rewards_by_reg_model=q)
    w = [kernel(kern, (e[j] - b[j]) / 0.77) / p[j] for j in range(n)]
    for kind in EST:
        est = EST[kind](kernel=kern, bandwidth=0.77)
        if kind == "ipw":
            v = total(w[j] * r[j] for j in range(n)) / (0.77 * n)
        elif kind == "dr":
            v = total(q[j] + w[j] * (r[j] - q[j]) / 0.77 for j in range(n)) / n
        else:
            v = total(w[j] * r[j] for j in range(n)) / total(w)
        ctx.eq(kind, est.estimate_policy_value(**kw), v)
