"""P19: synthetic continuous-action bandit data is what it says it is."""
from symnp.api import *
from symnp.stubs import truncpdf
from checks.common import ctx_arr, flat, stream
from obp.dataset import (
    SyntheticContinuousBanditDataset,
    linear_behavior_policy_continuous,
    linear_reward_funcion_continuous,
    linear_synthetic_policy_continuous,
    quadratic_reward_funcion_continuous,
    threshold_synthetic_policy_continuous,
)

BOUNDS = (
    "1-3 rounds, 1-3 context dimensions; contexts, expected actions, expected rewards, bounds, noise scales and every "
    "random number arbitrary reals"
)
ASSUMPTIONS = ["the density of the truncated normal and real powers are uninterpreted functions of their arguments"]
INF = float("inf")


def expand(x, shp):
    return flat(np.broadcast_to(A._to_obj(x), shp))


@harness(cases=product(n=[1, 2], lim=["both", "none", "low", "high"], rf=[True]) + [dict(n=2, lim="both", rf=False)], thorough=[dict(n=3, lim="both", rf=True)])
def gaussian_behaviour(ctx, n, lim, rf):
    m = ctx.reals("m", n, nice=(-2, 2))
    q = ctx.reals("q", n, nice=(-2, 2))
    an = ctx.real("an", lo=0, lo_open=True, nice=(0.5, 2))
    rn = ctx.real("rn", lo=0, lo_open=True, nice=(0.5, 2))
    lo = ctx.real("lo", nice=(-3, -1)) if lim in ("both", "low") else -INF
    hi = ctx.real("hi", nice=(1, 3)) if lim in ("both", "high") else INF
    if lim == "both":
        ctx.assume(lo < hi)
    seen = {}

    def rfun(context, action, random_state=None):
        seen["rf"] = (context, action)
        return q.copy()

    def bfun(context, random_state=None):
        seen["bf"] = context
        return m.copy()

    ds = SyntheticContinuousBanditDataset(
        dim_context=2, action_noise=an, reward_noise=rn, min_action_value=lo, max_action_value=hi,
        reward_function=rfun if rf else None, behavior_policy_function=bfun, random_state=3,
    )
    fb = ds.obtain_batch_bandit_feedback(n_rounds=n)
    common(ctx, fb, n, seen)
    draws = [c for c in ctx.calls if c[1] == "truncnorm"]
    ctx.eq("actions are drawn once", [x for c in draws for x in flat(c[3])], flat(fb["action"]))
    P = [v for c in draws for v in zip(*[expand(x, np.shape(c[3])) for x in c[2][:4]])]
    ctx.check("one distribution per action", len(P) == n)
    for i, (a, b, loc, sc) in enumerate(P):
        ctx.eq("action centre", loc, m[i])
        ctx.eq("action scale", sc, an)
        for end, got in ((lo, a), (hi, b)):
            if not is_sym(end) and abs(end) == INF:
                ctx.check("no bound", got == end)
            else:
                ctx.eq("action bounds", got * sc + loc, end)
        ctx.eq("propensity is the density of the action", fb["pscore"][i], truncpdf(fb["action"][i], a, b, loc, sc))
        if lim in ("both", "low"):
            ctx.check("above the minimum", fb["action"][i] >= lo)
        if lim in ("both", "high"):
            ctx.check("below the maximum", fb["action"][i] <= hi)
    rewards(ctx, ds, fb, n, q if rf else None, rn, {c[4] for c in draws})


def common(ctx, fb, n, seen):
    ctx.check("sizes", [fb["n_rounds"] == n, np.shape(fb["context"]) == (n, 2), np.shape(fb["action"]) == (n,), np.shape(fb["pscore"]) == (n,), np.shape(fb["reward"]) == (n,), fb["position"] is None])
    if "bf" in seen:
        ctx.eq("the policy sees the reported contexts", seen["bf"], fb["context"])
    if "rf" in seen:
        ctx.eq("the reward function sees the reported contexts", seen["rf"][0], fb["context"])
        ctx.eq("the reward function sees the reported actions", seen["rf"][1], fb["action"])
    xs = [x for c in ctx.calls if c[1] in ("normal", "standard_normal", "randn") and np.shape(c[3]) == (n, 2) for x in flat(c[3])]
    ctx.eq("contexts are standard normal numbers", flat(fb["context"]), xs[: 2 * n])


def rewards(ctx, ds, fb, n, q, rn, used):
    if q is None:
        q = ctx_arr(ctx, [free(ctx, fb["action"][i]) for i in range(n)])
    ctx.eq("expected reward", fb["expected_reward"], q)
    noise = [c for c in ctx.calls if c[1] in ("normal", "standard_normal", "randn")]
    ctx.check("noise does not reuse the numbers that choose the actions", not stream([noise[-1][4]]) & stream(used | {c[4] for c in noise[:-1]}))
    z = flat(noise[-1][3])
    ctx.check("one noise term per round", len(z) == n)
    kind, args = noise[-1][1], noise[-1][2]
    for i in range(n):
        loc, sc = (expand(args[0], (n,))[i], expand(args[1], (n,))[i]) if kind == "normal" else (0.0, 1.0)
        d = fb["reward"][i] - fb["expected_reward"][i]
        ctx.eq("reward is the expected reward plus scaled noise", d * sc, (z[i] - loc) * rn)


def free(ctx, a):
    b = smax(a, 0.0 - a)
    r = b ** 0.5 if ctx.sym else float(b) ** 0.5
    return 2 * b * r - 5 * a


@harness(cases=product(n=[1, 2], rf=[True, False]))
def uniform_behaviour(ctx, n, rf):
    q = ctx.reals("q", n, nice=(-2, 2))
    rn = ctx.real("rn", lo=0, lo_open=True, nice=(0.5, 2))
    lo = ctx.real("lo", nice=(-3, -1))
    hi = ctx.real("hi", nice=(1, 3))
    ctx.assume(lo < hi)
    ds = SyntheticContinuousBanditDataset(
        dim_context=2, reward_noise=rn, min_action_value=lo, max_action_value=hi,
        reward_function=(lambda context, action, random_state=None: q.copy()) if rf else None, random_state=3,
    )
    fb = ds.obtain_batch_bandit_feedback(n_rounds=n)
    common(ctx, fb, n, {})
    us = [c for c in ctx.calls if c[1] in ("scipy-uniform", "uniform", "random")]
    ctx.eq("actions are drawn once", [x for c in us for x in flat(c[3])], flat(fb["action"]))
    for i in range(n):
        ctx.check("within the bounds", [fb["action"][i] >= lo, fb["action"][i] <= hi])
        ctx.eq("density", fb["pscore"][i] * (hi - lo), 1.0)
    rewards(ctx, ds, fb, n, q if rf else None, rn, {c[4] for c in us})


@harness(cases=product(n=[1, 2, 3], rf=[True, False]))
def ground_truth(ctx, n, rf):
    q = ctx.reals("q", n, nice=(-2, 2))
    x = ctx.reals("x", (n, 2), nice=(-2, 2))
    a = ctx.reals("a", n, nice=(-2, 2))
    seen = {}

    def rfun(context, action, random_state=None):
        seen["rf"] = (context, action)
        return q.copy()

    ds = SyntheticContinuousBanditDataset(dim_context=2, min_action_value=-1.0, max_action_value=1.0, reward_function=rfun if rf else None, random_state=3)
    got = ds.calc_ground_truth_policy_value(context=x, action=a)
    if rf:
        ctx.eq("contexts", seen["rf"][0], x)
        ctx.eq("actions", seen["rf"][1], a)
    ctx.eq("policy value", got, mean(q[i] if rf else free(ctx, a[i]) for i in range(n)))


@harness(cases=product(bad=["dim", "rows", "ndim", "action ndim"]))
def ground_truth_refused(ctx, bad):
    x = ctx.reals("x", (2, 2), nice=(-2, 2))
    a = ctx.reals("a", 2, nice=(-2, 2))
    ds = SyntheticContinuousBanditDataset(dim_context=2, min_action_value=-1.0, max_action_value=1.0, random_state=3)
    if bad == "dim":
        x = x[:, :1]
    elif bad == "rows":
        a = a[:1]
    elif bad == "ndim":
        x = x[:, 0]
    else:
        a = a[:, np.newaxis]
    ctx.raises("refused", lambda: ds.calc_ground_truth_policy_value(context=x, action=a))


def coefs(ctx):
    return [flat(c[3]) for c in ctx.calls]


@harness(cases=product(f=["linear", "quadratic"], n=[1, 2], d=[1, 2]), thorough=product(f=["linear", "quadratic"], n=[3], d=[3]))
def reward_functions(ctx, f, n, d):
    x = ctx.reals("x", (n, d), nice=(-2, 2))
    a = ctx.reals("a", n, nice=(-2, 2))
    fn = linear_reward_funcion_continuous if f == "linear" else quadratic_reward_funcion_continuous
    got = fn(context=x, action=a, random_state=5)
    ctx.check("shape", np.shape(got) == (n,))
    C = coefs(ctx)
    dot = lambda i, c: total(x[i, j] * c[j] for j in range(d))
    if f == "linear":
        num = [v for v in C]
        w = num[0]
        rest = [v for c in num[1:] for v in c]
        pw, bias = rest[0], rest[1]
        for i in range(n):
            dist = dot(i, w) - a[i]
            dist = smax(dist, 0.0 - dist)
            ctx.eq("expected reward", got[i], dist**pw + bias)
    else:
        cx, cxa, cxaa = C[0], C[1], C[2]
        ca = C[3][0]
        for i in range(n):
            ctx.eq("expected reward", got[i], ca * a[i] * dot(i, cx) + dot(i, cxa) * a[i] + (a[i] - dot(i, cxaa)) ** 2)
    for bad in (dict(context=x[:, 0], action=a), dict(context=x, action=np.concatenate([a, a])), dict(context=x, action=a[:, np.newaxis])):
        ctx.raises("refused", lambda: fn(random_state=5, **bad))


@harness(cases=product(n=[1, 2], d=[1, 2]))
def policies(ctx, n, d):
    x = ctx.reals("x", (n, d), nice=(-2, 2))
    got = linear_behavior_policy_continuous(context=x, random_state=5)
    C = coefs(ctx)
    ctx.eq("linear behaviour policy", got, [total(x[i, j] * C[0][j] for j in range(d)) + C[1][0] for i in range(n)])
    ctx.eq("linear evaluation policy", linear_synthetic_policy_continuous(context=x), [mean(x[i, j] for j in range(d)) for i in range(n)])
    t = threshold_synthetic_policy_continuous(context=x)
    for i in range(n):
        m = mean(x[i, j] for j in range(d))
        if not ctx.sym and abs(m - 1.5) < 1e-9:
            continue
        ctx.eq("threshold policy", t[i], where(m > 1.5, 2.0, where(m < 1.5, 0.0, 1.0)))


@harness(cases=product(bad=["min", "noise", "reward noise", "dim", "seed", "rounds"]))
def refused(ctx, bad):
    lo = ctx.real("lo", nice=(-3, 3))
    hi = ctx.real("hi", nice=(-3, 3))
    v = ctx.real("v", hi=0, hi_open=True, nice=(-2, -0.5))
    kw = dict(dim_context=2, min_action_value=-1.0, max_action_value=1.0, random_state=3)
    n = 1
    if bad == "min":
        ctx.assume(hi <= lo)
        kw.update(min_action_value=lo, max_action_value=hi)
    elif bad == "noise":
        kw.update(action_noise=v)
    elif bad == "reward noise":
        kw.update(reward_noise=v)
    elif bad == "dim":
        kw.update(dim_context=0)
    elif bad == "seed":
        kw.update(random_state=None)
    else:
        n = 0
    ctx.raises("refused", lambda: SyntheticContinuousBanditDataset(**kw).obtain_batch_bandit_feedback(n_rounds=n))


@harness(cases=[dict(bf=True), dict(bf=False)])
def reproducible(ctx, bf):
    def make():
        return SyntheticContinuousBanditDataset(
            dim_context=1, min_action_value=-1.0, max_action_value=1.0, random_state=3,
            behavior_policy_function=linear_behavior_policy_continuous if bf else None,
        ).obtain_batch_bandit_feedback(n_rounds=1)

    a, b = make(), make()
    for k in ("context", "action", "reward", "pscore"):
        ctx.eq(k, a[k], b[k])
