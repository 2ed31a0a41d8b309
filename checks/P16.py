"""P16: synthetic discrete-action bandit data is what it says it is."""
from symnp.api import *
from symnp.stubs import truncmean
from checks.common import ctx_arr, flat, is_zero, softmax_of, stream
from obp.dataset import (
    SyntheticBanditDataset,
    linear_behavior_policy,
    linear_reward_function,
    logistic_polynomial_reward_function,
    logistic_reward_function,
    logistic_sparse_reward_function,
    polynomial_behavior_policy,
    polynomial_reward_function,
    sparse_reward_function,
)

BOUNDS = (
    "1-2 rounds, 2-3 actions, 1-2 context dimensions; contexts, expected rewards, logits, temperature, noise scale and "
    "every random number arbitrary reals; truncated normal means uninterpreted; plus batches of 1030 rounds or 150 actions with fixed policies and random numbers"
)
ASSUMPTIONS = ["exp is an uninterpreted positive monotone function with exp(a+b) = exp(a)exp(b)"]


def action_numbers(ctx, pi, act):
    """The actions are the ones their random numbers select."""
    us = [(x, c[4]) for c in ctx.calls if c[1] in ("uniform", "random") for x in flat(c[3])]
    us = us[-len(act):]
    ctx.check("one random number per round", len(us) == len(act))
    for i, a in enumerate(act):
        u = us[i][0]
        low = total(pi[i, b] for b in range(a)) if a else 0.0
        if not ctx.sym and min(abs(u - low), abs(u - low - pi[i, a])) < 1e-9:
            continue
        ctx.check("action drawn from the behaviour policy", [low <= u, u < low + pi[i, a]])
    return {n for _, n in us}


CASES = [
    dict(n=2, k=2, rt="binary", rf=True, bf=False, de=0),
    dict(n=1, k=3, rt="binary", rf=True, bf=True, de=0),
    dict(n=2, k=2, rt="binary", rf=False, bf=True, de=0),
    dict(n=1, k=2, rt="binary", rf=False, bf=False, de=0),
    dict(n=2, k=2, rt="binary", rf=True, bf=True, de=1),
    dict(n=1, k=3, rt="binary", rf=True, bf=False, de=1),
    dict(n=1, k=3, rt="binary", rf=True, bf=True, de=2),
    dict(n=2, k=2, rt="continuous", rf=True, bf=True, de=0),
    dict(n=1, k=2, rt="continuous", rf=True, bf=False, de=0),
    dict(n=1, k=2, rt="continuous", rf=False, bf=True, de=1),
]


@harness(cases=CASES, thorough=[dict(n=2, k=3, rt="binary", rf=True, bf=True, de=1), dict(n=2, k=3, rt="continuous", rf=True, bf=True, de=0)], ints=[("q",), ("logit",)])
def generate(ctx, n, k, rt, rf, bf, de):
    rr = dict(lo=0, hi=1) if rt == "binary" else dict(nice=(-2, 2))
    q = ctx.reals("q", (n, k), **rr)
    lg = ctx.reals("logit", (n, k), nice=(-2, 2))
    beta = ctx.real("beta", nice=(-2, 2))
    std = ctx.real("std", lo=0, lo_open=True, nice=(0.5, 2))
    ac = ctx.arr([[3.0 * a, 1.0] for a in range(k)])
    seen = {}

    def reward_fn(context, action_context, random_state=None):
        seen["rf"] = (context, action_context)
        return q.copy()

    def logit_fn(context, action_context, random_state=None):
        seen["bf"] = (context, action_context)
        return lg.copy()

    ds = SyntheticBanditDataset(
        n_actions=k, dim_context=2, reward_type=rt, reward_function=reward_fn if rf else None,
        behavior_policy_function=logit_fn if bf else None, beta=beta if ctx.sym else float(beta), reward_std=std if ctx.sym else float(std),
        n_deficient_actions=de, action_context=ac, random_state=7,
    )
    if not rf:
        free = flat(ds.expected_reward)
        ctx.check("one expected reward per action", len(free) == k)
        ctx.check("expected rewards are probabilities", [(x >= 0) & (x <= 1) for x in free])
        mean_ = [free] * n
    else:
        mean_ = [[q[i, a] for a in range(k)] for i in range(n)]
    fb = ds.obtain_batch_bandit_feedback(n_rounds=n)
    act = [int(a) for a in fb["action"]]
    ctx.check("sizes", [fb["n_rounds"] == n, fb["n_actions"] == k, np.shape(fb["context"]) == (n, 2), fb["position"] is None, len(act) == n])
    ctx.check("actions in range", [0 <= a < k for a in act])
    ctx.eq("action context", fb["action_context"], ac)
    for f in seen.values():
        ctx.eq("functions see the reported contexts", f[0], fb["context"])
        ctx.eq("functions see the action contexts", f[1], ac)
    # expected rewards
    if rt == "continuous":
        want_q = [[truncmean(ctx, (0.0 - m) / std, (1e10 - m) / std, m, std) for m in r] for r in mean_]
    else:
        want_q = mean_
    er = fb["expected_reward"]
    ctx.eq("expected reward", er, ctx_arr(ctx, want_q))
    # behaviour policy
    ctx.check("shape of the policy", np.shape(fb["pi_b"]) == (n, k, 1))
    pi = fb["pi_b"][:, :, 0]
    logits = [[lg[i, a] for a in range(k)] for i in range(n)] if bf else [[er[i, a] for a in range(k)] for i in range(n)]
    for i in range(n):
        sup = list(range(k))
        if de:
            sup = [a for a in range(k) if not is_zero(pi[i, a])]
            ctx.check("number of supported actions", len(sup) == k - de)
        p = softmax_of([beta * logits[i][a] for a in sup])
        for a in range(k):
            ctx.eq("behaviour policy", pi[i, a], p[sup.index(a)] if a in sup else 0.0)
    numbers = action_numbers(ctx, pi, act)
    ctx.eq("propensity", fb["pscore"], [pi[i, act[i]] for i in range(n)])
    # rewards
    rew = fb["reward"]
    kind = "binomial" if rt == "binary" else "truncnorm"
    draws = [c for c in ctx.calls if c[1] == kind]
    ctx.check("noise does not reuse the numbers that choose the actions", not stream(c[4] for c in draws) & stream(numbers | {c[4] for c in ctx.calls if np.shape(c[3]) == np.shape(fb["context"]) and "normal" in c[1]}))
    ctx.eq("rewards are drawn once", [x for c in draws for x in flat(c[3])], flat(rew))
    if rt == "binary":
        ps = [x for c in draws for x in flat(np.broadcast_to(A._to_obj(c[2][1]), np.shape(c[3])))]
        ctx.eq("reward probability", ps, [er[i, act[i]] for i in range(n)])
    else:
        ms = []
        for c in draws:
            args = [flat(np.broadcast_to(A._to_obj(x), np.shape(c[3]))) for x in c[2][:4]]
            ms += [truncmean(ctx, *v) for v in zip(*args)]
            for a, b, loc, sc in zip(*args):
                ctx.eq("rewards are non-negative", a * sc + loc, 0.0)
        ctx.eq("mean of the reward distribution", ms, [er[i, act[i]] for i in range(n)], tol=1e-5)


@harness(cases=[dict(n=1, k=2), dict(n=2, k=2), dict(n=2, k=3)], ints=[("q",), ("logit",)])
def ground_truth(ctx, n, k):
    q = ctx.reals("q", (n, k), nice=(-2, 2))
    pi = ctx.simplex("pi", (n, k))
    ds = SyntheticBanditDataset(n_actions=k, random_state=7)
    got = ds.calc_ground_truth_policy_value(expected_reward=q, action_dist=pi[:, :, np.newaxis])
    ctx.eq("policy value", got, mean(total(pi[i, a] * q[i, a] for a in range(k)) for i in range(n)))


@harness(cases=[dict(n=2, k=2), dict(n=1, k=3)])
def single_rewards(ctx, n, k):
    """Rewards sampled for given contexts and actions follow the expected reward."""
    q = ctx.reals("q", (n, k), lo=0, hi=1)
    ds = SyntheticBanditDataset(n_actions=k, reward_function=lambda context, action_context, random_state: q, random_state=7)
    act = ctx.ints("action", n, k)
    r = ds.sample_reward(context=ctx.arr(np.ones((n, 1))), action=act)
    draws = [c for c in ctx.calls if c[1] == "binomial"]
    ctx.eq("rewards", r, [x for c in draws for x in flat(c[3])])
    ctx.eq("probability", [x for c in draws for x in flat(np.broadcast_to(A._to_obj(c[2][1]), np.shape(c[3])))], [q[i, act[i]] for i in range(n)])
    ctx.check("binary", [(x == 0) | (x == 1) for x in flat(r)])


REWARD = {
    "linear": (linear_reward_function, 1, False, False),
    "polynomial": (polynomial_reward_function, 3, False, False),
    "sparse": (sparse_reward_function, 4, True, False),
    "logistic": (logistic_reward_function, 1, False, True),
    "logistic polynomial": (logistic_polynomial_reward_function, 3, False, True),
    "logistic sparse": (logistic_sparse_reward_function, 4, True, True),
}


def poly(row, degree):
    """All monomials up to the degree, lower degrees first."""
    import itertools

    return [prod([row[j] for j in c]) if c else 1.0 for d in range(degree + 1) for c in itertools.combinations_with_replacement(range(len(row)), d)]


@harness(
    cases=[dict(f="linear", n=2, z=False, drift=False), dict(f="logistic", n=2, z=False, drift=False), dict(f="polynomial", n=1, z=False, drift=False),
           dict(f="logistic polynomial", n=1, z=False, drift=False), dict(f="linear", n=2, z=True, drift=False), dict(f="linear", n=2, z=False, drift=True),
           dict(f="linear", n=1, z=False, drift=True), dict(f="polynomial", n=2, z=False, drift=True), dict(f="logistic", n=1, z=True, drift=False),
           dict(f="polynomial", n=2, z=True, drift=False)],
    thorough=[dict(f="logistic polynomial", n=2, z=True, drift=False), dict(f="linear", n=3, z=True, drift=False)],
)
def reward_functions(ctx, f, n, z, drift):
    """Additive effects of context, action and their interaction; standardised and scaled by the degree."""
    fn, degree, sparse, logistic = REWARD[f]
    k = 2
    X = [[0.5], [-1.5], [0.25]][:n]
    E = [[1.0], [2.0]]
    px, pe = [poly(r, degree) for r in X], [poly(r, degree) for r in E]
    dx, de = len(px[0]), len(pe[0])
    pre = (n,) if drift else ()
    cx = ctx.reals("cx", pre + (dx,), lo=-1, hi=1)
    ca = ctx.reals("ca", pre + (de,), lo=-1, hi=1)
    cxa = ctx.reals("cxa", pre + (dx, de), lo=-1, hi=1)
    if logistic:
        # the coefficients enter the exponential: all but three are fixed
        keep = (cx[-1], ca[-1], cxa[-1, -1])
        cx, ca = cx * 0.0 + 0.25, ca * 0.0 - 0.5
        cxa = cxa * 0.0 + 0.125
        cx[-1], ca[-1], cxa[-1, -1] = keep
    asked = []

    def coef(effective_dim_action_context, effective_dim_context, random_, n_rounds=None, **k):
        asked.append((effective_dim_action_context, effective_dim_context))
        return cx, ca, cxa

    got = fn(context=ctx.arr(X), action_context=ctx.arr(E), coef_function=coef, z_score=z, random_state=3)
    ctx.check("coefficients of the right size", asked == [(de, dx)])
    base = []
    for i in range(n):
        v, w, m = (cx[i], ca[i], cxa[i]) if drift else (cx, ca, cxa)
        for a in range(k):
            base.append(
                total(px[i][j] * v[j] for j in range(dx)) + total(pe[a][j] * w[j] for j in range(de))
                + total(px[i][j] * m[j, l] * pe[a][l] for j in range(dx) for l in range(de))
            )
    if z:
        mu = mean(base)
        var = mean((b - mu) * (b - mu) for b in base)
        ctx.assume(var > 0.01)
        base = [(b - mu) / np.sqrt(var) for b in base]
    base = [degree * b for b in base]
    if logistic:
        base = [1.0 / (1.0 + np.exp(-b)) for b in base]
    ctx.eq("expected reward", got, ctx_arr(ctx, [base[i * k:(i + 1) * k] for i in range(n)]))


@harness(cases=[dict(f="sparse", n=1), dict(f="logistic sparse", n=1)])
def sparse_functions(ctx, f, n):
    """Only a random 30% of the monomials matters."""
    fn, degree, sparse, logistic = REWARD[f]
    X, E = [[0.5]], [[1.0], [2.0]]
    px, pe = poly(X[0], degree), [poly(r, degree) for r in E]
    m = max(int(len(px) * 0.3), 1)
    cx, ca = ctx.reals("cx", m, lo=-1, hi=1), ctx.reals("ca", m, lo=-1, hi=1)
    cxa = ctx.reals("cxa", (m, m), lo=-1, hi=1)
    got = fn(context=ctx.arr(X), action_context=ctx.arr(E), coef_function=lambda **k: (cx, ca, cxa), z_score=False, random_state=3)
    idx = ctx.draws
    ctx.check("two selections", len(idx) == 2 * m)
    ix, ie = idx[:m], idx[m:]
    want = []
    for a in range(2):
        b = degree * (
            total(px[ix[j]] * cx[j] for j in range(m)) + total(pe[a][ie[j]] * ca[j] for j in range(m))
            + total(px[ix[j]] * cxa[j, l] * pe[a][ie[l]] for j in range(m) for l in range(m))
        )
        want.append(1.0 / (1.0 + np.exp(-b)) if logistic else b)
    ctx.eq("expected reward", got, ctx_arr(ctx, [want]))


@harness(cases=[dict(f="linear", n=2), dict(f="linear", n=1), dict(f="polynomial", n=1)], thorough=[dict(f="polynomial", n=2)])
def behaviour_logits(ctx, f, n):
    fn, degree = (linear_behavior_policy, 1) if f == "linear" else (polynomial_behavior_policy, 3)
    k = 2
    X = [[0.5], [-1.5]][:n]
    E = [[1.0], [2.0]]
    px, pe = [poly(r, degree) for r in X], [poly(r, degree) for r in E]
    dx, de = len(px[0]), len(pe[0])
    # a lookahead of the generator's stream: same seed, same calls
    got = ctx_try(ctx, fn, X, E)
    if got is None:
        return
    us = [c[3] for c in ctx.calls if c[1] == "uniform"]
    vals = [x for u in us for x in flat(u)]
    ctx.check("numbers drawn", len(vals) == de + dx * de)
    ca, cxa = vals[:de], vals[de:]
    base = [
        total(px[i][j] * cxa[j * de + l] * pe[a][l] for j in range(dx) for l in range(de)) + total(ca[l] * pe[a][l] for l in range(de))
        for i in range(n) for a in range(k)
    ]
    mu = mean(base)
    var = mean((b - mu) * (b - mu) for b in base)
    ctx.assume(var > 0.01)
    want = [degree * (b - mu) / np.sqrt(var) for b in base]
    ctx.eq("logits", flat(got), want)


def ctx_try(ctx, fn, X, E):
    return fn(context=ctx.arr(X), action_context=ctx.arr(E), random_state=3)


@harness(cases=[dict(de=0), dict(de=1)])
def reproducible(ctx, de):
    """Equal seeds give equal data, and the data stays the same for the same call sequence."""
    out = []
    for _ in range(2):
        ds = SyntheticBanditDataset(n_actions=2, dim_context=1, n_deficient_actions=de, random_state=7)
        out.append(ds.obtain_batch_bandit_feedback(n_rounds=1))
    for key in ("context", "reward", "expected_reward", "pi_b", "pscore"):
        ctx.eq(key, out[0][key], out[1][key])
    ctx.check("action", [int(a) for a in out[0]["action"]] == [int(a) for a in out[1]["action"]])


@harness(cases=[dict(n=130, k=150, rt="binary"), dict(n=1030, k=3, rt="binary"), dict(n=20, k=140, rt="continuous")])
def large_batches(ctx, n, k, rt):
    """Many rounds or actions: fixed policies and random numbers, expected rewards up to an arbitrary factor."""
    ctx.fixed_draws = "fine"
    s = ctx.real("scale", lo=0.1, hi=1)
    i, a = np.arange(n)[:, None], np.arange(k)[None, :]
    base = ((i * 5 + a * 3) % 17 + 1.0) / 18.0
    lg = ((i * 7 + a * 11) % 13) / 4.0
    q = ctx.arr(base) * s
    ds = SyntheticBanditDataset(
        n_actions=k, dim_context=2, reward_type=rt, reward_function=lambda context, action_context, random_state=None: q.copy(),
        behavior_policy_function=lambda context, action_context, random_state=None: ctx.arr(lg), beta=1.5, action_context=ctx.arr(np.ones((k, 1))), random_state=7,
    )
    fb = ds.obtain_batch_bandit_feedback(n_rounds=n)
    pi = np.asarray(fb["pi_b"][:, :, 0], dtype=float)
    e = np.exp(1.5 * lg)
    e = e / e.sum(1, keepdims=True)
    ctx.check("behaviour policy", np.shape(fb["pi_b"]) == (n, k, 1) and bool(np.allclose(pi, e, rtol=1e-9, atol=0)))
    act = [int(x) for x in fb["action"]]
    us = [x for c in ctx.calls if c[1] in ("uniform", "random") for x in flat(c[3])][-n:]
    cum = np.cumsum(e, axis=1)
    ok = len(us) == n and len(act) == n
    ctx.check("one random number per round", ok)
    if not ok:
        return
    ctx.check("actions drawn from the behaviour policy", all(0 <= act[j] < k and cum[j, act[j]] - e[j, act[j]] - 1e-9 <= us[j] <= cum[j, act[j]] + 1e-9 for j in range(n)))
    ctx.check("propensity", bool(np.allclose(np.asarray(fb["pscore"], dtype=float), [e[j, act[j]] for j in range(n)], rtol=1e-9, atol=0)))
    if rt == "binary":
        ctx.eq("expected reward", fb["expected_reward"], q)
        draws = [c for c in ctx.calls if c[1] == "binomial"]
        ctx.eq("rewards are drawn once", [x for c in draws for x in flat(c[3])], flat(fb["reward"]))
        ps = [x for c in draws for x in flat(np.broadcast_to(A._to_obj(c[2][1]), np.shape(c[3])))]
        ctx.eq("reward probability", ps, [q[j, act[j]] for j in range(n)])
    v = ds.calc_ground_truth_policy_value(expected_reward=q, action_dist=ctx.arr(e[:, :, None]))
    ctx.eq("policy value", v, s * float(np.mean((base * e).sum(1))))
