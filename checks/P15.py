"""P15: sampling and probability utilities."""
from symnp.api import *
from obp.utils import convert_to_action_dist, sample_action_fast, sigmoid, softmax

BOUNDS = "1-3 rounds, 2-4 actions, 1-3 positions; distributions, scores and the random numbers arbitrary reals (exp with its algebraic laws and monotonicity), plus scores of any size with the range of exp in double precision (zero below -746, overflow above 710), plus hundreds of actions or 1000 rounds with fixed policies"
ASSUMPTIONS = ["exp is an uninterpreted positive monotone function with exp(a+b) = exp(a)exp(b)"]


@harness(cases=[dict(n=1, k=2), dict(n=1, k=3), dict(n=2, k=2), dict(n=2, k=3)], thorough=[dict(n=1, k=5), dict(n=3, k=2)])
def sampling(ctx, n, k):
    """Action a is drawn exactly for random numbers in the a-th interval of length pi(a)."""
    pi = ctx.simplex("pi", (n, k))
    got = sample_action_fast(pi, random_state=4)
    us = [c for c in ctx.calls if c[1] in ("uniform", "random")]
    ctx.check("one random number per round", total([np.size(A._to_obj(c[3])) for c in us]) == n)
    u = [x for c in us for x in np.ravel(A._to_obj(c[3]))]
    ctx.check("shape", np.shape(got) == (n,))
    for i in range(n):
        a = int(got[i])
        ctx.check("in range", 0 <= a < k)
        low = total(pi[i, b] for b in range(a)) if a else 0.0
        if not ctx.sym and min(abs(u[i] - low), abs(u[i] - low - pi[i, a])) < 1e-9:
            continue
        ctx.check("lower end", low <= u[i])
        ctx.check("upper end", u[i] < low + pi[i, a])


@harness(cases=[dict(n=1, k=2), dict(n=2, k=2)])
def sampling_reproducible(ctx, n, k):
    pi = ctx.simplex("pi", (n, k))
    a, b = sample_action_fast(pi, random_state=4), sample_action_fast(pi, random_state=4)
    ctx.check("equal seeds, equal draws", [int(x) for x in a] == [int(x) for x in b])


@harness(cases=[dict(n=1, k=2), dict(n=1, k=3), dict(n=2, k=2)], thorough=[dict(n=2, k=3), dict(n=1, k=4)])
def softmax_(ctx, n, k):
    x = ctx.reals("x", (n, k), nice=(-3, 3))
    p = softmax(x)
    ctx.check("shape", np.shape(p) == (n, k))
    for i in range(n):
        ctx.eq("sums to one", total(p[i]), 1.0)
        e = [np.exp(x[i, a]) for a in range(k)]
        for a in range(k):
            ctx.check("positive", p[i, a] > 0)
            ctx.eq("definition", p[i, a], e[a] / total(e))
        for a in range(k):
            for b in range(k):
                if a != b:
                    ctx.check("order", (x[i, a] < x[i, b]) | (p[i, a] >= p[i, b]))


@harness(cases=[dict(k=2)])
def softmax_shift(ctx, k):
    x = ctx.reals("x", (1, k), nice=(-3, 3))
    c = ctx.real("c", nice=(-3, 3))
    ctx.eq("shift invariant", softmax(x + c), softmax(x))


@harness(cases=[dict(rows=[[1000.0, 0.0], [-1000.0, 1000.0]]), dict(rows=[[-2000.0, -2000.0, -2001.0]]), dict(rows=[[800.0, 800.0]])])
def extreme_scores(ctx, rows):
    """No overflow for large scores."""
    x = ctx.arr(rows)
    p = softmax(x)
    for i, r in enumerate(rows):
        e = [np.exp(v - max(r)) for v in r]
        ctx.eq("softmax", [p[i, a] for a in range(len(r))], [v / sum(e) for v in e])
    s = sigmoid(x)
    for i, r in enumerate(rows):
        for a, v in enumerate(r):
            ctx.eq("sigmoid", s[i, a], 0.5 if v == 0 else (1.0 if v > 0 else 0.0))


@harness(cases=[{}])
def sigmoid_(ctx):
    x = ctx.reals("x", 2, nice=(-3, 3))
    s = sigmoid(x)
    for i in range(2):
        ctx.eq("definition", s[i], 1.0 / (1.0 + np.exp(-x[i])))
        ctx.check("in the unit interval", (s[i] > 0) & (s[i] < 1))
    ctx.eq("symmetry", sigmoid(-x), 1.0 - s)
    ctx.check("monotone", (x[0] > x[1]) | (s[0] <= s[1]))


@harness(cases=[dict(n=1, k=2, L=1), dict(n=2, k=3, L=2), dict(n=3, k=2, L=1), dict(n=1, k=3, L=3)])
def one_hot(ctx, n, k, L):
    """The distribution puts probability one on the selected action of each round and position."""
    sel = ctx.ints("selected", (n, L), k)
    d = convert_to_action_dist(n_actions=k, selected_actions=sel)
    ctx.check("shape", np.shape(d) == (n, k, L))
    want = [[[1.0 if sel[i, l] == a else 0.0 for l in range(L)] for a in range(k)] for i in range(n)]
    ctx.eq("distribution", d, ctx.arr(want))


@harness(cases=[dict(n=1, k=2), dict(n=2, k=2), dict(n=1, k=3)], thorough=[dict(n=2, k=3)])
def any_scale(ctx, n, k):
    """Scores of any size, with exp limited to the range of doubles, give a distribution (no nan)."""
    x = ctx.reals("x", (n, k), lo=-2000, hi=2000)
    if ctx.sym:
        ctx.path.double_range = True
    with np.errstate(all="ignore"):
        p = softmax(x)
    ctx.check("shape", np.shape(p) == (n, k))
    for i in range(n):
        q = [p[i, a] for a in range(k)]
        for a in range(k):
            ok = is_sym(q[a]) or bool(np.isfinite(float(q[a])))
            ctx.check("a number", ok)
            if not ok:
                return
            ctx.check("not negative", q[a] >= 0)
        ctx.eq("sums to one", total(q), 1.0)
        for a in range(k):
            for b in range(k):
                if a != b:
                    ctx.check("order", (x[i, a] < x[i, b]) | (q[a] >= q[b] - (0 if ctx.sym else 1e-12)))


@harness(cases=[{}])
def sigmoid_any_scale(ctx):
    x = ctx.reals("x", 1, lo=-2000, hi=2000)
    if ctx.sym:
        ctx.path.double_range = True
    with np.errstate(all="ignore"):
        s, t = sigmoid(x), sigmoid(-x)
    for v in (s[0], t[0]):
        ok = is_sym(v) or bool(np.isfinite(float(v)))
        ctx.check("a number", ok)
        if not ok:
            return
        ctx.check("in the unit interval", (v >= 0) & (v <= 1))
    ctx.eq("symmetry", s[0] + t[0], 1.0)


@harness(cases=[dict(k=140)], thorough=[dict(k=280)])
def many_actions(ctx, k):
    """A large set of actions of which only some are possible: the random number selects by the intervals."""
    pi = np.zeros((1, k))
    pi[0, [2, 9, k - 3, k - 1]] = [0.25, 0.125, 0.5, 0.125]
    got = sample_action_fast(ctx.arr(pi), random_state=4)
    us = [x for c in ctx.calls if c[1] in ("uniform", "random") for x in np.ravel(A._to_obj(c[3]))]
    ctx.check("one random number", len(us) == 1)
    a, cum = int(got[0]), np.concatenate([[0.0], np.cumsum(pi[0])])
    ctx.check("lower end", cum[a] - 1e-9 <= us[0])
    ctx.check("upper end", us[0] <= cum[a + 1] + 1e-9)


@harness(cases=[dict(n=700, k=3), dict(n=20, k=40)])
def many_rounds(ctx, n, k):
    """Large tables of scores and selections; the last round's first score is arbitrary."""
    x = ctx.real("x", nice=(-3, 3))
    base = ((np.arange(n)[:, None] * 5 + np.arange(k)[None, :] * 7) % 17) / 8.0
    sc = base.astype(object)
    sc[-1, 0] = x
    p = softmax(A.sa(sc) if ctx.sym else sc.astype(float))
    ctx.check("shape", np.shape(p) == (n, k))
    e = np.exp(base)
    ctx.eq("definition", np.ravel(p[:-1]), np.ravel(e[:-1] / e[:-1].sum(axis=1, keepdims=True)))
    rest = float(e[-1, 1:].sum())
    ctx.eq("last round", p[-1, 0], np.exp(x) / (np.exp(x) + rest))
    k = 300
    sel = np.stack([(np.arange(n) * 7) % k, k - 1 - (np.arange(n) * 3) % k], axis=1)
    want = np.zeros((n, k, 2))
    for i in range(n):
        for l in range(2):
            want[i, sel[i, l], l] = 1.0
    ctx.eq("selections", convert_to_action_dist(n_actions=k, selected_actions=sel), want)
