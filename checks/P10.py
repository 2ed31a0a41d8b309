"""P10: marginalized importance weighting over action embeddings."""
import itertools

from scipy import stats

from symnp.api import *
from symnp.models import make_model
from checks.common import check_interval
from obp.ope import (
    MarginalizedInverseProbabilityWeighting as MIPW,
    SelfNormalizedMarginalizedInverseProbabilityWeighting as SNMIPW,
)

BOUNDS = (
    "2-3 rounds, 2-3 actions, 1-2 positions, 1-3 embedding dimensions with 2 categories; rewards, policies, embedding "
    "distributions and estimated action probabilities arbitrary reals; for the embedding selection fixed weights and arbitrary rewards (and large logs of hundreds of rounds, actions or categories with arbitrary rewards and the rest fixed)"
)
CLS = {False: MIPW, True: SNMIPW}


def policy(ctx, name, n, k, L, positive):
    return np.swapaxes(ctx.simplex(name, (n, L, k), positive=positive), 1, 2).copy()


def setup(ctx, n, k, L, D, pos):
    r = ctx.reals("reward", n, nice=(-3, 3))
    pos_ = ctx.ints("position", n, L) if pos else None
    posn = pos_ if pos else [0] * n
    pi_b = policy(ctx, "pi_b", n, k, L, True)
    pi_e = policy(ctx, "pi_e", n, k, L, False)
    emb = ctx.ints("embed", (n, D), 2)
    return r, pos_, posn, pi_b, pi_e, emb


def model(ctx, sn=False):
    return make_model(ctx, "classifier", "pi_hat")


def true_weights(pi_b, pi_e, posn, p, emb, dims):
    n, k = pi_b.shape[:2]
    w = []
    for i in range(n):
        pe = [prod(p[a, emb[i, d], d] for d in dims) for a in range(k)]
        num = total(pi_e[i, a, posn[i]] * pe[a] for a in range(k))
        den = total(pi_b[i, a, posn[i]] * pe[a] for a in range(k))
        w.append(num / den)
    return w


def contributions(w, r, sn):
    if not sn:
        return [w[i] * r[i] for i in range(len(r))]
    m = mean(w)
    return [w[i] * r[i] / m for i in range(len(r))]


@harness(
    cases=product(n=[2], k=[2], L=[1], D=[1, 2], pos=[False], sn=[False, True])
    + product(n=[1], k=[3], L=[1], D=[2], pos=[True], sn=[False, True])
    + product(n=[2], k=[2], L=[2], D=[1], pos=[True], sn=[False]),
    thorough=product(n=[2], k=[3], L=[1], D=[2], pos=[False], sn=[False]) + product(n=[3], k=[2], L=[1], D=[2], pos=[False], sn=[False]), ints=[("reward",), ("reward", "pi_e")],
)
def true_marginal_weights(ctx, n, k, L, D, pos, sn):
    r, pos_, posn, pi_b, pi_e, emb = setup(ctx, n, k, L, D, pos)
    act = ctx.arr([0] * n).astype(int)
    p = np.swapaxes(ctx.simplex("p_e_a", (k, D, 2), positive=True), 1, 2).copy()
    w = true_weights(pi_b, pi_e, posn, p, emb, range(D))
    ctx.assume(total(w) > 0)
    Mo = model(ctx)
    est = CLS[sn](n_actions=k, pi_a_x_e_estimator=Mo())
    got = est.estimate_policy_value(
        reward=r, action=act, action_embed=emb, pi_b=pi_b, action_dist=pi_e, p_e_a=p, position=pos_
    )
    ctx.check("no model is needed", len(Mo.fits) == 0)
    ctx.eq("value", got, mean(contributions(w, r, sn)))


@harness(cases=product(n=[2], k=[2], sn=[False, True]), ints=[("reward",), ("reward", "pi_e")])
def interval(ctx, n, k, sn):
    r, pos_, posn, pi_b, pi_e, emb = setup(ctx, n, k, 1, 1, False)
    act = ctx.arr([0] * n).astype(int)
    p = np.swapaxes(ctx.simplex("p_e_a", (k, 1, 2), positive=True), 1, 2).copy()
    w = true_weights(pi_b, pi_e, posn, p, emb, range(1))
    ctx.assume(total(w) > 0)
    est = CLS[sn](n_actions=k, pi_a_x_e_estimator=model(ctx)())
    res = est.estimate_interval(
        reward=r, action=act, action_embed=emb, pi_b=pi_b, action_dist=pi_e, p_e_a=p, position=pos_,
        alpha=0.2, n_bootstrap_samples=1, random_state=5,
    )
    check_interval(ctx, res, contributions(w, r, sn), 1, 0.2)


def one_hot(emb, dims):
    """One-hot code of the selected columns without each column's first category."""
    n = emb.shape[0]
    cols = []
    for d in dims:
        cats = sorted({int(emb[i, d]) for i in range(n)})
        cols += [[1.0 if emb[i, d] == c else 0.0 for i in range(n)] for c in cats[1:]]
    return [tuple(c[i] for c in cols) for i in range(n)]


@harness(
    cases=product(n=[2], k=[2, 3], L=[1], D=[1, 2], sn=[False, True]) + [dict(n=2, k=2, L=2, D=1, sn=False)],
    thorough=[dict(n=3, k=2, L=1, D=1, sn=False), dict(n=3, k=2, L=2, D=1, sn=False)], ints=[("reward",), ("reward", "pi_e")],
)
def learned_weights(ctx, n, k, L, D, sn):
    """The weight averages pi_e/pi_b over the estimated action distribution given context and embedding."""
    r, pos_, posn, pi_b, pi_e, emb = setup(ctx, n, k, L, D, L > 1)
    act = ctx.ints("action", n, k)
    cont = [10.0 + i for i in range(n)]
    Mo = model(ctx)
    est = CLS[sn](n_actions=k, pi_a_x_e_estimator=Mo())
    oh = one_hot(emb, range(D))
    feats = [(cont[i],) + oh[i] for i in range(n)]
    seen = sorted({int(a) for a in act})
    w = []
    for i in range(n):
        ph = Mo.proba(0, feats[i], len(seen))
        w.append(total(ph[j] * pi_e[i, a, posn[i]] / pi_b[i, a, posn[i]] for j, a in enumerate(seen)))
    ctx.assume(total(w) > 0)
    got = est.estimate_policy_value(
        reward=r, action=act, action_embed=emb, pi_b=pi_b, action_dist=pi_e, position=pos_,
        context=ctx.arr([[c] for c in cont]),
    )
    ctx.check("one model", len(Mo.fits) == 1)
    ctx.check("trained on context and embedding", Mo.fits[0].X == feats)
    ctx.check("trained to predict the logged action", [int(a) for a in Mo.fits[0].y] == [int(a) for a in act])
    ctx.eq("value", got, mean(contributions(w, r, sn)))


@harness(cases=product(sn=[False, True]))
def unsupported_actions(ctx, sn):
    """Actions the logging policy never takes contribute no weight."""
    n, k = 2, 3
    r = ctx.reals("reward", n, nice=(-3, 3))
    pe = ctx.simplex("pi_e", (n, k))
    pb = ctx.simplex("pi_b", (n, 2), positive=True)
    pi_b = ctx.arr([[[pb[i, 0]], [0.0], [pb[i, 1]]] for i in range(n)])
    if ctx.sym:
        pi_b = build_arr([[[pb[i, 0]], [0.0], [pb[i, 1]]] for i in range(n)])
    pi_e = pe[:, :, np.newaxis]
    ctx.assume(pe.ravel() > 0)
    act = np.array([0, 2])
    emb = np.array([[0], [1]])
    Mo = model(ctx)
    est = CLS[sn](n_actions=k, pi_a_x_e_estimator=Mo())
    w = []
    for i in range(n):
        ph = Mo.proba(0, (10.0 + i, float(i)), 2)
        w.append(ph[0] * pi_e[i, 0, 0] / pi_b[i, 0, 0] + ph[1] * pi_e[i, 2, 0] / pi_b[i, 2, 0])
    got = est.estimate_policy_value(
        reward=r, action=act, action_embed=emb, pi_b=pi_b, action_dist=pi_e, context=ctx.arr([[10.0], [11.0]])
    )
    ctx.eq("value", got, mean(contributions(w, r, sn)))


def build_arr(x):
    from symnp import array as A

    return A.build(x)


# -- embedding selection ---------------------------------------------------------

PE = np.array([[[0.9, 0.2, 0.6], [0.1, 0.8, 0.4]], [[0.3, 0.5, 0.25], [0.7, 0.5, 0.75]]])  # (action, category, dim)
PIB = np.array([[0.8, 0.2], [0.3, 0.7]])
PIE = np.array([[0.1, 0.9], [0.6, 0.4]])


def level(w, r, sn, delta):
    c = contributions(w, r, sn)
    n = len(c)
    m = mean(c)
    var = mean((x - m) * (x - m) for x in c)
    return m, np.sqrt(var / (n - 1.0)) * float(stats.t.ppf(1 - delta / 2, n - 1))


def spec_exact(ctx, ev, D, m0):
    C = np.sqrt(6) - 1
    kept = [ev(tuple(range(D)))]
    for size in range(D - 1, m0 - 1, -1):
        cands = [ev(c) for c in itertools.combinations(range(D), size)]
        cands = ordered(ctx, cands)
        for t, c in cands:
            if not consistent(kept, t, c, C):
                return kept[-1][0]
            kept.append((t, c))
    return kept[-1][0]


def spec_greedy(ctx, ev, D, m0):
    C = np.sqrt(6) - 1
    cur = tuple(range(D))
    kept = [ev(cur)]
    while len(cur) > m0:
        cands = [ev(tuple(x for x in cur if x != d)) + (d,) for d in cur]
        cands = ordered(ctx, cands)
        for t, c, d in cands:
            if not consistent(kept, t, c, C):
                return kept[-1][0]
            kept.append((t, c))
        cur = tuple(x for x in cur if x != cands[-1][2])
    return kept[-1][0]


def consistent(kept, t, c, C):
    for tj, cj in kept:
        d = t - tj
        if d > c + C * cj:
            return False
        if -d > c + C * cj:
            return False
    return True


def ordered(ctx, cands):
    """Decreasing confidence width (ties are outside the claim)."""
    out = []
    for x in cands:
        for y in out:
            ctx.assume(abs(x[1] - y[1]) > 1e-6)
        i = 0
        while i < len(out) and out[i][1] > x[1]:
            i += 1
        out.insert(i, x)
    return out


@harness(
    cases=product(D=[2], m0=[1, 2], how=["exact", "greedy"], emb=[[[0, 1, 0], [1, 0, 0]]], sn=[False, True], delta=[0.3])
    + product(D=[2], m0=[1], how=["exact"], emb=[[[1, 1, 0], [0, 0, 1]]], sn=[False], delta=[0.6]),
    thorough=product(D=[3], m0=[1, 2], how=["exact", "greedy"], emb=[[[0, 1, 0], [1, 0, 0]]], sn=[False], delta=[0.3]),
)
def selection(ctx, D, m0, how, emb, sn, delta):
    n = 2
    emb = np.array(emb)[:, :D]
    r = ctx.reals("reward", n, nice=(-3, 3))
    pe = PE[:, :, :D]
    pi_b, pi_e = PIB[:, :, None], PIE[:, :, None]

    def ev(dims):
        w = true_weights(pi_b, pi_e, [0] * n, pe, emb, dims)
        return level(w, r, sn, delta)

    want = (spec_exact if how == "exact" else spec_greedy)(ctx, ev, D, m0)
    est = CLS[sn](n_actions=2, pi_a_x_e_estimator=model(ctx)(), embedding_selection_method=how, min_emb_dim=m0, delta=delta)
    got = est.estimate_policy_value(
        reward=r, action=np.array([0, 1]), action_embed=emb, pi_b=ctx.arr(pi_b), action_dist=ctx.arr(pi_e), p_e_a=ctx.arr(pe)
    )
    ctx.eq("value of the selected embedding", got, want)


@harness(cases=[dict(n=1030, k=3, L=2, C=4, D=2), dict(n=70, k=300, L=1, C=150, D=2)], thorough=[dict(n=4200, k=2, L=1, C=3, D=3)])
def wide(ctx, n, k, L, C, D):
    """Large logs, many actions and categories: arbitrary rewards, everything else fixed."""
    i, a = np.arange(n), np.arange(k)
    r = ctx.reals("reward", n, nice=(-3, 3))
    act, posn = (i * 7) % k, (i // 3) % L
    emb = np.stack([(i * (2 * d + 3) + i // 7) % C for d in range(D)], axis=1)
    emb[-1] = C - 1
    w = [(i[:, None, None] * m + a[None, :, None] * 5 + np.arange(L)[None, None, :] * 2) % 11 + 1.0 for m in (3, 4)]
    pi_b, pi_e = [x / x.sum(axis=1, keepdims=True) for x in w]
    p = (a[:, None, None] * 3 + np.arange(C)[None, :, None] * 5 + np.arange(D)[None, None, :]) % 7 + 1.0
    p = p / p.sum(axis=1, keepdims=True)
    tw = true_weights(pi_b, pi_e, posn, p, emb, range(D))
    for sn in (False, True):
        est = CLS[sn](n_actions=k, pi_a_x_e_estimator=model(ctx)())
        got = est.estimate_policy_value(reward=r, action=act, action_embed=emb, pi_b=pi_b, action_dist=pi_e, p_e_a=p, position=posn if L > 1 else None)
        ctx.eq(f"value {sn}", got, total(tw[j] * r[j] for j in range(n)) / (total(tw) if sn else float(n)))
