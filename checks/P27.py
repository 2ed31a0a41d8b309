"""P27: offline learners train on the right data and act by their scores."""
from symnp.api import *
from symnp.models import make_model
from checks.common import ctx_arr, flat, ranked, softmax_of
from obp.policy import IPWLearner, QLearner

BOUNDS = (
    "2-3 logged rounds, 2-3 actions, lists of 1-2, 1-2 new contexts; rewards, propensities, temperatures and random numbers arbitrary "
    "reals, the base model an arbitrary function of its features, training data with missing actions; plus 150-260 rounds of 140-200 actions with fixed data and arbitrary rewards"
)
NEW = [(50.0, 2.0), (60.0, -1.0)]


def logged(ctx, n, k, L, sign="any"):
    act = ctx.ints("action", n, k)
    pos = ctx.ints("position", n, L) if L > 1 else None
    posn = [int(p) for p in pos] if L > 1 else [0] * n
    if set(posn) != set(range(L)):
        ctx.assume(False)
    r = ctx.reals("reward", n, lo=0, nice=(0, 3)) if sign == "nonneg" else ctx.reals("reward", n, nice=(-2, 2))
    ps = ctx.reals("pscore", n, lo=0, hi=1, lo_open=True, nice=(0.1, 1))
    cx = [(5.0 + i, -1.0) for i in range(n)]
    return act, pos, posn, r, ps, cx


def same_fit(ctx, f, idx, feat, y, w):
    """Trained on exactly the rounds idx, in any order."""
    rows = {feat[i]: i for i in idx}
    ok = len(f.X) == len(idx) and set(f.X) == set(rows)
    ctx.check("trained on the position's rounds", ok)
    if not ok:
        return
    for j, x in enumerate(f.X):
        i = rows[x]
        ctx.eq("target", f.y[j], y[i])
        if w is None:
            ctx.check("unweighted", f.w is None)
        else:
            ctx.check("weighted", f.w is not None)
            ctx.eq("sample weight", f.w[j], w(i))


def model_of(ctx, Mo, posn, cx, L):
    """The model fitted for each position."""
    out = {}
    ctx.check("one model per position", len(Mo.fits) == L)
    for l in range(L):
        want = {cx[i] for i in range(len(cx)) if posn[i] == l}
        hit = [m for m, f in enumerate(Mo.fits) if {x[:2] for x in f.X} == want]
        ctx.check("a model of the position's rounds", len(hit) == 1)
        if len(hit) != 1:
            raise PathAbort("failed", "models") if ctx.sym else CheckFailed("models", "missing")
        out[l] = hit[0]
    return out


def gumbels(ctx, m, k, start):
    gs = [c for c in ctx.calls[start:] if c[1] == "gumbel"]
    for c in gs:
        ctx.check("standard Gumbel numbers", [flat(c[2][0]) == [0.0], flat(c[2][1]) == [1.0]])
    xs = [x for c in gs for x in flat(c[3])]
    ctx.check("one number per context and action", len(xs) == m * k)
    return [xs[i * k:(i + 1) * k] for i in range(m)]


def one_hot(ctx, label, d, chosen):
    m, k, L = np.shape(d)
    ctx.eq(label, flat(d), [1.0 if chosen[i][l] == a else 0.0 for i in range(m) for a in range(k) for l in range(L)])


def sampled(ctx, d, score, tau, start):
    """Rankings are the order of score / tau + Gumbel noise."""
    m, k, L = np.shape(d)
    g = gumbels(ctx, m, k, start)
    for i in range(m):
        s = [mean([score[i][a][l] for l in range(L)]) / tau + g[i][a] for a in range(k)]
        sel = []
        for l in range(L):
            col = [d[i, a, l] for a in range(k)]
            hit = [a for a in range(k) if not is_sym(col[a]) and float(col[a]) == 1.0]
            ctx.check("one action per position", len(hit) == 1 and all(float(col[a]) == 0.0 for a in range(k) if a not in hit))
            if len(hit) != 1:
                return
            sel.append(hit[0])
        ranked(ctx, "sampled ranking", sel, s)


def tau_of(ctx):
    t = ctx.real("tau", lo=0, lo_open=True, nice=(0.5, 2))
    return t if ctx.sym else float(t)


@harness(
    cases=product(n=[2], k=[2], L=[1], m=[1], ps=["given", "none"]) + [dict(n=2, k=3, L=1, m=1, ps="given"), dict(n=2, k=2, L=2, m=1, ps="given"), dict(n=3, k=2, L=1, m=2, ps="given"), dict(n=2, k=2, L=2, m=1, ps="none")],
    thorough=[dict(n=3, k=3, L=2, m=1, ps="none"), dict(n=3, k=3, L=2, m=1, ps="given"), dict(n=3, k=3, L=1, m=2, ps="given")], ints=[("reward",), ("reward", "pscore")],
)
def ipw_learner(ctx, n, k, L, m, ps):
    act, pos, posn, r, p, cx = logged(ctx, n, k, L, "nonneg")
    Mo = make_model(ctx, "classifier", "clf")
    pol = IPWLearner(n_actions=k, len_list=L, base_classifier=Mo())
    pol.fit(context=ctx.arr(cx), action=act, reward=r, pscore=p if ps == "given" else None, position=pos)
    mod = model_of(ctx, Mo, posn, cx, L)
    for l in range(L):
        f = Mo.fits[mod[l]]
        idx = [i for i in range(n) if posn[i] == l]
        rows = {cx[i]: i for i in idx}
        ctx.check("contexts", len(f.X) == len(idx) and set(f.X) == set(rows) and f.w is not None)
        for j, x in enumerate(f.X):
            i = rows[x]
            ctx.check("the logged action is the class", int(f.y[j]) == int(act[i]))
            ctx.eq("weighted by reward over propensity", f.w[j], r[i] / p[i] if ps == "given" else r[i] * k)
    new = ctx.arr(NEW[:m])
    cls = [sorted({int(act[i]) for i in range(n) if posn[i] == l}) for l in range(L)]
    score = [[[0.0] * L for _ in range(k)] for _ in range(m)]
    for i in range(m):
        for l in range(L):
            for c, q in zip(cls[l], Mo.proba(mod[l], NEW[i], len(cls[l]))):
                score[i][c][l] = q
    got = pol.predict_score(context=new)
    ctx.check("shape", np.shape(got) == (m, k, L))
    ctx.eq("scores", flat(got), [score[i][a][l] for i in range(m) for a in range(k) for l in range(L)])
    d = pol.predict(context=new)
    one_hot(ctx, "predicted classes", d, [[cls[l][Mo.label(mod[l], NEW[i], len(cls[l]))] for l in range(L)] for i in range(m)])
    tau = tau_of(ctx)
    start = len(ctx.calls)
    sampled(ctx, pol.sample_action(context=new, tau=tau, random_state=3), score, tau, start)
    if L == 1:
        got = pol.predict_proba(context=new, tau=tau)
        want = [x for i in range(m) for x in softmax_of([score[i][a][0] / tau for a in range(k)])]
        ctx.eq("probabilities", flat(got), want)
    else:
        ctx.raises("probabilities of lists", lambda: pol.predict_proba(context=new, tau=tau), types=(AssertionError, ValueError))


def qweight(method, k, p):
    return (1.0 / k) / p if method == "iw" else (1.0 / k) * (1.0 - p) / (p * p)


@harness(
    cases=product(n=[2], k=[2], L=[1], m=[1], method=["normal", "iw", "mrdr"], kind=["regressor"], ps=["given", "none"])
    + [
        dict(n=2, k=2, L=2, m=1, method="iw", kind="regressor", ps="given"),
        dict(n=2, k=3, L=1, m=1, method="mrdr", kind="regressor", ps="given"),
        dict(n=2, k=2, L=1, m=2, method="normal", kind="classifier", ps="given"),
        dict(n=2, k=2, L=2, m=1, method="normal", kind="regressor", ps="none"),
    ],
    thorough=[dict(n=2, k=3, L=2, m=1, method="iw", kind="regressor", ps="given"), dict(n=3, k=2, L=2, m=1, method="normal", kind="regressor", ps="none"), dict(n=3, k=3, L=2, m=1, method="mrdr", kind="regressor", ps="given")], ints=[("reward",), ("reward", "pscore")],
)
def q_learner(ctx, n, k, L, m, method, kind, ps):
    act, pos, posn, r, p, cx = logged(ctx, n, k, L)
    if kind == "classifier":
        r = ctx.bits("click", n)
    acx = [tuple(1.0 if b == a else 0.0 for b in range(k)) for a in range(k)]
    Mo = make_model(ctx, kind, "q", labels=[0, 1])
    pol = QLearner(n_actions=k, len_list=L, base_model=Mo(), fitting_method=method)
    pol.fit(context=ctx.arr(cx), action=act, reward=r, pscore=p if ps == "given" else None, position=pos)
    mod = model_of(ctx, Mo, posn, cx, L)
    feat = [cx[i] + acx[int(act[i])] for i in range(n)]
    for l in range(L):
        w = None if method == "normal" else (lambda i: qweight(method, k, p[i] if ps == "given" else 1.0 / k))
        same_fit(ctx, Mo.fits[mod[l]], [i for i in range(n) if posn[i] == l], feat, r, w)
    new = ctx.arr(NEW[:m])
    val = lambda l, row: Mo.proba(mod[l], row, 2)[1] if kind == "classifier" else Mo.value(mod[l], row)
    score = [[[val(l, NEW[i] + acx[a]) for l in range(L)] for a in range(k)] for i in range(m)]
    got = pol.predict_score(context=new)
    ctx.eq("scores", flat(got), [score[i][a][l] for i in range(m) for a in range(k) for l in range(L)])
    d = pol.predict(context=new)
    ctx.check("shape", np.shape(d) == (m, k, L))
    for i in range(m):
        for l in range(L):
            hit = [a for a in range(k) if float(d[i, a, l]) == 1.0]
            ctx.check("one action per position", len(hit) == 1 and all(float(d[i, a, l]) == 0.0 for a in range(k) if a not in hit))
            if len(hit) == 1:
                ranked(ctx, "best predicted reward", hit, [score[i][a][l] for a in range(k)])
    tau = tau_of(ctx)
    start = len(ctx.calls)
    sampled(ctx, pol.sample_action(context=new, tau=tau, random_state=3), score, tau, start)
    got = pol.predict_proba(context=new, tau=tau)
    ctx.check("shape of the probabilities", np.shape(got) == (m, k, L))
    for i in range(m):
        for l in range(L):
            ctx.eq("probabilities", [got[i, a, l] for a in range(k)], softmax_of([score[i][a][l] / tau for a in range(k)]))


@harness(cases=product(who=["ipw", "q"], bad=["negative reward", "position", "context", "tau", "tau low", "pscore", "length", "action", "n_actions", "len_list", "len_list 0", "model"]))
def refused(ctx, who, bad):
    cls = IPWLearner if who == "ipw" else QLearner
    Mo = make_model(ctx, "classifier" if who == "ipw" else "regressor", "m")
    name = "base_classifier" if who == "ipw" else "base_model"
    k = 2
    if bad in ("n_actions", "len_list", "len_list 0", "model"):
        over = {"n_actions": dict(n_actions=1), "len_list": dict(n_actions=2, len_list=3), "len_list 0": dict(n_actions=2, len_list=0), "model": dict(n_actions=2)}[bad]
        if bad == "model":
            if who == "q":
                return
            Mo = make_model(ctx, "regressor", "m")
        ctx.raises("refused", lambda: cls(**over, **{name: Mo()}))
        return
    L = 2 if bad == "position" else 1
    pol = cls(n_actions=k, len_list=L, **{name: Mo()})
    X = ctx.arr([[1.0, 2.0], [3.0, 4.0]])
    act = np.array([0, 1])
    r = ctx.reals("reward", 2, lo=0, nice=(0, 2))
    p = ctx.reals("pscore", 2, lo=0, hi=1, lo_open=True)
    at = ctx.choice("row", 2)
    if bad == "negative reward":
        if who == "q":
            return
        r[at] = ctx.real("negative", hi=0, hi_open=True, nice=(-2, -0.1))
    if bad == "pscore":
        p[at] = ctx.real("bad", hi=0, nice=(-2, 0))
    if bad == "length":
        r = r[:1]
    if bad == "action":
        act = np.array([[0, 1]])
    if bad in ("negative reward", "position", "pscore", "length", "action"):
        ctx.raises("refused", lambda: pol.fit(context=X, action=act, reward=r, pscore=p))
        ctx.check("nothing was trained", len(Mo.fits) == 0)
        return
    pol.fit(context=X, action=act, reward=r, pscore=p)
    new = ctx.arr(NEW[:1])
    low = ctx.real("low", hi=0, hi_open=True, nice=(-2, -0.1))
    low = low if ctx.sym else float(low)
    if bad == "context":
        for f in (pol.predict, pol.predict_score, pol.sample_action, pol.predict_proba):
            ctx.raises("refused", lambda: f(context=new[0]))
    elif bad == "tau":
        for f in (pol.sample_action, pol.predict_proba):
            ctx.raises("refused", lambda: f(context=new, tau="1"))
    else:
        for f in (pol.sample_action, pol.predict_proba):
            ctx.raises("refused", lambda: f(context=new, tau=low))


@harness(cases=[dict(who="ipw", n=260, k=200, L=2), dict(who="q", n=150, k=140, L=2)])
def many_actions(ctx, who, n, k, L):
    """Many rounds and actions: arbitrary rewards and an arbitrary model, everything else fixed."""
    act = np.array([(i * 7 + 3) % k for i in range(n)])
    act[-1] = k - 1
    pos = np.array([(i // 2) % L for i in range(n)])
    p = np.array([((i * 11) % 29 + 3) / 32.0 for i in range(n)])
    r = ctx.reals("reward", n, lo=0, nice=(0, 3))
    cx = [(5.0 + i, -1.0) for i in range(n)]
    new = ctx.arr(NEW)
    m = len(NEW)
    if who == "ipw":
        Mo = make_model(ctx, "classifier", "clf", wide=True)
        pol = IPWLearner(n_actions=k, len_list=L, base_classifier=Mo())
    else:
        Mo = make_model(ctx, "regressor", "q")
        pol = QLearner(n_actions=k, len_list=L, base_model=Mo(), fitting_method="iw")
    pol.fit(context=ctx.arr(cx), action=act, reward=r, pscore=p, position=pos)
    mod = model_of(ctx, Mo, pos, cx, L)
    acx = [tuple(1.0 if b == a else 0.0 for b in range(k)) for a in range(k)]
    score = [[[0.0] * L for _ in range(k)] for _ in range(m)]
    for l in range(L):
        f = Mo.fits[mod[l]]
        idx = [i for i in range(n) if pos[i] == l]
        if who == "ipw":
            rows = {cx[i]: i for i in idx}
            ctx.check("contexts", len(f.X) == len(idx) and set(f.X) == set(rows) and f.w is not None)
            for j, x in enumerate(f.X):
                ctx.check("the logged action is the class", int(f.y[j]) == int(act[rows[x]]))
                ctx.eq("weighted by reward over propensity", f.w[j], r[rows[x]] / p[rows[x]])
            cls = sorted({int(act[i]) for i in idx})
            for i in range(m):
                for c, q in zip(cls, Mo.proba(mod[l], NEW[i], len(cls))):
                    score[i][c][l] = q
        else:
            same_fit(ctx, f, idx, [cx[i] + acx[act[i]] for i in range(n)], r, lambda i: (1.0 / k) / p[i])
            for i in range(m):
                for a in range(k):
                    score[i][a][l] = Mo.value(mod[l], NEW[i] + acx[a])
    got = pol.predict_score(context=new)
    ctx.check("shape", np.shape(got) == (m, k, L))
    ctx.eq("scores", flat(got), [score[i][a][l] for i in range(m) for a in range(k) for l in range(L)])
