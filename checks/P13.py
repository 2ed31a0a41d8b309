"""P13: reward regression models are trained and queried on the right data."""
from symnp.api import *
from symnp.models import make_model
from obp.ope import RegressionModel, SlateRegressionModel

BOUNDS = (
    "2-4 rounds, 2-3 actions, 1-2 positions, 1-3 folds with every assignment of rounds to folds, slates of 1-3 slots; "
    "rewards, propensities and policies arbitrary reals, the base model an arbitrary function of its features (and large logs of hundreds of rounds or actions with arbitrary rewards and the rest fixed)"
)


def setup(ctx, n, k, L, kind, ac):
    act = ctx.ints("action", n, k)
    r = ctx.bits("reward", n) if kind == "classifier" else ctx.reals("reward", n, nice=(-2, 2))
    ps = ctx.reals("pscore", n, lo=0, hi=1, lo_open=True, nice=(0.1, 1))
    pi = np.swapaxes(ctx.simplex("pi", (n, L, k)), 1, 2).copy()
    cx = [(5.0 + i, -1.0) for i in range(n)]
    acx = [(100.0 + 3 * a,) for a in range(k)] if ac else [tuple(1.0 if b == a else 0.0 for b in range(k)) for a in range(k)]
    return act, r, ps, pi, cx, acx


def weight(method, pi, p):
    if method == "iw":
        return pi / p
    return pi * (1.0 - p) / (p * p)


def check_fit(ctx, fit, idx, cx, acx, act, r, want_w):
    """The fit used exactly the rows idx (in any order)."""
    rows = {cx[i] + acx[act[i]]: i for i in idx}
    ok = len(fit.X) == len(idx) and set(fit.X) == set(rows)
    ctx.check("trained on the right rounds", ok)
    if not ok:
        return
    for j, row in enumerate(fit.X):
        i = rows[row]
        ctx.eq("target", fit.y[j], r[i])
        if want_w is None:
            ctx.check("unweighted", fit.w is None)
        else:
            ctx.check("weighted", fit.w is not None)
            ctx.eq("sample weight", fit.w[j], want_w(i))


CASES = product(n=[2], k=[2], L=[1], method=["normal", "iw", "mrdr"], kind=["classifier", "regressor"], ac=[False, True], ps=["given"])
CASES += product(n=[2], k=[3], L=[2], method=["normal", "iw", "mrdr"], kind=["regressor"], ac=[True], ps=["given"])
CASES += product(n=[2], k=[2], L=[1], method=["iw", "mrdr"], kind=["regressor"], ac=[False], ps=["uniform"])


@harness(cases=CASES, thorough=product(n=[3], k=[2], L=[2], method=["iw", "mrdr"], kind=["regressor"], ac=[True], ps=["given"]), ints=[("reward",), ("reward", "pscore", "pi")])
def fit_and_predict(ctx, n, k, L, method, kind, ac, ps):
    act, r, p, pi, cx, acx = setup(ctx, n, k, L, kind, ac)
    pos = ctx.ints("position", n, L)
    if L > 1 and set(int(x) for x in pos) != set(range(L)):
        ctx.assume(False)
    Mo = make_model(ctx, kind, "q", labels=[0, 1])
    reg = RegressionModel(
        base_model=Mo(), n_actions=k, len_list=L, fitting_method=method, action_context=ctx.arr(acx) if ac else None
    )
    if ps == "uniform":
        p = [1.0 / k] * n
    kw = dict(context=ctx.arr(cx), action=act, reward=r, pscore=None if ps == "uniform" else p, position=pos, action_dist=pi)
    how = ctx.pick("entry point", ["fit then predict", "fit_predict"])
    if how == "fit_predict":
        got = reg.fit_predict(**kw)
    else:
        reg.fit(**kw)
        got = reg.predict(context=ctx.arr(cx))
    ctx.check("one model per position", len(Mo.fits) == L)
    model = {}
    for l in range(L):
        idx = [i for i in range(n) if pos[i] == l or L == 1]
        hit = [m for m, f in enumerate(Mo.fits) if set(x[:2] for x in f.X) == {cx[i] for i in idx}]
        ctx.check("a model of the position's rounds", len(hit) == 1)
        if len(hit) != 1:
            return
        model[l] = hit[0]
        w = None if method == "normal" else (lambda i, l=l: weight(method, pi[i, act[i], l], p[i]))
        check_fit(ctx, Mo.fits[hit[0]], idx, cx, acx, act, r, w)
    want = expected(ctx, Mo, kind, n, k, L, cx, acx, lambda i, l: model[l])
    ctx.eq("predictions", got, want)
    # unseen contexts
    new = [(50.0, 2.0)]
    ctx.eq("new contexts", reg.predict(context=ctx.arr(new)), expected(ctx, Mo, kind, 1, k, L, new, acx, lambda i, l: model[l]))


def expected(ctx, Mo, kind, n, k, L, cx, acx, model):
    out = np.empty((n, k, L), dtype=object)
    for i in range(n):
        for a in range(k):
            for l in range(L):
                row = cx[i] + acx[a]
                m = model(i, l)
                out[i, a, l] = Mo.proba(m, row, 2)[1] if kind == "classifier" else Mo.value(m, row)
    return out


@harness(
    cases=product(n=[3], k=[2], L=[1], method=["normal", "iw", "mrdr"], folds=[2, 3], kind=["regressor"])
    + product(n=[3], k=[2], L=[1], method=["normal"], folds=[2], kind=["classifier"])
    + product(n=[4], k=[2], L=[2], method=["normal", "iw"], folds=[2], kind=["regressor"]),
    thorough=product(n=[4], k=[2], L=[1], method=["iw", "mrdr"], folds=[2, 4], kind=["regressor"]),
)
def cross_fitting(ctx, n, k, L, method, folds, kind):
    """Each round's predictions come from models trained on the other folds only."""
    act = np.arange(n) % k if n == 4 else ctx.ints("action", n, k)
    _, r, p, pi, cx, acx = setup(Fix(ctx), n, k, L, kind, True)
    pos = np.array([0, 0, 1, 1]) if L == 2 else np.zeros(n, dtype=int)
    Mo = make_model(ctx, kind, "q", labels=[0, 1])
    reg = RegressionModel(base_model=Mo(), n_actions=k, len_list=L, fitting_method=method, action_context=ctx.arr(acx))
    kw = dict(context=ctx.arr(cx), action=act, reward=r, pscore=p, position=pos if L == 2 else None, action_dist=pi, n_folds=folds, random_state=3)
    if L == 2:
        # both positions must be present in every training set
        try:
            got = reg.fit_predict(**kw)
        except ValueError:
            bad = any(len({int(pos[i]) for i in range(n) if i not in f}) < 2 for f in ctx.folds)
            ctx.check("refused only without training data", bad)
            return
    else:
        got = reg.fit_predict(**kw)
    parts = ctx.folds[:folds]
    ctx.check("a partition", sorted(i for f in parts for i in f) == list(range(n)))
    ctx.check("one model per fold and position", len(Mo.fits) == folds * L)
    fold_of = {i: f for f in parts for i in f}
    model = {}
    for f in parts:
        for l in range(L):
            idx = [i for i in range(n) if i not in f and pos[i] == l]
            hit = [m for m, ft in enumerate(Mo.fits) if set(x[:2] for x in ft.X) == {cx[i] for i in idx}]
            ctx.check("a model of the other folds", len(hit) == 1)
            if len(hit) != 1:
                return
            model[f, l] = hit[0]
            w = None if method == "normal" else (lambda i, l=l: weight(method, pi[i, act[i], l], p[i]))
            check_fit(ctx, Mo.fits[hit[0]], idx, cx, acx, act, r, w)
    ctx.eq("predictions", got, expected(ctx, Mo, kind, n, k, L, cx, acx, lambda i, l: model[fold_of[i], l]))


class Fix:
    def __init__(self, ctx):
        self.ctx = ctx

    def __getattr__(self, a):
        return getattr(self.ctx, a)

    def ints(self, *a, **k):
        return None


@harness(cases=product(method=["normal", "iw", "mrdr"], fault=["distribution", "no distribution", "shape", "position", "action", "pscore", "no data"]))
def refused(ctx, method, fault):
    n, k, L = 2, 2, 2
    if fault in ("distribution", "no distribution", "shape") and method == "normal":
        return
    kw = dict(
        context=ctx.arr([[0.0], [1.0]]), action=np.array([0, 1]), reward=ctx.reals("r", n, nice=(-1, 1)),
        pscore=ctx.reals("p", n, lo=0, hi=1, lo_open=True), position=np.array([0, 1]), action_dist=np.swapaxes(ctx.simplex("pi", (n, L, k)), 1, 2).copy(),
    )
    i = ctx.choice("row", 2)
    if fault == "distribution":
        x = ctx.real("bad", lo=0, hi=2)
        pi = kw["action_dist"].copy()
        ctx.assume(abs(x - pi[i, 0, 0]) > 1e-3)
        pi[i, 0, 0] = x
        kw["action_dist"] = pi
    elif fault == "no distribution":
        kw["action_dist"] = None
    elif fault == "shape":
        kw["action_dist"] = kw["action_dist"][:, :, :1]
    elif fault == "position":
        kw["position"][i] = 2
    elif fault == "action":
        kw["action"][i] = ctx.pick("which", [-1, 2])
    elif fault == "pscore":
        kw["pscore"][i] = ctx.real("bad", hi=0, nice=(-1, 0))
    else:
        kw["position"][:] = i
    Mo = make_model(ctx, "regressor", "q")
    for entry in ("fit", "fit_predict"):
        reg = RegressionModel(base_model=Mo(), n_actions=k, len_list=L, fitting_method=method)
        ctx.raises(entry, lambda: getattr(reg, entry)(**kw))


# -- slates --------------------------------------------------------------------------


@harness(
    cases=product(n=[1, 2], k=[2], L=[1, 2], method=["normal", "iw"]) + product(n=[1], k=[2], L=[3], method=["normal", "iw"]) + product(n=[1], k=[3], L=[2], method=["iw"]),
    thorough=product(n=[2], k=[2], L=[3], method=["iw"]),
)
def slate(ctx, n, k, L, method):
    """Backward recursion: the target is the reward plus the policy's expected prediction at the next slot."""
    act = ctx.ints("action", (n * L,), k)
    r = ctx.reals("reward", n * L, nice=(-2, 2))
    pb = ctx.reals("logging", n * L, lo=0, hi=1, lo_open=True, nice=(0.1, 1))
    pe = ctx.reals("evaluation", n * L, lo=0, hi=1, lo_open=True, nice=(0.1, 1))
    d = ctx.simplex("dist", (n, L, k))
    cx = [(7.0 + i,) for i in range(n)]
    Mo = make_model(ctx, "regressor", "q")
    reg = SlateRegressionModel(base_model=Mo(), len_list=L, n_unique_action=k, fitting_method=method)
    kw = dict(
        context=ctx.arr(cx), action=act, reward=r, pscore_cascade=pb, evaluation_policy_pscore_cascade=pe,
        evaluation_policy_action_dist=d.reshape(-1),
    )
    how = ctx.pick("entry point", ["fit then predict", "fit_predict"]) if n == 1 else "fit_predict"
    if how == "fit_predict":
        got = reg.fit_predict(**kw)
    else:
        reg.fit(**kw)
        got = reg.predict(context=kw["context"], action=act)
    ctx.check("one model per slot", len(Mo.fits) == L)
    model = {}
    for l in range(L):
        hit = [m for m, f in enumerate(Mo.fits) if len(f.X[0]) == 1 + l + 1]
        ctx.check("a model of the slot", len(hit) == 1)
        if len(hit) != 1:
            return
        model[l] = hit[0]
    A_ = [[float(act[i * L + l]) for l in range(L)] for i in range(n)]
    for l in range(L):
        f = Mo.fits[model[l]]
        rows = {cx[i] + tuple(A_[i][: l + 1]): i for i in range(n)}
        ctx.check("rows", len(f.X) == n and set(f.X) == set(rows))
        if set(f.X) != set(rows):
            return
        for j, row in enumerate(f.X):
            i = rows[row]
            y = r[i * L + l]
            if l + 1 < L:
                y = y + total(d[i, l + 1, b] * Mo.value(model[l + 1], row + (float(b),)) for b in range(k))
            ctx.eq("target", f.y[j], y)
            w = 1.0 if f.w is None else f.w[j]
            ctx.eq("sample weight", w, pe[i * L + l] / pb[i * L + l] if method == "iw" else 1.0)
    want = [Mo.value(model[l], cx[i] + tuple(A_[i][:l]) + (float(b),)) for i in range(n) for l in range(L) for b in range(k)]
    ctx.eq("predictions", got, want)


@harness(cases=product(fault=["logging low", "logging high", "evaluation low", "evaluation high", "action", "distribution", "length"]))
def slate_refused(ctx, fault):
    n, k, L = 1, 2, 2
    kw = dict(
        context=ctx.arr([[0.0]]), action=np.array([0, 1]), reward=ctx.arr([1.0, 0.0]), pscore_cascade=ctx.arr([0.5, 0.25]),
        evaluation_policy_pscore_cascade=ctx.arr([0.5, 0.25]), evaluation_policy_action_dist=ctx.simplex("d", (n, L, k)).reshape(-1),
    )
    i = ctx.choice("row", 2)
    key = {"logging": "pscore_cascade", "evaluation": "evaluation_policy_pscore_cascade"}.get(fault.split()[0])
    if fault.endswith("low"):
        kw[key][i] = ctx.real("bad", hi=0, nice=(-1, 0))
    elif fault.endswith("high"):
        kw[key][i] = ctx.real("bad", lo=1, lo_open=True, nice=(1.001, 2))
    elif fault == "action":
        kw["action"][i] = ctx.pick("which", [-1, 2])
    elif fault == "distribution":
        x = ctx.real("bad", lo=0, hi=2)
        ctx.assume(abs(x - kw["evaluation_policy_action_dist"][2 * i]) > 1e-3)
        kw["evaluation_policy_action_dist"][2 * i] = x
    else:
        kw["reward"] = kw["reward"][:-1]
    Mo = make_model(ctx, "regressor", "q")
    reg = SlateRegressionModel(base_model=Mo(), len_list=L, n_unique_action=k)
    ctx.raises("refused", lambda: reg.fit(**kw))


@harness(cases=product(method=["normal", "iw", "mrdr"], n=[260], k=[3], L=[2]) + [dict(method="iw", n=12, k=150, L=1)])
def wide(ctx, method, n, k, L):
    """Many rounds or actions: arbitrary rewards, everything else fixed."""
    i, a = np.arange(n), np.arange(k)
    act, pos = (i * 7 + i // 5) % k, (i // 2) % L
    act[-1] = k - 1
    r = ctx.reals("reward", n, nice=(-2, 2))
    p = ((i * 11) % 29 + 3) / 32.0
    pi = (i[:, None, None] * 3 + a[None, :, None] * 5 + np.arange(L)[None, None, :] * 2) % 11 + 1.0
    pi = pi / pi.sum(axis=1, keepdims=True)
    cx, acx = [(5.0 + j, -1.0) for j in range(n)], [(1000.0 + 3 * b,) for b in range(k)]
    Mo = make_model(ctx, "regressor", "q", labels=[0, 1])
    reg = RegressionModel(base_model=Mo(), n_actions=k, len_list=L, fitting_method=method, action_context=ctx.arr(acx))
    got = reg.fit_predict(context=ctx.arr(cx), action=act, reward=r, pscore=p, position=pos if L > 1 else None, action_dist=pi)
    ctx.check("one model per position", len(Mo.fits) == L)
    model = {}
    for l in range(L):
        idx = [j for j in range(n) if pos[j] == l]
        hit = [m for m, f in enumerate(Mo.fits) if set(x[:2] for x in f.X) == {cx[j] for j in idx}]
        ctx.check("a model of the position's rounds", len(hit) == 1)
        if len(hit) != 1:
            return
        model[l] = hit[0]
        f = Mo.fits[hit[0]]
        rows = {cx[j] + acx[act[j]]: j for j in idx}
        ok = len(f.X) == len(idx) and set(f.X) == set(rows)
        ctx.check("trained on the right rounds", ok)
        if not ok:
            return
        order = [rows[x] for x in f.X]
        ctx.eq("targets", f.y, [r[j] for j in order])
        ctx.check("weighted", (f.w is None) == (method == "normal"))
        if f.w is not None:
            ctx.eq("sample weights", f.w, [weight(method, pi[j, act[j], l], p[j]) for j in order])
    ctx.eq("predictions", got, expected(ctx, Mo, "regressor", n, k, L, cx, acx, lambda j, l: model[l]))
