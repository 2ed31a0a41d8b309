"""P14: estimated importance weights and propensities come from correctly built classification problems."""
from symnp.api import *
from symnp.models import make_model
from checks.common import flat
from obp.ope import ImportanceWeightEstimator, PropensityScoreEstimator

BOUNDS = "2-3 rounds, 2-3 actions, 1-2 positions, 1-3 folds with every assignment of rounds to folds; evaluation policies and sampling outcomes arbitrary reals, the base classifier an arbitrary function of its features (and fixed data of 130 rounds or 290 actions)"


def feats(k, ac):
    return [(100.0 + 3 * a,) for a in range(k)] if ac else [tuple(1.0 if b == a else 0.0 for b in range(k)) for a in range(k)]


def same_weights(ctx, f, idx, cx, acx, act, pi, l, method):
    """The classifier separates logged pairs (0) from pairs of the evaluation policy (1)."""
    m = len(idx)
    ctx.check("logged and evaluation rows", len(f.X) == 2 * m and sorted(int(v) for v in f.y) == [0] * m + [1] * m)
    if len(f.X) != 2 * m:
        return
    logged = sorted(x for x, y in zip(f.X, f.y) if int(y) == 0)
    ctx.check("logged pairs", logged == sorted(cx[i] + acx[act[i]] for i in idx))
    ev = {x[:1]: x[1:] for x, y in zip(f.X, f.y) if int(y) == 1}
    ctx.check("evaluation contexts", set(ev) == {cx[i] for i in idx})
    if set(ev) != {cx[i] for i in idx}:
        return
    for i in idx:
        e = ev[cx[i]]
        if method == "raw":
            ctx.eq("action probabilities", list(e), [pi[i, a, l] for a in range(len(acx))])
        else:
            hit = [a for a in range(len(acx)) if acx[a] == e]
            ctx.check("an action", len(hit) == 1)
            if hit:
                ctx.check("an action the policy takes", pi[i, hit[0], l] > 0)


def odds(p):
    return p / (1.0 - p)


@harness(
    cases=product(n=[2], k=[2], L=[1], method=["sample", "raw"], ac=[False, True], cv=[1, 2], pos=["none"])
    + product(n=[2], k=[2], L=[2], method=["sample", "raw"], ac=[False], cv=[1], pos=["given"])
    + product(n=[1], k=[3], L=[1], method=["sample"], ac=[True], cv=[1], pos=["given"]),
    thorough=product(n=[3], k=[2], L=[2], method=["sample", "raw"], ac=[False], cv=[1], pos=["given"]), ints=[("pi",)],
)
def importance_weights(ctx, n, k, L, method, ac, cv, pos):
    act = ctx.ints("action", n, k)
    position = ctx.ints("position", n, L) if pos == "given" else None
    posn = [int(p) for p in position] if position is not None else [0] * n
    if set(posn) != set(range(L)):
        ctx.assume(False)
    pi = np.swapaxes(ctx.simplex("pi", (n, L, k)), 1, 2).copy()
    cx = [(5.0 + i,) for i in range(n)]
    acx = feats(k, ac and method == "sample")
    Mo = make_model(ctx, "classifier", "clf")
    est = ImportanceWeightEstimator(
        base_model=Mo(), n_actions=k, len_list=L, fitting_method=method, calibration_cv=cv, action_context=ctx.arr(feats(k, True)) if ac else None
    )
    how = ctx.pick("entry point", ["fit then predict", "fit_predict"])
    kw = dict(context=ctx.arr(cx), action=act, position=position)
    if how == "fit_predict":
        got = est.fit_predict(**kw, action_dist=pi, random_state=3)
    else:
        est.fit(**kw, action_dist=pi, random_state=3)
        got = est.predict(**kw)
    ctx.check("one classifier per position", len(Mo.fits) == L)
    model = {}
    for l in range(L):
        idx = [i for i in range(n) if posn[i] == l]
        hit = [m for m, f in enumerate(Mo.fits) if {x[:1] for x in f.X} == {cx[i] for i in idx}]
        ctx.check("the position's rounds", len(hit) == 1)
        if len(hit) != 1:
            return
        model[l] = hit[0]
        f = Mo.fits[hit[0]]
        ctx.check("calibrated on request", f.cv == (cv if cv > 1 else None))
        same_weights(ctx, f, idx, cx, acx, act, pi, l, method)
    want = [odds(Mo.proba(model[posn[i]], cx[i] + acx[act[i]], 2)[1]) for i in range(n)]
    ctx.eq("weights", got, want)


@harness(
    cases=product(n=[3], k=[2], L=[1], folds=[2, 3], method=["raw", "sample"]) + product(n=[4], k=[2], L=[2], folds=[2], method=["raw"]),
    thorough=product(n=[4], k=[2], L=[1], folds=[2, 4], method=["sample"]),
)
def importance_weights_folds(ctx, n, k, L, folds, method):
    """With cross-fitting, each round's weight comes from the classifier of the other folds."""
    act = np.arange(n) % k
    pos = np.array([0, 0, 1, 1]) if L == 2 else np.zeros(n, dtype=int)
    pi = np.swapaxes(ctx.simplex("pi", (n, L, k)), 1, 2).copy()
    cx = [(5.0 + i,) for i in range(n)]
    acx = feats(k, False)
    Mo = make_model(ctx, "classifier", "clf")
    est = ImportanceWeightEstimator(base_model=Mo(), n_actions=k, len_list=L, fitting_method=method, calibration_cv=1)
    kw = dict(context=ctx.arr(cx), action=act, position=pos, action_dist=pi, n_folds=folds, random_state=3)
    try:
        got = est.fit_predict(**kw)
    except ValueError:
        bad = any(len({int(pos[i]) for i in range(n) if i not in f}) < L for f in ctx.folds)
        ctx.check("refused only without training data", bad)
        return
    model = match(ctx, Mo, n, L, pos, cx, folds)
    if model is None:
        return
    for (f, l), m in model.items():
        same_weights(ctx, Mo.fits[m], [i for i in range(n) if i not in f and pos[i] == l], cx, acx, act, pi, l, method)
    fold_of = {i: f for f in ctx.folds for i in f}
    want = [odds(Mo.proba(model[fold_of[i], int(pos[i])], cx[i] + acx[act[i]], 2)[1]) for i in range(n)]
    ctx.eq("weights", got, want)


def match(ctx, Mo, n, L, pos, cx, folds):
    ctx.check("a partition", sorted(i for f in ctx.folds for i in f) == list(range(n)) and len(ctx.folds) == folds)
    model = {}
    for f in ctx.folds:
        for l in range(L):
            idx = {cx[i] for i in range(n) if i not in f and pos[i] == l}
            hit = [m for m, ft in enumerate(Mo.fits) if {x[:1] for x in ft.X} == idx]
            ctx.check("a classifier of the other folds", len(hit) == 1)
            if len(hit) != 1:
                return None
            model[f, l] = hit[0]
    return model


def column(ctx, Mo, m, row, a):
    """Probability of action a under classifier m (zero if never seen)."""
    seen = sorted({int(v) for v in Mo.fits[m].y})
    if a not in seen:
        return 0.0
    return Mo.proba(m, row, len(seen))[seen.index(a)]


@harness(
    cases=product(n=[2], k=[2, 3], L=[1], cv=[1, 2], pos=["none", "given"]) + product(n=[3], k=[2], L=[2], cv=[1], pos=["given"]),
    thorough=product(n=[3], k=[3], L=[1], cv=[1], pos=["none"]),
)
def propensities(ctx, n, k, L, cv, pos):
    act = ctx.ints("action", n, k)
    position = ctx.ints("position", n, L) if pos == "given" else None
    posn = [int(p) for p in position] if position is not None else [0] * n
    if set(posn) != set(range(L)):
        ctx.assume(False)
    cx = [(5.0 + i,) for i in range(n)]
    Mo = make_model(ctx, "classifier", "clf")
    est = PropensityScoreEstimator(base_model=Mo(), n_actions=k, len_list=L, calibration_cv=cv)
    how = ctx.pick("entry point", ["fit then predict", "fit_predict"])
    kw = dict(context=ctx.arr(cx), action=act, position=position)
    if how == "fit_predict":
        got = est.fit_predict(**kw)
    else:
        est.fit(**kw)
        got = est.predict(**kw)
    ctx.check("one classifier per position", len(Mo.fits) == L)
    model = {}
    for l in range(L):
        idx = {cx[i]: i for i in range(n) if posn[i] == l}
        hit = [m for m, f in enumerate(Mo.fits) if len(f.X) == len(idx) and set(f.X) == set(idx)]
        ctx.check("the position's rounds", len(hit) == 1)
        if len(hit) != 1:
            return
        model[l] = hit[0]
        f = Mo.fits[hit[0]]
        ctx.check("calibrated on request", f.cv == (cv if cv > 1 else None))
        ctx.check("predicts the logged action", all(int(y) == act[idx[x]] for x, y in zip(f.X, f.y)))
    want = [column(ctx, Mo, model[posn[i]], cx[i], int(act[i])) for i in range(n)]
    ctx.eq("propensities", got, want)


@harness(cases=product(n=[3], k=[2, 3], L=[1], folds=[2, 3]) + product(n=[4], k=[2], L=[2], folds=[2]), thorough=product(n=[4], k=[2], L=[1], folds=[2]))
def propensities_folds(ctx, n, k, L, folds):
    act = ctx.ints("action", n, k)
    pos = np.array([0, 0, 1, 1]) if L == 2 else np.zeros(n, dtype=int)
    cx = [(5.0 + i,) for i in range(n)]
    Mo = make_model(ctx, "classifier", "clf")
    est = PropensityScoreEstimator(base_model=Mo(), n_actions=k, len_list=L, calibration_cv=1)
    try:
        got = est.fit_predict(context=ctx.arr(cx), action=act, position=pos, n_folds=folds, random_state=3)
    except ValueError:
        bad = any(len({int(pos[i]) for i in range(n) if i not in f}) < L for f in ctx.folds)
        ctx.check("refused only without training data", bad)
        return
    model = match(ctx, Mo, n, L, pos, cx, folds)
    if model is None:
        return
    for m in model.values():
        f = Mo.fits[m]
        ctx.check("predicts the logged action", all(int(y) == act[cx.index(x)] for x, y in zip(f.X, f.y)))
    fold_of = {i: f for f in ctx.folds for i in f}
    want = [column(ctx, Mo, model[fold_of[i], int(pos[i])], cx[i], int(act[i])) for i in range(n)]
    ctx.eq("propensities", got, want)


@harness(
    cases=product(which=["iw"], n=[3], k=[2], L=[1], folds=[2, 3], method=["raw", "sample"])
    + product(which=["ps"], n=[3], k=[2, 3], L=[1], folds=[2, 3], method=["raw"])
    + product(which=["iw", "ps"], n=[4], k=[2], L=[2], folds=[2], method=["raw"]),
)
def performance(ctx, which, n, k, L, folds, method):
    """On request, the labels and predictions of the held-out rounds of each fold are kept."""
    act = np.arange(n) % k if which == "iw" else ctx.ints("action", n, k)
    pos = np.array([0, 0, 1, 1]) if L == 2 else np.zeros(n, dtype=int)
    cx = [(5.0 + i,) for i in range(n)]
    acx = feats(k, False)
    Mo = make_model(ctx, "classifier", "clf")
    kw = dict(context=ctx.arr(cx), action=act, position=pos, n_folds=folds, random_state=3, evaluate_model_performance=True)
    if which == "iw":
        if method == "raw":  # a base model's features are concrete
            c = np.array([[[0.125 * (i + 1) if l == 0 else 0.5 + 0.0625 * i] for l in range(L)] for i in range(n)]).reshape(n, 1, L)
            pi = ctx.arr(np.concatenate([c, 1 - c], axis=1))
        else:
            pi = np.swapaxes(ctx.simplex("pi", (n, L, k)), 1, 2).copy()
        est = ImportanceWeightEstimator(base_model=Mo(), n_actions=k, len_list=L, fitting_method=method, calibration_cv=1)
        kw["action_dist"] = pi
    else:
        est = PropensityScoreEstimator(base_model=Mo(), n_actions=k, len_list=L, calibration_cv=1)
    try:
        est.fit_predict(**kw)
    except ValueError:
        bad = any(len({int(pos[i]) for i in range(n) if i not in f}) < L for f in ctx.folds)
        ctx.check("refused only without training data", bad)
        return
    model = match(ctx, Mo, n, L, pos, cx, folds)
    if model is None:
        return
    ys, ps = est.eval_result["y"], est.eval_result["proba"]
    parts = [(f, l) for f in ctx.folds for l in range(L) if any(pos[i] == l for i in f)]
    ctx.check("an entry per fold and position", len(ys) == len(parts) and len(ps) == len(parts))
    if len(ys) != len(parts) or len(ps) != len(parts):
        return
    for (f, l), y, p in zip(parts, ys, ps):
        idx = [i for i in f if pos[i] == l]
        m = model[f, l]
        if which == "ps":
            ctx.check("labels", [int(v) for v in y] == [int(act[i]) for i in idx])
            c = len({int(v) for v in Mo.fits[m].y})
            ctx.check("a row per held-out round", np.shape(p) == (len(idx), c))
            ctx.eq("predictions", flat(p), [v for i in idx for v in Mo.proba(m, cx[i], c)])
        else:
            ctx.check("labels", [int(v) for v in y] == [0] * len(idx) + [1] * len(idx))
            ctx.check("a prediction per label", np.shape(p) == (2 * len(idx),))
            want = [Mo.proba(m, cx[i] + acx[act[i]], 2)[1] for i in idx]
            if method == "raw":
                want += [Mo.proba(m, cx[i] + tuple(float(pi[i, a, l]) for a in range(k)), 2)[1] for i in idx]
            ctx.eq("predictions", list(p)[: len(want)], want)


@harness(cases=product(which=["iw", "ps"], fault=["action", "position", "no data", "distribution", "shape", "length"]))
def refused(ctx, which, fault):
    n, k, L = 2, 2, 2
    if which == "ps" and fault in ("distribution", "shape"):
        return
    kw = dict(context=ctx.arr([[0.0], [1.0]]), action=np.array([0, 1]), position=np.array([0, 1]))
    if which == "iw":
        kw["action_dist"] = np.swapaxes(ctx.simplex("pi", (n, L, k)), 1, 2).copy()
    i = ctx.choice("row", 2)
    if fault == "distribution":
        x = ctx.real("bad", lo=0, hi=2)
        ctx.assume(abs(x - kw["action_dist"][i, 0, 0]) > 1e-3)
        kw["action_dist"][i, 0, 0] = x
    elif fault == "shape":
        kw["action_dist"] = kw["action_dist"][:, :, :1]
    elif fault == "position":
        kw["position"][i] = 2
    elif fault == "action":
        kw["action"][i] = ctx.pick("which", [-1, 2])
    elif fault == "length":
        kw["context"] = ctx.arr([[0.0]])
    else:
        kw["position"][:] = i
    Mo = make_model(ctx, "classifier", "clf")
    for entry in ("fit", "fit_predict"):
        cls = ImportanceWeightEstimator if which == "iw" else PropensityScoreEstimator
        est = cls(base_model=Mo(), n_actions=k, len_list=L, calibration_cv=1)
        ctx.raises(entry, lambda: getattr(est, entry)(**kw))


@harness(cases=[dict(n=130, k=290, L=2, folds=1), dict(n=50, k=140, L=1, folds=3)])
def many_actions(ctx, n, k, L, folds):
    """Many rounds and actions: fixed data, an arbitrary classifier."""
    ctx.fixed_choices = True
    act = np.array([(i * 7 + 3) % k for i in range(n)])
    act[-1] = k - 1
    pos = np.array([(i // 3) % L for i in range(n)])
    cx = [(5.0 + i,) for i in range(n)]
    Mo = make_model(ctx, "classifier", "clf", wide=True)
    est = PropensityScoreEstimator(base_model=Mo(), n_actions=k, len_list=L, calibration_cv=1)
    got = est.fit_predict(context=ctx.arr(cx), action=act, position=pos, n_folds=folds, random_state=3)
    model, fold_of = fitted(ctx, Mo, n, L, pos, cx, folds)
    if model is None:
        return
    for m in model.values():
        f = Mo.fits[m]
        ctx.check("predicts the logged action", all(int(y) == act[cx.index(x)] for x, y in zip(f.X, f.y)))
    ctx.eq("propensities", got, [column(ctx, Mo, model[fold_of[i], int(pos[i])], cx[i], int(act[i])) for i in range(n)])
    del ctx.folds[:]
    Mw = make_model(ctx, "classifier", "clfw", wide=True)
    pi = np.zeros((n, k, L))
    for i in range(n):
        for l in range(L):
            pi[i, (i * 5 + l) % k, l] = 1.0
    est = ImportanceWeightEstimator(base_model=Mw(), n_actions=k, len_list=L, fitting_method="raw", calibration_cv=1)
    got = est.fit_predict(context=ctx.arr(cx), action=act, position=pos, action_dist=ctx.arr(pi), n_folds=folds, random_state=3)
    model, fold_of = fitted(ctx, Mw, n, L, pos, cx, folds)
    if model is None:
        return
    acx = feats(k, False)
    for (f, l), m in model.items():
        idx = [i for i in range(n) if (folds == 1 or i not in f) and pos[i] == l]
        f = Mw.fits[m]
        rows = sorted((x, int(y)) for x, y in zip(f.X, f.y))
        ctx.check("logged and evaluation pairs", rows == sorted([(cx[i] + acx[act[i]], 0) for i in idx] + [(cx[i] + tuple(float(v) for v in pi[i, :, l]), 1) for i in idx]))
    ctx.eq("weights", got, [odds(Mw.proba(model[fold_of[i], int(pos[i])], cx[i] + acx[act[i]], 2)[1]) for i in range(n)])


def fitted(ctx, Mo, n, L, pos, cx, folds):
    if folds > 1:
        model = match(ctx, Mo, n, L, pos, cx, folds)
        return model, {i: f for f in ctx.folds for i in f}
    model = {}
    for l in range(L):
        hit = [m for m, f in enumerate(Mo.fits) if {x[:1] for x in f.X} == {cx[i] for i in range(n) if pos[i] == l}]
        ctx.check("a classifier per position", len(hit) == 1 and len(Mo.fits) == L)
        if len(hit) != 1:
            return None, None
        model[None, l] = hit[0]
    return model, {i: None for i in range(n)}
