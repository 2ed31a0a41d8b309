"""P28: neural learners climb the estimate they are told to climb."""
from symnp.api import *
from symnp import storch
from checks.common import flat, ranked
from obp.policy import NNPolicyLearner
from obp.policy import ContinuousNNPolicyLearner
from obp.policy.offline import QFuncEstimator
from obp.policy.offline_continuous import QFuncEstimatorForContinuousAction

BOUNDS = (
    "2-3 logged rounds, 2-3 actions, 1-2 passes over the data, batches of 1-3, every split into training and validation data; rewards, "
    "propensities, network outputs, step sizes and regularisation strengths arbitrary reals; the networks are arbitrary functions of the context; plus the automatic batch size at 203 rounds"
)
TOL = 2e-4
OBJ = ["dm", "ipw", "dr", "snipw", "ipw-os", "ipw-subgauss"]


def rows_of(x):
    return [int(v[0]) for v in storch.values_of(x)]


def table(ctx, values, seen=None):
    """A network whose output for context c is row c of its parameters."""

    def fn(net, ps, x):
        i = rows_of(x)
        if seen is not None:
            seen.append((net.training, i))
        out = ps[0][i]
        return out if ctx.sym else out.float()

    return storch.make_net(ctx, fn, [values])


def line(ctx, values, seen=None):
    """A network of context and action: row c of its parameters is (offset, slope)."""

    def fn(net, ps, x):
        i = rows_of(x)
        if seen is not None:
            seen.append((net.training, i))
        p = ps[0][i]
        if not ctx.sym:
            p = p.float()
        return (p[:, 0] + p[:, 1] * x[:, -1]).unsqueeze(-1)

    return storch.make_net(ctx, fn, [values])


def num(ctx, x):
    """Settings are Python numbers."""
    return x if ctx.sym else float(x)


def contexts(ctx, cs):
    return ctx.arr([[float(c), 0.5] for c in cs])


def grads(net, shape):
    g = net.gradient()
    return np.zeros(shape) if g is None else g


def settings(ctx, **k):
    d = dict(solver="sgd", momentum=0.0, nesterovs_momentum=False, alpha=0.0, learning_rate_init=0.25, max_iter=1, shuffle=False, n_iter_no_change=1000)
    d.update(k)
    return d


def logged(ctx, n, k, C):
    act = ctx.ints("action", n, k)
    r = ctx.reals("reward", n, nice=(-2, 2))
    p = ctx.reals("pscore", n, lo=0, hi=1, lo_open=True, nice=(0.2, 1))
    return act, r, p


def slope(ctx, obj, pi, a, r, p, q, lam):
    """Derivative of a round's estimate with respect to each action's probability."""
    k = len(pi)
    w = pi[a] / p
    out = [0.0] * k
    if obj in ("dm", "dr"):
        out = [q[j] for j in range(k)]
    if obj == "ipw":
        out[a] = r / p
    elif obj == "dr":
        out[a] = out[a] + (r - q[a]) / p
    elif obj == "snipw":
        out[a] = (r - lam) / p
    elif obj == "ipw-os":  # lam * w / (w^2 + lam)
        out[a] = lam * (lam - w * w) / ((w * w + lam) * (w * w + lam)) * r / p
    elif obj == "ipw-subgauss":  # w / (1 - lam + lam * w)
        d = 1.0 - lam + lam * w
        out[a] = (1.0 - lam) / (d * d) * r / p
    return out


def learner(ctx, obj, k, C, net, qnet=None, lam=None, **kw):
    if obj in ("dm", "dr"):
        kw["q_func_estimator_hyperparams"] = settings(ctx)
    L = NNPolicyLearner(n_actions=k, dim_context=2, off_policy_objective=obj, lambda_=lam, **settings(ctx, **kw))
    L.nn_model = net
    if qnet is not None:
        L.q_func_estimator.nn_model = qnet
    return L


@harness(
    cases=product(obj=OBJ, n=[2], k=[2], cs=[(0, 1)], ps=["given"])
    + product(obj=["ipw", "dr", "dm"], n=[2], k=[3], cs=[(0, 1)], ps=["given"])
    + product(obj=OBJ, n=[1], k=[2], cs=[(0,)], ps=["none"])
    + product(obj=["ipw", "dr"], n=[3], k=[2], cs=[(0, 1, 0)], ps=["given"]),
    thorough=product(obj=OBJ, n=[3], k=[3], cs=[(0, 1, 2), (1, 0, 1)], ps=["given"]), ints=[("reward",), ("reward", "pscore")],
)
def objective(ctx, obj, n, k, cs, ps):
    """The training direction is the slope of the chosen estimate."""
    C = max(cs) + 1
    act, r, p = logged(ctx, n, k, C)
    pi = ctx.reals("pi", (C, k), lo=0, hi=1, lo_open=True, hi_open=True, nice=(0.2, 0.8))
    lam = {"snipw": lambda: ctx.real("lam", lo=0, nice=(0, 2)), "ipw-os": lambda: ctx.real("lam", lo=0, lo_open=True, nice=(0.5, 10)), "ipw-subgauss": lambda: ctx.real("lam", lo=0, hi=1, nice=(0.1, 0.9))}.get(obj, lambda: None)()
    if lam is not None:
        lam = num(ctx, lam)
    net, qnet = table(ctx, pi), None
    if obj in ("dm", "dr"):
        q = ctx.reals("q", (C, k), nice=(-2, 2))
        qnet = table(ctx, q)
    L = learner(ctx, obj, k, C, net, qnet, lam)
    L.fit(context=contexts(ctx, cs), action=act, reward=r, pscore=p if ps == "given" else None)
    if ps == "none":
        p = [1.0 / k] * n
    qv = qnet.values() if qnet else None
    want = [[0.0] * k for _ in range(C)]
    for i, c in enumerate(cs):
        d = slope(ctx, obj, [pi[c, j] for j in range(k)], int(act[i]), r[i], p[i], [qv[c, j] for j in range(k)] if qnet else None, lam)
        for j in range(k):
            want[c][j] = want[c][j] + d[j] / float(n)
    got = grads(net, (C, k))
    ctx.eq("gradient", flat(got), [-want[c][j] for c in range(C) for j in range(k)], tol=TOL)
    after = net.values()
    ctx.eq("the step goes uphill", flat(after), [pi[c, j] + 0.25 * want[c][j] for c in range(C) for j in range(k)], tol=TOL)
    if qnet:
        wq = [[0.0] * k for _ in range(C)]
        for i, c in enumerate(cs):
            a = int(act[i])
            wq[c][a] = wq[c][a] + (r[i] - q[c, a]) * 2.0 / float(n)
        ctx.eq("reward model", flat(qv), [q[c, j] + 0.25 * wq[c][j] for c in range(C) for j in range(k)], tol=TOL)


@harness(cases=product(reg=["policy", "variance"], n=[2], obj=["ipw"]) + product(reg=["both"], n=[2], obj=["snipw"]) + product(reg=["policy"], n=[3], obj=["ipw"]), thorough=product(reg=["both", "variance"], n=[3], obj=["ipw", "ipw-subgauss"]))
def regularisation(ctx, reg, n, obj):
    k = 2
    act, r, p = logged(ctx, n, k, n)
    pi = ctx.reals("pi", (n, k), lo=0, hi=1, lo_open=True, hi_open=True, nice=(0.2, 0.8))
    lam = {"snipw": 0.5, "ipw-subgauss": 0.25}.get(obj)
    al = num(ctx, ctx.real("policy_reg", lo=0, nice=(0, 2))) if reg in ("policy", "both") else 0.0
    be = num(ctx, ctx.real("var_reg", lo=0, nice=(0, 2))) if reg in ("variance", "both") else 0.0
    net = table(ctx, pi)
    L = learner(ctx, obj, k, n, net, None, lam, policy_reg_param=al, var_reg_param=be)
    L.fit(context=contexts(ctx, range(n)), action=act, reward=r, pscore=p)
    got = grads(net, (n, k))
    A_ = [int(a) for a in act]
    w = [pi[i, A_[i]] / p[i] for i in range(n)]
    sl = [slope(ctx, obj, [pi[i, j] for j in range(k)], A_[i], r[i], p[i], None, lam)[A_[i]] for i in range(n)]
    # per-round terms whose slopes are the estimate's slopes
    s = [sl[i] * pi[i, A_[i]] * np.log(pi[i, A_[i]]) for i in range(n)]
    m = mean(s)
    want = []
    for i in range(n):
        for j in range(k):
            if j != A_[i]:
                want.append(0.0)
                continue
            g = -sl[i] / float(n)
            g = g + al * (1.0 / p[i]) / total(w)
            g = g + be * 2.0 * (s[i] - m) * sl[i] / float(n - 1)
            want.append(g)
    ctx.eq("gradient", flat(got), want, tol=TOL)


@harness(cases=product(which=["policy", "q", "cont", "contq"], n=[2], bs=[1, 2, "auto"], it=[1], shuffle=[False, True]) + product(which=["policy", "q", "cont", "contq"], n=[3], bs=[2], it=[2, 3], shuffle=[False]) + product(which=["policy", "q", "cont", "contq"], n=[3], bs=[2], it=[2], shuffle=[True]), thorough=product(which=["policy", "q"], n=[3], bs=[2], it=[3], shuffle=[True]))
def passes(ctx, which, n, bs, it, shuffle):
    """Every pass visits every round once, in batches of the given size."""
    k, seen = 2, []
    kw = settings(ctx, batch_size=bs, max_iter=it, shuffle=shuffle, learning_rate_init=1e-3)
    cx = contexts(ctx, range(n))
    r = ctx.reals("reward", n, nice=(-1, 1)) if it == 1 else ctx.arr([0.5, -0.25, 0.75][:n])
    p = ctx.reals("pscore", n, lo=0, hi=1, lo_open=True, nice=(0.5, 1)) if it == 1 else ctx.arr([0.5, 0.75, 0.25][:n])
    if which in ("policy", "q"):
        act = ctx.ints("action", n, k) if it == 1 else np.array([0, 1, 0][:n])
        v = ctx.reals("pi", (n, k), lo=0, hi=1, lo_open=True, hi_open=True, nice=(0.3, 0.7)) if it == 1 else ctx.arr([[0.25, 0.75]] * n)
        net = table(ctx, v, seen)
    else:
        cols = 1 if which == "cont" else 2
        act = ctx.reals("action", n, nice=(-1, 1)) if it == 1 else ctx.arr([0.25, -0.5, 1.0][:n])
        v = ctx.reals("v", (n, cols), nice=(-1, 1)) if it == 1 else ctx.arr([[0.5, -0.25][:cols]] * n)
        net = table(ctx, v, seen) if which == "cont" else line(ctx, v, seen)
    if which == "policy":
        L = NNPolicyLearner(n_actions=k, dim_context=2, off_policy_objective="ipw", **kw)
    elif which == "q":
        L = QFuncEstimator(n_actions=k, dim_context=2, **kw)
    elif which == "cont":
        L = ContinuousNNPolicyLearner(dim_context=2, pg_method="ipw", bandwidth=1.0, **kw)
    else:
        L = QFuncEstimatorForContinuousAction(dim_context=2, **kw)
    L.nn_model = net
    if which in ("policy", "cont"):
        L.fit(context=cx, action=act, reward=r, pscore=p)
    else:
        L.fit(context=cx, action=act, reward=r)
    b = n if bs == "auto" else bs
    per = -(-n // b)
    ctx.check("number of steps", len(seen) == it * per)
    for e in range(it):
        part = seen[e * per:(e + 1) * per]
        ctx.check("training mode", all(m for m, _ in part))
        ctx.check("batch sizes", [len(i) for _, i in part] == [b] * (n // b) + ([n % b] if n % b else []))
        ctx.check("every round once", sorted(i for _, x in part for i in x) == list(range(n)))
    if which == "policy" and it == 1:
        after = net.values()
        for i in range(n):
            a = int(act[i])
            size = b if not shuffle else [len(x) for _, x in seen if i in x][0]
            for j in range(k):
                ctx.eq("step", after[i, j], v[i, j] + (1e-3 * r[i] / p[i] / float(size) if j == a else 0.0), tol=1e-5)


@harness(cases=product(which=["policy", "q", "cont", "contq"], n=[2, 3], frac=[0.1, 0.7]))
def validation(ctx, which, n, frac):
    """Rounds held out for validation do not change the network."""
    k, seen = 2, []
    kw = settings(ctx, early_stopping=True, validation_fraction=frac)
    cx = contexts(ctx, range(n))
    r = ctx.reals("reward", n, nice=(-1, 1))
    p = ctx.reals("pscore", n, lo=0, hi=1, lo_open=True, nice=(0.5, 1))
    if which in ("policy", "q"):
        act = ctx.ints("action", n, k)
        v = ctx.reals("pi", (n, k), lo=0, hi=1, lo_open=True, hi_open=True, nice=(0.3, 0.7))
        net = table(ctx, v, seen)
    else:
        act = ctx.reals("action", n, nice=(-1, 1))
        v = ctx.reals("v", (n, 1 if which == "cont" else 2), nice=(-1, 1))
        net = table(ctx, v, seen) if which == "cont" else line(ctx, v, seen)
    if which == "policy":
        L = NNPolicyLearner(n_actions=k, dim_context=2, off_policy_objective="ipw", **kw)
    elif which == "q":
        L = QFuncEstimator(n_actions=k, dim_context=2, **kw)
    elif which == "cont":
        L = ContinuousNNPolicyLearner(dim_context=2, pg_method="ipw", bandwidth=1.0, **kw)
    else:
        L = QFuncEstimatorForContinuousAction(dim_context=2, **kw)
    L.nn_model = net
    if which in ("policy", "cont"):
        L.fit(context=cx, action=act, reward=r, pscore=p)
    else:
        L.fit(context=cx, action=act, reward=r)
    nv = max(int(n * frac), 1)
    tr = sorted(i for m, x in seen if m for i in x)
    va = sorted({i for m, x in seen if not m for i in x})
    ctx.check("sizes", len(tr) == n - nv and len(va) == nv)
    ctx.check("held out", sorted(tr + va) == list(range(n)))
    after = net.values()
    for i in va:
        ctx.eq("held out rounds leave the network alone", flat(after[i]), flat(v[i]), tol=1e-6)
    if which == "policy":
        for i in tr:
            a = int(act[i])
            ctx.eq("training rounds", after[i, a], v[i, a] + 0.25 * r[i] / p[i] / float(len(tr)), tol=TOL)
    one = contexts(ctx, [0])
    kw1 = dict(pscore=p[:1]) if which in ("policy", "cont") else {}
    ctx.raises("too few rounds", lambda: L.fit(context=one, action=act[:1], reward=r[:1], **kw1))


@harness(cases=product(k=[2], m=[1, 2], L=[1, 2]) + product(k=[3], m=[1], L=[1, 2]), thorough=product(k=[3], m=[2], L=[1, 2]))
def acts(ctx, k, m, L):
    pi = ctx.reals("pi", (m, k), lo=0, hi=1, lo_open=True, hi_open=True, nice=(0.2, 0.8))
    seen = []
    net = table(ctx, pi, seen)
    P = NNPolicyLearner(n_actions=k, len_list=L, dim_context=2, off_policy_objective="ipw")
    P.nn_model = net
    new = contexts(ctx, range(m))
    pr = P.predict_proba(context=new)
    ctx.check("shape", np.shape(pr) == (m, k, 1))
    ctx.eq("probabilities are the network's", flat(pr), [pi[i, j] for i in range(m) for j in range(k)], tol=1e-6)
    d = P.predict(context=new)
    ctx.check("shape of choices", np.shape(d) == (m, k, 1))
    for i in range(m):
        ones = [j for j in range(k) if not is_sym(d[i, j, 0]) and float(d[i, j, 0]) == 1.0]
        ctx.check("one choice", len(ones) == 1 and all(float(d[i, j, 0]) == 0.0 for j in range(k) if j not in ones))
        for j in range(k):
            if ones:
                ctx.check("best action", pi[i, j] <= pi[i, ones[0]] + 1e-6)
    tau = num(ctx, ctx.real("tau", lo=0, lo_open=True, nice=(0.5, 2)))
    start = len(ctx.calls)
    s = P.sample_action(context=new, tau=tau, random_state=3)
    gs = [x for c in ctx.calls[start:] if c[1] == "gumbel" for x in flat(c[3])]
    ctx.check("one number per context and action", len(gs) == m * k)
    ctx.check("shape of samples", np.shape(s) == (m, k, L))
    for i in range(m):
        sc = [pi[i, j] / tau + gs[i * k + j] for j in range(k)]
        sel = []
        for l in range(L):
            hit = [j for j in range(k) if not is_sym(s[i, j, l]) and float(s[i, j, l]) == 1.0]
            ctx.check("one action per position", len(hit) == 1 and all(float(s[i, j, l]) == 0.0 for j in range(k) if j not in hit))
            if len(hit) != 1:
                return
            sel.append(hit[0])
        ranked(ctx, "sampled ranking", sel, sc, 1e-5)
    ctx.check("evaluation mode", all(not m_ for m_, _ in seen))
    bad = ctx.arr([[0.0]])
    for f in (P.predict, P.predict_proba, P.sample_action):
        ctx.raises("wrong number of features", lambda: f(context=bad))
        ctx.raises("not a matrix", lambda: f(context=bad[0]))


# -- continuous actions ---------------------------------------------------------------
def kernel(u):
    return np.exp(u * u * -0.5) / (2 * np.pi) ** 0.5


@harness(
    cases=product(pg=["ipw", "dr", "dpg"], n=[1, 2], space=[False]) + product(pg=["ipw", "dr", "dpg"], n=[1], space=[True]),
    thorough=product(pg=["ipw", "dr", "dpg"], n=[2, 3], space=[True]), ints=[("reward",), ("action",), ("reward", "pscore")],
)
def continuous(ctx, pg, n, space):
    x = ctx.reals("action", n, nice=(-1, 1))
    r = ctx.reals("reward", n, nice=(-2, 2))
    p = ctx.reals("pscore", n, lo=0, lo_open=True, nice=(0.2, 1))
    h = num(ctx, ctx.real("bandwidth", lo=0, lo_open=True, nice=(0.5, 2))) if pg != "dpg" else None
    mu = ctx.reals("mu", (n, 1), nice=(-1.5, 1.5))
    lo, hi = (-1.0, 1.0) if space else (None, None)
    net, qnet = table(ctx, mu), None
    kw = settings(ctx)
    if pg != "ipw":
        q = ctx.reals("q", (n, 2), nice=(-1, 1))
        qnet = line(ctx, q)
        kw["q_func_estimator_hyperparams"] = settings(ctx)
    L = ContinuousNNPolicyLearner(dim_context=2, pg_method=pg, bandwidth=h, output_space=(lo, hi) if space else None, **kw)
    L.nn_model = net
    if qnet:
        L.q_func_estimator.nn_model = qnet
    L.fit(context=contexts(ctx, range(n)), action=x, reward=r, pscore=p)
    qv = qnet.values() if qnet else None
    want = []
    for i in range(n):
        y, inside = mu[i, 0], True
        if space:
            ctx.assume((y < lo - 0.01) | (y > hi + 0.01) | ((y > lo + 0.01) & (y < hi - 0.01)))
            inside = (y > lo) & (y < hi)
            y = smin(smax(y, lo), hi)
        d = 0.0
        if qnet:
            qh, dq = qv[i, 0] + qv[i, 1] * y, qv[i, 1]
        if pg != "dpg":
            u = (y - x[i]) / h
            K = kernel(u) / h
            dK = K * u / h * -1.0
        if pg == "dpg":
            d = dq
        elif pg == "ipw":
            d = dK * r[i] / p[i]
        else:
            d = dK * (r[i] - qh) / p[i] - K * dq / p[i] + dq
        d = d / float(n)
        want.append(where(inside, d, 0.0) if space else d)
    got = grads(net, (n, 1))
    ctx.eq("gradient", flat(got), [w * -1.0 for w in want], tol=TOL)
    ctx.eq("the step goes uphill", flat(net.values()), [mu[i, 0] + 0.25 * want[i] for i in range(n)], tol=TOL)
    if qnet:
        e = [q[i, 0] + q[i, 1] * x[i] - r[i] for i in range(n)]
        wq = []
        for i in range(n):
            wq += [q[i, 0] - 0.25 * 2.0 * e[i] / float(n), q[i, 1] - 0.25 * 2.0 * e[i] * x[i] / float(n)]
        ctx.eq("reward model", flat(qv), wq, tol=TOL)


@harness(cases=product(space=[None, (-1, 1), (0.5, 2.0)], m=[1, 2]))
def continuous_acts(ctx, space, m):
    mu = ctx.reals("mu", (m, 1), nice=(-2, 2))
    seen = []
    P = ContinuousNNPolicyLearner(dim_context=2, pg_method="ipw", bandwidth=0.5, output_space=space)
    P.nn_model = table(ctx, mu, seen)
    got = P.predict(context=contexts(ctx, range(m)))
    ctx.check("shape", np.shape(got) == (m,))
    want = [mu[i, 0] if space is None else smin(smax(mu[i, 0], float(space[0])), float(space[1])) for i in range(m)]
    ctx.eq("actions are the network's, inside the output space", flat(got), want, tol=1e-6)
    ctx.check("evaluation mode", all(not m_ for m_, _ in seen))
    bad = ctx.arr([[0.0]])
    ctx.raises("wrong number of features", lambda: P.predict(context=bad))
    ctx.raises("not a matrix", lambda: P.predict(context=bad[0]))


# -- construction -----------------------------------------------------------------------
def leaves(m):
    kids = list(m.children()) if hasattr(m, "children") else []
    return [m] if not kids else [x for c in kids for x in leaves(c)]


KINDS = ["NNPolicyLearner", "QFuncEstimator", "ContinuousNNPolicyLearner", "QFuncEstimatorForContinuousAction"]


def make(kind, k=3, dim=2, **kw):
    if kind == "NNPolicyLearner":
        return NNPolicyLearner(**dict(dict(n_actions=k, dim_context=dim, off_policy_objective="ipw"), **kw))
    if kind == "QFuncEstimator":
        return QFuncEstimator(**dict(dict(n_actions=k, dim_context=dim), **kw))
    if kind == "ContinuousNNPolicyLearner":
        return ContinuousNNPolicyLearner(**dict(dict(dim_context=dim, pg_method="ipw", bandwidth=1.0), **kw))
    return QFuncEstimatorForContinuousAction(**dict(dict(dim_context=dim), **kw))


ACT = {"identity": "Identity", "logistic": "Sigmoid", "tanh": "Tanh", "relu": "ReLU", "elu": "ELU"}


@harness(cases=product(kind=KINDS, activation=list(ACT), hidden=[(), (3,), (4, 5)]))
def architecture(ctx, kind, activation, hidden):
    k = ctx.pick("k", [2, 4])
    dim = ctx.pick("dim", [1, 3])
    M = make(kind, k, dim, activation=activation, hidden_layer_size=hidden)
    ls = leaves(M.nn_model)
    size = dim + (1 if kind == "QFuncEstimatorForContinuousAction" else 0)
    want = []
    for h in hidden:
        want += [("Linear", size, h), (ACT[activation],)]
        size = h
    want.append(("Linear", size, k if kind in KINDS[:2] else 1))
    if kind == "NNPolicyLearner":
        want.append(("Softmax", 1))
    got = []
    for l in ls:
        t = type(l).__name__
        got.append((t, l.in_features, l.out_features) if t == "Linear" else (t, l.dim % 2) if t == "Softmax" else (t,))
    ctx.check("layers", got == want)


@harness(cases=product(kind=KINDS, solver=["sgd", "adam", "adagrad"]))
def optimisers(ctx, kind, solver):
    lr = num(ctx, ctx.real("lr", lo=0, lo_open=True, nice=(0.01, 1)))
    al = num(ctx, ctx.real("alpha", lo=0, nice=(0, 1)))
    b1 = num(ctx, ctx.real("beta_1", lo=0, hi=1, hi_open=True, nice=(0.1, 0.9)))
    b2 = num(ctx, ctx.real("beta_2", lo=0, hi=1, hi_open=True, nice=(0.1, 0.9)))
    ep = num(ctx, ctx.real("epsilon", lo=0, lo_open=True, nice=(0.01, 1)))
    mo = num(ctx, ctx.real("momentum", lo=0, hi=1, lo_open=True, hi_open=True, nice=(0.1, 0.9)))
    nest = bool(ctx.pick("nesterov", [False, True]))
    M = make(kind, 2, 2, solver=solver, learning_rate_init=lr, alpha=al, beta_1=b1, beta_2=b2, epsilon=ep, momentum=mo, nesterovs_momentum=nest, max_iter=1, shuffle=False)
    cols = {KINDS[0]: 2, KINDS[1]: 2, KINDS[2]: 1, KINDS[3]: 2}[kind]
    v = [[0.25, 0.75][:cols], [0.5, 0.5][:cols]]
    net = line(ctx, ctx.arr(v)) if kind == KINDS[3] else table(ctx, ctx.arr(v))
    M.nn_model = net
    cont = kind in KINDS[2:]
    act = ctx.arr([0.5, -0.5]) if cont else np.array([0, 1])
    kw = dict(pscore=ctx.arr([0.5, 0.5])) if kind in (KINDS[0], KINDS[2]) else {}
    ctx.optims = []
    M.fit(context=contexts(ctx, [0, 1]), action=act, reward=ctx.arr([1.0, 2.0]), **kw)
    ctx.check("one optimiser", len(ctx.optims) == 1)
    if len(ctx.optims) != 1:
        return
    name, o, ps, _ = ctx.optims[0]
    ctx.check("kind", name.lower() == solver)
    mine = list(net.parameters())
    ctx.check("of the network's parameters", len(ps) == len(mine) and all(a is b for a, b in zip(ps, mine)))
    ctx.eq("learning rate", o["lr"], lr)
    ctx.eq("L2 penalty", o.get("weight_decay", 0.0), al)
    if solver == "sgd":
        ctx.eq("momentum", o.get("momentum", 0.0), mo)
        ctx.check("Nesterov", bool(o.get("nesterov", False)) == nest)
    else:
        ctx.eq("epsilon", o["eps"], ep)
    if solver == "adam":
        ctx.eq("betas", list(o["betas"]), [b1, b2])


BAD = [
    ("dim_context", [0, -1, 1.5, None, "2"]),
    ("hidden_layer_size", [(0,), (3, -1), 3, [3], (2.5,)]),
    ("activation", ["sigmoid", None, 1]),
    ("solver", ["SGD", None, 1]),
    ("alpha", [-0.1, "1", None]),
    ("batch_size", [0, -1, 1.5, "all"]),
    ("learning_rate_init", [0.0, -0.1, "1"]),
    ("max_iter", [0, -1, 1.5]),
    ("shuffle", [None, 1, "yes"]),
    ("tol", [0.0, -1.0, "0"]),
    ("momentum", [-0.1, 1.1, "0"]),
    ("nesterovs_momentum", [None, 1]),
    ("early_stopping", [None, 1]),
    ("validation_fraction", [0.0, -0.5, 1.5]),
    ("beta_1", [-0.1, 1.5]),
    ("beta_2", [-0.1, 1.5]),
    ("epsilon", [-0.1]),
    ("n_iter_no_change", [0, -1, 1.5]),
]


@harness(cases=product(kind=KINDS))
def refused(ctx, kind):
    name, vals = BAD[ctx.choice("setting", len(BAD))]
    for v in vals:
        ctx.raises(f"{name}={v!r}", lambda: make(kind, **{name: v}))
    if kind == "NNPolicyLearner":
        for o in (None, "IPW", "mips", ""):
            ctx.raises(f"objective {o!r}", lambda: make(kind, off_policy_objective=o))
        for nm in ("policy_reg_param", "var_reg_param"):
            ctx.raises(nm, lambda: make(kind, **{nm: -0.1}))
        for o, v in (("ipw-subgauss", -0.1), ("ipw-subgauss", 1.1), ("snipw", -0.1), ("ipw-os", -1.0), ("ipw-os", "1")):
            ctx.raises(f"{o} lambda {v!r}", lambda: make(kind, off_policy_objective=o, lambda_=v))
        ctx.raises("hyperparameters", lambda: make(kind, off_policy_objective="dr", q_func_estimator_hyperparams=[1]))
    if kind == "ContinuousNNPolicyLearner":
        for o in (None, "IPW", ""):
            ctx.raises(f"method {o!r}", lambda: make(kind, pg_method=o))
        for b in (None, 0.0, -1.0, "1"):
            ctx.raises(f"bandwidth {b!r}", lambda: make(kind, bandwidth=b))
        for o in ([0, 1], ("a", 1)):
            ctx.raises(f"output space {o!r}", lambda: make(kind, output_space=o))
    M = make(kind)
    kw = dict(pscore=ctx.arr([0.5, 0.5])) if kind in (KINDS[0], KINDS[2]) else {}
    act = ctx.arr([0.5, -0.5]) if kind in KINDS[2:] else np.array([0, 1])
    ctx.raises("wrong number of features", lambda: M.fit(context=ctx.arr([[0.0], [1.0]]), action=act, reward=ctx.arr([1.0, 2.0]), **kw))
    good = contexts(ctx, [0, 1])
    ctx.raises("mismatched rewards", lambda: M.fit(context=good, action=act, reward=ctx.arr([1.0]), **kw), types=(Exception,))
    ctx.raises("mismatched actions", lambda: M.fit(context=good, action=act[:1], reward=ctx.arr([1.0, 2.0]), **kw), types=(Exception,))
    if kw:
        ctx.raises("propensity of zero", lambda: M.fit(context=good, action=act, reward=ctx.arr([1.0, 2.0]), pscore=ctx.arr([0.5, 0.0])))
        ctx.raises("mismatched propensities", lambda: M.fit(context=good, action=act, reward=ctx.arr([1.0, 2.0]), pscore=ctx.arr([0.5])))


@harness(cases=product(which=["policy", "q", "cont", "contq"], n=[203], bs=["auto"]))
def large_batches(ctx, which, n, bs):
    """Batches of automatic size hold up to 200 rounds."""
    k, C, seen = 2, 3, []
    kw = settings(ctx, batch_size=bs, learning_rate_init=1e-3)
    cs = [(i * 2 + i // 50) % C for i in range(n)]
    i = np.arange(n)
    x = 0.5 if which == "cont" else ctx.real("value", lo=0.3, hi=0.7)
    r, p = ctx.arr((i % 5) / 4.0 - 0.5), ctx.arr((i % 3 + 1) / 4.0)
    cols = {"policy": 2, "q": 2, "cont": 1, "contq": 2}[which]
    v = [[x] * cols for _ in range(C)]
    net = (line if which == "contq" else table)(ctx, A.build(v) if ctx.sym else np.array(v), seen)
    if which in ("policy", "q"):
        act = i % k
        L = NNPolicyLearner(n_actions=k, dim_context=2, off_policy_objective="ipw", **kw) if which == "policy" else QFuncEstimator(n_actions=k, dim_context=2, **kw)
    else:
        act = ctx.arr((i % 7) / 8.0)
        L = ContinuousNNPolicyLearner(dim_context=2, pg_method="ipw", bandwidth=1.0, **kw) if which == "cont" else QFuncEstimatorForContinuousAction(dim_context=2, **kw)
    L.nn_model = net
    L.fit(context=contexts(ctx, cs), action=act, reward=r, **(dict(pscore=p) if which in ("policy", "cont") else {}))
    ctx.check("training mode", all(m for m, _ in seen))
    ctx.check("batches", [j for _, j in seen] == [cs[:200], cs[200:]])
    if which == "policy":
        # two steps: 200 rounds, then the remaining ones
        want = {}
        for a in range(k):
            for c in range(C):
                want[c, a] = x
        for part in (range(200), range(200, n)):
            step = {}
            for j in part:
                step[cs[j], j % k] = step.get((cs[j], j % k), 0.0) + ((j % 5) / 4.0 - 0.5) / ((j % 3 + 1) / 4.0) / len(part)
            for key, d in step.items():
                want[key] = want[key] + 1e-3 * d
        after = net.values()
        ctx.eq("steps", [after[c, a] for c in range(C) for a in range(k)], [want[c, a] for c in range(C) for a in range(k)], tol=1e-5)
