"""P24: logistic bandit policies choose by Bayesian logistic regression of each action's own rewards."""
from symnp.api import *
from checks.common import ctx_arr, flat, ranked
from obp.utils import sigmoid
from obp.policy import LogisticEpsilonGreedy, LogisticTS, LogisticUCB

BOUNDS = (
    "2-3 actions, 1-2 context dimensions, up to 4 updates, batches of 1-3, lists of 1-2; rewards, prior precision, exploration "
    "rates, random numbers and the optimiser's answers arbitrary reals, contexts from a fixed set"
)
ASSUMPTIONS = ["the numerical optimiser returns an arbitrary point (that it minimises the given loss is SciPy's part)", "exp and log are uninterpreted monotone functions with their algebraic laws"]
FIXED = [[1.0, 0.0], [0.5, -1.0], [0.0, 2.0], [-1.0, 1.5], [2.0, 1.0]]


def fexp(ctx, v):
    return np.exp(ctx_arr(ctx, [v]))[0]


def flog(ctx, v):
    return np.log(ctx_arr(ctx, [v]))[0]


def rates(ctx, zs):
    """The library's own logistic function (decided by P15)."""
    return [sigmoid(ctx_arr(ctx, [z]))[0] for z in zs]


class Posterior:
    """Diagonal Gaussian posterior of one action's coefficients."""

    def __init__(self, d, lam):
        self.m = [0.0] * d
        self.q = [lam] * d
        self.d = d

    def check_fit(self, ctx, call, data, fits):
        if fits:
            self.check_loss(ctx, call, data)
        self.m = [call["x"][i] for i in range(self.d)]
        ps = [1.0 / (1.0 + fexp(ctx, 0.0 - self.z(x))) for x, _ in data]
        self.q = [self.q[i] + total(p * (1.0 - p) * x[i] * x[i] for p, (x, _) in zip(ps, data)) for i in range(self.d)]

    def check_loss(self, ctx, call, data):
        w = call["w"]
        dot = lambda x: total(x[i] * w[i] for i in range(self.d))
        ys = [2.0 * r - 1.0 for _, r in data]
        f = 0.5 * total(self.q[i] * (w[i] - self.m[i]) ** 2 for i in range(self.d))
        f = f + total(flog(ctx, 1.0 + fexp(ctx, 0.0 - y * dot(x))) for (x, _), y in zip(data, ys))
        ctx.eq("penalised log loss of the action's new data", call["f"], f)
        if call["g"] is not None:
            g = [self.q[i] * (w[i] - self.m[i]) - total(y * x[i] / (1.0 + fexp(ctx, y * dot(x))) for (x, _), y in zip(data, ys)) for i in range(self.d)]
            ctx.eq("gradient of the loss", flat(call["g"]), g)

    def z(self, x):
        return total(x[i] * self.m[i] for i in range(self.d))


def run(ctx, pol, k, d, acts, batch, lam, fits=False):
    """Feeds the history; returns the next context and the posterior of each action.

    fits: arbitrary answers of the optimiser and checked losses; otherwise some fixed answers.
    """
    ctx.fixed_minima = not fits
    T = len(acts)
    rew = ctx.reals("r", T, lo=0, hi=1)
    xs = np.array(FIXED)[:, :d]
    post = [Posterior(d, lam) for _ in range(k)]
    buf = [[] for _ in range(k)]
    for t in range(T):
        n0 = len(ctx.minims)
        pol.update_params(action=acts[t], reward=rew[t], context=ctx.arr(xs[t : t + 1]))
        buf[acts[t]].append(([float(v) for v in xs[t]], rew[t]))
        new = ctx.minims[n0:]
        if (t + 1) % batch:
            ctx.check("no refresh inside a batch", not new)
            continue
        want = [a for a in range(k) if buf[a]]
        ctx.check("one fit per action with new data", len(new) == len(want))
        if len(new) != len(want):
            return None, None
        for call, a in zip(new, want):
            post[a].check_fit(ctx, call, buf[a], fits)
        buf = [[] for _ in range(k)]
    return ctx.arr(xs[T : T + 1]), post


def seq(ctx, acts, T, k):
    return [int(a) for a in ctx.ints("a", T, k)] if acts is None else acts


CASES = [
    dict(k=2, d=1, L=1, acts=None, T=2, batch=1),
    dict(k=2, d=2, L=2, acts=[0, 1, 0], T=3, batch=1),
    dict(k=2, d=2, L=1, acts=[0, 0, 1, 1], T=4, batch=2),
    dict(k=2, d=2, L=1, acts=[0, 1, 1], T=3, batch=2),
    dict(k=3, d=2, L=2, acts=[0, 2, 1], T=3, batch=3),
    dict(k=2, d=1, L=1, acts=[], T=0, batch=1),
]
MORE = [dict(k=2, d=2, L=1, acts=None, T=3, batch=1), dict(k=3, d=2, L=2, acts=None, T=3, batch=2)]


@harness(cases=CASES, thorough=MORE)
def epsilon_greedy(ctx, k, d, L, acts, T, batch):
    eps = ctx.real("eps", lo=0, hi=1)
    lam = ctx.real("lam", lo=0, lo_open=True, nice=(0.5, 2))
    pol = LogisticEpsilonGreedy(dim=d, n_actions=k, len_list=L, batch_size=batch, epsilon=eps, lambda_=lam, random_state=1)
    x, post = run(ctx, pol, k, d, seq(ctx, acts, T, k), batch, lam)
    if post is None:
        return
    sel = pol.select_action(x)
    u = [flat(c[3])[0] for c in ctx.calls if c[1] in ("uniform", "random")]
    ctx.check("one number decides", len(u) == 1)
    if not ctx.sym and abs(u[0] - eps) < 1e-9:
        return
    ctx.assume(u[0] != eps)
    ctx.check("list length", len(sel) == L)
    if ctx.draws:
        ctx.check("explores with the exploration rate", u[0] < eps)
        sel = [int(s) for s in sel]
        ctx.check("distinct random actions", len(set(sel)) == L and sel == [int(v) for v in ctx.draws[:L]])
    else:
        ctx.check("exploits otherwise", u[0] > eps)
        ranked(ctx, "largest predicted rate first", sel, rates(ctx, [p.z([x[0, i] for i in range(d)]) for p in post]))


@harness(cases=product(kind=["greedy", "ucb", "ts"], batch=[1]) + [dict(kind="ts", batch=2)], thorough=product(kind=["ts"], batch=[3]))
def any_coefficients(ctx, kind, batch):
    """Arbitrary fitted coefficients (one fit per action, one dimension)."""
    k, d = 2, 1
    lam = ctx.real("lam", lo=0, lo_open=True, nice=(0.5, 2))
    al = ctx.real("al", lo=0, lo_open=True, nice=(0.5, 2))
    kw = dict(dim=d, n_actions=k, len_list=1, batch_size=batch, random_state=1, lambda_=lam, alpha_=al)
    eps = ctx.real("eps", lo=0, nice=(0, 2)) if kind == "ucb" else 0.0
    pol = LogisticTS(**kw) if kind == "ts" else (LogisticUCB(epsilon=eps, **kw) if kind == "ucb" else LogisticEpsilonGreedy(epsilon=0.0, **kw))
    x, post = run(ctx, pol, k, d, [0, 1], batch, lam, fits=True)
    if post is None:
        return
    sel = pol.select_action(x)
    if kind == "greedy" and ctx.draws:
        return
    if kind == "ts":
        calls = [c for c in ctx.calls if c[1] == "normal"]
        zs = [x[0, 0] * flat(c[3])[0] for c in calls]
        for a in range(k):
            ctx.eq("posterior mean", flat(calls[a][2][0]), post[a].m)
            ctx.eq("posterior spread", flat(calls[a][2][1]), [al / post[a].q[0]])
    else:
        zs = [p.z([x[0, 0]]) for p in post]
    sc = rates(ctx, zs)
    if kind == "ucb":
        sc = [v + eps * (x[0, 0] * x[0, 0] / p.q[0]) ** 0.5 for v, p in zip(sc, post)]
    ranked(ctx, "largest rate first", sel, sc)


@harness(cases=CASES[:5], thorough=MORE)
def fits(ctx, k, d, L, acts, T, batch):
    """Every refit minimises the penalised loss of the action's new data around its posterior."""
    lam = ctx.real("lam", lo=0, lo_open=True, nice=(0.5, 2))
    pol = LogisticTS(dim=d, n_actions=k, len_list=L, batch_size=batch, lambda_=lam, random_state=1)
    run(ctx, pol, k, d, seq(ctx, acts, T, k), batch, lam, fits=True)


@harness(cases=CASES[:1] + CASES[2:], thorough=MORE)
def ucb(ctx, k, d, L, acts, T, batch):
    eps = ctx.real("eps", lo=0, hi=4)
    lam = 1.5
    pol = LogisticUCB(dim=d, n_actions=k, len_list=L, batch_size=batch, epsilon=eps, lambda_=lam, random_state=1)
    x, post = run(ctx, pol, k, d, seq(ctx, acts, T, k), batch, lam)
    if post is None:
        return
    sel = pol.select_action(x)
    ctx.check("list length", len(sel) == L)
    xv = [x[0, i] for i in range(d)]
    scores = [rates(ctx, [p.z(xv)])[0] + eps * total(xv[i] * xv[i] / p.q[i] for i in range(d)) ** 0.5 for p in post]
    ranked(ctx, "largest upper confidence bound first", sel, scores, 1e-6)


@harness(
    cases=CASES[:2] + [CASES[3], CASES[5], dict(k=2, d=1, L=1, acts=[0, 0, 1, 1], T=4, batch=2), dict(k=3, d=1, L=2, acts=[0, 2, 1], T=3, batch=3)],
    thorough=MORE + [CASES[4]],
)
def thompson(ctx, k, d, L, acts, T, batch):
    lam, al = 1.5, 0.75
    pol = LogisticTS(dim=d, n_actions=k, len_list=L, batch_size=batch, alpha_=al, lambda_=lam, random_state=1)
    x, post = run(ctx, pol, k, d, seq(ctx, acts, T, k), batch, lam)
    if post is None:
        return
    sel = pol.select_action(x)
    calls = [c for c in ctx.calls if c[1] == "normal"]
    ctx.check("one sample per action", len(calls) == k)
    for a in range(k):
        loc, sd, _ = calls[a][2]
        ctx.eq("posterior mean", flat(np.broadcast_to(A._to_obj(loc), (d,))), post[a].m)
        ctx.eq("posterior spread", flat(np.broadcast_to(A._to_obj(sd), (d,))), [al / post[a].q[i] for i in range(d)])
    ctx.check("list length", len(sel) == L)
    ranked(ctx, "largest sampled rate first", sel, rates(ctx, [total(x[0, i] * flat(calls[a][3])[i] for i in range(d)) for a in range(k)]))


@harness(cases=product(kind=["greedy", "ucb", "ts"], batch=[1, 2]))
def initialize(ctx, kind, batch):
    """After initialize the policy starts again from its prior."""
    k, d = 2, 1
    kw = dict(dim=d, n_actions=k, len_list=1, batch_size=batch, random_state=1)
    pol = LogisticTS(**kw) if kind == "ts" else (LogisticUCB(epsilon=0.5, **kw) if kind == "ucb" else LogisticEpsilonGreedy(epsilon=0.25, **kw))
    r = ctx.reals("before", 3, lo=0, hi=1)
    for t in range(3):
        pol.update_params(action=t % 2, reward=r[t], context=ctx.arr([FIXED[t][:1]]))
    pol.initialize()
    ctx.check("counters", [pol.n_trial == 0, [int(v) for v in pol.action_counts] == [0, 0]])
    run(ctx, pol, k, d, [0, 1], batch, 1.0, fits=True)


@harness(cases=product(bad=["eps", "eps low", "ucb eps", "alpha", "lambda", "dim", "n_actions", "len_list"]))
def refused(ctx, bad):
    over = ctx.real("over", lo=1, lo_open=True, nice=(1.1, 2))
    low = ctx.real("low", hi=0, hi_open=True, nice=(-2, -0.1))
    non = ctx.real("non", hi=0, nice=(-2, 0))
    if bad == "eps":
        ctx.raises("refused", lambda: LogisticEpsilonGreedy(dim=1, n_actions=2, epsilon=over))
    elif bad == "eps low":
        ctx.raises("refused", lambda: LogisticEpsilonGreedy(dim=1, n_actions=2, epsilon=low))
    elif bad == "ucb eps":
        ctx.raises("refused", lambda: LogisticUCB(dim=1, n_actions=2, epsilon=low))
    else:
        kw = dict(dim=1, n_actions=2)
        kw.update({"alpha": dict(alpha_=non), "lambda": dict(lambda_=non), "dim": dict(dim=0), "n_actions": dict(n_actions=1), "len_list": dict(len_list=3)}[bad])
        for cls in (LogisticEpsilonGreedy, LogisticUCB, LogisticTS):
            ctx.raises("refused", lambda: cls(**kw))
