"""P23: linear bandit policies choose by ridge regression of each action's own rewards."""
from symnp.api import *
from checks.common import ctx_arr, flat, ranked
from obp.policy import LinEpsilonGreedy, LinTS, LinUCB

BOUNDS = (
    "2-3 actions, 1-2 context dimensions, up to 4 updates, batches of 1-2, lists of 1-2; rewards arbitrary reals in [-4, 4], contexts "
    "arbitrary reals (one dimension) or from a fixed set (two dimensions), exploration rates and random numbers arbitrary reals"
)
FIXED = [[1.0, 0.0], [0.5, -1.0], [0.0, 2.0], [-1.0, 1.5], [2.0, 1.0]]
SLACK = 1e-6


class Ridge:
    """Textbook ridge regression of one action (identity prior)."""

    def __init__(self, data, d):
        self.d = d
        self.A = [[(1.0 if i == j else 0.0) + total([x[i] * x[j] for x, _ in data] or [0.0]) for j in range(d)] for i in range(d)]
        self.b = [total([r * x[i] for x, r in data] or [0.0]) for i in range(d)]

    def inv(self):
        A_ = self.A
        if self.d == 1:
            return [[1.0 / A_[0][0]]]
        det = A_[0][0] * A_[1][1] - A_[0][1] * A_[1][0]
        return [[A_[1][1] / det, (0.0 - A_[0][1]) / det], [(0.0 - A_[1][0]) / det, A_[0][0] / det]]

    def theta(self):
        v = self.inv()
        return [total(v[i][j] * self.b[j] for j in range(self.d)) for i in range(self.d)]

    def score(self, x):
        t = self.theta()
        return total(x[i] * t[i] for i in range(self.d))

    def width2(self, x):
        v = self.inv()
        return total(x[i] * v[i][j] * x[j] for i in range(self.d) for j in range(self.d))


def run(ctx, pol, k, d, acts, batch, symbolic):
    T = len(acts)
    rew = ctx.reals("r", T, lo=-4, hi=4)
    xs = ctx.reals("x", (T + 1, 1), nice=(-2, 2)) if symbolic else ctx.arr(np.array(FIXED[: T + 1])[:, :d])
    for t in range(T):
        pol.update_params(action=acts[t], reward=rew[t], context=xs[t : t + 1])
    m = T // batch * batch
    data = [[([xs[t, i] for i in range(d)], rew[t]) for t in range(m) if acts[t] == a] for a in range(k)]
    return xs[T : T + 1], [Ridge(r, d) for r in data]


def seq(ctx, acts, T, k):
    return [int(a) for a in ctx.ints("a", T, k)] if acts is None else acts


CASES = [
    dict(k=2, d=2, L=1, acts=None, T=2, batch=1, symbolic=False),
    dict(k=2, d=2, L=2, acts=[0, 1, 0], T=3, batch=1, symbolic=False),
    dict(k=2, d=2, L=1, acts=[0, 0, 1, 1], T=4, batch=2, symbolic=False),
    dict(k=2, d=2, L=1, acts=[0, 1, 1], T=3, batch=2, symbolic=False),
    dict(k=3, d=2, L=2, acts=[0, 2, 1], T=3, batch=1, symbolic=False),
    dict(k=2, d=1, L=1, acts=[0, 1], T=2, batch=1, symbolic=True),
    dict(k=2, d=1, L=1, acts=[0, 0, 1], T=3, batch=2, symbolic=True),
    dict(k=2, d=1, L=1, acts=[], T=0, batch=1, symbolic=True),
]
MORE = [dict(k=3, d=2, L=2, acts=None, T=3, batch=1, symbolic=False), dict(k=2, d=2, L=1, acts=None, T=4, batch=2, symbolic=False), dict(k=2, d=1, L=1, acts=[0, 0, 1], T=3, batch=1, symbolic=True)]


@harness(cases=CASES, thorough=MORE)
def epsilon_greedy(ctx, k, d, L, acts, T, batch, symbolic):
    eps = ctx.real("eps", lo=0, hi=1)
    pol = LinEpsilonGreedy(dim=d, n_actions=k, len_list=L, batch_size=batch, epsilon=eps, random_state=1)
    x, R = run(ctx, pol, k, d, seq(ctx, acts, T, k), batch, symbolic)
    sel = pol.select_action(x)
    u = [flat(c[3])[0] for c in ctx.calls if c[1] in ("uniform", "random")]
    ctx.check("one number decides", len(u) == 1)
    if not ctx.sym and abs(u[0] - eps) < 1e-9:
        return
    ctx.assume(u[0] != eps)
    ctx.check("list length", len(sel) == L)
    if ctx.draws:
        ctx.check("explores with the exploration rate", u[0] < eps)
        sel = [int(s) for s in sel]
        ctx.check("distinct random actions", len(set(sel)) == L and sel == [int(v) for v in ctx.draws[:L]])
    else:
        ctx.check("exploits otherwise", u[0] > eps)
        ranked(ctx, "largest predicted reward first", sel, [r.score([x[0, i] for i in range(d)]) for r in R], SLACK)


# upper confidence bounds: contexts from the fixed set (square roots of symbolic contexts are out of the solver's reach)
@harness(
    cases=[c for c in CASES if not c["symbolic"] or not c["acts"]] + [dict(k=2, d=1, L=2, acts=None, T=3, batch=1, symbolic=False)],
    thorough=[c for c in MORE if not c["symbolic"]],
)
def ucb(ctx, k, d, L, acts, T, batch, symbolic):
    eps = ctx.real("eps", lo=0, hi=4)
    pol = LinUCB(dim=d, n_actions=k, len_list=L, batch_size=batch, epsilon=eps, random_state=1)
    x, R = run(ctx, pol, k, d, seq(ctx, acts, T, k), batch, symbolic)
    sel = pol.select_action(x)
    ctx.check("list length", len(sel) == L)
    xv = [x[0, i] for i in range(d)]
    ranked(ctx, "largest upper confidence bound first", sel, [r.score(xv) + eps * r.width2(xv) ** 0.5 for r in R], SLACK)


@harness(cases=CASES + [dict(k=2, d=1, L=2, acts=[1, 1, 0], T=3, batch=1, symbolic=True)], thorough=MORE)
def thompson(ctx, k, d, L, acts, T, batch, symbolic):
    pol = LinTS(dim=d, n_actions=k, len_list=L, batch_size=batch, random_state=1)
    x, R = run(ctx, pol, k, d, seq(ctx, acts, T, k), batch, symbolic)
    sel = pol.select_action(x)
    calls = [c for c in ctx.calls if c[1] == "multivariate_normal"]
    ctx.check("one sample per action", len(calls) == k)
    for a in range(k):
        ctx.eq("posterior mean", flat(calls[a][2][0]), R[a].theta())
        ctx.eq("posterior covariance", flat(calls[a][2][1]), [v for r in R[a].inv() for v in r])
    ctx.check("list length", len(sel) == L)
    ranked(ctx, "largest sampled reward first", sel, [total(x[0, i] * flat(calls[a][3])[i] for i in range(d)) for a in range(k)], SLACK)


@harness(cases=product(kind=["greedy", "ucb", "ts"], batch=[1, 2]))
def initialize(ctx, kind, batch):
    """After initialize the policy behaves like a new one."""
    k, d = 2, 2

    def make():
        kw = dict(dim=d, n_actions=k, len_list=1, batch_size=batch, random_state=1)
        return LinTS(**kw) if kind == "ts" else (LinUCB(epsilon=0.5, **kw) if kind == "ucb" else LinEpsilonGreedy(epsilon=0.25, **kw))

    old, new = make(), make()
    r = ctx.reals("r", 5, lo=-4, hi=4)
    xs = ctx.arr(FIXED)
    for t in range(3):
        old.update_params(action=t % 2, reward=r[t], context=xs[t : t + 1])
    old.initialize()
    for p in (old, new):
        for t in (3, 4):
            p.update_params(action=t % 2, reward=r[t], context=xs[t : t + 1])
    ctx.check("trials", old.n_trial == new.n_trial)
    ctx.check("counts", [int(v) for v in old.action_counts] == [int(v) for v in new.action_counts])
    ctx.check("same choice", [int(v) for v in old.select_action(xs[:1])] == [int(v) for v in new.select_action(xs[:1])])


@harness(cases=product(bad=["eps", "eps low", "ucb eps", "dim", "rows", "ndim", "n_actions", "len_list"]))
def refused(ctx, bad):
    over = ctx.real("over", lo=1, lo_open=True, nice=(1.1, 2))
    low = ctx.real("low", hi=0, hi_open=True, nice=(-2, -0.1))
    if bad == "eps":
        ctx.raises("refused", lambda: LinEpsilonGreedy(dim=1, n_actions=2, epsilon=over))
    elif bad == "eps low":
        ctx.raises("refused", lambda: LinEpsilonGreedy(dim=1, n_actions=2, epsilon=low))
    elif bad == "ucb eps":
        ctx.raises("refused", lambda: LinUCB(dim=1, n_actions=2, epsilon=low))
    elif bad in ("rows", "ndim"):
        x = ctx.reals("x", (2, 1), nice=(-2, 2))
        for cls in (LinEpsilonGreedy, LinUCB):
            ctx.raises("refused", lambda: cls(dim=1, n_actions=2).select_action(x if bad == "rows" else x[:, 0]))
    else:
        kw = dict(dim=1, n_actions=2)
        kw.update({"dim": dict(dim=0), "n_actions": dict(n_actions=1), "len_list": dict(len_list=3)}[bad])
        for cls in (LinEpsilonGreedy, LinUCB, LinTS):
            ctx.raises("refused", lambda: cls(**kw))
