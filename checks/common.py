"""Shared input generators and textbook formulas (the oracles)."""
from symnp.api import *


class Log:
    """Arbitrary logged bandit data with an evaluation policy."""

    def __init__(self, ctx, n, k, L=1, q=False, est_pscore=False, pos="given", positive=False, reward_range=None, tag=""):
        self.n, self.k, self.L = n, k, L
        self.action = ctx.ints(tag + "action", n, k)
        rr = reward_range or (None, None)
        self.reward = ctx.reals(tag + "reward", n, lo=rr[0], hi=rr[1], nice=None if reward_range else (-3, 3))
        self.pscore = ctx.reals(tag + "pscore", n, lo=0, hi=1, lo_open=True, nice=(0.1, 1))
        if est_pscore:
            self.est_pscore = ctx.reals(tag + "est_pscore", n, lo=0, hi=1, lo_open=True, nice=(0.1, 1))
        # action distribution: (round, action, position)
        d = ctx.simplex(tag + "pi", (n, L, k), positive=positive)
        self.pi = np.swapaxes(d, 1, 2).copy()
        if pos == "given":
            self.position = ctx.ints(tag + "position", n, L)
        else:
            self.position = None
        self.posn = self.position if self.position is not None else np.zeros(n, dtype=int)
        if q:
            self.q = ctx.reals(tag + "q", (n, k, L), nice=(-2, 2))

    def weights(self, pscore=None):
        p = self.pscore if pscore is None else pscore
        return [self.pi[i, self.action[i], self.posn[i]] / p[i] for i in range(self.n)]

    def q_factual(self):
        return [self.q[i, self.action[i], self.posn[i]] for i in range(self.n)]

    def q_expected(self):
        """Expected predicted reward under the evaluation policy, per round."""
        return [
            total(self.pi[i, a, self.posn[i]] * self.q[i, a, self.posn[i]] for a in range(self.k))
            for i in range(self.n)
        ]

    def kw(self, *names):
        m = dict(
            reward=self.reward,
            action=self.action,
            pscore=self.pscore,
            action_dist=self.pi,
            position=self.position,
        )
        if hasattr(self, "q"):
            m["estimated_rewards_by_reg_model"] = self.q
        if hasattr(self, "est_pscore"):
            m["estimated_pscore"] = self.est_pscore
        return m


class WideLog(Log):
    """Large logged data: only the rewards (and predictions) are arbitrary.

    Everything else is fixed data of ordinary shape, so that what depends on the
    number of rounds or actions (index types, processing in parts) is exercised.
    """

    def __init__(self, ctx, n, k, L=1, pos="given", q=False, sym="reward", reward_range=None):
        self.n, self.k, self.L = n, k, L
        i = np.arange(n)
        self.action = (i * 7 + i // 5) % k
        self.action[-1] = k - 1
        rr = reward_range or (None, None)
        fixed = ((i * 13) % 17 - 4) / 8.0
        self.reward = ctx.reals("reward", n, lo=rr[0], hi=rr[1], nice=None if reward_range else (-3, 3)) if sym == "reward" else fixed
        self.pscore = ((i * 11) % 29 + 3) / 32.0
        self.est_pscore = ((i * 5) % 23 + 8) / 32.0
        w = ((i[:, None, None] * 3 + np.arange(k)[None, :, None] * 5 + np.arange(L)[None, None, :] * 2) % 11 + 1.0)
        self.pi = w / w.sum(axis=1, keepdims=True)
        self.position = (i // 3) % L if pos == "given" else None
        self.posn = self.position if pos == "given" else np.zeros(n, dtype=int)
        if q:
            self.q = ((i[:, None, None] * 2 + np.arange(k)[None, :, None] * 3 + np.arange(L)[None, None, :]) % 13 - 5.0) / 4.0


def shrink_ipw(kind, w, lam):
    """Round-level weight transformations."""
    if kind == "clip":
        return [smin(x, lam) for x in w]
    if kind == "switch":
        return [where(x <= lam, x, 0.0) for x in w]
    if kind == "os":
        if not is_sym(lam) and lam == np.inf:
            return list(w)
        # lam * w / (w^2 + lam), which is zero where w is zero
        return [lam * x / where(x > 0, x * x + lam, 1.0) for x in w]
    if kind == "sg":
        return [x / where(x > 0, 1.0 - lam + lam * x, 1.0) for x in w]
    if kind == "none":
        return list(w)
    raise KeyError(kind)


def rank_value(xs, level):
    """Quantile with linear interpolation between order statistics."""
    ys = list(xs)
    m = len(ys)
    for i in range(m):
        for j in range(m - 1 - i):
            ys[j], ys[j + 1] = smin(ys[j], ys[j + 1]), smax(ys[j], ys[j + 1])
    h = level * (m - 1)
    lo = int(h)
    hi = min(lo + 1, m - 1)
    return ys[lo] + (h - lo) * (ys[hi] - ys[lo])


def check_interval(ctx, res, z, B, alpha, start=0):
    """res is the bootstrap interval of the mean of z for the indices drawn."""
    n = len(z)
    idx = ctx.draws[start:]
    ctx.check("number of draws", len(idx) == n * B)
    if len(idx) != n * B:
        return
    means = [mean(z[idx[b * n + j]] for j in range(n)) for b in range(B)]
    lo, up = f"{100 * (1. - alpha)}% CI (lower)", f"{100 * (1. - alpha)}% CI (upper)"
    ctx.check("keys", set(res) == {"mean", lo, up})
    ctx.eq("mean", res["mean"], mean(means))
    ctx.eq("lower", res[lo], rank_value(means, alpha / 2))
    ctx.eq("upper", res[up], rank_value(means, 1 - alpha / 2))


def flat(x):
    return list(np.ravel(A._to_obj(x)))


def softmax_of(xs):
    e = [np.exp(x) for x in xs]
    t = total(e)
    return [x / t for x in e]


def ctx_arr(ctx, x):
    return A.build(x) if ctx.sym else np.array(x, dtype=float)


def is_zero(x):
    return not is_sym(x) and float(x) == 0.0


def stream(names):
    """Generator and call number of the named draws, whatever distribution was asked for."""
    import re

    return {re.sub(r"\.[^.]*?(\d+)$", r"#\1", n) for n in names}


def ranked(ctx, label, sel, scores, slack=0.0):
    """Distinct selected items with the largest scores, best first (ties in any order)."""
    sel = [int(s) for s in sel]
    n = len(scores)
    ctx.check(label + ": distinct items in range", len(set(sel)) == len(sel) and all(0 <= s < n for s in sel))
    tol = slack if ctx.sym else max(slack, 1e-7)
    for j, s in enumerate(sel):
        for b in range(n):
            if b not in sel[: j + 1]:
                ctx.check(label, scores[s] + tol >= scores[b] if tol else scores[s] >= scores[b])
    return sel
