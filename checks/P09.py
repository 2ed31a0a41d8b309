"""P09: slate estimators."""
from symnp.api import *
from checks.common import check_interval
from obp.ope import (
    SelfNormalizedSlateIndependentIPS,
    SelfNormalizedSlateRewardInteractionIPS,
    SelfNormalizedSlateStandardIPS,
    SlateCascadeDoublyRobust,
    SlateIndependentIPS,
    SlateRewardInteractionIPS,
    SlateStandardIPS,
)

BOUNDS = "1-3 slates of 1-3 slots in several row orders, 2-3 items; rewards, probabilities, predictions arbitrary reals; 1 bootstrap resample (and large logs of hundreds of slates or items with arbitrary rewards and the rest fixed)"

# (slate ids, positions, slots)
LAYOUTS = {
    "plain": ([0, 0, 1, 1], [0, 1, 0, 1], 2),
    "labels": ([7, 7, 3, 3], [1, 0, 0, 1], 2),
    "mixed": ([0, 1, 0, 1], [0, 0, 1, 1], 2),
    "ragged": ([0, 0, 2], [0, 1, 0], 2),
    "single": ([0, 1, 2], [0, 0, 0], 1),
    "three": ([0, 0, 0, 1, 1, 1], [0, 1, 2, 0, 1, 2], 3),
}

EST = {
    "sips": (SlateStandardIPS, "pscore", False),
    "iips": (SlateIndependentIPS, "pscore_item_position", False),
    "rips": (SlateRewardInteractionIPS, "pscore_cascade", False),
    "snsips": (SelfNormalizedSlateStandardIPS, "pscore", True),
    "sniips": (SelfNormalizedSlateIndependentIPS, "pscore_item_position", True),
    "snrips": (SelfNormalizedSlateRewardInteractionIPS, "pscore_cascade", True),
}


def probs(ctx, name, sid, pos, kind, positive):
    """Slate, cascade or item-position probabilities of the rows."""
    n = len(sid)
    lo = dict(lo=0, hi=1, lo_open=positive, nice=(0.1, 1) if positive else (0, 1))
    if kind == "pscore":
        vals = {s: ctx.real(f"{name}.s{s}", **lo) for s in sorted(set(sid))}
        out = [vals[s] for s in sid]
        return A.build(out) if ctx.sym else np.array(out)
    x = ctx.reals(name, n, **lo)
    if kind == "pscore_cascade":
        for i in range(n):
            for j in range(n):
                if sid[i] == sid[j] and pos[j] == pos[i] + 1:
                    ctx.assume(x[j] <= x[i])
    return x


def setup(ctx, kind, layout):
    cls, key, sn = EST[kind]
    sid, pos, L = LAYOUTS[layout]
    n = len(sid)
    r = ctx.reals("reward", n, nice=(-3, 3))
    pb = probs(ctx, "logging", sid, pos, key, True)
    pe = probs(ctx, "evaluation", sid, pos, key, False)
    other = {k: ctx.arr(np.full(n, 0.123)) for k in ("pscore", "pscore_item_position", "pscore_cascade")}
    kw = dict(slate_id=np.array(sid), position=np.array(pos), reward=r, action=np.zeros(n, dtype=int))
    for k in other:
        kw[k] = other[k]
        kw["evaluation_policy_" + k] = other[k]
    kw[key] = pb
    kw["evaluation_policy_" + key] = pe
    w = [pe[i] / pb[i] for i in range(n)]
    if sn:
        if kind == "snsips":
            groups = [list(range(n))]
        else:
            groups = [[i for i in range(n) if pos[i] == p] for p in sorted(set(pos))]
        w2 = list(w)
        for g in groups:
            t = total(w[i] for i in g)
            ctx.assume(t > 0)
            for i in g:
                w2[i] = w[i] * len(g) / t
        w = w2
    z = [w[i] * r[i] for i in range(n)]
    S = sorted(set(sid))
    per = [total(z[i] for i in range(n) if sid[i] == s) for s in S]
    return cls(len_list=L), kw, per


QUICK = ["plain", "labels", "mixed", "ragged", "single"]


@harness(cases=product(kind=list(EST), layout=QUICK), thorough=product(kind=list(EST), layout=["three"]), ints=[("reward",), ("reward", "logging", "evaluation")])
def value(ctx, kind, layout):
    est, kw, per = setup(ctx, kind, layout)
    ctx.eq("value", est.estimate_policy_value(**kw), mean(per))


@harness(cases=product(kind=list(EST), layout=["plain", "labels", "mixed", "ragged"]), ints=[("reward",), ("reward", "logging", "evaluation")])
def interval(ctx, kind, layout):
    est, kw, per = setup(ctx, kind, layout)
    res = est.estimate_interval(**kw, alpha=0.1, n_bootstrap_samples=1, random_state=5)
    check_interval(ctx, res, per, 1, 0.1)


def cascade(ctx, S, L, K, fixed=False):
    sid = [s for s in range(S) for _ in range(L)]
    pos = [l for _ in range(S) for l in range(L)]
    n = S * L
    r = ctx.reals("reward", n, nice=(-3, 3))
    pb = probs(ctx, "logging", sid, pos, "pscore_cascade", True)
    pe = probs(ctx, "evaluation", sid, pos, "pscore_cascade", False)
    action = np.arange(n) % K if fixed else ctx.ints("action", n, K)
    q = ctx.reals("q", (n, K), nice=(-2, 2))
    pi = ctx.simplex("pi", (n, K))
    kw = dict(
        slate_id=np.array(sid),
        position=np.array(pos),
        action=action,
        reward=r,
        pscore_cascade=pb,
        evaluation_policy_pscore_cascade=pe,
        q_hat=q.flatten(),
        evaluation_policy_action_dist=pi.flatten(),
    )
    w = [pe[i] / pb[i] for i in range(n)]
    per = []
    for s in range(S):
        t = []
        for l in range(L):
            i = s * L + l
            prev = 1.0 if l == 0 else w[i - 1]
            base = total(pi[i, a] * q[i, a] for a in range(K))
            t.append(w[i] * (r[i] - q[i, action[i]]) + prev * base)
        per.append(total(t))
    return SlateCascadeDoublyRobust(len_list=L, n_unique_action=K), kw, per, w


@harness(
    cases=[dict(S=1, L=2, K=2), dict(S=2, L=2, K=2), dict(S=2, L=1, K=3), dict(S=1, L=3, K=2)],
    thorough=[dict(S=2, L=2, K=3), dict(S=2, L=3, K=2), dict(S=3, L=2, K=2)], ints=[("reward",), ("reward", "logging", "evaluation"), ("q",), ("pi",)],
)
def cascade_dr(ctx, S, L, K):
    est, kw, per, w = cascade(ctx, S, L, K)
    ctx.eq("value", est.estimate_policy_value(**kw), mean(per))


@harness(cases=[dict(S=2, L=2, K=2), dict(S=2, L=1, K=3)], thorough=[dict(S=2, L=3, K=2)], ints=[("reward",), ("reward", "logging", "evaluation"), ("q",), ("pi",)])
def cascade_dr_interval(ctx, S, L, K):
    est, kw, per, w = cascade(ctx, S, L, K, fixed=True)
    res = est.estimate_interval(**kw, alpha=0.1, n_bootstrap_samples=1, random_state=5)
    check_interval(ctx, res, per, 1, 0.1)


@harness(cases=[dict(S=2, L=2, K=2), dict(S=1, L=3, K=2)])
def cascade_dr_without_model(ctx, S, L, K):
    """Zero predictions reduce cascade-DR to reward-interaction IPS."""
    est, kw, per, w = cascade(ctx, S, L, K, fixed=True)
    v = est.estimate_policy_value(**dict(kw, q_hat=kw["q_hat"] * 0.0))
    r = SlateRewardInteractionIPS(len_list=L).estimate_policy_value(**kw)
    ctx.eq("rips", v, r)


@harness(cases=[dict(kind=k) for k in EST])
def on_policy(ctx, kind):
    """Evaluating the logging policy gives the average reward of a slate."""
    cls, key, sn = EST[kind]
    sid, pos, L = LAYOUTS["plain"]
    r = ctx.reals("reward", 4, nice=(-3, 3))
    pb = probs(ctx, "logging", sid, pos, key, True)
    kw = dict(slate_id=np.array(sid), position=np.array(pos), reward=r)
    kw[key] = pb
    kw["evaluation_policy_" + key] = pb
    ctx.eq("value", cls(len_list=L).estimate_policy_value(**kw), total(r) / 2.0)


def wide_rows(S, L):
    """Slates with scattered labels, rows in no particular order of slates."""
    i = np.arange(S * L)
    sid, pos = (i // L) * 3 + 5, i % L
    pb, pe = {}, {}
    s = i // L
    pb["pscore"], pe["pscore"] = ((s * 7) % 13 + 2) / 16.0, ((s * 5) % 11 + 1) / 16.0
    pb["pscore_item_position"], pe["pscore_item_position"] = ((i * 7) % 13 + 2) / 16.0, ((i * 5) % 11 + 1) / 16.0
    pb["pscore_cascade"], pe["pscore_cascade"] = ((s * 7) % 13 + 2) / (16.0 * (pos + 1)), ((s * 5) % 11 + 1) / (16.0 * (pos * 2 + 1))
    return sid, pos, pb, pe


@harness(cases=[dict(S=300, L=2), dict(S=130, L=5)], thorough=[dict(S=1500, L=3)])
def wide(ctx, S, L):
    """Many or long slates: arbitrary rewards, everything else fixed."""
    n = S * L
    sid, pos, pb, pe = wide_rows(S, L)
    r = ctx.reals("reward", n, nice=(-3, 3))
    o = (np.arange(n) * 7 + 3) % n if n % 7 else np.arange(n)[::-1]
    for order in (np.arange(n), o):
        rr = r[order]
        for kind, (cls, key, sn) in EST.items():
            w = pe[key][order] / pb[key][order]
            if kind == "snsips":
                w = w / w.mean()
            elif sn:
                w = w / np.array([w[pos[order] == p].mean() for p in pos[order]])
            kw = dict(slate_id=sid[order], position=pos[order], reward=rr, action=np.zeros(n, dtype=int))
            kw[key], kw["evaluation_policy_" + key] = pb[key][order], pe[key][order]
            ctx.eq(kind, cls(len_list=L).estimate_policy_value(**kw), total(w[i] * rr[i] for i in range(n)) / S)


@harness(cases=[dict(S=130, L=3, K=4), dict(S=6, L=2, K=150)], thorough=[dict(S=700, L=3, K=3)])
def wide_cascade(ctx, S, L, K):
    n = S * L
    sid, pos, pb, pe = wide_rows(S, L)
    r = ctx.reals("reward", n, nice=(-3, 3))
    i, a = np.arange(n), np.arange(K)
    action = (i * 7 + i // 3) % K
    q = ((i[:, None] * 3 + a[None, :] * 5) % 13 - 4.0) / 8.0
    pi = (i[:, None] * 2 + a[None, :] * 7) % 11 + 1.0
    pi = pi / pi.sum(axis=1, keepdims=True)
    w = pe["pscore_cascade"] / pb["pscore_cascade"]
    prev = np.where(pos == 0, 1.0, np.r_[1.0, w[:-1]])
    v = total(w[j] * (r[j] - q[j, action[j]]) + prev[j] * float(pi[j] @ q[j]) for j in range(n)) / S
    est = SlateCascadeDoublyRobust(len_list=L, n_unique_action=K)
    got = est.estimate_policy_value(slate_id=sid, position=pos, action=action, reward=r, pscore_cascade=pb["pscore_cascade"], evaluation_policy_pscore_cascade=pe["pscore_cascade"], q_hat=q.ravel(), evaluation_policy_action_dist=pi.ravel())
    ctx.eq("value", got, v)
