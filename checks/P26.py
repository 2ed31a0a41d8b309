"""P26: reward coefficients drift on schedule, however the rounds are requested."""
from symnp.api import *
from checks.common import ctx_arr, flat
from obp.simulator.coefficient_drifter import CoefficientDrifter

BOUNDS = "intervals of 1-4 rounds, transitions of 0-3 rounds, up to 7 rounds requested in up to 4 parts; coefficients, base weight and transition draws arbitrary reals"


def schedule(D, P, T):
    """(interval, weight of the next coefficients) of every round."""
    return [(t // D, max(0, t % D - (D - P) + 1) / (P + 1)) for t in range(T)]


def samples(ctx, dx, da):
    """The sampled coefficient sets, in order."""
    sizes = [(dx,), (da,), (dx, da)]
    calls = [c for c in ctx.calls if c[1] == "uniform"]
    out = []
    for i in range(0, len(calls) - 2, 3):
        ctx.check("sizes of the coefficients", [np.shape(calls[i + j][3]) == sizes[j] for j in range(3)])
        for j in range(3):
            ctx.check("range of the coefficients", [calls[i + j][2][0] == -1, calls[i + j][2][1] == 1])
        out.append([flat(calls[i + j][3]) for j in range(3)])
    return out


CASES = [
    dict(D=3, P=0, parts=[4], seasonal=False),
    dict(D=2, P=1, parts=[5], seasonal=False),
    dict(D=4, P=2, parts=[2, 1, 3], seasonal=False),
    dict(D=4, P=2, parts=[3, 3], seasonal=True),
    dict(D=3, P=1, parts=[1, 1, 1, 1], seasonal=False),
    dict(D=2, P=2, parts=[1, 3], seasonal=False),
    dict(D=2, P=3, parts=[3], seasonal=False),
    dict(D=1, P=0, parts=[2, 2], seasonal=True),
    dict(D=2, P=1, parts=[7], seasonal=True),
    dict(D=4, P=3, parts=[2, 2, 2], seasonal=False),
]


@harness(cases=CASES, thorough=[dict(D=4, P=2, parts=[1, 2, 3, 5], seasonal=True), dict(D=5, P=3, parts=[2, 2, 2, 2, 2, 3], seasonal=False)])
def linear(ctx, D, P, parts, seasonal):
    wb = ctx.real("wb", lo=0, hi=1)
    dx, da = 2, 1
    late = ctx.pick("sizes given", ["at creation", "with the first request"])
    kw = dict(effective_dim_context=dx, effective_dim_action_context=da)
    dr = CoefficientDrifter(drift_interval=D, transition_period=P, seasonal=seasonal, base_coefficient_weight=wb, random_state=3, **(kw if late == "at creation" else {}))
    got = [[], [], []]
    for i, n in enumerate(parts):
        r = dr.get_coefficients(n_rounds=n, **(kw if late != "at creation" else {}))
        ctx.check("shapes", [np.shape(r[0]) == (n, dx), np.shape(r[1]) == (n, da), np.shape(r[2]) == (n, dx, da) or np.shape(r[2]) == (n * 1, dx, da)])
        for j in range(3):
            got[j] += list(A._to_obj(r[j]))
    S = samples(ctx, dx, da)
    T = sum(parts)
    for t, (iv, w) in enumerate(schedule(D, P, T)):
        cur, nxt = (iv % 2, (iv + 1) % 2) if seasonal else (iv, iv + 1)
        if w == 0:
            nxt = cur
        if max(cur, nxt) >= len(S):
            ctx.check("enough coefficients were sampled", False)
            return
        for j in range(3):
            want = [wb * b + (1 - wb) * ((1 - w) * x + w * y) for b, x, y in zip(S[0][j], S[cur][j], S[nxt][j])]
            ctx.eq("coefficients of the round", list(np.ravel(got[j][t])), want)


@harness(cases=[dict(D=4, P=2, parts=[5]), dict(D=3, P=2, parts=[2, 2]), dict(D=2, P=1, parts=[1, 1, 1])])
def sampled_transition(ctx, D, P, parts):
    """Each round of a transition uses one of the two sets, the new one with its share as probability."""
    dx, da = 1, 1
    dr = CoefficientDrifter(drift_interval=D, transition_period=P, transition_type="weighted_sampled", effective_dim_context=dx, effective_dim_action_context=da, random_state=3)
    got = []
    for n in parts:
        got += list(A._to_obj(dr.get_coefficients(n_rounds=n)[0])[:, 0])
    S = samples(ctx, dx, da)
    draws, ps = [], []
    for c in ctx.calls:
        if c[1] == "binomial":
            draws += flat(c[3])
            ps += flat(np.broadcast_to(A._to_obj(c[2][1]), np.shape(c[3])))
    T = sum(parts)
    ctx.check("one draw per round", len(draws) == T)
    if len(draws) != T:
        return
    for t, (iv, w) in enumerate(schedule(D, P, T)):
        ctx.eq("probability of the next set", ps[t], w)
        nxt = S[iv + 1][0][0] if w else 0.0
        ctx.eq("coefficients of the round", got[t], where(draws[t] == 1, nxt, S[iv][0][0]))


@harness(cases=[dict(D=3, P=1, a=[4], b=[1, 2, 1]), dict(D=2, P=1, a=[5], b=[2, 3]), dict(D=4, P=2, a=[6], b=[3, 3])])
def parts_do_not_matter(ctx, D, P, a, b):
    wb = ctx.real("wb", lo=0, hi=1)
    out = []
    for parts in (a, b):
        dr = CoefficientDrifter(drift_interval=D, transition_period=P, base_coefficient_weight=wb, effective_dim_context=2, effective_dim_action_context=1, random_state=3)
        rows = [[], [], []]
        for n in parts:
            for j, r in enumerate(dr.get_coefficients(n_rounds=n)):
                rows[j] += [v for x in A._to_obj(r) for v in np.ravel(x)]
        out.append(rows)
    for j in range(3):
        ctx.eq("same coefficients", out[0][j], out[1][j])


@harness(cases=product(bad=["context", "action", "seed"]))
def refused(ctx, bad):
    if bad == "seed":
        ctx.raises("refused", lambda: CoefficientDrifter(drift_interval=2, random_state=None))
        return
    dr = CoefficientDrifter(drift_interval=2, effective_dim_context=2, effective_dim_action_context=2)
    kw = dict(effective_dim_context=2, effective_dim_action_context=2)
    kw["effective_dim_context" if bad == "context" else "effective_dim_action_context"] = 3
    ctx.raises("refused", lambda: dr.get_coefficients(n_rounds=1, **kw), types=(RuntimeError, ValueError, TypeError))
