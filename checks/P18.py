"""P18: synthetic slate data is what it says it is."""
import itertools

from symnp.api import *
from symnp.stubs import Norm
from checks.common import ctx_arr, flat
from obp.dataset import SyntheticSlateBanditDataset, linear_behavior_policy_logit, action_interaction_reward_function
from obp.dataset.synthetic_slate import exponential_decay_function, generate_symmetric_matrix, inverse_decay_function

BOUNDS = (
    "1-2 slates of 2-3 slots, 2-3 items; logits, base rewards, interaction weights, examination exponents, epsilon and every random number "
    "arbitrary reals; normal density and distribution function uninterpreted; the cascade click model only for two slots; more than 127 items concretely"
)
ASSUMPTIONS = ["exp is an uninterpreted positive monotone function with exp(a+b) = exp(a)exp(b)", "exp(log(x)) = x"]


def slates(K, L, fac):
    return list(itertools.product(range(K), repeat=L)) if fac else list(itertools.permutations(range(K), L))


def steps(lg, slate, fac):
    """Probability of each slot's item given the earlier slots."""
    out, left = [], list(range(len(lg)))
    for a in slate:
        e = {b: np.exp(lg[b]) for b in left}
        out.append(e[a] / total(e.values()))
        if not fac:
            left.remove(a)
    return out


def pscores(lg, slate, fac):
    """Joint, item-position and cascade propensities of a slate."""
    K, L = len(lg), len(slate)
    st = steps(lg, slate, fac)
    casc = [prod(st[: l + 1]) for l in range(L)]
    joint = [casc[-1]] * L
    if fac:
        item = st
    else:
        item = [total(prod(steps(lg, s, fac)) for s in slates(K, L, fac) if s[l] == slate[l]) for l in range(L)]
    return joint, item, casc


def row(x, i):
    return [x[i, a] for a in range(x.shape[1])]


def check_pscores(ctx, got, lg, act, n, L, fac, item=True):
    joint, it, casc = got
    for i in range(n):
        s = act[i * L:(i + 1) * L]
        j, m, c = pscores(row(lg, i), s, fac)
        for l in range(L):
            ctx.eq("joint propensity", joint[i * L + l], j[l])
            ctx.eq("cascade propensity", casc[i * L + l], c[l])
            if item:
                ctx.eq("item-position propensity", it[i * L + l], m[l])
    if not item:
        ctx.check("no item-position propensity", it is None)


def trunc_mean(m, sd=1.0):
    if not is_sym(m):
        from scipy.stats import norm

        return m + sd * norm.pdf(m / sd) / norm.cdf(m / sd)
    N = Norm()
    return m + sd * N.pdf(m / sd) / N.cdf(m / sd)


def interaction(q, slate, l, structure, W):
    """Location of the reward of slot l before the link function."""
    L = len(slate)
    v = q[slate[l]]
    if structure == "independent":
        return v
    others = [j for j in range(L) if (j < l if structure.startswith("cascade") else j != l)]
    for j in others:
        if structure.endswith("additive"):
            v = v + W[slate[l], slate[j]]
        else:
            v = v + W[l, j] * q[slate[j]]
    return v


def link(rt, v):
    return 1.0 / (1.0 + np.exp(-v)) if rt == "binary" else smax(v, 0.0)


def logit_(x):
    return np.log(x / (1.0 - x))


GEN = [
    dict(n=1, K=3, L=2, fac=False, bf=True, rt="binary", click=None, item=True),
    dict(n=2, K=2, L=2, fac=False, bf=True, rt="binary", click="pbm", item=True),
    dict(n=1, K=2, L=2, fac=True, bf=True, rt="binary", click="cascade", item=True),
    dict(n=2, K=2, L=2, fac=False, bf=False, rt="continuous", click=None, item=True),
    dict(n=1, K=3, L=2, fac=True, bf=False, rt="binary", click=None, item=True),
    dict(n=1, K=3, L=3, fac=False, bf=True, rt="binary", click=None, item=False),
    dict(n=1, K=2, L=2, fac=True, bf=True, rt="continuous", click=None, item=False),
]


@harness(cases=GEN, thorough=[dict(n=1, K=3, L=3, fac=False, bf=True, rt="binary", click=None, item=True), dict(n=2, K=3, L=2, fac=False, bf=True, rt="continuous", click=None, item=True)])
def generate(ctx, n, K, L, fac, bf, rt, click, item):
    """Logged slates: actions, propensities and rewards (slot rewards independent of the context)."""
    lg = ctx.reals("logit", (n, K), nice=(-2, 2))
    eta = ctx.pick("eta", [0.0, 1.0, 2.0]) if click else 1.0
    seen = []

    def logit_fn(context, action_context, random_state=None):
        seen.append(context)
        return lg.copy()

    ds = SyntheticSlateBanditDataset(
        n_unique_action=K, len_list=L, dim_context=2, reward_type=rt, click_model=click, eta=eta, is_factorizable=fac,
        behavior_policy_function=logit_fn if bf else None, reward_structure="independent", random_state=7,
    )
    fb = ds.obtain_batch_bandit_feedback(n_rounds=n, return_pscore_item_position=item)
    if not bf:
        lg = ctx.arr(np.zeros((n, K)))
    act = [int(a) for a in fb["action"]]
    N = n * L
    ctx.check("sizes", [fb["n_rounds"] == n, fb["n_unique_action"] == K, len(act) == N, np.shape(fb["context"]) == (n, 2)])
    ctx.check("rows", [[int(x) for x in fb["slate_id"]] == [i for i in range(n) for _ in range(L)], [int(x) for x in fb["position"]] == list(range(L)) * n])
    ctx.check("items exist", all(0 <= a < K for a in act))
    if not fac:
        ctx.check("no item twice in a slate", all(len(set(act[i * L:(i + 1) * L])) == L for i in range(n)))
    for c in seen:
        ctx.eq("policy sees the contexts", c, fb["context"])
    check_pscores(ctx, (fb["pscore"], fb["pscore_item_position"], fb["pscore_cascade"]), lg, act, n, L, fac, item)
    # the item of each slot is drawn from the policy given the earlier slots
    draws = [c for c in ctx.calls if c[1] == "choice"]
    ctx.check("one draw per slot", len(draws) == N)
    for j, c in enumerate(draws):
        arr, p = c[2][0], c[2][3]
        pool = [int(x) for x in flat(arr)] if not isinstance(arr, (int, np.integer)) else list(range(arr))
        i, l = divmod(j, L)
        st = steps(row(lg, i), act[i * L:i * L + L], fac)
        ctx.eq("drawn with its probability", flat(p)[pool.index(act[j])], st[l])
    # rewards
    base = free_rewards(ctx)  # one number per item and slot
    ctx.check("one expected reward per item and slot", len(base) == K * L)
    ex = [(1.0 / (l + 1)) ** eta if click == "pbm" else 1.0 for l in range(L)]
    at = [(1.0 / (l + 1)) ** eta if click == "cascade" else 1.0 for l in range(L)]
    rew = fb["reward"]
    if rt == "binary":
        want = [base[act[i * L + l] * L + l] * ex[l] for i in range(n) for l in range(L)]
        ctx.eq("expected reward", fb["expected_reward_factual"], want)
        pr = ctx.arr(np.zeros((n, L))) if not ctx.sym else np.empty((n, L), dtype=object)
        got = np.empty((n, L), dtype=object)
        slot = slot_draws(ctx, "binomial", n, L)
        for i in range(n):
            d = 1.0
            for l in range(L):
                if l:
                    x = rew[i * L + l - 1]
                    d = d * (x * at[l] + (1.0 - x))
                p, r = slot[i][l]
                ctx.eq("reward", rew[i * L + l], r)
                ctx.eq("click probability", p, want[i * L + l] * d)
    else:
        locs = [base[act[i * L + l] * L + l] for i in range(n) for l in range(L)]
        ctx.eq("expected reward", fb["expected_reward_factual"], [trunc_mean(m) for m in locs])
        slot = slot_draws(ctx, "truncnorm", n, L)
        for i in range(n):
            for l in range(L):
                (a, b, loc, sc), r = slot[i][l]
                ctx.eq("reward", rew[i * L + l], r)
                ctx.eq("reward distribution", [loc, sc, a * sc + loc], [locs[i * L + l], 1.0, 0.0])
        names = [c[4] for c in ctx.calls if c[1] == "truncnorm"]
        ctx.check("noise of the slots is independent", len(set(names)) == len(names))


def free_rewards(ctx):
    us = [c for c in ctx.calls if c[1] in ("uniform", "random")]
    return flat(us[-1][3]) if us else []


def slot_draws(ctx, kind, n, L):
    """(parameters, value) of each slot; drawn slot by slot for all slates."""
    out = [[None] * L for _ in range(n)]
    k = 0
    for c in ctx.calls:
        if c[1] != kind:
            continue
        shape = np.shape(c[3])
        val = flat(c[3])
        if kind == "binomial":
            par = flat(np.broadcast_to(A._to_obj(c[2][1]), shape))
        else:
            par = list(zip(*[flat(np.broadcast_to(A._to_obj(x), shape)) for x in c[2][:4]]))
        for p, v in zip(par, val):
            l, i = divmod(k, n)
            out[i][l] = (p, v)
            k += 1
    ctx.check("every slot gets a reward", k == n * L)
    return out


EVAL = [
    dict(n=1, K=3, L=2, fac=False, clip=False, item=True),
    dict(n=2, K=2, L=2, fac=False, clip=False, item=True),
    dict(n=1, K=2, L=2, fac=True, clip=False, item=True),
    dict(n=1, K=3, L=2, fac=False, clip=True, item=True),
    dict(n=1, K=3, L=3, fac=False, clip=False, item=False),
    dict(n=1, K=2, L=3, fac=True, clip=True, item=True),
]


@harness(cases=EVAL, thorough=[dict(n=1, K=3, L=3, fac=False, clip=False, item=True), dict(n=2, K=3, L=2, fac=False, clip=False, item=True)])
def evaluation_propensities(ctx, n, K, L, fac, clip, item):
    lg = ctx.reals("logit", (n, K), hi=50.0 if clip else None, nice=(-2, 2))
    al = slates(K, L, fac)
    act = [a for i in range(n) for a in ctx.pick(f"slate{i}", al)]
    ds = SyntheticSlateBanditDataset(n_unique_action=K, len_list=L, is_factorizable=fac, random_state=7)
    got = ds.obtain_pscore_given_evaluation_policy_logit(
        action=np.array(act), evaluation_policy_logit_=lg, return_pscore_item_position=item, **(dict(clip_logit_value=50.0) if clip else {})
    )
    check_pscores(ctx, got, lg, act, n, L, fac, item)


@harness(cases=product(K=[2, 3], L=[2], fac=[False, True]) + [dict(K=3, L=3, fac=False)])
def propensities_add_up(ctx, K, L, fac):
    """Over all slates, joint propensities sum to one; item-position ones sum to one over the items of a slot."""
    lg = ctx.reals("logit", (1, K), nice=(-2, 2))
    ds = SyntheticSlateBanditDataset(n_unique_action=K, len_list=L, is_factorizable=fac, random_state=7)
    joint, item = [], [{} for _ in range(L)]
    for s in slates(K, L, fac):
        j, it, c = ds.obtain_pscore_given_evaluation_policy_logit(action=np.array(s), evaluation_policy_logit_=lg)
        joint.append(j[0])
        for l in range(L):
            item[l][s[l]] = it[l]
    ctx.eq("joint", total(joint), 1.0)
    for l in range(L):
        ctx.eq("item-position", total(item[l].values()), 1.0)


@harness(cases=[dict(n=1, K=3, L=2, fac=False), dict(n=2, K=2, L=2, fac=True), dict(n=1, K=3, L=3, fac=False)])
def action_distribution(ctx, n, K, L, fac):
    """Distribution over the items of a slot given the items of the earlier slots."""
    lg = ctx.reals("logit", (n, K), lo=-50, hi=50, nice=(-2, 2))
    act = [a for i in range(n) for a in ctx.pick(f"slate{i}", slates(K, L, fac))]
    ds = SyntheticSlateBanditDataset(n_unique_action=K, len_list=L, is_factorizable=fac, random_state=7)
    before = lg.copy()
    got = ds.calc_evaluation_policy_action_dist(action=np.array(act), evaluation_policy_logit_=lg)
    ctx.eq("logits are left alone", lg, before)
    want = []
    for i in range(n):
        for l in range(L):
            gone = [] if fac else act[i * L:i * L + l]
            e = {a: np.exp(lg[i, a]) for a in range(K) if a not in gone}
            want += [e[a] / total(e.values()) if a in e else 0.0 for a in range(K)]
    ctx.eq("distribution", got, want)


STRUCT = ["independent", "standard_additive", "cascade_additive", "standard_decay", "cascade_decay"]


def weights(ctx, structure, K, L):
    if structure.endswith("additive"):
        W = ctx.reals("W", (K, K), nice=(-2, 2))
        return W, W
    if structure == "independent":
        return ctx.arr(np.zeros((L, L))), None
    W = ctx.reals("W", (L, L), nice=(-2, 2))
    return W, None


@harness(
    cases=product(structure=STRUCT, rt=["continuous"], n=[2], K=[2], L=[2], enum=[False, True])
    + product(structure=["standard_additive", "cascade_decay", "standard_decay", "cascade_additive"], rt=["continuous"], n=[1], K=[3], L=[3], enum=[False])
    + product(structure=STRUCT, rt=["binary"], n=[1], K=[2], L=[2], enum=[False])
)
def reward_structures(ctx, structure, rt, n, K, L, enum):
    """Expected slot rewards follow the documented interaction between slots."""
    decay = ctx.pick("decay", ["exponential", "inverse"]) if structure.endswith("decay") else "exponential"
    ds = SyntheticSlateBanditDataset(
        n_unique_action=K, len_list=L, reward_type=rt, reward_structure=structure, decay_function=decay, is_factorizable=True,
        base_reward_function=lambda **k: None, random_state=7,
    )
    q = ctx.reals("q", (n, K), lo=0, hi=1, lo_open=True, hi_open=True) if rt == "binary" else ctx.reals("q", (n, K), nice=(-2, 2))
    W = ds.action_interaction_weight_matrix
    if structure.endswith("additive"):
        for a in range(K):
            for b in range(K):
                ctx.eq("symmetric interaction of items", W[a, b], W[b, a])
        h = W
    else:
        f = (lambda d: np.exp(-float(d))) if decay == "exponential" else (lambda d: 1.0 / (d + 1.0))
        h = np.array([[-f(abs(l - j)) for j in range(L)] for l in range(L)])
    al = list(itertools.product(range(K), repeat=L))
    if enum:
        pick = [ctx.pick("first", al), ctx.pick("second", al)]
        action = [a for s in pick for a in s]
        rows = [(i, s) for i in range(n) for s in pick]
    else:
        pick = [ctx.pick(f"slate{i}", al) if n * K * L <= 8 else [(0, 1, 2), (2, 0, 0), (1, 1, 2)][ctx.choice("which", 3)] for i in range(n)]
        action = [a for s in pick for a in s]
        rows = list(zip(range(n), pick))
    kept = q.copy()
    got = action_interaction_reward_function(
        context=ctx.arr(np.ones((n, 1))), action_context=ctx.arr(np.eye(K)), action=np.array(action), base_reward_function=lambda context, action_context, random_state: q,
        reward_type=rt, reward_structure=structure, action_interaction_weight_matrix=W, len_list=L, is_enumerated=enum, random_state=3,
    )
    ctx.eq("base rewards are left alone", q, kept)
    want = []
    for i, s in rows:
        b = row(q, i)
        b = [logit_(x) for x in b] if rt == "binary" else b
        want.append([link(rt, interaction(b, s, l, structure, h)) for l in range(L)])
    ctx.eq("expected rewards", got, ctx_arr(ctx, want))


@harness(cases=[dict(K=130, L=2)])
def many_items(ctx, K, L):
    """More items than fit in a byte."""
    q = ctx.reals("q", (1, 3), nice=(0, 2), lo=0)
    full = ctx_arr(ctx, [[0.5] * (K - 2) + [q[0, 0], q[0, 1]]])
    got = action_interaction_reward_function(
        context=ctx.arr(np.ones((1, 1))), action_context=ctx.arr(np.eye(K)), action=np.array([K - 1, K - 2]),
        base_reward_function=lambda **k: full, reward_type="continuous", reward_structure="independent",
        action_interaction_weight_matrix=ctx.arr(np.zeros((L, L))), len_list=L,
    )
    ctx.eq("rewards", flat(got), [q[0, 1], q[0, 0]])


TRUTH = [
    dict(n=1, K=2, L=2, fac=False, rt="binary", structure="independent", click=None, base=True),
    dict(n=2, K=2, L=2, fac=True, rt="continuous", structure="standard_decay", click=None, base=True),
    dict(n=1, K=3, L=2, fac=False, rt="continuous", structure="cascade_decay", click=None, base=True),
    dict(n=2, K=2, L=2, fac=False, rt="continuous", structure="independent", click=None, base=True),
    dict(n=1, K=2, L=2, fac=True, rt="binary", structure="independent", click="pbm", base=True),
    dict(n=1, K=2, L=2, fac=False, rt="binary", structure="independent", click="cascade", base=True),
    dict(n=2, K=2, L=2, fac=True, rt="binary", structure="independent", click=None, base=False),
    dict(n=1, K=3, L=2, fac=False, rt="binary", structure="independent", click="pbm", base=False),
    dict(n=1, K=2, L=2, fac=True, rt="continuous", structure="independent", click=None, base=False),
    dict(n=1, K=2, L=2, fac=True, rt="binary", structure="independent", click="cascade", base=False),
]


@harness(cases=TRUTH, thorough=[dict(n=1, K=2, L=3, fac=True, rt="continuous", structure="cascade_decay", click=None, base=True)])
def ground_truth(ctx, n, K, L, fac, rt, structure, click, base):
    """The policy value is the average over rounds of the expected slate reward under the policy."""
    lg = ctx.reals("logit", (n, K), nice=(-2, 2))
    eta = 1.0
    q = ctx.reals("q", (n, K), lo=0, hi=1, lo_open=True, hi_open=True) if rt == "binary" else ctx.reals("q", (n, K), lo=0, nice=(0, 2))
    ds = SyntheticSlateBanditDataset(
        n_unique_action=K, len_list=L, dim_context=1, reward_type=rt, reward_structure=structure, decay_function="inverse", click_model=click, eta=eta,
        is_factorizable=fac, base_reward_function=(lambda context, action_context, random_state: q.copy()) if base else None, random_state=7,
    )
    got = ds.calc_ground_truth_policy_value(context=ctx.arr(np.ones((n, 1))), evaluation_policy_logit_=lg)
    free = None if base else free_rewards(ctx)
    h = np.array([[-1.0 / (abs(l - j) + 1.0) for j in range(L)] for l in range(L)])
    ex = [(1.0 / (l + 1)) ** eta if click == "pbm" else 1.0 for l in range(L)]
    at = [(1.0 / (l + 1)) ** eta if click == "cascade" else 1.0 for l in range(L)]
    value = []
    for i in range(n):
        for s in slates(K, L, fac):
            p = prod(steps(row(lg, i), s, fac))
            if base:
                b = row(q, i)
                b = [logit_(x) for x in b] if rt == "binary" and structure != "independent" else b
                if rt == "binary" and structure == "independent":
                    loc = [b[a] for a in s]
                else:
                    loc = [link(rt, interaction(b, s, l, structure, h)) for l in range(L)]
            else:
                loc = [free[s[l] * L + l] for l in range(L)]
            loc = [loc[l] * ex[l] for l in range(L)]
            if rt == "continuous":
                loc = [trunc_mean(x) for x in loc]
            elif click == "cascade":  # two slots: a click on the first shrinks the second
                loc[1] = loc[1] * (1.0 - loc[0] * (1.0 - at[1]))
            value.append(p * total(loc))
    ctx.eq("policy value", got, total(value) / float(n))


@harness(cases=product(kind=["optimal", "anti-optimal", "random"], fac=[False, True], n=[1], K=[3], L=[2]) + product(kind=["optimal"], fac=[False, True], n=[2], K=[2], L=[2]))
def epsilon_greedy(ctx, kind, fac, n, K, L):
    """Epsilon-greedy evaluation policies: best (or worst) slate with probability 1 - epsilon, uniform otherwise."""
    q = ctx.reals("q", (n, K), lo=0, nice=(0, 2))
    for i in range(n):
        for a in range(K):
            for b in range(a):
                ctx.assume(abs(q[i, a] - q[i, b]) > 1e-6)
    eps = ctx.real("eps", lo=0, hi=1)
    act = [a for i in range(n) for a in ctx.pick(f"slate{i}", slates(K, L, fac))]
    ds = SyntheticSlateBanditDataset(
        n_unique_action=K, len_list=L, dim_context=1, reward_type="continuous", reward_structure="independent", is_factorizable=fac,
        base_reward_function=lambda context, action_context, random_state: q, random_state=7,
    )
    j, it, c = ds.generate_evaluation_policy_pscore(
        evaluation_policy_type=kind, context=ctx.arr(np.ones((n, 1))), action=np.array(act), epsilon=eps if ctx.sym else float(eps)
    )
    for i in range(n):
        s = act[i * L:(i + 1) * L]
        order = list(range(K))
        order.sort(key=lambda a: sum(1 for b in range(K) if b != a and bool(q[i, b] < q[i, a])), reverse=kind == "optimal")
        best = [order[0]] * L if fac else order[:L]
        uni = [1.0 / K if fac else 1.0 / (K - l) for l in range(L)]
        for l in range(L):
            u = [prod(uni), 1.0 / K, prod(uni[: l + 1])]
            hit = [s == best, s[l] == best[l], s[: l + 1] == best[: l + 1]]
            w = u if kind == "random" else [(1.0 - eps) * (1.0 if hit[m] else 0.0) + eps * u[m] for m in range(3)]
            ctx.eq("propensities", [j[i * L + l], it[i * L + l], c[i * L + l]], w)


@harness(cases=[dict(n=2)])
def behaviour_logits(ctx, n):
    X = ctx.reals("x", (n, 2), nice=(-1, 1))
    E = ctx.reals("e", (2, 1), nice=(-1, 1))
    tau = ctx.real("tau", lo=0, lo_open=True, nice=(0.5, 2))
    got = linear_behavior_policy_logit(context=X, action_context=E, random_state=3, tau=tau if ctx.sym else float(tau))
    us = [x for c in ctx.calls if c[1] in ("uniform", "random") for x in flat(c[3])]
    ctx.check("coefficients", len(us) == 3)
    want = [[(X[i, 0] * us[0] + X[i, 1] * us[1] + E[a, 0] * us[2]) / tau for a in range(2)] for i in range(n)]
    ctx.eq("logits", got, ctx_arr(ctx, want))


@harness(cases=[dict(sid=[0, 0, 1, 1]), dict(sid=[4, 2, 4]), dict(sid=[1])])
def on_policy_value(ctx, sid):
    r = ctx.reals("r", len(sid), nice=(-2, 2))
    ds = SyntheticSlateBanditDataset(n_unique_action=2, len_list=2, random_state=7)
    ctx.eq("reward per slate", ds.calc_on_policy_policy_value(reward=r, slate_id=np.array(sid)), total(r) / float(len(set(sid))))
