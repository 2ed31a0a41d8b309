"""P17: synthetic data of several loggers and with action embeddings is what it says it is."""
from symnp.api import *
from symnp.stubs import truncmean
from checks.common import ctx_arr, flat, is_zero, softmax_of, stream
from obp.dataset import SyntheticBanditDatasetWithActionEmbeds, SyntheticMultiLoggersBanditDataset

BOUNDS = (
    "1-4 rounds, 2-3 actions, 1-3 loggers with several shares, 1-2 embedding dimensions with 2 categories; expected rewards, "
    "temperatures, embedding distributions, dimension weights and every random number arbitrary reals; truncated normal means uninterpreted"
)
ASSUMPTIONS = ["exp is an uninterpreted positive monotone function with exp(a+b) = exp(a)exp(b)"]


def numbers(ctx, start=0):
    """Uniform numbers drawn since a point, with the draw they belong to."""
    return [(x, c[4]) for c in ctx.calls[start:] if c[1] in ("uniform", "random") for x in flat(c[3])]


def drawn(ctx, label, pi, values, us):
    for i, a in enumerate(values):
        u = us[i][0]
        low = total(pi[i][b] for b in range(a)) if a else 0.0
        if not ctx.sym and min(abs(u - low), abs(u - low - pi[i][a])) < 1e-9:
            continue
        ctx.check(label, [low <= u, u < low + pi[i][a]])


MULTI = [
    dict(n=2, k=2, rhos=[1, 1], rt="binary", rf=True, de=0),
    dict(n=2, k=2, rhos=[3, 1], rt="binary", rf=True, de=1),
    dict(n=3, k=2, rhos=[0.2, 0.3, 0.5], rt="binary", rf=True, de=0),
    dict(n=1, k=3, rhos=[0.4, 0.6], rt="binary", rf=True, de=1),
    dict(n=1, k=2, rhos=[2], rt="binary", rf=False, de=0),
    dict(n=2, k=2, rhos=[0.6, 0.4], rt="continuous", rf=True, de=0),
    dict(n=1, k=2, rhos=[0.0, 1.0], rt="continuous", rf=False, de=0),
]


@harness(cases=MULTI, thorough=[dict(n=4, k=2, rhos=[0.5, 0.25, 0.25], rt="binary", rf=True, de=1), dict(n=2, k=3, rhos=[0.5, 0.5], rt="binary", rf=True, de=1)])
def loggers(ctx, n, k, rhos, rt, rf, de):
    rr = dict(lo=0, hi=1) if rt == "binary" else dict(nice=(-2, 2))
    q = ctx.reals("q", (n, k), **rr)
    M = len(rhos)
    betas = [ctx.real(f"beta{m}", nice=(-2, 2)) for m in range(M)]
    betas = betas if ctx.sym else [float(b) for b in betas]
    ac = ctx.arr([[3.0 * a, 1.0] for a in range(k)])
    seen = {}

    def reward_fn(context, action_context, random_state=None):
        seen["rf"] = (context, action_context)
        return q.copy()

    ds = SyntheticMultiLoggersBanditDataset(
        n_actions=k, dim_context=2, reward_type=rt, reward_function=reward_fn if rf else None, betas=betas, rhos=list(rhos),
        n_deficient_actions=de, action_context=ac, random_state=7, reward_std=1.5,
    )
    mean_ = [[q[i, a] for a in range(k)] for i in range(n)] if rf else [flat(ds.expected_reward)] * n
    start = len(ctx.calls)
    fb = ds.obtain_batch_bandit_feedback(n_rounds=n)
    act = [int(a) for a in fb["action"]]
    st = [int(s) for s in fb["stratum_idx"]]
    share = [r / sum(rhos) for r in rhos]
    ctx.check("sizes", [fb["n_rounds"] == n, fb["n_actions"] == k, fb["n_strata"] == M, np.shape(fb["context"]) == (n, 2), fb["position"] is None])
    ctx.check("every round has an action and a logger", [len(act) == n, len(st) == n, all(0 <= a < k for a in act), all(0 <= s < M for s in st)])
    ctx.check("loggers collect their share of the rounds", [abs(st.count(m) - n * share[m]) <= 1 for m in range(M)])
    for f in seen.values():
        ctx.eq("contexts", f[0], fb["context"])
        ctx.eq("action contexts", f[1], ac)
    er = fb["expected_reward"]
    sd = 1.5
    want = mean_ if rt == "binary" else [[truncmean(ctx, (0.0 - m) / sd, (1e10 - m) / sd, m, sd) for m in r] for r in mean_]
    ctx.eq("expected reward", er, ctx_arr(ctx, want))
    ctx.check("shapes of the policies", [np.shape(fb["pi_b"]) == (n, k, 1), np.shape(fb["pi_b_avg"]) == (n, k, 1)])
    pi, avg = fb["pi_b"][:, :, 0], fb["pi_b_avg"][:, :, 0]
    for i in range(n):
        sup = list(range(k))
        if de:
            sup = [a for a in range(k) if not is_zero(pi[i, a])]
            ctx.check("number of supported actions", len(sup) == k - de)
        ps = [softmax_of([b * er[i, a] for a in sup]) for b in betas]
        for a in range(k):
            if a in sup:
                j = sup.index(a)
                ctx.eq("policy of the round's logger", pi[i, a], ps[st[i]][j])
                ctx.eq("average policy", avg[i, a], total(share[m] * ps[m][j] for m in range(M)))
            else:
                ctx.eq("deficient actions", [pi[i, a], avg[i, a]], [0.0, 0.0])
    us = numbers(ctx, start)
    ctx.check("one random number per round", len(us) == n)
    drawn(ctx, "actions come from the round's logger", pi, act, us)
    ctx.eq("propensity", fb["pscore"], [pi[i, act[i]] for i in range(n)])
    ctx.eq("average propensity", fb["pscore_avg"], [avg[i, act[i]] for i in range(n)])
    rewards(ctx, fb, rt, [er[i, act[i]] for i in range(n)], {x for _, x in us})


def rewards(ctx, fb, rt, want, used):
    kind = "binomial" if rt == "binary" else "truncnorm"
    draws = [c for c in ctx.calls if c[1] == kind]
    ctx.check("noise does not reuse other random numbers", not stream(c[4] for c in draws) & stream(used | {c[4] for c in ctx.calls if np.shape(c[3]) == np.shape(fb["context"]) and "normal" in c[1]}))
    ctx.eq("rewards are drawn once", [x for c in draws for x in flat(c[3])], flat(fb["reward"]))
    ms = []
    for c in draws:
        if rt == "binary":
            ms += flat(np.broadcast_to(A._to_obj(c[2][1]), np.shape(c[3])))
        else:
            args = [flat(np.broadcast_to(A._to_obj(x), np.shape(c[3]))) for x in c[2][:4]]
            ms += [truncmean(ctx, *v) for v in zip(*args)]
    ctx.eq("mean of the reward distribution", ms, want, tol=1e-5)


@harness(cases=product(bad=["betas", "rhos", "length", "negative", "beta type"]))
def loggers_refused(ctx, bad):
    kw = dict(n_actions=2, betas=[1.0, 2.0], rhos=[1.0, 1.0], random_state=7)
    ctx.accepts("valid", lambda: SyntheticMultiLoggersBanditDataset(**kw))
    if bad == "betas":
        kw["betas"] = 3.0
    elif bad == "rhos":
        kw["rhos"] = (0.5, 0.5)
    elif bad == "length":
        kw["rhos"] = [1.0]
    elif bad == "negative":
        x = ctx.real("rho", hi=0, hi_open=True)
        kw["rhos"] = [1.0, x if ctx.sym else float(x)]
    else:
        kw["betas"] = [1.0, "2"]
    ctx.raises(bad, lambda: SyntheticMultiLoggersBanditDataset(**kw))


def dataset(ctx, k, C, D, rt, bf, de, unob, irr, seed, q, lg, beta):
    def reward_fn(context, action_context, random_state=None):
        d = reward_fn.n
        reward_fn.n += 1
        reward_fn.ctx.append(context)
        return q[:, :, d].copy()

    reward_fn.n, reward_fn.ctx = 0, []

    def logit_fn(context, action_context, random_state=None):
        return lg.copy()

    ds = SyntheticBanditDatasetWithActionEmbeds(
        n_actions=k, dim_context=1, reward_type=rt, reward_function=reward_fn, behavior_policy_function=logit_fn if bf else None,
        beta=beta if ctx.sym else float(beta), n_cat_per_dim=C, n_cat_dim=D, n_unobserved_cat_dim=unob, n_irrelevant_cat_dim=irr,
        n_deficient_actions=de, latent_param_mat_dim=1, random_state=seed, reward_std=1.5,
    )
    return ds, reward_fn


EMB = [
    dict(n=1, k=2, D=1, rt="binary", bf=True, de=0, unob=0, irr=0, seed=1),
    dict(n=1, k=2, D=1, rt="continuous", bf=True, de=0, unob=0, irr=0, seed=7),
    dict(n=2, k=2, D=1, rt="binary", bf=True, de=0, unob=0, irr=0, seed=7),
    dict(n=1, k=2, D=1, rt="binary", bf=False, de=1, unob=0, irr=0, seed=1),
    dict(n=1, k=2, D=2, rt="binary", bf=True, de=0, unob=1, irr=0, seed=2),
    dict(n=1, k=2, D=2, rt="continuous", bf=True, de=0, unob=0, irr=1, seed=2),
]


@harness(cases=EMB, thorough=[dict(n=1, k=3, D=1, rt="binary", bf=True, de=1, unob=0, irr=0, seed=3), dict(n=1, k=2, D=2, rt="binary", bf=False, de=0, unob=0, irr=0, seed=3)])
def embeddings(ctx, n, k, D, rt, bf, de, unob, irr, seed):
    C, T = 2, D + 1  # one hidden dimension without effect is always added
    rr = dict(lo=0, hi=1) if rt == "binary" else dict(nice=(-2, 2))
    q = ctx.reals("q", (n, C, T), **rr)
    lg = ctx.reals("logit", (n, k), nice=(-2, 2))
    beta = ctx.real("beta", nice=(-2, 2))
    ctx.fixed_draws = True
    ds, rf = dataset(ctx, k, C, D, rt, bf, de, unob, irr, seed, q, lg, beta)
    ctx.fixed_draws = False
    # an arbitrary embedding distribution instead of the sampled one
    ctx.check("embedding distribution", np.shape(ds.p_e_a) == (k, C, T))
    ds.p_e_a = np.swapaxes(ctx.simplex("p", (k, T, C), positive=True), 1, 2).copy()
    start = len(ctx.calls)
    fb = ds.obtain_batch_bandit_feedback(n_rounds=n)
    p = ds.p_e_a
    h = T - D + unob  # hidden dimensions
    act = [int(a) for a in fb["action"]]
    emb = fb["action_embed"]
    ctx.check("sizes", [fb["n_rounds"] == n, fb["n_actions"] == k, np.shape(emb) == (n, T - h), np.shape(fb["action_context"]) == (k, T - h), fb["position"] is None])
    ctx.check("ranges", [all(0 <= a < k for a in act), all(0 <= int(e) < C for e in flat(emb))])
    ctx.eq("embedding distribution is reported", fb["p_e_a"], p[:, :, h:])
    ctx.eq("rewards of embeddings are reported", fb["q_x_e"], q[:, :, h:])
    for c in rf.ctx:
        ctx.eq("contexts", c, fb["context"])
    imp = [0.0] * (irr + 1) + [x for c in ctx.calls[start:] if c[1] == "dirichlet" for x in flat(c[3])]
    ctx.check("one weight per relevant dimension", len(imp) == T)
    er = fb["expected_reward"]
    for i in range(n):
        for a in range(k):
            want = total(imp[d] * total(p[a, e, d] * q[i, e, d] for e in range(C)) for d in range(T))
            ctx.eq("expected reward", er[i, a], want)
    pi = fb["pi_b"][:, :, 0]
    for i in range(n):
        sup = list(range(k))
        if de:
            sup = [a for a in range(k) if not is_zero(pi[i, a])]
            ctx.check("number of supported actions", len(sup) == k - de)
        ps = softmax_of([beta * (lg[i, a] if bf else er[i, a]) for a in sup])
        for a in range(k):
            ctx.eq("behaviour policy", pi[i, a], ps[sup.index(a)] if a in sup else 0.0)
    ctx.eq("propensity", fb["pscore"], [pi[i, act[i]] for i in range(n)])
    # actions, then embeddings given actions, then rewards given embeddings
    us = numbers(ctx, start)[-n * (T + 1):]
    ctx.check("numbers drawn", len(us) == n * (T + 1))
    drawn(ctx, "actions", pi, act, us[:n])
    names = [frozenset(x for _, x in us[n * d:n * (d + 1)]) for d in range(T + 1)]
    ctx.check("actions and embeddings are drawn independently", all(not names[i] & names[j] for i in range(T + 1) for j in range(i)))
    for d in range(h, T):
        drawn(ctx, "embedding given the action", [[p[act[i], e, d] for e in range(C)] for i in range(n)], [int(emb[i, d - h]) for i in range(n)], us[n * (d + 1):n * (d + 2)])
    # the embeddings of the hidden dimensions follow from their numbers
    full = []
    for i in range(n):
        e = []
        for d in range(T):
            if d >= h:
                e.append(int(emb[i, d - h]))
            else:
                e.append(0 if bool(us[n * (d + 1) + i][0] < p[act[i], 0, d]) else 1)
        full.append(e)
    want = [total(imp[d] * q[i, full[i][d], d] for d in range(T)) for i in range(n)]
    kind = "binomial" if rt == "binary" else "normal"
    draws = [c for c in ctx.calls[start:] if c[1] == kind][-1:]
    ctx.check("reward noise is independent", not {c[4] for c in draws} & set().union(*names))
    c = draws[0]
    ctx.eq("rewards are drawn", c[3], fb["reward"])
    m, sc = (c[2][1], None) if rt == "binary" else (c[2][0], c[2][1])
    ctx.eq("mean of the reward", m, want)
    if sc is not None:
        ctx.eq("scale of the reward", sc, 1.5)


@harness(cases=[dict(k=2, D=1, C=2)])
def embedding_distribution(ctx, k, D, C):
    """The sampled embedding distribution is a distribution for every action and dimension."""
    ds = SyntheticBanditDatasetWithActionEmbeds(n_actions=k, n_cat_per_dim=C, n_cat_dim=D, latent_param_mat_dim=1, random_state=1)
    p = ds.p_e_a
    for a in range(k):
        for d in range(D + 1):
            ctx.eq("sums to one", total(p[a, e, d] for e in range(C)), 1.0)
            ctx.check("positive", [p[a, e, d] > 0 for e in range(C)])
