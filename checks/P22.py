"""P22: context-free bandit policies choose by their statistics, refreshed once per batch."""
import os

import yaml

import obp.policy.contextfree
from symnp.api import *
from checks.common import ctx_arr, flat, ranked
from obp.policy import BernoulliTS, EpsilonGreedy, Random

BOUNDS = "2-3 actions, up to 4 updates in any order of actions, batches of 1-3, lists of 1-2 (plus one history of 1300 updates and one of 300 actions); rewards, exploration rates, priors and random numbers arbitrary reals"


def history(ctx, pol, T, k, first=None, hi=None):
    """Random updates; the pairs of completed batches."""
    done = []
    acts = first if first is not None else [int(a) for a in ctx.ints("a", T, k)]
    rew = ctx.reals("r", T, lo=0, hi=1) if hi else ctx.reals("r", T, nice=(-2, 2))
    for t in range(T):
        pol.update_params(action=acts[t], reward=rew[t])
        done.append((acts[t], rew[t]))
    return done


def stats(done, k, batch):
    m = len(done) // batch * batch
    seen = done[:m]
    n = [sum(1 for a, _ in seen if a == b) for b in range(k)]
    s = [total(r for a, r in seen if a == b) if n[b] else 0.0 for b in range(k)]
    return n, s


def explored(ctx, sel, k, L):
    D = list(ctx.draws)
    sel = [int(s) for s in sel]
    ctx.check("a list of distinct random actions", len(sel) == L and len(set(sel)) == L and all(0 <= s < k for s in sel) and sel == [int(d) for d in D[:L]])


def egreedy_check(ctx, pol, eps, k, L, n, s):
    c0 = len(ctx.calls)
    del ctx.draws[:]
    sel = pol.select_action()
    u = [flat(c[3])[0] for c in ctx.calls[c0:] if c[1] in ("uniform", "random")]
    ctx.check("list length", len(sel) == L)
    if min(n) == 0:
        explored(ctx, sel, k, L)
        return
    ctx.check("one number decides", len(u) == 1)
    d = u[0] - eps
    if not ctx.sym and abs(d) < 1e-9:
        return
    ctx.assume(d != 0)
    if ctx.draws:
        ctx.check("explores with the exploration rate", u[0] < eps)
        explored(ctx, sel, k, L)
    else:
        ctx.check("exploits otherwise", u[0] > eps)
        ranked(ctx, "largest average reward first", sel, [s[b] / float(n[b]) for b in range(k)])


EG = [
    dict(k=2, L=1, T=2, batch=1, first=None),
    dict(k=2, L=2, T=3, batch=1, first=[0, 1, 0]),
    dict(k=2, L=1, T=3, batch=2, first=None),
    dict(k=2, L=1, T=4, batch=2, first=[0, 1, 1, 0]),
    dict(k=2, L=1, T=4, batch=3, first=[1, 0, 1, 1]),
    dict(k=3, L=2, T=4, batch=1, first=[0, 2, 1, 2]),
    dict(k=3, L=1, T=3, batch=1, first=[0, 2, 1]),
    dict(k=3, L=2, T=2, batch=1, first=[0, 2]),
    dict(k=3, L=3, T=0, batch=1, first=[]),
]


@harness(cases=EG, thorough=[dict(k=3, L=2, T=4, batch=1, first=None), dict(k=2, L=1, T=5, batch=2, first=None), dict(k=4, L=2, T=5, batch=1, first=[0, 2, 1, 3, 2])])
def epsilon_greedy(ctx, k, L, T, batch, first):
    eps = ctx.real("eps", lo=0, hi=1)
    pol = EpsilonGreedy(n_actions=k, len_list=L, batch_size=batch, epsilon=eps, random_state=1)
    done = history(ctx, pol, T, k, first)
    n, s = stats(done, k, batch)
    egreedy_check(ctx, pol, eps, k, L, n, s)
    ctx.check("number of trials", pol.n_trial == T)


@harness(cases=product(k=[2, 3], L=[1, 2], T=[0, 2]))
def random_policy(ctx, k, L, T):
    pol = Random(n_actions=k, len_list=L, random_state=1)
    history(ctx, pol, T, k, [0, 1, 0][:T])
    del ctx.draws[:]
    explored(ctx, pol.select_action(), k, L)
    for m in (1, 3):
        d = pol.compute_batch_action_dist(n_rounds=m)
        ctx.check("shape", np.shape(d) == (m, k, L))
        ctx.eq("uniform", flat(d), [1.0 / k] * (m * k * L))


def beta_parameters(ctx, calls, k):
    a = [x for c in calls for x in flat(np.broadcast_to(A._to_obj(c[2][0]), np.shape(c[3]) or (1,)))]
    b = [x for c in calls for x in flat(np.broadcast_to(A._to_obj(c[2][1]), np.shape(c[3]) or (1,)))]
    ctx.check("one draw per action", len(a) == k)
    return a, b, [x for c in calls for x in flat(c[3])]


TS = [
    dict(k=2, L=1, T=2, batch=1, prior=True, first=None),
    dict(k=2, L=2, T=3, batch=2, prior=False, first=None),
    dict(k=3, L=2, T=2, batch=1, prior=True, first=[2, 0]),
    dict(k=3, L=1, T=4, batch=2, prior=False, first=[1, 1, 2, 0]),
    dict(k=3, L=3, T=4, batch=3, prior=True, first=[1, 1, 2, 0]),
    dict(k=2, L=1, T=0, batch=1, prior=False, first=[]),
]


@harness(cases=TS, thorough=[dict(k=3, L=2, T=4, batch=1, prior=True, first=None)])
def thompson(ctx, k, L, T, batch, prior, first):
    al = ctx.reals("alpha", k, lo=0, lo_open=True, nice=(0.5, 3))
    be = ctx.reals("beta", k, lo=0, lo_open=True, nice=(0.5, 3))
    pol = BernoulliTS(n_actions=k, len_list=L, batch_size=batch, random_state=1, **(dict(alpha=al, beta=be) if prior else {}))
    done = history(ctx, pol, T, k, first, hi=1)
    n, s = stats(done, k, batch)
    c0 = len(ctx.calls)
    sel = pol.select_action()
    a, b, draws = beta_parameters(ctx, [c for c in ctx.calls[c0:] if c[1] == "beta"], k)
    if len(a) == k:
        ctx.eq("successes", a, [s[i] + (al[i] if prior else 1.0) for i in range(k)])
        ctx.eq("failures", b, [n[i] - s[i] + (be[i] if prior else 1.0) for i in range(k)])
        ctx.check("list length", len(sel) == L)
        ranked(ctx, "largest sampled rate first", sel, draws)


@harness(cases=product(campaign=["all", "men", "women"]))
def production_prior(ctx, campaign):
    r = ctx.real("r", lo=0, hi=1)
    with open(os.path.join(os.path.dirname(obp.policy.contextfree.__file__), "conf", "prior_bts.yaml"), "rb") as f:
        conf = yaml.safe_load(f)[campaign]
    k = len(conf["alpha"])
    pol = BernoulliTS(n_actions=k, len_list=1, is_zozotown_prior=True, campaign=campaign, random_state=1)
    pol.update_params(action=1, reward=r)
    seen = []
    real = pol.random_.beta

    def fixed(a, b, size=None):
        seen.append((flat(a), flat(b)))
        return np.linspace(0.1, 0.9, k)

    pol.random_.beta = fixed
    sel = pol.select_action()
    ctx.check("one call", len(seen) == 1 and int(sel[0]) == k - 1)
    a, b = seen[0]
    ctx.eq("successes", a, [conf["alpha"][i] + (r if i == 1 else 0.0) for i in range(k)])
    ctx.eq("failures", b, [conf["beta"][i] + (1.0 - r if i == 1 else 0.0) for i in range(k)])
    ctx.raises("campaign is needed", lambda: BernoulliTS(n_actions=k, is_zozotown_prior=True), types=(Exception,))


@harness(cases=[dict(k=2, L=1, sims=2, m=1), dict(k=2, L=2, sims=1, m=2), dict(k=3, L=2, sims=1, m=1)], thorough=[dict(k=2, L=2, sims=3, m=2)])
def simulated_distribution(ctx, k, L, sims, m):
    """The batch distribution is the frequency of each action at each position over the simulations."""
    pol = BernoulliTS(n_actions=k, len_list=L, random_state=1)
    d = pol.compute_batch_action_dist(n_rounds=m, n_sim=sims)
    ctx.check("shape", np.shape(d) == (m, k, L))
    draws = [flat(c[3]) for c in ctx.calls if c[1] == "beta"]
    ctx.check("number of simulations", len(draws) == sims)
    for x in draws:
        for i in range(k):
            for j in range(i):
                if not ctx.sym and abs(x[i] - x[j]) < 1e-9:
                    return
                ctx.assume(x[i] != x[j])
    for p in range(L):
        for a in range(k):
            # a is at position p when exactly p actions have a larger draw
            hits = [where(total(where(x[b] > x[a], 1.0, 0.0) for b in range(k) if b != a) == float(p), 1.0, 0.0) for x in draws]
            for i in range(m):
                ctx.eq("frequency", d[i, a, p], total(hits) / float(sims))


@harness(cases=product(kind=["egreedy", "bts"], batch=[1, 2]))
def initialize(ctx, kind, batch):
    """After initialize the policy behaves like a new one."""
    k, L = 2, 1
    eps = ctx.real("eps", lo=0, hi=1)
    make = (lambda: EpsilonGreedy(n_actions=k, len_list=L, batch_size=batch, epsilon=eps, random_state=1)) if kind == "egreedy" else (lambda: BernoulliTS(n_actions=k, len_list=L, batch_size=batch, random_state=1))
    old, new = make(), make()
    history(ctx, old, 3, k, [0, 1, 1], hi=1)
    old.initialize()
    r = ctx.reals("later", 2, lo=0, hi=1)
    for p in (old, new):
        for a in (0, 1):
            p.update_params(action=a, reward=r[a])
    ctx.check("trials", old.n_trial == new.n_trial)
    ctx.eq("counts", old.action_counts, new.action_counts)
    ctx.eq("rewards", old.reward_counts, new.reward_counts)
    ctx.check("same choice", [int(x) for x in old.select_action()] == [int(x) for x in new.select_action()])


@harness(cases=product(bad=["eps", "eps low", "n_actions", "len_list", "len_list 0", "batch_size"]))
def refused(ctx, bad):
    over = ctx.real("over", lo=1, lo_open=True, nice=(1.1, 2))
    low = ctx.real("low", hi=0, hi_open=True, nice=(-2, -0.1))
    kw = dict(n_actions=2)
    if bad.startswith("eps"):
        ctx.raises("refused", lambda: EpsilonGreedy(n_actions=2, epsilon=over if bad == "eps" else low))
        return
    kw.update({"n_actions": dict(n_actions=1), "len_list": dict(len_list=3), "len_list 0": dict(len_list=0), "batch_size": dict(batch_size=0)}[bad])
    for cls in (EpsilonGreedy, Random, BernoulliTS):
        ctx.raises("refused", lambda: cls(**kw))


@harness(cases=[dict(k=300, L=3, T=1300, batch=1), dict(k=3, L=2, T=1300, batch=7)])
def long_history(ctx, k, L, T, batch):
    """Many actions and updates: fixed rewards apart from the last one, any exploration rate."""
    ctx.fixed_choices = True
    eps = ctx.real("eps", lo=0, hi=1)
    last = ctx.real("last", lo=0, hi=1)
    acts = [(t * 7 + t // 11) % k for t in range(T)]
    rew = [((t * 13 + 5 * acts[t]) % 23) / 32.0 for t in range(T)]
    eg = EpsilonGreedy(n_actions=k, len_list=L, batch_size=batch, epsilon=eps, random_state=1)
    ts = BernoulliTS(n_actions=k, len_list=L, batch_size=batch, random_state=1)
    m = T // batch * batch
    done = [(acts[t], last if t == m - 1 else rew[t]) for t in range(T)]
    for a, r in done:
        ts.update_params(action=a, reward=r)
    for t in range(T):
        eg.update_params(action=acts[t], reward=rew[t])
    n, s = stats(done, k, batch)
    egreedy_check(ctx, eg, eps, k, L, *stats(list(zip(acts, rew)), k, batch))
    seen = []

    def fixed(a, b, size=None):
        seen.append((flat(a), flat(b)))
        return np.array([((i * 29) % k + 0.5) / k for i in range(k)])

    ts.random_.beta = fixed
    sel = [int(x) for x in ts.select_action()]
    ctx.check("one call", len(seen) == 1)
    ctx.check("largest sampled rate first", [(i * 29) % k for i in sel] == [k - 1 - p for p in range(L)])
    ctx.eq("successes", seen[0][0], [s[i] + 1.0 for i in range(k)])
    ctx.eq("failures", seen[0][1], [n[i] - s[i] + 1.0 for i in range(k)])
    ctx.check("number of trials", eg.n_trial == T and ts.n_trial == T)
