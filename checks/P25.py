"""P25: simulations feed policies exactly the feedback they are entitled to and account for it exactly."""
from symnp.api import *
from checks.common import ctx_arr, flat
from obp.policy.policy_type import PolicyType
from obp.simulator import calc_ground_truth_policy_value
from obp.simulator.delay_sampler import ExponentialDelaySampler
from obp.simulator.replay import run_bandit_replay
from obp.simulator.simulator import BanditEnvironmentSimulator, BanditPolicySimulator, BanditRound, BanditRounds

BOUNDS = (
    "2-4 rounds (and fixed choices over 300-1100 rounds with up to 140 actions), 2-3 actions, lists of 1-2, 1-2 simulations; policies that choose arbitrarily (every choice explored), every delay "
    "of 0-3 rounds, rewards, expected rewards and contexts arbitrary reals"
)


class Policy:
    """A policy that chooses arbitrarily and remembers what it is given."""

    policy_name = "arbitrary"

    def __init__(self, ctx, k, L=1, contextual=False, log=None, sims=None):
        self.ctx, self.k, self.n_actions, self.len_list = ctx, k, k, L
        self.policy_type = PolicyType.CONTEXTUAL if contextual else PolicyType.CONTEXT_FREE
        self.log = [] if log is None else log
        self.sims = [] if sims is None else sims
        self.id = "p"

    def __deepcopy__(self, memo):
        p = Policy(self.ctx, self.k, self.len_list, self.policy_type == PolicyType.CONTEXTUAL, sims=self.sims)
        p.id = f"{self.id}{len(self.sims)}"
        self.sims.append(p)
        return p

    def select_action(self, *args, **kw):
        cx = list(args) + list(kw.values())
        n = sum(1 for e in self.log if e[0] == "select")
        rest = list(range(self.k))
        sel = [rest.pop(self.ctx.choice(f"{self.id}.sel{n}.{i}", len(rest))) for i in range(self.len_list)]
        self.log.append(("select", flat(cx[0]) if cx else None, sel))
        if cx and np.shape(cx[0])[0] != 1:
            raise ValueError("one context at a time")
        return np.array(sel)

    def update_params(self, action, reward, context=None):
        if context is not None and (np.ndim(context) != 2 or np.shape(context)[0] != 1):
            raise ValueError("one context at a time")
        r = A._to_obj(reward).ravel()[0] if isinstance(reward, np.ndarray) else reward
        self.log.append(("update", int(action), r, flat(context) if context is not None else None))


def same_log(ctx, got, want):
    ctx.check("sequence of choices and updates", [e[0] for e in got] == [e[0] for e in want])
    if [e[0] for e in got] != [e[0] for e in want]:
        return
    for g, w in zip(got, want):
        if g[0] == "select":
            ctx.check("given a context or not", (g[1] is None) == (w[1] is None))
            if w[1] is not None and g[1] is not None:
                ctx.eq("context of the choice", g[1], w[1])
        else:
            ctx.check("updated action", g[1] == w[1])
            ctx.eq("updated reward", g[2], w[2])
            ctx.check("updated with a context or not", (g[3] is None) == (w[3] is None))
            if w[3] is not None and g[3] is not None:
                ctx.eq("context of the update", g[3], w[3])


# -- online simulation with delays -------------------------------------------------
def play(ctx, T, k, contextual, delays, clear, feed, L=1):
    X = ctx.reals("x", (T, 2), nice=(-2, 2))
    R = ctx.reals("r", (T, k), nice=(-2, 2))
    Q = ctx.reals("q", (T, k), nice=(-2, 2))
    D = None if delays is None else ctx_delays(ctx, T, k, delays)
    pol = Policy(ctx, k, L, contextual=contextual)
    sim = BanditPolicySimulator(policy=pol)
    if feed == "batch":
        sim.steps(batch_bandit_rounds=BanditRounds(n_rounds=T, n_actions=k, context=X, action_context=np.eye(k), rewards=R, expected_rewards=Q, round_delays=D))
    else:
        for t in range(T):
            sim.step(BanditRound(n_actions=k, context=X[t], action_context=np.eye(k), rewards=R[t], expected_rewards=Q[t], round_delays=None if D is None else D[t]))
    # what must have happened
    sel = [e[2][0] for e in pol.log if e[0] == "select"]
    ctx.check("one choice per round", len(sel) == T)
    if len(sel) != T:
        return
    cx = lambda t: [X[t, 0], X[t, 1]] if contextual else None
    due = {t: (0 if D is None else int(D[t][sel[t]])) + t for t in range(T)}
    want = []
    for t in range(T):
        want.append(("select", cx(t), None))
        for s in range(t + 1):
            if due[s] == t:
                want.append(("update", sel[s], R[s, sel[s]], cx(s)))
    n0 = len(want)
    same_log(ctx, pol.log[:n0], want)
    ctx.check("nothing is reported early", len(pol.log) == n0)
    ctx.check("rounds", sim.rounds_played == T)
    ctx.check("reported actions", [int(a) for a in sim.selected_actions] == sel)
    ctx.eq("reported rewards", sim.obtained_rewards, [R[t, sel[t]] for t in range(T)])
    ctx.eq("total reward", sim.total_reward, total(R[t, sel[t]] for t in range(T)))
    ctx.eq("reported contexts", sim.contexts, X)
    ctx.eq("reported rewards of all actions", sim.ground_truth_rewards, R)
    if clear:
        left = [s for s in range(T) if due[s] >= T]
        sim.clear_delayed_queue()
        rest = pol.log[n0:]
        ctx.check("every outstanding reward is delivered once", len(rest) == len(left))
        keyed = [(e[1], tuple(e[3] or ())) for e in rest]
        ctx.check("outstanding actions", sorted(e[1] for e in rest) == sorted(sel[s] for s in left))
        ctx.eq("outstanding rewards", total([e[2] for e in rest] or [0.0]), total([R[s, sel[s]] for s in left] or [0.0]))
        sim.clear_delayed_queue()
        ctx.check("nothing is delivered twice", len(pol.log) == n0 + len(rest))


def ctx_delays(ctx, T, k, delays):
    if delays == "per round":
        d = [int(v) for v in ctx.ints("delay", T, 4)]
        return np.array([[float(v)] * k for v in d])
    d = ctx.ints("delay", T * k, 3)
    return np.array([int(v) for v in d], dtype=float).reshape(T, k)


@harness(
    cases=product(T=[2], k=[2], contextual=[False, True], delays=[None, "per round"], clear=[True], feed=["batch", "single"])
    + [dict(T=3, k=2, contextual=True, delays="per round", clear=True, feed="batch"), dict(T=2, k=2, contextual=True, delays="per action", clear=True, feed="batch"), dict(T=3, k=2, contextual=True, delays=None, clear=False, feed="single")]
    + [dict(T=2, k=2, contextual=c, delays=None, clear=False, feed="batch", L=2) for c in (False, True)],
    thorough=[dict(T=4, k=2, contextual=True, delays="per round", clear=True, feed="single"), dict(T=3, k=3, contextual=False, delays="per round", clear=True, feed="batch")], ints=[("r",), ("r", "x")],
)
def delayed_feedback(ctx, T, k, contextual, delays, clear, feed, L=1):
    play(ctx, T, k, contextual, delays, clear, feed, L)


# -- environment -------------------------------------------------------------------
@harness(cases=product(n=[1, 2], k=[2], rf=[False, True], delay=[False, True], how=["batch"]) + product(n=[1], k=[2, 3], rf=[False, True], delay=[False, True], how=["single"]))
def environment(ctx, n, k, rf, delay, how):
    q = ctx.reals("q", (n, k), lo=0, hi=1)
    dl = ctx.reals("delay", (n, k), lo=0, nice=(0, 5))
    ac = ctx.arr([[2.0 * a, 1.0] for a in range(k)])
    seen = {}

    def rfun(context, action_context, random_state=None, **kw):
        seen["rf"] = (context, action_context)
        return q.copy()

    def dfun(n_rounds, n_actions, expected_rewards, **kw):
        seen["df"] = (n_rounds, n_actions, expected_rewards)
        return dl.copy()

    env = BanditEnvironmentSimulator(n_actions=k, dim_context=2, reward_function=rfun if rf else None, delay_function=dfun if delay else None, action_context=ac, random_state=3)
    fixed = [x for c in ctx.calls for x in flat(c[3])]
    if not rf:
        ctx.check("one expected reward per action", len(fixed) == k)
    want = [[q[i, a] if rf else fixed[a] for a in range(k)] for i in range(n)]
    if how == "batch":
        b = env.next_bandit_round_batch(n_rounds=n)
        ctx.check("sizes", [b.n_rounds == n, b.n_actions == k, len(b) == n])
        rounds = list(b)
        ctx.check("iterates over every round, again and again", [len(rounds) == n, len(list(b)) == n])
    else:
        rounds = [env.next_bandit_round()]
    bern = [c for c in ctx.calls if c[1] == "binomial"]
    rs = [x for c in bern for x in flat(c[3])]
    ps = [x for c in bern for x in flat(np.broadcast_to(A._to_obj(c[2][1]), np.shape(c[3])))]
    ctx.eq("reward probabilities", ps, [v for r in want for v in r])
    cx = [x for c in ctx.calls if c[1] == "normal" for x in flat(c[3])]
    ctx.check("one context per round", len(cx) == 2 * n)
    for i, r in enumerate(rounds):
        ctx.check("number of actions", r.n_actions == k)
        ctx.eq("action features", r.action_context, ac)
        ctx.eq("context", flat(r.context), cx[2 * i : 2 * i + 2])
        ctx.eq("expected rewards", flat(r.expected_rewards), want[i])
        ctx.eq("rewards", flat(r.rewards), rs[k * i : k * i + k])
        if delay:
            ctx.eq("delays", flat(r.round_delays), [dl[i, a] for a in range(k)])
        else:
            ctx.check("no delays", r.round_delays is None)
    if rf:
        ctx.eq("the reward function sees the contexts", flat(seen["rf"][0]), cx)
        ctx.eq("the reward function sees the action features", seen["rf"][1], ac)
    if delay:
        ctx.check("sizes given to the delay function", [seen["df"][0] == n, seen["df"][1] == k])
        ctx.eq("expected rewards given to the delay function", flat(seen["df"][2]), [v for r in want for v in r])


@harness(cases=[dict(n=1, k=2), dict(n=2, k=2)])
def environment_steps(ctx, n, k):
    """Rounds the simulator draws itself."""
    env = BanditEnvironmentSimulator(n_actions=k, dim_context=2, random_state=3)
    pol = Policy(ctx, k, contextual=True)
    sim = BanditPolicySimulator(policy=pol, environment=env)
    sim.steps(n_rounds=n)
    cx = [x for c in ctx.calls if c[1] == "normal" for x in flat(c[3])]
    rs = [x for c in ctx.calls if c[1] == "binomial" for x in flat(c[3])]
    ctx.check("draws", [len(cx) == 2 * n, len(rs) == k * n])
    sel = [e[2][0] for e in pol.log if e[0] == "select"]
    want = []
    for t in range(n):
        want.append(("select", cx[2 * t : 2 * t + 2], None))
        want.append(("update", sel[t], rs[k * t + sel[t]], cx[2 * t : 2 * t + 2]))
    same_log(ctx, pol.log, want)
    ctx.eq("total reward", sim.total_reward, total(rs[k * t + sel[t]] for t in range(n)))


@harness(cases=product(n=[1, 2], k=[2, 3]))
def delays(ctx, n, k):
    hi = ctx.real("max", lo=0, hi=5, lo_open=True)
    lo = ctx.real("min", lo=0, hi=5, lo_open=True)
    q = ctx.reals("q", (n, k), lo=0, hi=1)
    s = ExponentialDelaySampler(max_scale=hi, min_scale=lo, random_state=3)
    c0 = len(ctx.calls)
    d = s.exponential_delay_function(n_rounds=n, n_actions=k)
    (key, kind, args, res, _), = ctx.calls[c0:]
    ctx.check("shape", np.shape(d) == (n, k))
    ctx.check("exponential", kind == "exponential")
    ctx.eq("scale", flat(np.broadcast_to(A._to_obj(args[0]), (n,))), [hi] * n)
    e = flat(res)
    for i in range(n):
        for a in range(k):
            ctx.check("rounded up, the same for all actions", [d[i, a] >= e[i], d[i, a] < e[i] + 1])
            ctx.eq("one delay per round", d[i, a], d[i, 0])
    c0 = len(ctx.calls)
    d = s.exponential_delay_function_expected_reward_weighted(expected_rewards=q)
    (key, kind, args, res, _), = ctx.calls[c0:]
    ctx.check("shape", np.shape(d) == (n, k))
    ctx.eq("better actions report sooner", flat(np.broadcast_to(A._to_obj(args[0]), (n, k))), [lo + (1 - q[i, a]) * (hi - lo) for i in range(n) for a in range(k)])
    ctx.check("rounded up", [(x >= y) & (x < y + 1) for x, y in zip(flat(d), flat(res))])


# -- replay ------------------------------------------------------------------------
@harness(
    cases=product(n=[2], k=[2], L=[1, 2], contextual=[False, True], pos=["given", "none"]) + [dict(n=3, k=2, L=1, contextual=True, pos="none"), dict(n=1, k=3, L=2, contextual=True, pos="given"), dict(n=2, k=2, L=1, contextual=True, pos="none", more=2)],
    thorough=[dict(n=2, k=3, L=2, contextual=True, pos="given"), dict(n=3, k=2, L=2, contextual=True, pos="given")], ints=[("r",), ("r", "x")],
)
def replay(ctx, n, k, L, contextual, pos, more=0):
    """Policies learn only from rounds whose logged action they choose at the logged position."""
    X = ctx.reals("x", (n, 2), nice=(-2, 2))
    r = ctx.reals("r", n, nice=(-2, 2))
    ps = ctx.reals("ps", n, lo=0, hi=1, lo_open=True)
    act = ctx.ints("action", n, k + more)
    position = ctx.ints("position", n, L) if pos == "given" else None
    fb = dict(n_rounds=n, n_actions=k, action=act, reward=r, pscore=ps, context=X, position=position)
    keep = [int(a) for a in act], None if position is None else [int(p) for p in position]
    pol = Policy(ctx, k, L, contextual)
    d = run_bandit_replay(bandit_feedback=fb, policy=pol)
    sel = [e[2] for e in pol.log if e[0] == "select"]
    ctx.check("one list per round", len(sel) == n)
    if len(sel) != n:
        return
    P = keep[1] or [0] * n
    want = []
    for t in range(n):
        cx = [X[t, 0], X[t, 1]] if contextual else None
        want.append(("select", cx, None))
        if sel[t][P[t]] == keep[0][t]:
            want.append(("update", keep[0][t], r[t], cx))
    same_log(ctx, pol.log, want)
    K = max([k] + [a + 1 for a in keep[0]])
    ctx.check("shape", np.shape(d) == (n, K, L))
    ctx.eq("chosen lists as a distribution", flat(d), [1.0 if sel[i][l] == a else 0.0 for i in range(n) for a in range(K) for l in range(L)])
    ctx.check("the given data is not changed", [fb["position"] is position, [int(a) for a in act] == keep[0]])


@harness(cases=product(key=["action", "position", "reward", "pscore", "context"], what=["replay", "truth"]))
def missing_keys(ctx, key, what):
    n, k = 2, 2
    fb = dict(n_rounds=n, n_actions=k, action=ctx.ints("action", n, k), reward=ctx.reals("r", n, nice=(-2, 2)), pscore=ctx.reals("ps", n, lo=0, hi=1, lo_open=True), context=ctx.reals("x", (n, 1), nice=(-2, 2)), position=None, expected_reward=ctx.reals("q", (n, k), nice=(-2, 2)))
    if what == "truth" and key == "pscore":
        key = "expected_reward"
    del fb[key]
    pol = Policy(ctx, k)
    if what == "replay":
        ctx.raises("refused", lambda: run_bandit_replay(bandit_feedback=fb, policy=pol), types=(RuntimeError, ValueError, TypeError))
    else:
        ctx.raises("refused", lambda: calc_ground_truth_policy_value(fb, lambda c, a: np.zeros(1), pol, n_sim=1), types=(RuntimeError, ValueError, TypeError))


# -- ground truth of an online policy ------------------------------------------------
@harness(
    cases=product(n=[2], k=[2], L=[1, 2], sims=[1], contextual=[False, True], pos=["given", "none"]) + [dict(n=2, k=2, L=1, sims=2, contextual=True, pos="none"), dict(n=1, k=2, L=1, sims=3, contextual=False, pos="none")],
    thorough=[dict(n=3, k=2, L=1, sims=2, contextual=True, pos="none")],
)
def ground_truth(ctx, n, k, L, sims, contextual, pos):
    X = ctx.reals("x", (n, 2), nice=(-2, 2))
    q = ctx.reals("q", (n, k), nice=(-2, 2))
    act = ctx.arr(np.zeros(n)).astype(int)
    position = ctx.ints("position", n, L) if pos == "given" else None
    fb = dict(n_rounds=n, n_actions=k, action=np.zeros(n, dtype=int), reward=ctx.reals("r", n, nice=(-2, 2)), context=X, position=position, expected_reward=q)
    asked = []

    def sampler(context, action):
        v = ctx.real(f"sampled{len(asked)}", nice=(-2, 2))
        asked.append((flat(context), [int(a) for a in flat(action)], v))
        return ctx_arr(ctx, [v])

    pol = Policy(ctx, k, L, contextual)
    got = calc_ground_truth_policy_value(fb, sampler, pol, n_sim=sims)
    ctx.check("the given policy learns nothing", pol.log == [])
    ctx.check("a fresh copy per simulation", [len(pol.sims) == sims, len(asked) == n * sims])
    if len(pol.sims) != sims or len(asked) != n * sims:
        return
    P = [int(p) for p in position] if position is not None else [0] * n
    value = []
    j = 0
    for p in pol.sims:
        sel = [e[2] for e in p.log if e[0] == "select"]
        ctx.check("one choice per round", len(sel) == n)
        if len(sel) != n:
            return
        want = []
        for t in range(n):
            a = sel[t][P[t]]
            cx = [X[t, 0], X[t, 1]]
            ctx.eq("reward sampled for the context", asked[j][0], cx)
            ctx.check("reward sampled for the chosen action", asked[j][1] == [a])
            want.append(("select", cx if contextual else None, None))
            want.append(("update", a, asked[j][2], cx if contextual else None))
            value.append(q[t, a])
            j += 1
        same_log(ctx, p.log, want)
    ctx.eq("average expected reward of the chosen actions", got, mean(value))


@harness(cases=product(T=[300], k=[140], contextual=[True], delay=[0, 45], L=[2]) + [dict(T=1100, k=2, contextual=False, delay=5, L=1)])
def long_run(ctx, T, k, contextual, delay, L):
    """Long runs of a policy with fixed choices and fixed delays; arbitrary rewards."""
    R = ctx.reals("r", T, nice=(-2, 2))
    X = np.array([[t % 7 - 3.0, t / 4.0] for t in range(T)])
    sels = [[(t * 7 + t // 3) % k, (t * 7 + t // 3 + 1) % k][:L] for t in range(T)]

    class Fixed(Policy):
        def select_action(self, *args, **kw):
            cx = list(args) + list(kw.values())
            n = sum(1 for e in self.log if e[0] == "select")
            self.log.append(("select", flat(cx[0]) if cx else None, sels[n]))
            return np.array(sels[n])

    cx = lambda t: [X[t, 0], X[t, 1]] if contextual else None
    D = np.array([[float((t * 5 + a) % (delay + 1)) for a in range(k)] for t in range(T)])
    rounds = []
    for t in range(T):
        row = [0.25 * a - t for a in range(k)]
        row[sels[t][0]] = R[t]
        rounds.append(BanditRound(n_actions=k, context=X[t], action_context=np.eye(k), rewards=A.build(row) if ctx.sym else np.array(row), expected_rewards=np.zeros(k), round_delays=D[t] if delay else None))
    pol = Fixed(ctx, k, L, contextual=contextual)
    sim = BanditPolicySimulator(policy=pol)
    for b in rounds:
        sim.step(b)
    want, due = [], {}
    for t in range(T):
        want.append(("select", cx(t), None))
        due.setdefault(t + (int(D[t][sels[t][0]]) if delay else 0), []).append(t)
        want += [("update", sels[s][0], R[s], cx(s)) for s in due.pop(t, [])]
    same_log(ctx, pol.log, want)
    ctx.check("reported actions", [int(a) for a in sim.selected_actions] == [s[0] for s in sels])
    ctx.eq("reported rewards", sim.obtained_rewards, list(R))
    ctx.eq("total reward", sim.total_reward, total(R))
    n0 = len(pol.log)
    sim.clear_delayed_queue()
    left = [s for v in due.values() for s in v]
    ctx.check("outstanding actions", sorted(e[1] for e in pol.log[n0:]) == sorted(sels[s][0] for s in left))
    ctx.eq("outstanding rewards", total([e[2] for e in pol.log[n0:]] or [0.0]), total([R[s] for s in left] or [0.0]))
    # replay of the same rounds
    act = np.array([s[t % L] if t % 3 else (s[t % L] + 1) % k for t, s in enumerate(sels)])
    pos = np.array([t % L for t in range(T)])
    pol = Fixed(ctx, k, L, contextual=contextual)
    d = run_bandit_replay(bandit_feedback=dict(n_rounds=T, n_actions=k, action=act, reward=R, pscore=np.ones(T), context=X, position=pos), policy=pol)
    want = []
    for t in range(T):
        want.append(("select", cx(t), None))
        if t % 3:
            want.append(("update", sels[t][t % L], R[t], cx(t)))
    same_log(ctx, pol.log, want)
    one = np.zeros((T, k, L))
    for t in range(T):
        for l in range(L):
            one[t, sels[t][l], l] = 1.0
    ctx.check("chosen lists as a distribution", np.shape(d) == np.shape(one) and bool(np.all(np.asarray(d, dtype=float) == one)))
