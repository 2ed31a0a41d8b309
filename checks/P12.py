"""P12: the evaluation classes hand each estimator its own inputs and summarise its own results."""
from symnp.api import *
from checks.common import Log
from obp import ope
from obp.ope.estimators import BaseOffPolicyEstimator
from obp.ope.estimators_continuous import BaseContinuousOffPolicyEstimator
from obp.ope.estimators_slate import BaseSlateOffPolicyEstimator

BOUNDS = "3 rounds (or slates), 2 actions, 2-4 estimators per evaluation, shared and per-estimator inputs in every combination; rewards, inputs and estimates arbitrary reals; 1 bootstrap resample"


class Recorder:
    """An estimator with arbitrary estimates that records what it is given."""

    def __init__(self, ctx, name):
        self.ctx, self.estimator_name, self.seen, self.n = ctx, name, [], 0

    def _note(self, kw):
        self.seen.append(kw)

    def estimate_policy_value(self, **kw):
        self._note(kw)
        return self.ctx.real(f"value_{self.estimator_name}", nice=(-2, 2))

    def _estimate_round_rewards(self, **kw):
        self._note(kw)

    def estimate_interval(self, **kw):
        self._note(kw)
        return {k: self.ctx.real(f"{k}_{self.estimator_name}", nice=(-2, 2)) for k in ("mean", "lower", "upper")}


class RecD(Recorder, BaseOffPolicyEstimator):
    pass


class RecC(Recorder, BaseContinuousOffPolicyEstimator):
    pass


class RecS(Recorder, BaseSlateOffPolicyEstimator):
    pass


class RecDM(Recorder, ope.DirectMethod):
    pass


class RecDR(Recorder, ope.DoublyRobust):
    pass


def num(ctx, x):
    return x if is_sym(x) else float(x)


FAMILY = {
    "discrete": dict(
        cls=ope.OffPolicyEvaluation, rec=RecD, shared=["action", "position", "reward", "context", "pscore"],
        optional=["estimated_rewards_by_reg_model", "estimated_pscore", "estimated_importance_weights", "action_embed", "pi_b", "p_e_a"],
    ),
    "multi": dict(
        cls=ope.MultiLoggersOffPolicyEvaluation, rec=RecD, shared=["action", "position", "reward", "pscore", "pscore_avg", "stratum_idx"],
        optional=["estimated_rewards_by_reg_model", "estimated_pscore", "estimated_pscore_avg"],
    ),
    "continuous": dict(
        cls=ope.ContinuousOffPolicyEvaluation, rec=RecC, shared=["reward", "pscore"], optional=["estimated_rewards_by_reg_model"],
    ),
    "slate": dict(
        cls=ope.SlateOffPolicyEvaluation, rec=RecS,
        shared=["slate_id", "action", "reward", "position", "pscore", "pscore_item_position", "pscore_cascade"],
        optional=[
            "evaluation_policy_pscore", "evaluation_policy_pscore_item_position", "evaluation_policy_pscore_cascade",
            "evaluation_policy_action_dist", "q_hat",
        ],
    ),
}
N = 3
SHAPE = {"estimated_rewards_by_reg_model": (N, 2, 1), "action_embed": (N, 5), "pi_b": (N, 2, 1), "p_e_a": (2, 4, 5)}


def feedback(ctx, fam, without=()):
    f = {}
    for key in ["action", "position", "reward", "context", "pscore", "pscore_avg", "stratum_idx", "slate_id", "pscore_item_position", "pscore_cascade"]:
        if key in without:
            continue
        if key == "reward":
            f[key] = ctx.reals("reward", N, nice=(-2, 2))
        elif key == "context":
            f[key] = ctx.arr([[1.0], [2.0], [4.0]])
        elif key in ("action", "position", "stratum_idx", "slate_id"):
            f[key] = np.array({"action": [0, 1, 1], "slate_id": [0, 1, 2]}.get(key, [0, 0, 0]))
        else:
            f[key] = ctx.reals(key, N, lo=0, hi=1, lo_open=True)
    if fam == "continuous":
        f["action"] = ctx.arr([0.1, 0.2, 0.3])
    return f


def policy_args(ctx, fam):
    if fam in ("discrete", "multi"):
        return dict(action_dist=ctx.simplex("pi", (N, 2))[:, :, np.newaxis])
    if fam == "continuous":
        return dict(action_by_evaluation_policy=ctx.reals("e", N, nice=(-1, 1)))
    return {}


def value_of(fam, name, salt, ctx):
    shape = SHAPE.get(name, (N,))
    if fam == "continuous":
        shape = (N,)
    if name == "evaluation_policy_action_dist" or name == "q_hat":
        shape = (2 * N,)
    return ctx.arr(np.full(shape, 0.1 + salt))


def same(a, b):
    """The very array, or one with equal content."""
    if a is b:
        return True
    if a is None or b is None:
        return False
    if np.shape(a) != np.shape(b):
        return False
    return all(
        (x.e.eq(y.e) if is_sym(x) and is_sym(y) else (not is_sym(x) and not is_sym(y) and x == y))
        for x, y in zip(np.ravel(A._to_obj(a)), np.ravel(A._to_obj(b)))
    )


METHODS = ["values", "intervals", "summary", "performance", "comparison"]


def call(ev, method, args, gt=None, metric="se"):
    if method == "values":
        return ev.estimate_policy_values(**args)
    if method == "intervals":
        return ev.estimate_intervals(**args, alpha=0.2, n_bootstrap_samples=3, random_state=7)
    if method == "summary":
        return ev.summarize_off_policy_estimates(**args, alpha=0.2, n_bootstrap_samples=3, random_state=7)
    if method == "performance":
        return ev.evaluate_performance_of_estimators(ground_truth_policy_value=gt, metric=metric, **args)
    return ev.summarize_estimators_comparison(ground_truth_policy_value=gt, metric=metric, **args)


@harness(cases=product(fam=list(FAMILY), method=METHODS, mode=["shared", "per estimator", "none"]))
def routing(ctx, fam, method, mode):
    """Every estimator gets the logged data, the policy and its own extra inputs."""
    F = FAMILY[fam]
    if fam == "slate" and mode == "per estimator":
        mode = "shared"
    recs = [F["rec"](ctx, n) for n in ("first", "second", "third")]
    fb = feedback(ctx, fam)
    kept = dict(fb)
    ev = F["cls"](bandit_feedback=fb, ope_estimators=recs)
    args = policy_args(ctx, fam)
    want = {r.estimator_name: dict(args) for r in recs}
    for j, key in enumerate(F["optional"]):
        give = mode
        if fam == "slate" and mode == "none":
            give = "shared" if key == "evaluation_policy_pscore_item_position" else "none"
        if give == "none":
            val = {r.estimator_name: None for r in recs}
        elif give == "shared":
            x = value_of(fam, key, j, ctx)
            args[key] = x
            val = {r.estimator_name: x for r in recs}
        else:
            d = {"first": value_of(fam, key, 10 + j, ctx), "third": value_of(fam, key, 20 + j, ctx), "unused": value_of(fam, key, 30, ctx)}
            args[key] = d
            val = {"first": d["first"], "second": None, "third": d["third"]}
        for r in recs:
            want[r.estimator_name][key] = val[r.estimator_name]
    gt = ctx.real("truth", lo=0, lo_open=True, nice=(0.5, 2))
    call(ev, method, args, gt)
    for r in recs:
        ctx.check("called", len(r.seen) >= 1)
        w = dict(want[r.estimator_name])
        for key in F["shared"]:
            w[key] = kept[key]
        if fam == "continuous":
            w["action_by_behavior_policy"] = kept["action"]
        for got in r.seen:
            for key, v in w.items():
                ctx.check(f"{key} of {r.estimator_name}", same(got.get(key), v))
            if "alpha" in got or method == "intervals":
                ctx.check("level", got.get("alpha") == 0.2)
                ctx.check("resamples", got.get("n_bootstrap_samples") == 3)
                ctx.check("seed", got.get("random_state") == 7)


@harness(cases=product(fam=list(FAMILY), metric=["se", "relative-ee"]))
def results(ctx, fam, metric):
    """Results are reported under the estimator's name, with errors and relative values by definition."""
    F = FAMILY[fam]
    names = ["first", "second"]
    recs = [F["rec"](ctx, n) for n in names]
    fb = feedback(ctx, fam)
    reward = fb["reward"]
    ev = F["cls"](bandit_feedback=fb, ope_estimators=recs)
    args = policy_args(ctx, fam)
    if fam == "slate":
        args = {"evaluation_policy_pscore": ctx.arr([0.5] * N)}
    v = {n: ctx.real(f"value_{n}", nice=(-2, 2)) for n in names}
    got = call(ev, "values", args)
    ctx.check("names", set(got) == set(names))
    for n in names:
        ctx.eq("value " + n, num(ctx, got[n]), v[n])
    got = call(ev, "intervals", args)
    ctx.check("interval names", set(got) == set(names))
    gt = ctx.real("truth", nice=(-2, 2))
    if metric == "relative-ee" and gt == 0:
        ctx.raises("zero truth", lambda: call(ev, "performance", args, gt, metric))
        return
    perf = call(ev, "performance", args, gt, metric)
    comp = call(ev, "comparison", args, gt, metric)
    ctx.check("comparison layout", list(comp.columns) == [metric] and set(comp.index) == set(names))
    for n in names:
        d = v[n] - gt
        e = d * d if metric == "se" else abs(d / gt)
        ctx.eq("error " + n, num(ctx, perf[n]), e)
        ctx.eq("error in the table " + n, num(ctx, comp.loc[n, metric]), e)
    vals, ints = call(ev, "summary", args)
    base = mean(reward)
    for n in names:
        ctx.eq("table value", num(ctx, vals.loc[n, "estimated_policy_value"]), v[n])
        for k in ("mean", "lower", "upper"):
            ctx.eq("table interval " + k, num(ctx, ints.loc[n, k]), ctx.real(f"{k}_{n}", nice=(-2, 2)))
        rel = vals.loc[n, "relative_estimated_policy_value"]
        if base > 0:
            ctx.eq("relative value", num(ctx, rel), v[n] / base)
        else:
            ctx.check("no relative value", not is_sym(rel) and np.isnan(rel))


@harness(cases=product(layout=[0, 1]))
def slate_behaviour_value(ctx, layout):
    """The logging policy's value is the reward per slate, however the rows are labelled and ordered."""
    sid, pos = [([3, 3, 8, 8], [0, 1, 0, 1]), ([0, 1, 0, 2], [0, 0, 1, 0])][layout]
    fb = dict(slate_id=np.array(sid), position=np.array(pos), context=ctx.arr(np.ones((4, 1))), action=np.zeros(4, dtype=int))
    fb["reward"] = ctx.reals("reward", 4, nice=(-2, 2))
    fb["pscore"] = ctx.arr([0.5] * 4)
    ev = ope.SlateOffPolicyEvaluation(bandit_feedback=fb, ope_estimators=[RecS(ctx, "first")])
    vals, _ = call(ev, "summary", {"evaluation_policy_pscore": ctx.arr([0.5] * 4)})
    base = total(fb["reward"]) / float(len(set(sid)))
    v = ctx.real("value_first", nice=(-2, 2))
    rel = vals.loc["first", "relative_estimated_policy_value"]
    if base > 0:
        ctx.eq("relative value", num(ctx, rel), v / base)
    else:
        ctx.check("no relative value", not is_sym(rel) and np.isnan(rel))


REQUIRED = {
    "discrete": ["action", "position", "reward", "context"],
    "multi": ["action", "position", "reward"],
    "continuous": ["action", "reward", "pscore"],
    "slate": ["slate_id", "context", "action", "reward", "position"],
}


@harness(cases=[dict(fam=f, key=k) for f in REQUIRED for k in REQUIRED[f]])
def missing_data(ctx, fam, key):
    F = FAMILY[fam]
    fb = feedback(ctx, fam)
    fb.pop(key)
    ctx.raises("missing " + key, lambda: F["cls"](bandit_feedback=fb, ope_estimators=[F["rec"](ctx, "x")]), (RuntimeError, KeyError, ValueError))


@harness(cases=product(fam=["discrete", "multi", "continuous"], method=["values", "intervals", "summary"]))
def model_needed(ctx, fam, method):
    """Model-dependent estimators are refused without reward predictions."""
    fb = feedback(ctx, fam)
    ests = {
        "discrete": [ope.DirectMethod, ope.DoublyRobust, ope.SelfNormalizedDoublyRobust, ope.SwitchDoublyRobust, ope.DoublyRobustWithShrinkage, ope.SubGaussianDoublyRobust],
        "multi": [ope.MultiLoggersNaiveDoublyRobust, ope.MultiLoggersBalancedDoublyRobust, ope.MultiLoggersWeightedDoublyRobust],
        "continuous": [lambda: ope.KernelizedDoublyRobust(kernel="gaussian", bandwidth=1.0)],
    }[fam]
    F = FAMILY[fam]
    args = policy_args(ctx, fam)
    for mk in ests:
        ev = F["cls"](bandit_feedback=dict(fb), ope_estimators=[F["rec"](ctx, "x"), mk()])
        ctx.raises("no predictions", lambda: call(ev, method, args))


BADSHAPE = [("estimated_rewards_by_reg_model", x) for x in [(3, 3, 1), (3, 2), (2, 2, 1)]] + [("estimated_pscore", x) for x in [(2,), (4,), (3, 1)]]
BADSHAPE_D = BADSHAPE + [
    ("estimated_importance_weights", (2,)), ("estimated_importance_weights", (4,)), ("estimated_importance_weights", (3, 1)), ("action_embed", (2, 5)), ("action_embed", (3,)),
    ("pi_b", (2, 2, 1)), ("pi_b", (3, 2)), ("p_e_a", (3, 4, 5)), ("p_e_a", (2, 4)),
]


@harness(
    cases=[dict(fam="discrete", key=k, shape=s) for k, s in BADSHAPE_D]
    + [dict(fam="multi", key=k, shape=s) for k, s in BADSHAPE + [("estimated_pscore_avg", x) for x in [(2,), (4,), (3, 1)]]]
    + [dict(fam="continuous", key="estimated_rewards_by_reg_model", shape=s) for s in [(2,), (4,), (3, 1)]]
)
def shapes(ctx, fam, key, shape):
    """Extra inputs of the wrong shape are refused, shared or per estimator."""
    F = FAMILY[fam]
    bad = ctx.arr(np.full(shape, 0.5))
    for x in (bad, {"x": bad}):
        for method in ("values", "intervals", "performance"):
            ev = F["cls"](bandit_feedback=feedback(ctx, fam), ope_estimators=[F["rec"](ctx, "x")])
            args = policy_args(ctx, fam)
            args[key] = x
            ctx.raises(f"{key} {shape}", lambda: call(ev, method, args, 1.0))


@harness(cases=[{}])
def slate_needs(ctx):
    """Some propensity is needed; the cascade DR estimator needs its distribution and predictions."""
    fb = feedback(ctx, "slate")
    ev = ope.SlateOffPolicyEvaluation(bandit_feedback=fb, ope_estimators=[RecS(ctx, "x")])
    for m in METHODS:
        ctx.raises("no propensities", lambda: call(ev, m, {}, 1.0))
    ev = ope.SlateOffPolicyEvaluation(bandit_feedback=fb, ope_estimators=[ope.SlateCascadeDoublyRobust(len_list=1, n_unique_action=2)])
    ps = {"evaluation_policy_pscore_cascade": ctx.arr([0.5] * N)}
    for m in METHODS:
        ctx.raises("no q", lambda: call(ev, m, dict(ps, evaluation_policy_action_dist=ctx.arr([0.5] * 2 * N)), 1.0))
        ctx.raises("no distribution", lambda: call(ev, m, dict(ps, q_hat=ctx.arr([0.5] * 2 * N)), 1.0))


@harness(cases=[dict(per=False), dict(per=True)])
def end_to_end(ctx, per):
    """With real estimators, the evaluation returns what each estimator returns by itself."""
    d = Log(ctx, 2, 2, 1, q=True, est_pscore=True, pos="none")
    mk = lambda: [
        ope.InverseProbabilityWeighting(), ope.SelfNormalizedInverseProbabilityWeighting(),
        ope.DirectMethod(), ope.DoublyRobust(use_estimated_pscore=True), ope.DoublyRobustWithShrinkage(lambda_=1.5),
    ]
    kw = d.kw()
    ctx.assume(total(d.weights()) > 0)
    q2 = ctx.reals("q2", (2, 2, 1), nice=(-2, 2))
    fb = dict(action=d.action, reward=d.reward, position=None, pscore=d.pscore, context=ctx.arr(np.ones((2, 1))))
    names = [e.estimator_name for e in mk()]
    q = {n: (q2 if n == "dr" else d.q) for n in names if n not in ("ipw", "snipw")} if per else d.q
    ev = ope.OffPolicyEvaluation(bandit_feedback=fb, ope_estimators=mk())
    got = ev.estimate_policy_values(action_dist=d.pi, estimated_rewards_by_reg_model=q, estimated_pscore=d.est_pscore)
    ctx.check("names", set(got) == set(names))
    for e in mk():
        k2 = dict(kw)
        if per and e.estimator_name == "dr":
            k2["estimated_rewards_by_reg_model"] = q2
        ctx.eq(e.estimator_name, got[e.estimator_name], e.estimate_policy_value(**k2))
