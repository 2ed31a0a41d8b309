"""P29: evaluating, fitting and predicting leave the given data alone and can be repeated."""
from symnp.api import *
from symnp.models import make_model
from checks.common import Log, flat
from obp import ope, policy, utils
from obp.ope import classification_model

BOUNDS = (
    "2 rounds (or slates of 2 slots), 2 actions, 1-2 positions; all logged data, policies, predictions and hyperparameters arbitrary reals; "
    "every estimator, evaluation class, reward/weight/propensity model, learner and bandit policy"
)


class Frozen:
    """A snapshot of arrays (possibly inside dicts) to compare with later."""

    def __init__(self, ctx, **args):
        self.ctx, self.was, self.held = ctx, [], []
        self.walk("", args)

    def walk(self, name, x):
        if isinstance(x, dict):
            for k, v in x.items():
                self.walk(f"{name}.{k}" if name else str(k), v)
                if isinstance(v, np.ndarray):
                    self.held.append((f"{name}.{k}", x, k, [u for u in flat(v)]))
        elif isinstance(x, np.ndarray):
            self.was.append((name, x, [v for v in flat(x)], np.shape(x), x.dtype))

    def check(self, when):
        for name, x, vals, shape, dt in self.was:
            self.ctx.check(f"{when}: shape of {name}", np.shape(x) == shape)
            now = flat(x)
            self.ctx.check(f"{when}: size of {name}", len(now) == len(vals))
            self.ctx.eq(f"{when}: {name} unchanged", now, vals)
        for name, d, k, vals in self.held:
            self.ctx.check(f"{when}: {name} still there", k in d and len(flat(d[k])) == len(vals))
            self.ctx.eq(f"{when}: {name} not replaced", flat(d[k]), vals)


def lam_for(ctx, kind):
    if kind in ("ipw", "dr", "switch", "os"):
        return ctx.real("lam", lo=0, lo_open=True, nice=(0.1, 4))
    if kind in ("sgipw", "sgdr"):
        return ctx.real("lam", lo=0, hi=1)
    return None


SINGLE = {
    "replay": ope.ReplayMethod,
    "ipw": ope.InverseProbabilityWeighting,
    "snipw": ope.SelfNormalizedInverseProbabilityWeighting,
    "dm": ope.DirectMethod,
    "dr": ope.DoublyRobust,
    "sndr": ope.SelfNormalizedDoublyRobust,
    "switch": ope.SwitchDoublyRobust,
    "os": ope.DoublyRobustWithShrinkage,
    "sgipw": ope.SubGaussianInverseProbabilityWeighting,
    "sgdr": ope.SubGaussianDoublyRobust,
    "balanced": ope.BalancedInverseProbabilityWeighting,
}


def twice(ctx, fz, est, kw, interval=True):
    a = est.estimate_policy_value(**kw)
    fz.check("estimate")
    b = est.estimate_policy_value(**kw)
    ctx.eq("the same estimate again", b, a)
    if interval:
        est.estimate_interval(**kw, alpha=0.1, n_bootstrap_samples=1, random_state=5)
        fz.check("interval")
        c = est.estimate_policy_value(**kw)
        ctx.eq("the same estimate after an interval", c, a)


@harness(cases=product(kind=list(SINGLE), est_ps=[False], pos=["given"]) + product(kind=["ipw", "dr", "sndr", "sgdr"], est_ps=[True], pos=["none"]))
def estimators(ctx, kind, est_ps, pos):
    d = Log(ctx, 2, 2, 2 if pos == "given" and kind in ("ipw", "dm") else 1, q=True, pos=pos, est_pscore=True)
    kw = dict(d.kw())
    opts = {}
    lam = lam_for(ctx, kind)
    if lam is not None:
        opts["lambda_"] = lam
    if kind not in ("replay", "dm", "balanced"):
        opts["use_estimated_pscore"] = est_ps
    if kind == "balanced":
        kw["estimated_importance_weights"] = ctx.reals("iw", 2, lo=0, lo_open=True, nice=(0, 4))
    if kind in ("snipw", "sndr"):
        ctx.assume(total(d.weights(d.est_pscore if est_ps else None)) > 0)
    twice(ctx, Frozen(ctx, **kw), SINGLE[kind](**opts), kw)


TUNED = {
    "ipw": (ope.InverseProbabilityWeightingTuning, [0.5, 2.0]),
    "dr": (ope.DoublyRobustTuning, [0.5, 2.0]),
    "switch": (ope.SwitchDoublyRobustTuning, [0.5, 2.0]),
    "os": (ope.DoublyRobustWithShrinkageTuning, [0.5, 2.0]),
    "sgipw": (ope.SubGaussianInverseProbabilityWeightingTuning, [0.25, 0.5]),
    "sgdr": (ope.SubGaussianDoublyRobustTuning, [0.25, 0.5]),
}


@harness(cases=product(kind=list(TUNED), method=["mse", "slope"]))
def tuned(ctx, kind, method):
    r = ctx.reals("reward", 2, nice=(-2, 2))
    kw = dict(
        reward=r, action=np.array([0, 1]), pscore=ctx.arr([0.25, 0.75]), action_dist=ctx.arr([[[0.75], [0.25]], [[0.25], [0.75]]]),
        position=np.array([0, 0]), estimated_rewards_by_reg_model=ctx.arr([[[0.5], [1.0]], [[-0.5], [0.25]]]),
    )
    cls, grid = TUNED[kind]
    twice(ctx, Frozen(ctx, **kw), cls(lambdas=list(grid), tuning_method=method), kw)


MULTI = {
    "naive_ipw": ope.MultiLoggersNaiveInverseProbabilityWeighting,
    "balanced_ipw": ope.MultiLoggersBalancedInverseProbabilityWeighting,
    "weighted_ipw": ope.MultiLoggersWeightedInverseProbabilityWeighting,
    "naive_dr": ope.MultiLoggersNaiveDoublyRobust,
    "balanced_dr": ope.MultiLoggersBalancedDoublyRobust,
    "weighted_dr": ope.MultiLoggersWeightedDoublyRobust,
}


@harness(cases=product(kind=list(MULTI)))
def multi(ctx, kind):
    n = 4 if kind.startswith("weighted") else 2
    if n == 4:
        kw = dict(
            reward=ctx.reals("reward", n, nice=(-2, 2)), action=np.array([0, 1, 0, 1]), pscore=ctx.arr([0.25, 0.5, 0.75, 0.5]),
            action_dist=ctx.arr([[[0.75], [0.25]], [[0.25], [0.75]]] * 2), position=np.zeros(n, dtype=int),
            estimated_rewards_by_reg_model=ctx.arr([[[0.5], [1.0]], [[-0.5], [0.25]]] * 2),
        )
    else:
        kw = dict(Log(ctx, n, 2, 1, q=True, est_pscore=True).kw())
    kw["pscore_avg"] = ctx.reals("pscore_avg", n, lo=0, hi=1, lo_open=True, nice=(0.1, 1))
    kw["stratum_idx"] = np.array([3, 3, 1, 1][:n])
    if n == 4:  # contributions that vary within each logger
        w = [kw["action_dist"][i, kw["action"][i], 0] / kw["pscore"][i] * kw["reward"][i] for i in range(n)]
        q = [w[i] if kind == "weighted_ipw" else w[i] + [0.125, 0.25][i % 2] for i in range(n)]
        ctx.assume(q[0] > q[1] + 1)
        ctx.assume(q[2] > q[3] + 1)
    twice(ctx, Frozen(ctx, **kw), MULTI[kind](), kw, interval=n == 2)


@harness(cases=product(kind=["KernelizedInverseProbabilityWeighting", "KernelizedSelfNormalizedInverseProbabilityWeighting", "KernelizedDoublyRobust"], kern=["gaussian", "epanechnikov", "triangular", "cosine"]))
def continuous(ctx, kind, kern):
    n = 2
    kw = dict(
        reward=ctx.reals("reward", n, nice=(-2, 2)), pscore=ctx.reals("pscore", n, lo=0, lo_open=True, nice=(0.2, 1)),
        action_by_behavior_policy=ctx.reals("a", n, nice=(-1, 1)), action_by_evaluation_policy=ctx.reals("b", n, nice=(-1, 1)),
        estimated_rewards_by_reg_model=ctx.reals("q", n, nice=(-2, 2)),
    )
    h = ctx.real("bandwidth", lo=0, lo_open=True, nice=(1, 4))
    if "Self" in kind:  # some weight
        ctx.assume(h > 4)
        for x in ("action_by_behavior_policy", "action_by_evaluation_policy"):
            for i in range(n):
                ctx.assume(kw[x][i] > -1)
                ctx.assume(kw[x][i] < 1)
    h = h if ctx.sym else float(h)
    twice(ctx, Frozen(ctx, **kw), getattr(ope, kind)(kernel=kern, bandwidth=h), kw)


SLATE = ["SlateStandardIPS", "SlateIndependentIPS", "SlateRewardInteractionIPS", "SelfNormalizedSlateStandardIPS", "SelfNormalizedSlateIndependentIPS", "SelfNormalizedSlateRewardInteractionIPS"]
KEY = ["pscore", "pscore_item_position", "pscore_cascade"]


@harness(cases=product(kind=SLATE + ["SlateCascadeDoublyRobust"]))
def slate(ctx, kind):
    sid, pos = np.array([4, 4, 2, 2]), np.array([1, 0, 0, 1])
    n = 4
    kw = dict(slate_id=sid, position=pos, reward=ctx.reals("reward", n, nice=(-2, 2)))
    if kind == "SlateCascadeDoublyRobust":
        sid, pos = np.array([2, 2, 4, 4]), np.array([0, 1, 0, 1])
        kw.update(slate_id=sid, position=pos)
        kw.update(action=np.array([0, 1, 1, 0]), q_hat=ctx.reals("q", n * 2, nice=(-1, 1)), evaluation_policy_action_dist=ctx.arr([0.5, 0.5, 0.25, 0.75, 0.5, 0.5, 0.75, 0.25]))
        key, est = "pscore_cascade", ope.SlateCascadeDoublyRobust(len_list=2, n_unique_action=2)
    else:
        key, est = KEY[SLATE.index(kind) % 3], getattr(ope, kind)(len_list=2)
    for pre in ("", "evaluation_policy_"):
        v = ctx.reals(pre + "p", 2, lo=0, hi=1, lo_open=True, nice=(0.2, 1))
        vals = [v[0], v[0], v[1], v[1]]
        kw[pre + key] = A.build(vals) if ctx.sym else np.array(vals)
    twice(ctx, Frozen(ctx, **kw), est, kw)


@harness(cases=product(sn=[False, True], true=[False, True]))
def embeddings(ctx, sn, true):
    cls = ope.SelfNormalizedMarginalizedInverseProbabilityWeighting if sn else ope.MarginalizedInverseProbabilityWeighting
    n, k = 2, 2
    kw = dict(
        reward=ctx.reals("reward", n, nice=(-2, 2)), action=np.array([0, 1]), context=ctx.arr([[5.0, -1.0], [6.0, -1.0]]),
        action_embed=np.array([[0, 1], [1, 0]]), position=np.zeros(n, dtype=int),
        pi_b=ctx.simplex("pi_b", (n, 1, k), positive=True).transpose(0, 2, 1).copy(),
        action_dist=ctx.simplex("pi_e", (n, 1, k), positive=True).transpose(0, 2, 1).copy(),
    )
    if true:
        kw["p_e_a"] = ctx.arr([[[0.25, 0.5], [0.75, 0.5]], [[0.5, 0.75], [0.5, 0.25]]])
        est = cls(n_actions=k)
    else:
        est = cls(n_actions=k, pi_a_x_e_estimator=make_model(ctx, "classifier", "pi_hat")())
    fz = Frozen(ctx, **kw)
    if true:
        twice(ctx, fz, est, kw)
    else:
        est.estimate_policy_value(**kw)
        fz.check("estimate")


@harness(cases=[dict(fam="discrete"), dict(fam="multi"), dict(fam="continuous"), dict(fam="slate")])
def evaluation(ctx, fam):
    n = 2
    d = Log(ctx, n, 2, 1, q=True, est_pscore=True)
    if fam == "slate":
        fb = dict(slate_id=np.array([0, 0]), position=np.array([0, 1]), reward=ctx.reals("reward", n, nice=(-2, 2)), action=np.array([0, 1]), context=ctx.arr([[5.0], [5.0]]))
        fb["pscore"] = ctx.arr([0.25, 0.25])
        fb["pscore_item_position"] = ctx.arr([0.5, 0.5])
        fb["pscore_cascade"] = ctx.arr([0.5, 0.25])
        ests = [ope.SlateStandardIPS(len_list=2), ope.SelfNormalizedSlateIndependentIPS(len_list=2), ope.SlateRewardInteractionIPS(len_list=2)]
        kw = dict(evaluation_policy_pscore=ctx.arr([0.125, 0.125]), evaluation_policy_pscore_item_position=ctx.reals("pe", n, lo=0, hi=1, lo_open=True, nice=(0.2, 1)), evaluation_policy_pscore_cascade=ctx.arr([0.25, 0.125]))
        ev = ope.SlateOffPolicyEvaluation(bandit_feedback=fb, ope_estimators=ests)
    elif fam == "continuous":
        fb = dict(action=ctx.reals("a", n, nice=(-1, 1)), reward=d.reward, pscore=d.pscore)
        ests = [ope.KernelizedInverseProbabilityWeighting(kernel="gaussian", bandwidth=0.5), ope.KernelizedDoublyRobust(kernel="gaussian", bandwidth=0.5)]
        kw = dict(action_by_evaluation_policy=ctx.reals("b", n, nice=(-1, 1)), estimated_rewards_by_reg_model=ctx.reals("qc", n, nice=(-1, 1)))
        ev = ope.ContinuousOffPolicyEvaluation(bandit_feedback=fb, ope_estimators=ests)
    else:
        fb = dict(action=d.action, reward=d.reward, position=d.position, pscore=d.pscore)
        kw = dict(action_dist=d.pi, estimated_rewards_by_reg_model=d.q)
        if fam == "multi":
            fb["pscore_avg"] = ctx.reals("pavg", n, lo=0, hi=1, lo_open=True, nice=(0.2, 1))
            fb["stratum_idx"] = np.array([0, 0])
            ests = [MULTI[k]() for k in ("naive_ipw", "balanced_ipw", "naive_dr")]
            ev = ope.MultiLoggersOffPolicyEvaluation(bandit_feedback=fb, ope_estimators=ests)
        else:
            fb["context"] = ctx.arr([[5.0], [6.0]])
            ests = [ope.InverseProbabilityWeighting(lambda_=2.0), ope.DirectMethod(), ope.DoublyRobust(), ope.DoublyRobustWithShrinkage(lambda_=3.0)]
            ev = ope.OffPolicyEvaluation(bandit_feedback=fb, ope_estimators=ests)
    fz = Frozen(ctx, feedback=fb, inputs=kw)
    a = ev.estimate_policy_values(**kw)
    fz.check("estimate")
    b = ev.estimate_policy_values(**kw)
    for k in a:
        ctx.eq(f"{k} again", b[k], a[k])
    ev.estimate_intervals(**kw, alpha=0.1, n_bootstrap_samples=1, random_state=5)
    fz.check("intervals")
    ev.evaluate_performance_of_estimators(**kw, ground_truth_policy_value=1.5, metric="se")
    fz.check("performance")
    c = ev.estimate_policy_values(**kw)
    for k in a:
        ctx.eq(f"{k} at the end", c[k], a[k])


def basics(ctx, n=2, k=2, L=1):
    r = ctx.reals("reward", n, nice=(-2, 2))
    p = ctx.reals("pscore", n, lo=0, hi=1, lo_open=True, nice=(0.1, 1))
    pi = np.swapaxes(ctx.simplex("pi", (n, L, k)), 1, 2).copy()
    return r, p, pi


@harness(cases=product(method=["normal", "iw", "mrdr"], folds=[1, 2]))
def regression(ctx, method, folds):
    r, p, pi = basics(ctx)
    Mo = make_model(ctx, "regressor", "q")
    ac = ctx.arr([[100.0], [103.0]])
    reg = ope.RegressionModel(base_model=Mo(), n_actions=2, len_list=1, fitting_method=method, action_context=ac)
    kw = dict(context=ctx.arr([[5.0, -1.0], [6.0, -1.0]]), action=np.array([0, 1]), reward=r, pscore=p, position=np.zeros(2, dtype=int), action_dist=pi)
    fz = Frozen(ctx, action_context=ac, **kw)
    reg.fit_predict(**kw, n_folds=folds, random_state=3)
    fz.check("fit and predict")


@harness(cases=product(what=["weights", "raw weights", "propensities"], folds=[1, 2]))
def classification(ctx, what, folds):
    r, p, pi = basics(ctx)
    Mo = make_model(ctx, "classifier", "c", labels=[0, 1])
    ac = ctx.arr([[100.0], [103.0]])
    kw = dict(context=ctx.arr([[5.0, -1.0], [6.0, -1.0]]), action=np.array([0, 1]), position=np.zeros(2, dtype=int))
    if what == "propensities":
        m = classification_model.PropensityScoreEstimator(base_model=Mo(), n_actions=2, len_list=1)
    else:
        kw["action_dist"] = pi
        m = classification_model.ImportanceWeightEstimator(base_model=Mo(), n_actions=2, len_list=1, fitting_method="raw" if what == "raw weights" else "sample", action_context=ac)
    fz = Frozen(ctx, action_context=ac, **kw)
    m.fit_predict(**kw, n_folds=folds, random_state=3)
    fz.check("fit and predict")


@harness(cases=product(kind=["ipw", "q"]))
def learners(ctx, kind):
    n, k = 2, 2
    r = ctx.reals("reward", n, lo=0, nice=(0, 2))
    p = ctx.reals("pscore", n, lo=0, hi=1, lo_open=True, nice=(0.1, 1))
    kw = dict(context=ctx.arr([[5.0, -1.0], [6.0, -1.0]]), action=np.array([0, 1]), reward=r, pscore=p)
    if kind == "ipw":
        pol = policy.IPWLearner(n_actions=k, base_classifier=make_model(ctx, "classifier", "c")())
    else:
        pol = policy.QLearner(n_actions=k, base_model=make_model(ctx, "regressor", "q")())
    fz = Frozen(ctx, **kw)
    pol.fit(**kw)
    fz.check("fit")
    new = ctx.arr([[50.0, 2.0]])
    f2 = Frozen(ctx, context=new)
    s = [v for v in flat(pol.predict_score(context=new))]
    pol.predict(context=new)
    pol.sample_action(context=new, tau=0.5, random_state=1)
    pol.predict_proba(context=new, tau=0.5)
    f2.check("predict")
    ctx.eq("the same scores again", flat(pol.predict_score(context=new)), s)


@harness(cases=product(kind=["LinEpsilonGreedy", "LinUCB", "LinTS"], batch=[1, 2]))
def bandits(ctx, kind, batch):
    """A policy's own copy of the data: the caller may reuse its arrays."""
    pol = getattr(policy, kind)(dim=1, n_actions=2, batch_size=batch, random_state=1, **({} if kind == "LinTS" else dict(epsilon=0.5)))
    x = ctx.reals("context", (1, 1), nice=(0.5, 2))
    fz = Frozen(ctx, context=x)
    r = ctx.real("reward", nice=(-1, 1))
    pol.update_params(action=0, reward=r, context=x)
    fz.check("update")
    pol.select_action(context=x)
    fz.check("select")


@harness(cases=product(fn=["softmax", "sigmoid", "sample_action_fast", "convert_to_action_dist"], n=[1, 2]))
def helpers(ctx, fn, n):
    if fn == "softmax":
        x = ctx.reals("x", (n, 2), nice=(-2, 2))
    elif fn == "sigmoid":
        x = ctx.reals("x", n, nice=(-2, 2))
    elif fn == "sample_action_fast":
        x = ctx.simplex("x", (n, 2))
    else:
        x = ctx.ints("x", (n, 1), 2)
    fz = Frozen(ctx, x=x)
    if fn == "convert_to_action_dist":
        utils.convert_to_action_dist(n_actions=2, selected_actions=x)
    elif fn == "sample_action_fast":
        utils.sample_action_fast(x, random_state=1)
    else:
        getattr(utils, fn)(x)
    fz.check(fn)
