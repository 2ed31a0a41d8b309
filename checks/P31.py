"""P31: models, learners, policies, data sets and simulators refuse malformed data."""
from sklearn.linear_model import LinearRegression, LogisticRegression

from symnp.api import *
from symnp.models import make_model
from obp import dataset as D
from obp import ope
from obp import policy as P
from obp.dataset import synthetic as DS
from obp.dataset import synthetic_continuous as DC
from obp.dataset import synthetic_slate as DSl
from obp.policy.offline import QFuncEstimator
from obp.policy.offline_continuous import QFuncEstimatorForContinuousAction
from obp.simulator.replay import run_bandit_replay
from obp.simulator.simulator import calc_ground_truth_policy_value
from obp.utils import convert_to_action_dist

BOUNDS = (
    "2 rounds, 2-3 actions, 1-2 positions; one argument malformed at a time (a list, too many or too few dimensions, too few "
    "rows, left out), or all integers around the valid range and all reals for actions, positions, propensities, rewards and policies"
)
ERRORS = (ValueError, TypeError, AssertionError, IndexError, AttributeError, KeyError, RuntimeError)


def verdict(ctx, label, valid, fn):
    if valid:
        ctx.accepts(label + ": valid input is accepted", fn)
    else:
        ctx.raises(label + ": invalid input is refused", fn, ERRORS)


def dist(ctx, n, k, L):
    return np.swapaxes(ctx.simplex("pi", (n, L, k)), 1, 2).copy()


def logged(ctx, n=2, k=2, L=1, pos=None):
    return dict(
        context=ctx.arr(np.arange(2.0 * n).reshape(n, 2)), action=np.arange(n) % k, reward=ctx.reals("reward", n, lo=0, hi=1),
        pscore=ctx.reals("pscore", n, lo=0, hi=1, lo_open=True, nice=(0.1, 1)), position=np.arange(n) % L if pos is None else pos,
    )


def regression(method, how, L=1):
    def go(ctx):
        Mo = make_model(ctx, "regressor", "q")
        m = ope.RegressionModel(base_model=Mo(), n_actions=2, len_list=L, fitting_method=method)
        kw = logged(ctx, L=L)
        if method != "normal":
            kw["action_dist"] = dist(ctx, 2, 2, L)
        return getattr(m, how), kw

    args = dict(context="lmfsn", action="lmsn", reward="lmsn", pscore="lms", position="lms" if L > 1 else "lms")
    if method != "normal":
        args["action_dist"] = "lmfsnw" + ("p" if L > 1 else "")
    return go, args


def classification(cls, how, L=1):
    def go(ctx):
        Mo = make_model(ctx, "classifier", "q")
        m = cls(base_model=Mo(), n_actions=2, len_list=L, calibration_cv=1)
        kw = logged(ctx, L=L)
        del kw["reward"], kw["pscore"]
        if cls is ope.ImportanceWeightEstimator:
            kw["action_dist"] = dist(ctx, 2, 2, L)
        return getattr(m, how), kw

    args = dict(context="lmfsn", action="lmsn", position="lms")
    if cls is ope.ImportanceWeightEstimator:
        args["action_dist"] = "lmfsnw" + ("p" if L > 1 else "")
    return go, args


def slate_regression(method):
    def go(ctx):
        Mo = make_model(ctx, "regressor", "q")
        m = ope.SlateRegressionModel(base_model=Mo(), n_unique_action=2, len_list=2, fitting_method=method)
        ps = lambda x: ctx.reals(x, 4, lo=0, hi=1, lo_open=True, nice=(0.1, 1))
        return m.fit, dict(
            context=ctx.arr(np.arange(4.0).reshape(2, 2)), action=np.array([0, 1, 1, 1]), reward=ctx.reals("reward", 4), pscore_cascade=ps("b"),
            evaluation_policy_pscore_cascade=ps("e"), evaluation_policy_action_dist=ctx.simplex("pi", (4, 2)).reshape(-1),
        )

    return go, dict(
        context="lmfsn", action="lmsn", reward="lmsn", pscore_cascade="lmsn", evaluation_policy_pscore_cascade="lmsn", evaluation_policy_action_dist="lmsn"
    )


def slate_prediction(ctx):
    Mo = make_model(ctx, "regressor", "q")
    m = ope.SlateRegressionModel(base_model=Mo(), n_unique_action=2, len_list=2)
    kw = slate_regression("normal")[0](ctx)[1]
    m.fit(**kw)
    return m.predict, dict(context=kw["context"], action=kw["action"])


def learner(cls, how, L=1, fitted=False):
    def go(ctx):
        if cls is P.IPWLearner:
            Mo = make_model(ctx, "classifier", "c")
            m = cls(n_actions=2, len_list=L, base_classifier=Mo())
        else:
            Mo = make_model(ctx, "regressor", "c")
            m = cls(n_actions=2, len_list=L, base_model=Mo())
        kw = logged(ctx, L=L)
        if fitted:
            m.fit(**kw)
            kw = dict(context=kw["context"])
        return getattr(m, how), kw

    if fitted:
        return go, dict(context="lmfn")
    return go, dict(context="lmfsn", action="lmsn", reward="lmsn", pscore="lms", position="lms" + ("n" if L > 1 else ""))


def neural(kind, how):
    def go(ctx):
        if kind == "policy":
            m = P.NNPolicyLearner(n_actions=2, dim_context=2, off_policy_objective="ipw", hidden_layer_size=(2,), max_iter=1)
        elif kind == "q":
            m = QFuncEstimator(n_actions=2, dim_context=2, hidden_layer_size=(2,), max_iter=1)
        elif kind == "cont":
            m = P.ContinuousNNPolicyLearner(dim_context=2, pg_method="ipw", bandwidth=0.5, hidden_layer_size=(2,), max_iter=1)
        else:
            m = QFuncEstimatorForContinuousAction(dim_context=2, hidden_layer_size=(2,), max_iter=1)
        kw = logged(ctx)
        del kw["position"]
        if kind.startswith("cont"):
            kw["action"] = ctx.reals("act", 2, nice=(-1, 1))
        if kind.endswith("q"):
            del kw["pscore"]
        if how == "fit":
            return m.fit, kw
        return getattr(m, how), dict(context=kw["context"])

    if how != "fit":
        return go, dict(context="lmfn")
    args = dict(context="lmfsn", action="lmsn", reward="lmsn")
    if not kind.endswith("q"):
        args["pscore"] = "lms"
    return go, args


def online(cls, **opts):
    def go(ctx):
        return cls(dim=2, n_actions=2, **opts).select_action, dict(context=ctx.reals("x", (1, 2), nice=(-1, 1)))

    return go, dict(context="lmfr")


def synthetic(cls=D.SyntheticBanditDataset, **o):
    return cls(n_actions=2, dim_context=2, random_state=1, **o)


def bare(f, **arrays):
    """A method or function given arrays of the listed shapes."""

    def go(ctx):
        kw = {}
        for name, shape in arrays.items():
            if shape == "action":
                kw[name] = np.array([0, 1])
            elif name == "action_dist":
                kw[name] = dist(ctx, *shape)
            else:
                kw[name] = ctx.reals(name, shape, nice=(0.1, 0.9))
        return f(), kw

    return go


def multiclass():
    ds = D.MultiClassToBanditReduction(X=np.arange(8.0).reshape(4, 2), y=np.array([0, 1, 1, 0]), base_classifier_b=LogisticRegression())
    ds.n_rounds_ev, ds.y_ev = 2, np.array([0, 1])
    return ds.calc_ground_truth_policy_value


def embedding(how, context):
    def go(ctx):
        Mo = make_model(ctx, "classifier", "c")
        e = ope.MarginalizedInverseProbabilityWeighting(n_actions=2, pi_a_x_e_estimator=Mo())
        kw = dict(
            reward=ctx.reals("reward", 2, nice=(-1, 1)), action=np.array([0, 1]), action_embed=np.array([[0], [1]]),
            pi_b=np.swapaxes(ctx.simplex("pi_b", (2, 1, 2), positive=True), 1, 2).copy(), action_dist=dist(ctx, 2, 2, 1), position=np.zeros(2, dtype=int),
        )
        if context:
            kw["context"] = ctx.arr([[0.0], [1.0]])
        else:
            kw["p_e_a"] = np.swapaxes(ctx.simplex("p_e_a", (2, 1, 2), positive=True), 1, 2).copy()
        f = getattr(e, how)
        if how == "estimate_interval":
            return (lambda **k: f(**k, n_bootstrap_samples=1, random_state=1)), kw
        return f, kw

    args = dict(reward="lmsn", action="lmsn", action_embed="lmfn", pi_b="lmfn", action_dist="lmfn", position="lms")
    if context:
        args["context"] = "lmfn"
    else:
        args["p_e_a"] = "lmf"
    return go, args


class Lists:
    """A context-free policy that always lists the first actions."""

    def __init__(self, k=2, L=1):
        from obp.policy.policy_type import PolicyType

        self.policy_type, self.n_actions, self.len_list = PolicyType.CONTEXT_FREE, k, L

    def select_action(self):
        return np.arange(self.len_list)

    def update_params(self, action, reward):
        pass

    def initialize(self):
        pass


def simulation(what):
    def go(ctx):
        kw = logged(ctx)
        if what == "truth":
            kw["expected_reward"] = ctx.reals("q", (2, 2), lo=0, hi=1)

        def f(**k):
            fb = dict(k, n_rounds=2)
            if what == "truth":
                return calc_ground_truth_policy_value(bandit_feedback=fb, reward_sampler=lambda *a, **b: np.zeros(1), policy=Lists(), n_sim=1)
            return run_bandit_replay(bandit_feedback=fb, policy=Lists())

        return f, kw

    args = dict(context="lmfs", action="lms", reward="lms", pscore="lms", position="lms")
    if what == "truth":
        args["expected_reward"] = "lmf"
        del args["pscore"]
    return go, args


ENTRIES = {}
for _m in ["normal", "iw", "mrdr"]:
    for _h in ["fit", "fit_predict"]:
        for _L in [1, 2]:
            ENTRIES[f"regression {_m} {_h} {_L}"] = regression(_m, _h, _L)
for _h in ["fit", "fit_predict"]:
    for _L in [1, 2]:
        ENTRIES[f"weights {_h} {_L}"] = classification(ope.ImportanceWeightEstimator, _h, _L)
        ENTRIES[f"propensities {_h} {_L}"] = classification(ope.PropensityScoreEstimator, _h, _L)
for _m in ["normal", "iw"]:
    ENTRIES[f"slate regression {_m}"] = slate_regression(_m)
ENTRIES["slate prediction"] = (slate_prediction, dict(context="lmf", action="lms"))
for _n, _c in [("ipw learner", P.IPWLearner), ("q learner", P.QLearner)]:
    for _L in [1, 2]:
        ENTRIES[f"{_n} fit {_L}"] = learner(_c, "fit", _L)
    for _h in ["predict", "predict_score", "sample_action", "predict_proba"]:
        ENTRIES[f"{_n} {_h}"] = learner(_c, _h, fitted=True)
for _n in ["policy", "q", "cont", "contq"]:
    ENTRIES[f"neural {_n} fit"] = neural(_n, "fit")
for _h in ["predict", "sample_action", "predict_proba"]:
    ENTRIES[f"neural policy {_h}"] = neural("policy", _h)
ENTRIES["neural cont predict"] = neural("cont", "predict")
ENTRIES["linear greedy"] = online(P.LinEpsilonGreedy, epsilon=0.0)
ENTRIES["linear ucb"] = online(P.LinUCB, epsilon=0.5)
for _h in ["estimate_policy_value", "estimate_interval"]:
    for _c in [False, True]:
        ENTRIES[f"embedding {_h} {'context' if _c else 'table'}"] = embedding(_h, _c)
ENTRIES["sample reward"] = (bare(lambda: synthetic().sample_reward, context=(2, 2), action="action"), dict(context="lmfs", action="lmsd"))
TRUTH = dict(expected_reward=(2, 2), action_dist=(2, 2, 1))
for _n, _c, _o in [
    ("", D.SyntheticBanditDataset, {}), (" of loggers", D.SyntheticMultiLoggersBanditDataset, dict(betas=[1.0], rhos=[1.0])),
    (" of embeddings", D.SyntheticBanditDatasetWithActionEmbeds, dict(n_cat_per_dim=1, n_cat_dim=1, latent_param_mat_dim=1)),
]:
    ENTRIES["truth" + _n] = (bare(lambda _c=_c, _o=_o: synthetic(_c, **_o).calc_ground_truth_policy_value, **TRUTH), dict(expected_reward="lmfsw", action_dist="lmfsw"))
ENTRIES["truth of classes"] = (bare(multiclass, action_dist=(2, 2, 1)), dict(action_dist="lmfs"))
ENTRIES["truth of continuous actions"] = (
    bare(lambda: D.SyntheticContinuousBanditDataset(dim_context=2, reward_function=lambda context, action, random_state=None: np.zeros(2)).calc_ground_truth_policy_value,
         context=(2, 2), action=(2,)), dict(context="lmfsw", action="lms"))
for _f in ["linear", "quadratic"]:
    ENTRIES[f"continuous rewards {_f}"] = (
        bare(lambda _f=_f: getattr(DC, _f + "_reward_funcion_continuous"), context=(2, 2), action=(2,)), dict(context="lmfs", action="lms"))
for _f in ["linear_behavior_policy_continuous", "linear_synthetic_policy_continuous", "threshold_synthetic_policy_continuous", "sign_synthetic_policy_continuous"]:
    ENTRIES[_f] = (bare(lambda _f=_f: getattr(DC, _f), context=(2, 2)), dict(context="lmf"))
for _f in ["linear", "logistic", "logistic_polynomial", "logistic_sparse", "polynomial", "sparse"]:
    if hasattr(DS, _f + "_reward_function"):
        ENTRIES[f"rewards {_f}"] = (
            bare(lambda _f=_f: getattr(DS, _f + "_reward_function"), context=(2, 2), action_context=(2, 1)), dict(context="lmf", action_context="lmf"))
for _f in ["linear", "polynomial"]:
    ENTRIES[f"logging policy {_f}"] = (
        bare(lambda _f=_f: getattr(DS, _f + "_behavior_policy"), context=(2, 2), action_context=(2, 1)), dict(context="lmf", action_context="lmf"))
ENTRIES["slate logging policy"] = (
    bare(lambda: DSl.linear_behavior_policy_logit, context=(2, 2), action_context=(2, 1)), dict(context="lmf", action_context="lmf"))
ENTRIES["replay"] = simulation("replay")
ENTRIES["simulated truth"] = simulation("truth")


def spoiled(ctx, kw, arg, how):
    kw = dict(kw)
    a = kw[arg]
    if how == "l":
        a = a.tolist()
    elif how == "m":
        a = a[..., np.newaxis]
    elif how == "f":
        a = a[..., 0]
    elif how == "s":
        a = a[:-1]
    elif how == "w":  # another number of actions (or columns)
        a = a[:, :1]
    elif how == "p":
        a = a[..., :1]
    elif how == "r":  # more than one row
        a = np.concatenate([a, a])
    elif how == "d":
        a = a.astype(float)
    else:
        a = None
    kw[arg] = a
    return kw


@harness(cases=[dict(name=n, arg=a) for n, (_, args) in ENTRIES.items() for a in args])
def structure(ctx, name, arg):
    go, args = ENTRIES[name]
    how = args[arg][ctx.choice("fault", len(args[arg]))]
    fn, kw = go(ctx)
    bad = spoiled(ctx, kw, arg, how)
    ctx.raises({"l": "a list", "m": "too many dimensions", "f": "too few dimensions", "s": "too few rows", "w": "too few actions", "p": "too few positions", "r": "too many rows", "d": "fractions", "n": "left out"}[how], lambda: fn(**bad), ERRORS)


@harness(cases=[dict(name=n) for n in ENTRIES if not n.startswith(("neural", "rewards", "logging"))])
def wellformed(ctx, name):
    fn, kw = ENTRIES[name][0](ctx)
    ctx.accepts("well-formed data", lambda: fn(**kw))


# -- values ------------------------------------------------------------------------------


def values(ctx, L, k=2):
    kw = logged(ctx, L=L)
    kw["action"] = ctx.ints("action", 2, k + 2, lo=-1)
    kw["position"] = ctx.ints("position", 2, L + 2, lo=-1)
    ok = all(a >= 0 for a in kw["action"]) and all(p >= 0 for p in kw["position"])
    return kw, ok


def positions_ok(pos, L):
    return L == 1 or (all(p < L for p in pos) and {int(p) for p in pos} == set(range(L)))


def off_distribution(ctx, pi, n, k, L):
    """One entry of the policy changed by any amount."""
    x = ctx.real("bad", lo=0, hi=2)
    i, a, l = ctx.choice("row", n), ctx.choice("item", k), ctx.choice("slot", L)
    ctx.assume(abs(x - pi[i, a, l]) > 1e-3)
    pi = pi.copy()
    pi[i, a, l] = x
    return pi


@harness(cases=product(method=["normal", "iw"], how=["fit", "fit_predict"], L=[1, 2]))
def regression_values(ctx, method, how, L):
    kw, ok = values(ctx, L)
    ok = ok and all(a < 2 for a in kw["action"]) and positions_ok(kw["position"], L)
    Mo = make_model(ctx, "regressor", "q")
    m = ope.RegressionModel(base_model=Mo(), n_actions=2, len_list=L, fitting_method=method)
    if method != "normal":
        kw["action_dist"] = dist(ctx, 2, 2, L)
    verdict(ctx, "actions and positions", ok, lambda: getattr(m, how)(**kw))


@harness(cases=product(what=["regression", "ipw learner", "q learner", "replay"], how=["fit", "fit_predict"]))
def propensities(ctx, what, how):
    kw = logged(ctx)
    kw["pscore"] = ps = ctx.reals("p", 2, nice=(-1, 1))
    ok = bool((ps[0] > 0) & (ps[1] > 0))
    Mo = make_model(ctx, "classifier" if what == "ipw learner" else "regressor", "q")
    if what == "regression":
        m = ope.RegressionModel(base_model=Mo(), n_actions=2)
        fn = getattr(m, how)
    elif how != "fit":
        return
    elif what == "ipw learner":
        fn = P.IPWLearner(n_actions=2, base_classifier=Mo()).fit
    elif what == "q learner":
        fn = P.QLearner(n_actions=2, base_model=Mo()).fit
    else:
        fn, full = simulation(what)[0](ctx)
        kw = dict(full, **kw)
    verdict(ctx, "propensities", ok, lambda: fn(**kw))


@harness(cases=product(method=["iw", "mrdr", "weights"], how=["fit", "fit_predict"], L=[1, 2]))
def policies(ctx, method, how, L):
    kw = logged(ctx, L=L)
    kw["action_dist"] = off_distribution(ctx, dist(ctx, 2, 2, L), 2, 2, L)
    if method == "weights":
        Mo = make_model(ctx, "classifier", "q")
        m = ope.ImportanceWeightEstimator(base_model=Mo(), n_actions=2, len_list=L, calibration_cv=1)
        del kw["reward"], kw["pscore"]
    else:
        Mo = make_model(ctx, "regressor", "q")
        m = ope.RegressionModel(base_model=Mo(), n_actions=2, len_list=L, fitting_method=method)
    ctx.raises("not a distribution", lambda: getattr(m, how)(**kw))


@harness(cases=product(cls=["weights", "propensities"], how=["fit", "fit_predict"], L=[1, 2]))
def classification_values(ctx, cls, how, L):
    kw, ok = values(ctx, L)
    ok = ok and all(a < 2 for a in kw["action"]) and positions_ok(kw["position"], L)
    del kw["reward"], kw["pscore"]
    Mo = make_model(ctx, "classifier", "q")
    if cls == "weights":
        m = ope.ImportanceWeightEstimator(base_model=Mo(), n_actions=2, len_list=L, calibration_cv=1)
        kw["action_dist"] = dist(ctx, 2, 2, L)
    else:
        m = ope.PropensityScoreEstimator(base_model=Mo(), n_actions=2, len_list=L, calibration_cv=1)
    verdict(ctx, "actions and positions", ok, lambda: getattr(m, how)(**kw))


@harness(cases=product(which=["ipw", "q"], L=[1, 2]))
def learner_values(ctx, which, L):
    kw, ok = values(ctx, L)
    kw["reward"] = r = ctx.reals("r", 2, nice=(-1, 1))
    if which == "ipw":
        ctx.assume(all(a < 2 for a in kw["action"]) and positions_ok(kw["position"], L))  # not claimed
        Mo = make_model(ctx, "classifier", "q")
        m = P.IPWLearner(n_actions=2, len_list=L, base_classifier=Mo())
        ok = ok and bool((r[0] >= 0) & (r[1] >= 0))
    else:
        Mo = make_model(ctx, "regressor", "q")
        m = P.QLearner(n_actions=2, len_list=L, base_model=Mo())
        ok = ok and all(a < 2 for a in kw["action"]) and positions_ok(kw["position"], L)
    verdict(ctx, "logged data", ok, lambda: m.fit(**kw))


@harness(cases=product(method=["normal", "iw"], what=["actions", "logging", "evaluation", "policy"]))
def slate_values(ctx, method, what):
    fn, kw = slate_regression(method)[0](ctx)
    ok = True
    if what == "actions":
        kw["action"] = a = ctx.ints("action", 4, 4, lo=-1)
        ok = all(0 <= x < 2 for x in a)
    elif what == "policy":
        x = ctx.reals("x", 8, lo=-0.5, hi=1.5)
        kw["evaluation_policy_action_dist"] = x
        for i in range(4):
            s = x[2 * i] + x[2 * i + 1]
            if s == 1:
                continue
            ctx.assume((s < 0.999) | (s > 1.001))
            ok = False
    else:
        key = "pscore_cascade" if what == "logging" else "evaluation_policy_pscore_cascade"
        kw[key] = p = ctx.reals("x", 4, nice=(-1, 2))
        ok = bool((p[0] > 0) & (p[1] > 0) & (p[2] > 0) & (p[3] > 0) & (p[0] <= 1) & (p[1] <= 1) & (p[2] <= 1) & (p[3] <= 1))
    verdict(ctx, what, ok, lambda: fn(**kw))


@harness(cases=product(what=["replay", "truth"]))
def simulation_values(ctx, what):
    fn, kw = simulation(what)[0](ctx)
    kw["action"] = a = ctx.ints("action", 2, 4, lo=-1)
    kw["position"] = p = ctx.ints("position", 2, 2, lo=-1)
    ok = all(x >= 0 for x in a) and all(x >= 0 for x in p)
    if what == "truth":
        ok = ok and all(x < 2 for x in a)
    verdict(ctx, what, ok, lambda: fn(**kw))


@harness(cases=product(what=["normal", "iw", "mrdr", "weights", "propensities", "q learner"], how=["fit", "fit_predict"]))
def positions(ctx, what, how):
    """Every position is smaller than the length of the lists, and every position was logged."""
    n, L = 3, 2
    pos = ctx.ints("position", n, L + 2, lo=-1)
    kw = logged(ctx, n, 2, L, pos=pos)
    ok = all(p >= 0 for p in pos) and positions_ok(pos, L)
    if what in ("weights", "propensities"):
        Mo = make_model(ctx, "classifier", "q")
        del kw["reward"], kw["pscore"]
        if what == "weights":
            kw["action_dist"] = ctx.arr(np.full((n, 2, L), 0.5))
            m = ope.ImportanceWeightEstimator(base_model=Mo(), n_actions=2, len_list=L, calibration_cv=1, fitting_method="raw")
        else:
            m = ope.PropensityScoreEstimator(base_model=Mo(), n_actions=2, len_list=L, calibration_cv=1)
    elif what == "q learner":
        if how != "fit":
            return
        Mo = make_model(ctx, "regressor", "q")
        m = P.QLearner(n_actions=2, len_list=L, base_model=Mo())
    else:
        Mo = make_model(ctx, "regressor", "q")
        m = ope.RegressionModel(base_model=Mo(), n_actions=2, len_list=L, fitting_method=what)
        if what != "normal":
            kw["action_dist"] = dist(ctx, n, 2, L)
    verdict(ctx, "positions", ok, lambda: getattr(m, how)(**kw))
