"""P30: unusable settings are refused, usable ones accepted."""
from sklearn.linear_model import LinearRegression, LogisticRegression

from symnp.api import *
from symnp.core import to_bool
from obp import dataset as D
from obp import ope
from obp import policy as P
from obp.policy.offline import QFuncEstimator
from obp.policy.offline_continuous import QFuncEstimatorForContinuousAction
from obp.dataset.synthetic import linear_behavior_policy, linear_reward_function, _base_reward_function
from obp.ope.regression_model_slate import SlateRegressionModel
from obp.simulator.simulator import BanditEnvironmentSimulator
from obp.simulator.coefficient_drifter import CoefficientDrifter
from obp.simulator.delay_sampler import ExponentialDelaySampler

BOUNDS = (
    "one setting at a time next to usable ones: every integer up to 4-6 (negative ones down to -6), every real number, every "
    "option name, and fixed values of a wrong type"
)

MISSING = object()


class I:
    """Integers from lo to hi."""

    def __init__(self, lo, hi=None, top=5, wrong=(2.5, "2", [2])):
        self.lo, self.hi, self.top, self.wrong = lo, hi, top, wrong

    def values(self, ctx):
        x = ctx.integer("value", -6, self.top)
        ok = x >= self.lo
        if self.hi is not None:
            ok = ok & (x <= self.hi)
        return x, bool(to_bool(ok) if ctx.sym else ok)


class F:
    """Reals between lo and hi."""

    def __init__(self, lo=None, hi=None, lo_open=False, hi_open=False, wrong=("0.5", [0.5])):
        self.lo, self.hi, self.lo_open, self.hi_open, self.wrong = lo, hi, lo_open, hi_open, wrong

    def values(self, ctx):
        a = self.lo if self.lo is not None else self.hi if self.hi is not None else 0
        b = self.hi if self.hi is not None else a + 3
        x = ctx.real("value", nice=(a - 2, b + 2))
        x = x if ctx.sym else float(x)
        ok = x == x
        if self.lo is not None:
            ok = (x > self.lo) if self.lo_open else (x >= self.lo)
        if self.hi is not None:
            ok = ok & ((x < self.hi) if self.hi_open else (x <= self.hi))
        return x, bool(ok)


class O:
    """One of the named options."""

    def __init__(self, *good, bad=("other", 3)):
        self.good, self.wrong = good, bad

    def values(self, ctx):
        return self.good[ctx.choice("option", len(self.good))], True


class B(O):
    def __init__(self):
        super().__init__(True, False, bad=("yes", 2, None))


def settings(n_actions=2, **k):
    return dict(n_actions=n_actions, **k)


LIN, LOG = LinearRegression(), LogisticRegression()
MODEL = O(LIN, bad=(None, "model", 3))
SIZES = dict(n_actions=I(2), len_list=I(1))
LISTS = dict(len_list=I(1, 3))
ONLINE = dict(batch_size=I(1), **LISTS)
SEED = O(1, bad=(None,))
NET = dict(
    dim_context=I(1),
    hidden_layer_size=O((2,), (1, 3), (), bad=([2], 2, (0,), (-1,), (2, 0), (2.5,), "2")),
    activation=O("identity", "logistic", "tanh", "relu", "elu", bad=("other",)),
    solver=O("adam", "adagrad", "sgd", bad=("other",)),
    alpha=F(0),
    batch_size=I(1, wrong=(2.5, "other", [2], 0)),
    learning_rate_init=F(0, lo_open=True),
    max_iter=I(1),
    shuffle=B(),
    tol=F(0, lo_open=True),
    momentum=F(0, 1),
    nesterovs_momentum=B(),
    early_stopping=B(),
    validation_fraction=F(0, 1, lo_open=True),
    beta_1=F(0, 1),
    beta_2=F(0, 1),
    epsilon=F(0),
    n_iter_no_change=I(1),
)
REWARD = O("binary", "continuous", bad=("other",))

CLASSES = {
    "regression": (ope.RegressionModel, dict(base_model=LIN, n_actions=3), dict(SIZES, base_model=MODEL, fitting_method=O("normal", "iw", "mrdr"))),
    "slate regression": (
        SlateRegressionModel, dict(base_model=LIN, len_list=2, n_unique_action=2),
        dict(len_list=I(1), n_unique_action=I(2), fitting_method=O("normal", "iw"), base_model=O(LIN, bad=(None, "model", LOG))),
    ),
    "weights": (
        ope.ImportanceWeightEstimator, dict(base_model=LOG, n_actions=3),
        dict(SIZES, base_model=MODEL, fitting_method=O("sample", "raw"), calibration_cv=I(-9, wrong=(2.5, "2", None))),
    ),
    "propensities": (
        ope.PropensityScoreEstimator, dict(base_model=LOG, n_actions=3), dict(SIZES, base_model=MODEL, calibration_cv=I(-9, wrong=(2.5, "2", None))),
    ),
    "epsilon greedy": (P.EpsilonGreedy, dict(n_actions=3), dict(ONLINE, n_actions=I(2), epsilon=F(0, 1))),
    "random": (P.Random, dict(n_actions=3), dict(ONLINE, n_actions=I(2))),
    "thompson": (P.BernoulliTS, dict(n_actions=3), dict(ONLINE, n_actions=I(2), campaign=O(None, bad=()))),
    "linear greedy": (P.LinEpsilonGreedy, dict(dim=2, n_actions=3), dict(ONLINE, dim=I(1), n_actions=I(2), epsilon=F(0, 1))),
    "linear ucb": (P.LinUCB, dict(dim=2, n_actions=3), dict(ONLINE, dim=I(1), n_actions=I(2), epsilon=F(0))),
    "linear thompson": (P.LinTS, dict(dim=2, n_actions=3), dict(ONLINE, dim=I(1), n_actions=I(2))),
    "logistic greedy": (
        P.LogisticEpsilonGreedy, dict(dim=2, n_actions=3),
        dict(ONLINE, dim=I(1), n_actions=I(2), epsilon=F(0, 1), alpha_=F(0, lo_open=True), lambda_=F(0, lo_open=True)),
    ),
    "logistic ucb": (
        P.LogisticUCB, dict(dim=2, n_actions=3),
        dict(ONLINE, dim=I(1), n_actions=I(2), epsilon=F(0), alpha_=F(0, lo_open=True), lambda_=F(0, lo_open=True)),
    ),
    "logistic thompson": (
        P.LogisticTS, dict(dim=2, n_actions=3), dict(ONLINE, dim=I(1), n_actions=I(2), alpha_=F(0, lo_open=True), lambda_=F(0, lo_open=True)),
    ),
    "ipw learner": (P.IPWLearner, dict(n_actions=3), dict(LISTS, n_actions=I(2), base_classifier=O(LOG, None, bad=(LIN, "model")))),
    "q learner": (
        P.QLearner, dict(n_actions=3, base_model=LIN), dict(LISTS, n_actions=I(2), base_model=MODEL, fitting_method=O("normal", "iw", "mrdr")),
    ),
    "neural learner": (
        P.NNPolicyLearner, dict(n_actions=3, dim_context=1, off_policy_objective="ipw", hidden_layer_size=(2,)),
        dict(
            NET, n_actions=I(2), len_list=I(1, 3), off_policy_objective=O("dm", "ipw", "dr", "snipw", "ipw-os", "ipw-subgauss", bad=("other", None)),
            policy_reg_param=F(0), var_reg_param=F(0), q_func_estimator_hyperparams=O(None, bad=("x", [1])),
        ),
    ),
    "neural learner, shrunk": (
        P.NNPolicyLearner, dict(n_actions=3, dim_context=1, off_policy_objective="ipw-os", hidden_layer_size=(2,)), dict(lambda_=F(0)),
    ),
    "neural learner, shifted": (
        P.NNPolicyLearner, dict(n_actions=3, dim_context=1, off_policy_objective="snipw", hidden_layer_size=(2,)), dict(lambda_=F(0)),
    ),
    "neural learner, sub-Gaussian": (
        P.NNPolicyLearner, dict(n_actions=3, dim_context=1, off_policy_objective="ipw-subgauss", hidden_layer_size=(2,)), dict(lambda_=F(0, 1)),
    ),
    "neural q": (QFuncEstimator, dict(n_actions=3, dim_context=1, hidden_layer_size=(2,)), NET),
    "continuous learner": (
        P.ContinuousNNPolicyLearner, dict(dim_context=1, pg_method="dpg", hidden_layer_size=(2,)),
        dict(NET, pg_method=O("dpg", bad=("other", None)), output_space=O((-1, 1), None, bad=([0, 1], ("a", "b"), 1)), q_func_estimator_hyperparams=O(None, bad=("x", [1]))),
    ),
    "continuous learner, weighted": (
        P.ContinuousNNPolicyLearner, dict(dim_context=1, pg_method="ipw", bandwidth=0.5, hidden_layer_size=(2,)),
        dict(bandwidth=F(0, lo_open=True, wrong=("0.5", None)), pg_method=O("ipw", "dr", "dpg", bad=("other",))),
    ),
    "continuous q": (QFuncEstimatorForContinuousAction, dict(dim_context=1, hidden_layer_size=(2,)), NET),
    "embedding weights": (
        ope.MarginalizedInverseProbabilityWeighting, dict(n_actions=3),
        dict(
            n_actions=I(2), min_emb_dim=I(1), delta=F(0, 1), embedding_selection_method=O(None, "exact", "greedy", bad=("other",)),
            pi_a_x_e_estimator=O(LOG, bad=(LIN, "model", 3)),
        ),
    ),
    "cascade dr": (ope.SlateCascadeDoublyRobust, dict(len_list=2, n_unique_action=2), dict(n_unique_action=I(1))),
    "synthetic": (
        D.SyntheticBanditDataset, dict(n_actions=3),
        dict(
            n_actions=I(2), dim_context=I(1), n_deficient_actions=I(0, 2), reward_type=REWARD, reward_std=F(0), beta=F(), random_state=SEED,
            action_context=O(np.eye(3), np.ones((3, 1)), bad=(np.eye(2), np.ones(3), [[1], [2], [3]])),
        ),
    ),
    "synthetic multi": (
        D.SyntheticMultiLoggersBanditDataset, dict(n_actions=3, betas=[1.0, -1.0], rhos=[1.0, 2.0]),
        dict(
            n_actions=I(2), dim_context=I(1), n_deficient_actions=I(0, 2), reward_type=REWARD, reward_std=F(0), random_state=SEED,
            action_context=O(np.eye(3), np.ones((3, 1)), bad=(np.eye(2), np.ones(3), [[1], [2], [3]])),
            betas=O([1.0, 2], bad=(None, (1.0, 2.0), [1.0], ["a", 1.0])), rhos=O([0.5, 1], bad=(None, (1.0, 2.0), [1.0], ["a", 1.0], [1.0, -0.5])),
        ),
    ),
    "synthetic embeddings": (
        D.SyntheticBanditDatasetWithActionEmbeds, dict(n_actions=2, n_cat_per_dim=1, n_cat_dim=2, latent_param_mat_dim=1),
        dict(
            n_actions=I(2), dim_context=I(1), n_deficient_actions=I(0, 1), reward_type=REWARD, reward_std=F(0), random_state=SEED, n_cat_per_dim=I(1, top=1),
            latent_param_mat_dim=I(1, top=3), n_cat_dim=I(1, top=3), p_e_a_param_std=F(0), n_unobserved_cat_dim=I(0, 2), n_irrelevant_cat_dim=I(0, 2),
        ),
    ),
    "synthetic slates": (
        D.SyntheticSlateBanditDataset, dict(n_unique_action=3, len_list=2),
        dict(
            n_unique_action=I(2), len_list=I(2, 3), dim_context=I(1), reward_type=O("binary", "continuous", bad=("other", None)),
            reward_structure=O(
                "cascade_additive", "cascade_decay", "independent", "standard_additive", "standard_decay", bad=("other", None)
            ),
            decay_function=O("exponential", "inverse", bad=("other", None)), click_model=O(None, "pbm", "cascade", bad=("other",)),
        ),
    ),
    "synthetic slates, examined": (
        D.SyntheticSlateBanditDataset, dict(n_unique_action=3, len_list=2, click_model="pbm"), dict(eta=F(0), reward_type=O("binary", bad=("continuous",))),
    ),
    "synthetic slates, cascade": (
        D.SyntheticSlateBanditDataset, dict(n_unique_action=3, len_list=2, click_model="cascade"), dict(eta=F(0), reward_type=O("binary", bad=("continuous",))),
    ),
    "synthetic slates, repeated items": (
        D.SyntheticSlateBanditDataset, dict(n_unique_action=2, len_list=2, is_factorizable=True), dict(len_list=I(2, top=4)),
    ),
    "synthetic continuous": (
        D.SyntheticContinuousBanditDataset, dict(),
        dict(
            dim_context=I(1), action_noise=F(0), reward_noise=F(0), min_action_value=F(hi=1, hi_open=True), max_action_value=F(lo=-1, lo_open=True),
            random_state=SEED,
        ),
    ),
    "classification": (
        D.MultiClassToBanditReduction, dict(X=np.arange(6.0).reshape(3, 2), y=np.array([0, 1, 2]), base_classifier_b=LOG),
        dict(alpha_b=F(0, 1, hi_open=True), n_deficient_actions=I(0, 2), base_classifier_b=O(LOG, bad=(LIN, "model"))),
    ),
    "environment": (
        BanditEnvironmentSimulator, dict(n_actions=3),
        dict(
            n_actions=I(2), dim_context=I(1), random_state=SEED,
            action_context=O(np.eye(3), np.ones((3, 1)), bad=(np.eye(2), np.ones(3), [[1], [2], [3]])),
        ),
    ),
    "drift": (CoefficientDrifter, dict(drift_interval=3), dict(random_state=SEED)),
    "delays": (ExponentialDelaySampler, dict(random_state=1), dict(random_state=SEED)),
}
BASE = {"synthetic continuous": {"min_action_value": dict(max_action_value=1.0), "max_action_value": dict(min_action_value=-1.0)}}
ERRORS = (ValueError, TypeError, AssertionError)


def cases():
    return [dict(name=n, setting=s) for n, (_, _, ss) in CLASSES.items() for s in ss]


def copied(v):
    return v.copy() if isinstance(v, (np.ndarray, list)) else v


def build(ctx, name, setting, value):
    cls, base, _ = CLASSES[name]
    kw = {k: copied(v) for k, v in base.items()}
    kw.update(BASE.get(name, {}).get(setting, {}))
    value = copied(value)
    if isinstance(value, np.ndarray) and value.dtype.kind == "f":
        value = ctx.arr(value)
    kw[setting] = value
    return cls(**kw)


@harness(cases=cases())
def constructors(ctx, name, setting):
    """A setting is refused exactly if it lies outside its range."""
    kind = CLASSES[name][2][setting]
    x, good = kind.values(ctx)
    if good:
        ctx.accepts(f"{setting}: usable value", lambda: build(ctx, name, setting, x))
    else:
        ctx.raises(f"{setting}: value out of range", lambda: build(ctx, name, setting, x), ERRORS)


@harness(cases=cases())
def wrong_types(ctx, name, setting):
    wrong = CLASSES[name][2][setting].wrong
    if not len(wrong):
        return
    i = ctx.choice("wrong", len(wrong))
    ctx.raises(f"{setting}: {wrong[i]!r}", lambda: build(ctx, name, setting, wrong[i]), ERRORS)


# -- settings of methods ---------------------------------------------------------------


class Table:
    """Stands for a fitted learner."""

    def __init__(self, ctx, n, k, L):
        self.v = ctx.reals("score", (n, k, L), nice=(-2, 2))


def learner(ctx, kind):
    k = 2
    if kind == "ipw":
        m = P.IPWLearner(n_actions=k, base_classifier=LOG)
    else:
        m = P.QLearner(n_actions=k, base_model=LIN)
    v = ctx.reals("score", (1, k, 1), nice=(-2, 2))
    m.predict_score = lambda context: v.copy()
    return m


METHODS = {}


def method(name, kind):
    def deco(f):
        METHODS[name] = (f, kind)
        return f

    return deco


for _k in ["ipw", "q"]:
    METHODS[_k + " learner samples at a temperature"] = (
        lambda ctx, x, _k=_k: learner(ctx, _k).sample_action(context=ctx.arr(np.ones((1, 1))), tau=x, random_state=1), F(0, lo_open=True),
    )
    METHODS[_k + " learner chooses at a temperature"] = (
        lambda ctx, x, _k=_k: learner(ctx, _k).predict_proba(context=ctx.arr(np.ones((1, 1))), tau=x), F(0, lo_open=True),
    )


def rounds(cls, **kw):
    return lambda ctx, x: cls(**kw).obtain_batch_bandit_feedback(n_rounds=x)


METHODS["rounds of synthetic data"] = (rounds(D.SyntheticBanditDataset, n_actions=2), I(1, top=2))
METHODS["rounds of multi-logger data"] = (rounds(D.SyntheticMultiLoggersBanditDataset, n_actions=2, betas=[1.0], rhos=[1.0]), I(1, top=2))
METHODS["rounds of embedding data"] = (
    rounds(D.SyntheticBanditDatasetWithActionEmbeds, n_actions=2, n_cat_per_dim=1, n_cat_dim=1, latent_param_mat_dim=1, reward_function=linear_reward_function),
    I(1, top=1),
)
METHODS["rounds of slate data"] = (rounds(D.SyntheticSlateBanditDataset, n_unique_action=2, len_list=2), I(1, top=1))
METHODS["rounds of continuous data"] = (rounds(D.SyntheticContinuousBanditDataset), I(1, top=2))
METHODS["rounds of a simulation"] = (lambda ctx, x: BanditEnvironmentSimulator(n_actions=2).next_bandit_round_batch(n_rounds=x), I(1, top=2))


def slate(ctx, **kw):
    return D.SyntheticSlateBanditDataset(n_unique_action=2, len_list=2, **kw)


METHODS["clipped logits of an evaluated slate policy"] = (
    lambda ctx, x: slate(ctx).obtain_pscore_given_evaluation_policy_logit(
        action=np.array([0, 1]), evaluation_policy_logit_=ctx.arr(np.array([[0.5, 0.2]])), clip_logit_value=x
    ),
    F(hi=700.0),
)
METHODS["clipped logits of sampled slates"] = (
    lambda ctx, x: slate(ctx, behavior_policy_function=linear_behavior_policy).sample_action_and_obtain_pscore(
        behavior_policy_logit_=ctx.arr(np.array([[0.5, 0.2]])), n_rounds=1, clip_logit_value=x
    ),
    F(hi=700.0),
)


def folds_of(cls, **extra):
    from symnp.models import make_model

    def go(ctx, x):
        n = 3
        clf = cls is not ope.RegressionModel
        Mo = make_model(ctx, "classifier" if clf else "regressor", "m")
        m = cls(n_actions=2, base_model=Mo(), **({"calibration_cv": 1} if clf else {}))
        kw = dict(context=ctx.arr(np.arange(3.0).reshape(3, 1)), action=np.array([0, 1, 0]), n_folds=x, random_state=1)
        if cls is ope.RegressionModel:
            kw["reward"] = ctx.arr([0.0, 1.0, 0.5])
        if cls is ope.ImportanceWeightEstimator:
            kw["action_dist"] = ctx.arr(np.full((n, 2, 1), 0.5))
        return m.fit_predict(**kw)

    return go


METHODS["folds of a regression"] = (folds_of(ope.RegressionModel), I(1, top=2))
METHODS["folds of propensities"] = (folds_of(ope.PropensityScoreEstimator), I(1, top=2))
METHODS["folds of weights"] = (folds_of(ope.ImportanceWeightEstimator), I(1, top=2))


def multiclass(ctx, x):
    from symnp.models import make_model

    Mo = make_model(ctx, "classifier", "clf")
    ds = D.MultiClassToBanditReduction(X=np.arange(6.0).reshape(3, 2), y=np.array([0, 1, 1]), base_classifier_b=Mo())
    ds.split_train_eval(eval_size=1, random_state=1)
    return ds.obtain_action_dist_by_eval_policy(alpha_e=x)


METHODS["mixture of an evaluation policy"] = (multiclass, F(0, 1))
METHODS["degree of a reward function"] = (
    lambda ctx, x: _base_reward_function(context=ctx.arr([[0.0], [1.0]]), action_context=ctx.arr([[1.0], [0.0]]), degree=x, z_score=False, random_state=1),
    I(1, top=2),
)
METHODS["share of dimensions of a reward function"] = (
    lambda ctx, x: _base_reward_function(
        context=ctx.arr([[0.0], [1.0]]), action_context=ctx.arr([[1.0], [0.0]]), degree=1, effective_dim_ratio=x, z_score=False, random_state=1
    ),
    F(0, 1),
)


@harness(cases=product(name=sorted(METHODS)))
def methods(ctx, name):
    f, kind = METHODS[name]
    x, good = kind.values(ctx)
    if good:
        x = int(x) if isinstance(kind, I) else x
        ctx.accepts("usable value", lambda: f(ctx, x))
    else:
        if isinstance(kind, F) and kind.lo_open:
            ctx.assume(x != kind.lo)  # zero temperatures are not claimed
        ctx.raises("value out of range", lambda: f(ctx, x), ERRORS)


@harness(cases=product(name=sorted(METHODS)))
def methods_wrong_types(ctx, name):
    f, kind = METHODS[name]
    i = ctx.choice("wrong", len(kind.wrong))
    ctx.raises(f"{kind.wrong[i]!r}", lambda: f(ctx, kind.wrong[i]), ERRORS)
