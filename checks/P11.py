"""P11: malformed data is refused, well-formed data is accepted."""
from symnp.api import *
from checks.common import Log
from obp import ope
from obp.utils import (
    check_bandit_feedback_inputs,
    check_cascade_dr_inputs,
    check_continuous_bandit_feedback_inputs,
    check_continuous_ope_inputs,
    check_iips_inputs,
    check_multi_loggers_ope_inputs,
    check_ope_inputs,
    check_rips_inputs,
    check_sips_inputs,
)

BOUNDS = "1-3 rows; all integers from one below to one above the valid range, all reals for propensities, weights and distributions (distributions off by at least 1e-3), every listed way to malform one argument"


def verdict(ctx, label, valid, fn):
    """fn is accepted exactly if valid (a Python or symbolic truth value)."""
    if valid:
        ctx.accepts(label + ": valid input is accepted", fn)
    else:
        ctx.raises(label + ": invalid input is refused", fn)


def all_(xs):
    for x in xs:
        if not x:
            return False
    return True


# -- the validators, exactly ---------------------------------------------------------


@harness(cases=product(n=[1, 2], k=[2], L=[1, 2]), thorough=product(n=[3], k=[2], L=[1]))
def discrete(ctx, n, k, L):
    act = ctx.ints("action", n, k + 2, lo=-1)
    pos = ctx.ints("position", n, L + 2, lo=-1) if n == 1 or L == 2 else None
    ps = ctx.reals("pscore", n, lo=-1, hi=1)
    r = ctx.reals("reward", n, nice=(-1, 1))
    pi = np.swapaxes(ctx.simplex("pi", (n, L, k)), 1, 2).copy()
    valid = all(0 <= a < k for a in act) and (pos is None or all(0 <= p < L for p in pos))
    if valid and pos is None and L > 1:
        valid = False
    if valid:
        valid = all_(p > 0 for p in ps)
    verdict(ctx, "ope inputs", valid, lambda: check_ope_inputs(action_dist=pi, position=pos, action=act, reward=r, pscore=ps))


@harness(cases=product(n=[1, 2], k=[2, 3], L=[1]))
def distribution(ctx, n, k, L):
    x = ctx.reals("x", (n, k, L), lo=-0.5, hi=1)
    valid = True
    for i in range(n):
        for l in range(L):
            s = total(x[i, a, l] for a in range(k))
            if s == 1:
                continue
            ctx.assume((s < 0.999) | (s > 1.001))
            valid = False
    verdict(ctx, "distribution", valid, lambda: check_ope_inputs(action_dist=x))


@harness(cases=product(n=[1, 2]))
def importance_weights(ctx, n):
    w = ctx.reals("w", n, lo=-1, hi=3)
    pi = ctx.simplex("pi", (n, 2))[:, :, np.newaxis]
    kw = dict(action_dist=pi, action=np.zeros(n, dtype=int), reward=ctx.arr([0.0] * n))
    verdict(ctx, "weights", all_(x >= 0 for x in w), lambda: check_ope_inputs(estimated_importance_weights=w, **kw))
    ctx.raises("length", lambda: check_ope_inputs(estimated_importance_weights=ctx.arr([1.0] * (n + 1)), **kw))


@harness(cases=product(n=[1, 2], k=[2]))
def feedback(ctx, n, k):
    act = ctx.ints("action", n, k + 2, lo=-1)
    pos = ctx.ints("position", n, 3, lo=-1)
    ps = ctx.reals("pscore", n, lo=-1, hi=1)
    r = ctx.reals("reward", n, nice=(-1, 1))
    cx = ctx.arr(np.ones((n, 2)))
    low = all(a >= 0 for a in act) and all(p >= 0 for p in pos)
    good = low and all_(p > 0 for p in ps)
    kw = dict(context=cx, action=act, reward=r, position=pos, pscore=ps)
    verdict(ctx, "plain", good, lambda: check_bandit_feedback_inputs(**kw))
    inside = good and all(a < k for a in act)
    ac = ctx.arr(np.ones((k, 1)))
    er = ctx.arr(np.ones((n, k)))
    verdict(ctx, "action context", inside, lambda: check_bandit_feedback_inputs(**kw, action_context=ac))
    verdict(ctx, "expected reward", inside, lambda: check_bandit_feedback_inputs(**kw, expected_reward=er))


@harness(cases=product(n=[1, 2], k=[2]))
def loggers(ctx, n, k):
    st = ctx.ints("stratum", n, 3, lo=-1)
    ps = ctx.reals("pscore", n, lo=-1, hi=1)
    r = ctx.reals("reward", n, nice=(-1, 1))
    pi = ctx.simplex("pi", (n, k))[:, :, np.newaxis]
    good = all(s >= 0 for s in st) and all_(p > 0 for p in ps)
    verdict(
        ctx, "strata", good,
        lambda: check_multi_loggers_ope_inputs(action_dist=pi, action=np.zeros(n, dtype=int), reward=r, stratum_idx=st, pscore=ps),
    )


@harness(cases=product(n=[1, 2, 3]))
def continuous(ctx, n):
    a, e, r = (ctx.reals(x, n, nice=(-1, 1)) for x in "aer")
    ps = ctx.reals("pscore", n, lo=-1, hi=2)
    good = all_(p > 0 for p in ps)
    verdict(
        ctx, "ope", good,
        lambda: check_continuous_ope_inputs(action_by_evaluation_policy=e, action_by_behavior_policy=a, reward=r, pscore=ps),
    )
    verdict(
        ctx, "feedback", good,
        lambda: check_continuous_bandit_feedback_inputs(
            context=ctx.arr(np.ones((n, 1))), action_by_behavior_policy=a, reward=r, pscore=ps
        ),
    )


SLATES = [([0, 0], 2), ([0, 1], 2)]


def slate_rows(ctx, sid, L, name):
    n = len(sid)
    pos = ctx.ints("position", n, L + 1, lo=-1 if L < 2 else 0)
    pb = ctx.reals("logging", n, lo=-0.5, hi=1.5)
    pe = ctx.reals("evaluation", n, lo=-0.5, hi=1.5)
    r = ctx.reals("reward", n, nice=(-1, 1))
    ok = all(p >= 0 for p in pos) and len({(s, int(p)) for s, p in zip(sid, pos)}) == n
    if ok:
        ok = all_((p > 0) & (p <= 1) for p in pb) and all_((p >= 0) & (p <= 1) for p in pe)
    return pos, pb, pe, r, ok


@harness(cases=product(i=[0, 1], kind=["sips", "iips", "rips"]), thorough=product(i=[2], kind=["iips", "rips"]))
def slate(ctx, i, kind):
    sid, L = [([0, 0], 2), ([0, 1], 1), ([0, 0, 0], 2)][i]
    n = len(sid)
    pos, pb, pe, r, ok = slate_rows(ctx, sid, L, kind)
    kw = dict(slate_id=np.array(sid), reward=r, position=pos)
    if kind == "sips":
        if ok:
            ok = all_(
                (pb[i] == pb[j]) & (pe[i] == pe[j]) for i in range(n) for j in range(i) if sid[i] == sid[j]
            )
        fn = lambda: check_sips_inputs(pscore=pb, evaluation_policy_pscore=pe, **kw)
    elif kind == "iips":
        fn = lambda: check_iips_inputs(pscore_item_position=pb, evaluation_policy_pscore_item_position=pe, **kw)
    else:
        if ok:
            ok = all_(
                (pb[i] >= pb[j]) & (pe[i] >= pe[j])
                for i in range(n)
                for j in range(n)
                if sid[i] == sid[j] and pos[i] < pos[j]
            )
        fn = lambda: check_rips_inputs(pscore_cascade=pb, evaluation_policy_pscore_cascade=pe, **kw)
    verdict(ctx, kind, ok, fn)


@harness(cases=[dict(k=2)])
def cascade_dr(ctx, k):
    n = 2
    act = ctx.ints("action", n, k + 2, lo=-1)
    ps = ctx.arr([0.5, 0.25])
    x = ctx.reals("dist", n * k, lo=-0.5, hi=1)
    valid = all(0 <= a < k for a in act)
    for i in range(n):
        s = total(x[i * k + j] for j in range(k))
        if s == 1:
            continue
        ctx.assume((s < 0.999) | (s > 1.001))
        valid = False
    base = dict(
        n_unique_action=k, slate_id=np.array([0, 0]), action=act, reward=ctx.arr([1.0, 0.0]), position=np.array([0, 1]),
        pscore_cascade=ps, evaluation_policy_pscore_cascade=ps, q_hat=ctx.arr([0.0] * (n * k)), evaluation_policy_action_dist=x,
    )
    verdict(ctx, "cascade dr", valid, lambda: check_cascade_dr_inputs(**base))


# -- entry points refuse each kind of malformed argument -------------------------------

SINGLE = {
    "replay": (ope.ReplayMethod, ()),
    "ipw": (ope.InverseProbabilityWeighting, ("pscore",)),
    "snipw": (ope.SelfNormalizedInverseProbabilityWeighting, ("pscore",)),
    "sgipw": (ope.SubGaussianInverseProbabilityWeighting, ("pscore",)),
    "bipw": (ope.BalancedInverseProbabilityWeighting, ("weights",)),
    "dm": (ope.DirectMethod, ("q",)),
    "dr": (ope.DoublyRobust, ("pscore", "q")),
    "sndr": (ope.SelfNormalizedDoublyRobust, ("pscore", "q")),
    "switch": (ope.SwitchDoublyRobust, ("pscore", "q")),
    "dros": (ope.DoublyRobustWithShrinkage, ("pscore", "q")),
    "sgdr": (ope.SubGaussianDoublyRobust, ("pscore", "q")),
    "ipw-tuned": (ope.InverseProbabilityWeightingTuning, ("pscore",)),
    "sgipw-tuned": (ope.SubGaussianInverseProbabilityWeightingTuning, ("pscore",)),
    "dr-tuned": (ope.DoublyRobustTuning, ("pscore", "q")),
    "switch-tuned": (ope.SwitchDoublyRobustTuning, ("pscore", "q")),
    "dros-tuned": (ope.DoublyRobustWithShrinkageTuning, ("pscore", "q")),
    "sgdr-tuned": (ope.SubGaussianDoublyRobustTuning, ("pscore", "q")),
    "naive-ipw": (ope.MultiLoggersNaiveInverseProbabilityWeighting, ("pscore",)),
    "balanced-ipw": (ope.MultiLoggersBalancedInverseProbabilityWeighting, ("pscore_avg",)),
    "weighted-ipw": (ope.MultiLoggersWeightedInverseProbabilityWeighting, ("pscore", "stratum")),
    "naive-dr": (ope.MultiLoggersNaiveDoublyRobust, ("pscore", "q")),
    "balanced-dr": (ope.MultiLoggersBalancedDoublyRobust, ("pscore_avg", "q")),
    "weighted-dr": (ope.MultiLoggersWeightedDoublyRobust, ("pscore", "q", "stratum")),
}
GENERAL = ["negative action", "large action", "float action", "distribution", "flat distribution", "reward length", "reward list"]
GENERAL += ["negative position", "large position", "no position", "position length"]
BY_NEED = {
    "pscore": ["pscore value", "pscore length", "pscore missing"],
    "pscore_avg": ["pscore_avg value", "pscore_avg length", "pscore_avg missing"],
    "q": ["q shape", "q missing"],
    "weights": ["weights value", "weights length", "weights missing"],
    "stratum": ["stratum negative", "stratum length", "stratum missing"],
}


def is_multi(name):
    return name.startswith(("naive", "balanced", "weighted"))


def faults(name):
    need = SINGLE[name][1]
    fs = list(GENERAL)
    for x in need:
        fs += BY_NEED[x]
    if any(x.startswith("pscore") for x in need):
        key = "est_" + [x for x in need if x.startswith("pscore")][0]
        fs += [key + " value", key + " missing"]
    if name == "dm":  # uses neither the logged actions nor the rewards
        fs = [f for f in fs if "action" not in f and "reward" not in f]
    return fs


KEY = {"est_pscore": "estimated_pscore", "est_pscore_avg": "estimated_pscore_avg"}


class Fixed:
    """The same inputs with one fixed choice of logged actions."""

    def __init__(self, ctx):
        self.ctx = ctx

    def __getattr__(self, a):
        return getattr(self.ctx, a)

    def ints(self, name, n, k):
        return np.arange(n) % k


def base(ctx, n, k, L):
    ctx = Fixed(ctx)
    d = Log(ctx, n, k, L, q=True, est_pscore=True, pos="none")
    kw = d.kw()
    kw["position"] = np.array([1, 0])
    kw["pscore_avg"] = ctx.reals("pscore_avg", n, lo=0, hi=1, lo_open=True)
    kw["estimated_pscore_avg"] = ctx.reals("est_pscore_avg", n, lo=0, hi=1, lo_open=True)
    kw["estimated_importance_weights"] = ctx.reals("iw", n, lo=0, lo_open=True)
    kw["stratum_idx"] = np.zeros(n, dtype=int)
    return kw


def spoil(ctx, kw, fault, n, k, L):
    """One argument malformed, at any row and with any offending value."""
    kw = dict(kw)
    i = ctx.choice("row", n)

    def poke(key, v):
        a = kw[key].copy()
        a[i] = v
        kw[key] = a

    if fault == "negative action":
        poke("action", -1)
    elif fault == "large action":
        poke("action", k)
    elif fault == "float action":
        kw["action"] = ctx.arr(kw["action"].astype(float))
    elif fault == "distribution":
        x = ctx.real("bad", lo=0, hi=2)
        pi = kw["action_dist"].copy()
        l, a = ctx.choice("slot", L), ctx.choice("item", k)
        ctx.assume(abs(x - pi[i, a, l]) > 1e-3)
        pi[i, a, l] = x
        kw["action_dist"] = pi
    elif fault == "flat distribution":
        kw["action_dist"] = kw["action_dist"][:, :, 0]
    elif fault == "reward length":
        kw["reward"] = kw["reward"][:-1]
    elif fault == "reward list":
        kw["reward"] = list(kw["reward"])
    elif fault == "negative position":
        poke("position", -1)
    elif fault == "large position":
        poke("position", L)
    elif fault == "no position":
        kw["position"] = None
    elif fault == "position length":
        kw["position"] = np.zeros(n + 1, dtype=int)
    elif fault == "q shape":
        kw["estimated_rewards_by_reg_model"] = kw["estimated_rewards_by_reg_model"][:, :, :1]
    elif fault == "q missing":
        kw["estimated_rewards_by_reg_model"] = None
    elif fault == "stratum negative":
        poke("stratum_idx", -1)
    elif fault == "stratum length":
        kw["stratum_idx"] = np.zeros(n + 1, dtype=int)
    elif fault == "stratum missing":
        kw["stratum_idx"] = None
    else:
        what, how = fault.split(" ")
        key = {"weights": "estimated_importance_weights"}.get(what, KEY.get(what, what))
        if how == "value":
            poke(key, ctx.real("bad", hi=0, hi_open=what == "weights", nice=(-2, 0)))
        elif how == "length":
            kw[key] = kw[key][:-1]
        else:
            kw[key] = None
    return kw


TUNED = {"lambdas": [1.0]}


def make(name, est_ps):
    cls, need = SINGLE[name]
    opts = {}
    if name.endswith("tuned"):
        opts = dict(lambdas=[1.0], tuning_method="slope")
    if est_ps:
        opts["use_estimated_pscore"] = True
    return cls(**opts)


@harness(cases=[dict(name=x, fault=f) for x in SINGLE for f in faults(x)])
def refused(ctx, name, fault):
    n, k, L = 2, 2, 2
    kw = spoil(ctx, base(ctx, n, k, L), fault, n, k, L)
    est = make(name, fault.startswith("est_"))
    ctx.raises("value", lambda: est.estimate_policy_value(**kw))
    est = make(name, fault.startswith("est_"))
    ctx.raises("interval", lambda: est.estimate_interval(**kw, alpha=0.1, n_bootstrap_samples=1, random_state=1))


CONT = {
    "ipw": ope.KernelizedInverseProbabilityWeighting,
    "snipw": ope.KernelizedSelfNormalizedInverseProbabilityWeighting,
    "dr": ope.KernelizedDoublyRobust,
}
CF = ["pscore value", "pscore length", "reward length", "logged length", "evaluation length", "reward list", "pscore missing"]


@harness(cases=[dict(name=x, fault=f) for x in CONT for f in CF + (["q length", "q missing"] if x == "dr" else [])])
def refused_continuous(ctx, name, fault):
    n = 2
    kw = dict(
        reward=ctx.reals("reward", n, nice=(-1, 1)),
        action_by_behavior_policy=ctx.reals("a", n, nice=(-1, 1)),
        action_by_evaluation_policy=ctx.reals("e", n, nice=(-1, 1)),
        pscore=ctx.reals("p", n, lo=0, lo_open=True, nice=(0.1, 2)),
    )
    if name == "dr":
        kw["estimated_rewards_by_reg_model"] = ctx.reals("q", n, nice=(-1, 1))
    what, how = fault.split(" ")
    key = {"logged": "action_by_behavior_policy", "evaluation": "action_by_evaluation_policy", "q": "estimated_rewards_by_reg_model"}.get(what, what)
    if how == "value":
        a = kw[key].copy()
        a[ctx.choice("row", n)] = ctx.real("bad", hi=0, nice=(-2, 0))
        kw[key] = a
    elif how == "length":
        kw[key] = kw[key][:-1]
    elif how == "missing":
        kw[key] = None
    else:
        kw[key] = list(kw[key])
    est = CONT[name](kernel="epanechnikov", bandwidth=1.0)
    ctx.raises("value", lambda: est.estimate_policy_value(**kw))
    ctx.raises("interval", lambda: est.estimate_interval(**kw, alpha=0.1, n_bootstrap_samples=1, random_state=1))


SLATE = {
    "sips": (ope.SlateStandardIPS, "pscore"),
    "iips": (ope.SlateIndependentIPS, "pscore_item_position"),
    "rips": (ope.SlateRewardInteractionIPS, "pscore_cascade"),
    "snsips": (ope.SelfNormalizedSlateStandardIPS, "pscore"),
    "sniips": (ope.SelfNormalizedSlateIndependentIPS, "pscore_item_position"),
    "snrips": (ope.SelfNormalizedSlateRewardInteractionIPS, "pscore_cascade"),
}
SF = ["logging low", "logging high", "evaluation low", "evaluation high", "duplicate", "negative position", "negative slate", "reward length", "slate length"]


@harness(
    cases=[dict(name=x, fault=f) for x in SLATE for f in SF + ([] if "iips" in x else ["logging order", "evaluation order"])]
)
def refused_slate(ctx, name, fault):
    """Two slots; probabilities of the rows equal (slate), any (item) or non-increasing (cascade)."""
    cls, key = SLATE[name]
    L, n = 2, 2
    sid, pos = np.array([0, 0]), np.array([0, 1])
    r = ctx.reals("reward", n, nice=(-1, 1))
    pb = ctx.arr([0.5, 0.5])
    pe = ctx.arr([0.25, 0.25])
    i = ctx.choice("row", n)
    if fault == "logging low":
        pb[i] = ctx.real("bad", hi=0, nice=(-2, 0))
    elif fault == "logging high":
        pb[i] = ctx.real("bad", lo=1, lo_open=True, nice=(1.001, 3))
    elif fault == "evaluation low":
        pe[i] = ctx.real("bad", hi=0, hi_open=True, nice=(-2, -0.001))
    elif fault == "evaluation high":
        pe[i] = ctx.real("bad", lo=1, lo_open=True, nice=(1.001, 3))
    elif fault == "duplicate":
        pos[:] = i
    elif fault == "negative position":
        pos[i] = -1
    elif fault == "negative slate":
        sid[i] = -1
    elif fault == "reward length":
        r = r[:-1]
    elif fault == "slate length":
        sid = np.array([0, 0, 1])
    else:
        x = ctx.reals("p", n, lo=0, hi=1, lo_open=True)
        ctx.assume(x[0] < x[1])
        if fault == "logging order":
            pb = x
        else:
            pe = x
    kw = {"slate_id": sid, "position": pos, "reward": r, "action": np.zeros(n, dtype=int), key: pb, "evaluation_policy_" + key: pe}
    est = cls(len_list=L)
    ctx.raises("value", lambda: est.estimate_policy_value(**kw))
    ctx.raises("interval", lambda: est.estimate_interval(**kw, alpha=0.1, n_bootstrap_samples=1, random_state=1))


# -- hyperparameters ---------------------------------------------------------------------

UNIT = ["sgipw", "sgdr"]
LAMBDA = ["ipw", "bipw", "switch", "dros", "dr", "naive-ipw", "balanced-ipw", "weighted-ipw", "naive-dr", "balanced-dr", "weighted-dr"] + UNIT


@harness(cases=product(name=LAMBDA))
def threshold(ctx, name):
    """Hyperparameters below zero (or above one for the sub-Gaussian family) are refused, others accepted."""
    lam = ctx.real("lam", nice=(-1, 2))
    cls = SINGLE[name][0]
    valid = (lam >= 0) & (lam <= 1) if name in UNIT else lam >= 0
    verdict(ctx, "hyperparameter", bool(valid), lambda: cls(lambda_=lam))
    ctx.raises("nan", lambda: cls(lambda_=float("nan")))


TUN = [x for x in SINGLE if x.endswith("tuned")]


@harness(cases=product(name=TUN))
def tuning(ctx, name):
    lam = ctx.real("lam", nice=(-1, 2))
    cls = SINGLE[name][0]
    unit = name.startswith("sg")
    valid = (lam >= 0) & (lam <= 1) if unit else lam >= 0
    i = ctx.choice("where", 2)
    ls = [0.5]
    ls.insert(i, lam)
    verdict(ctx, "candidates", bool(valid), lambda: cls(lambdas=ls))
    d = ctx.real("delta", nice=(-1, 2))
    if (d >= 0) & (d <= 1):
        ctx.accepts("delta", lambda: cls(lambdas=[0.5], delta=d))
    else:
        ctx.raises("delta", lambda: cls(lambdas=[0.5], delta=d))
    ctx.raises("no candidates", lambda: cls(lambdas=[]))
    ctx.raises("criterion", lambda: cls(lambdas=[0.5], tuning_method="other"))


@harness(cases=[{}])
def bandwidth(ctx):
    h = ctx.real("h", nice=(-1, 2))
    for cls in CONT.values():
        if h > 0:
            ctx.accepts("bandwidth", lambda: cls(kernel="gaussian", bandwidth=h))
        else:
            ctx.assume(h < 0)  # zero is not claimed
            ctx.raises("bandwidth", lambda: cls(kernel="gaussian", bandwidth=h))
        ctx.raises("kernel", lambda: cls(kernel="other", bandwidth=1.0))


@harness(cases=[{}])
def interval_arguments(ctx):
    """The level lies in [0, 1] and at least one resample is drawn."""
    from obp.utils import check_confidence_interval_arguments as chk

    a = ctx.real("alpha", nice=(-1, 2))
    b = ctx.choice("resamples", 3) - 1
    verdict(ctx, "interval", b >= 1 and bool((a >= 0) & (a <= 1)), lambda: chk(alpha=a, n_bootstrap_samples=b, random_state=1))


# -- arrays of a wrong kind ------------------------------------------------------------------

ANY = (ValueError, TypeError, AssertionError, IndexError, AttributeError)
ARG = {"pscore": "pscore", "pscore_avg": "pscore_avg", "q": "estimated_rewards_by_reg_model", "weights": "estimated_importance_weights", "stratum": "stratum_idx"}


def shaped(name):
    need = [ARG[x] for x in SINGLE[name][1]]
    extra = ["estimated_" + x for x in need if x.startswith("pscore")]
    return (["action_dist"] if name == "dm" else ["action", "reward", "action_dist"]) + ["position"] + need + extra


def misshapen(ctx, a, how):
    if how == "a list":
        return a.tolist()
    if how == "one dimension more":
        return a[..., np.newaxis]
    return a[..., 0]


@harness(cases=[dict(name=x, arg=a) for x in SINGLE for a in shaped(x)])
def wrong_kind(ctx, name, arg):
    kw = base(ctx, 2, 2, 2)
    how = ctx.pick("how", ["a list", "one dimension more"] + (["one dimension less"] if np.ndim(kw[arg]) > 1 else []))
    kw[arg] = misshapen(ctx, kw[arg], how)
    est = make(name, arg.startswith("estimated_pscore"))
    ctx.raises("value", lambda: est.estimate_policy_value(**kw), ANY)
    est = make(name, arg.startswith("estimated_pscore"))
    ctx.raises("interval", lambda: est.estimate_interval(**kw, alpha=0.1, n_bootstrap_samples=1, random_state=1), ANY)


@harness(cases=[dict(name=x, arg=a) for x in CONT for a in ["reward", "action_by_behavior_policy", "action_by_evaluation_policy", "pscore"] + (["estimated_rewards_by_reg_model"] if x == "dr" else [])])
def wrong_kind_continuous(ctx, name, arg):
    n = 2
    kw = dict(
        reward=ctx.reals("reward", n, nice=(-1, 1)), action_by_behavior_policy=ctx.reals("a", n, nice=(-1, 1)),
        action_by_evaluation_policy=ctx.reals("e", n, nice=(-1, 1)), pscore=ctx.reals("p", n, lo=0, lo_open=True, nice=(0.1, 2)),
    )
    if name == "dr":
        kw["estimated_rewards_by_reg_model"] = ctx.reals("q", n, nice=(-1, 1))
    kw[arg] = misshapen(ctx, kw[arg], ctx.pick("how", ["a list", "one dimension more"]))
    est = CONT[name](kernel="epanechnikov", bandwidth=1.0)
    ctx.raises("value", lambda: est.estimate_policy_value(**kw), ANY)
    ctx.raises("interval", lambda: est.estimate_interval(**kw, alpha=0.1, n_bootstrap_samples=1, random_state=1), ANY)


@harness(cases=[dict(name=x, arg=a) for x in SLATE for a in ["slate_id", "reward", "position", "logging", "evaluation"]] + [dict(name="cascade dr", arg=a) for a in ["slate_id", "reward", "position", "logging", "evaluation", "action", "q_hat", "evaluation_policy_action_dist"]])
def wrong_kind_slate(ctx, name, arg):
    n = 2
    cls, key = SLATE.get(name, (ope.SlateCascadeDoublyRobust, "pscore_cascade"))
    kw = {
        "slate_id": np.array([0, 0]), "position": np.array([0, 1]), "reward": ctx.reals("reward", n, nice=(-1, 1)), "action": np.array([0, 1]),
        key: ctx.arr([0.5, 0.5]), "evaluation_policy_" + key: ctx.arr([0.25, 0.25]),
    }
    opts = {}
    if name == "cascade dr":
        opts = dict(n_unique_action=2)
        kw["q_hat"] = ctx.reals("q", 2 * n, nice=(-1, 1))
        kw["evaluation_policy_action_dist"] = ctx.simplex("pi", (n, 2)).reshape(-1)
    how = ctx.pick("how", ["right", "a list", "one dimension more", "left out"])
    arg = {"logging": key, "evaluation": "evaluation_policy_" + key}.get(arg, arg)
    est = cls(len_list=2, **opts)
    value = lambda: est.estimate_policy_value(**kw)
    interval = lambda: est.estimate_interval(**kw, alpha=0.1, n_bootstrap_samples=1, random_state=1)
    if how == "right":
        ctx.accepts("value", value)
        ctx.accepts("interval", interval)
        return
    kw[arg] = None if how == "left out" else misshapen(ctx, kw[arg], how)
    ctx.raises("value", value, ANY)
    ctx.raises("interval", interval, ANY)


SLATE_VALIDATORS = {"sips": (check_sips_inputs, "pscore"), "iips": (check_iips_inputs, "pscore_item_position"), "rips": (check_rips_inputs, "pscore_cascade"), "cascade dr": (check_cascade_dr_inputs, "pscore_cascade")}


@harness(cases=[dict(kind=k, arg=a) for k in SLATE_VALIDATORS for a in ["slate_id", "reward", "position", "logging", "evaluation"] + (["action", "q_hat", "evaluation_policy_action_dist"] if k == "cascade dr" else [])])
def slate_lengths(ctx, kind, arg):
    """Rows of every argument match; the right ones are accepted."""
    fn, key = SLATE_VALIDATORS[kind]
    n = 2
    kw = {
        "slate_id": np.array([0, 0]), "position": np.array([0, 1]), "reward": ctx.reals("reward", n, nice=(-1, 1)),
        key: ctx.arr([0.5, 0.5]), "evaluation_policy_" + key: ctx.arr([0.25, 0.25]),
    }
    if kind == "cascade dr":
        kw.update(n_unique_action=2, action=np.array([0, 1]), q_hat=ctx.reals("q", 2 * n, nice=(-1, 1)), evaluation_policy_action_dist=ctx.simplex("pi", (n, 2)).reshape(-1))
    arg = {"logging": key, "evaluation": "evaluation_policy_" + key}.get(arg, arg)
    how = ctx.pick("how", ["right", "shorter", "longer", "fractions"])
    a = kw[arg]
    if how == "right":
        ctx.accepts("right", lambda: fn(**kw))
        return
    if how == "shorter":
        kw[arg] = a[:-1]
    elif how == "longer":
        kw[arg] = np.concatenate([a, a[-2:] if len(a) > n else a[-1:]])
    elif arg in ("slate_id", "position", "action"):
        kw[arg] = ctx.arr(a.astype(float))
    else:
        return
    ctx.raises(how, lambda: fn(**kw), ANY)
