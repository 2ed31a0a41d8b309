COMMON = """
import numpy as np

def log(n=6, k=3, L=1, seed=0):
    r = np.random.RandomState(seed)
    pi = r.dirichlet(np.ones(k), size=(n, L)).transpose(0, 2, 1)
    return dict(
        reward=r.normal(size=n),
        action=r.randint(k, size=n),
        pscore=r.uniform(0.2, 0.9, size=n),
        action_dist=pi,
        position=r.randint(L, size=n),
        estimated_rewards_by_reg_model=r.normal(size=(n, k, L)),
    )

def weights(d):
    i = np.arange(len(d["reward"]))
    return d["action_dist"][i, d["action"], d["position"]] / d["pscore"]

def close(a, b):
    assert np.allclose(a, b, rtol=1e-6, atol=1e-9), (a, b)
"""

seed("s01-replay-soft-match", "P01",
 [("obp/ope/estimators.py", "action_dist[np.arange(action.shape[0]), action, position] == 1\n", "action_dist[np.arange(action.shape[0]), action, position] > 0.5\n")],
 COMMON + """
from obp.ope import ReplayMethod
d = log(8, 2)
d["action_dist"][:, :, 0] = [0.7, 0.3]
d["action_dist"][0, :, 0] = [1.0, 0.0]
d["action"][:] = [0, 0, 1, 0, 1, 0, 0, 1]
close(ReplayMethod().estimate_policy_value(**d), d["reward"][0])
""", "a stochastic evaluation policy that prefers, but does not always take, a logged action",
 "the replay method also counts rounds in which the policy only probably takes the logged action")

seed("s02-switch-boundary", "P02",
 [("obp/ope/estimators.py", "        switch_indicator = np.array(iw <= self.lambda_, dtype=int)", "        switch_indicator = np.array(iw < self.lambda_, dtype=int)")],
 COMMON + """
from obp.ope import SwitchDoublyRobust, DirectMethod
d = log(4, 2)
d["action_dist"][:] = 0.5
d["pscore"][:] = 0.25
w = weights(d)
i = np.arange(4)
q = d["estimated_rewards_by_reg_model"][:, :, 0]
want = (0.5 * q.sum(1) + w * (d["reward"] - q[i, d["action"]])).mean()
close(SwitchDoublyRobust(lambda_=2.0).estimate_policy_value(**d), want)
""", "an importance weight that equals the switching threshold exactly",
 "Switch-DR discards rounds whose weight is exactly at the threshold")

seed("s03-dr-interval-pscore", "P06",
 [("obp/ope/estimators.py", """            reward=reward,
            action=action,
            position=position,
            pscore=pscore_,
            action_dist=action_dist,
            estimated_rewards_by_reg_model=estimated_rewards_by_reg_model,
        )
        return estimate_confidence_interval_by_bootstrap(""", """            reward=reward,
            action=action,
            position=position,
            pscore=pscore_ if pscore is None else pscore,
            action_dist=action_dist,
            estimated_rewards_by_reg_model=estimated_rewards_by_reg_model,
        )
        return estimate_confidence_interval_by_bootstrap(""")],
 COMMON + """
from obp.ope import DoublyRobust
d = log(40, 3)
e = np.clip(d["pscore"] * 0.5, 0.05, 1)
a = DoublyRobust(use_estimated_pscore=True).estimate_interval(**d, estimated_pscore=e, n_bootstrap_samples=20, random_state=1)
b = DoublyRobust().estimate_interval(**{**d, "pscore": e}, n_bootstrap_samples=20, random_state=1)
close(a["mean"], b["mean"])
""", "an interval requested with estimated propensities while the logged ones are also supplied",
 "the doubly robust interval is computed from the logged propensities although the estimated ones were requested")

seed("s04-slope-first-violation", "P04",
 [("obp/ope/estimators_tuning.py", "                if (np.abs(theta_j - theta_i) <= cnf_i + C * cnf_j).all():", "                if np.abs(theta_j[-1] - theta_i) <= cnf_i + C * cnf_j[-1]:")],
 COMMON + """
from scipy import stats
from obp.ope import InverseProbabilityWeightingTuning, InverseProbabilityWeighting

def slope(d, lams, delta):
    C = np.sqrt(6) - 1
    th, cn = [], []
    for l in lams:
        z = np.minimum(weights(d), l) * d["reward"]
        th.append(z.mean())
        cn.append(np.sqrt(z.var() / (len(z) - 1)) * stats.t(len(z) - 1).ppf(1 - delta))
    o = np.argsort(cn)[::-1]
    for t in range(1, len(o)):
        for j in o[:t]:
            if abs(th[o[t]] - th[j]) > cn[o[t]] + C * cn[j]:
                return th[o[t - 1]]
    return th[o[-1]]

lams = [0.05, 0.3, 0.6, 1.0, 1.5, 2.5, 4.0, 8.0]
bad = 0
for s in range(400):
    r = np.random.RandomState(s)
    d = log(6, 2, seed=s)
    d["reward"] = 1.0 + 0.2 * r.normal(size=6)
    got = InverseProbabilityWeightingTuning(lambdas=list(lams), tuning_method="slope", delta=0.3).estimate_policy_value(**d)
    want = slope(d, lams, 0.3)
    bad += not np.isclose(got, want)
assert bad == 0, bad
""", "a candidate that is consistent with its predecessor but not with an earlier, wider interval",
 "SLOPE compares a candidate only with the previous one, so it can accept an inconsistent candidate")

seed("s05-bts-batch-alias", "P22",
 [("obp/policy/contextfree.py", """            self.action_counts = np.copy(self.action_counts_temp)
            self.reward_counts = np.copy(self.reward_counts_temp)

    def compute_batch_action_dist(
        self,
        n_rounds: int = 1,
        n_sim""", """            self.action_counts = np.copy(self.action_counts_temp)
            self.reward_counts = self.reward_counts_temp

    def compute_batch_action_dist(
        self,
        n_rounds: int = 1,
        n_sim""")],
 """
import numpy as np
from obp.policy import BernoulliTS
p = BernoulliTS(n_actions=2, batch_size=2, random_state=1)
for a, r in [(0, 1), (1, 0), (0, 1)]:
    p.update_params(action=a, reward=r)
assert list(p.reward_counts) == [1, 0], p.reward_counts
""", "Bernoulli Thompson sampling with a batch size above one, part way through its second batch",
 "the policy acts on rewards of a batch that is not complete yet, together with stale counts")

seed("s06-delayed-context", "P25",
 [("obp/simulator/simulator.py", "available_context = self._contexts[available_round_idx]", "available_context = self.current_round.context")],
 """
import numpy as np
from obp.policy.policy_type import PolicyType
from obp.simulator.simulator import BanditPolicySimulator
from obp.simulator.simulator import BanditRound

class P:
    policy_type = PolicyType.CONTEXTUAL
    seen = []
    def select_action(self, context):
        return np.array([0])
    def update_params(self, action, reward, context):
        self.seen.append(float(context[0, 0]))

s = BanditPolicySimulator(policy=P(), environment=None)
for t in range(3):
    s.step(BanditRound(n_actions=2, context=np.array([[float(t)]]), action_context=np.eye(2), rewards=np.array([1, 0]),
                       expected_rewards=np.array([0.5, 0.5]), round_delays=np.array([1.0, 1.0])))
assert P.seen == [0.0, 1.0], P.seen
""", "a contextual policy whose rewards arrive with a delay",
 "a delayed reward is credited to the context of the round in which it arrives")

seed("s07-crossfit-pscore", "P13",
 [("obp/ope/regression_model.py", "                pscore=pscore[train_idx],\n                position=position[train_idx],\n                action_dist=action_dist_tr,", "                position=position[train_idx],\n                action_dist=action_dist_tr,")],
 """
import numpy as np
from sklearn.linear_model import LinearRegression
from sklearn.model_selection import KFold
from obp.ope import RegressionModel
r = np.random.RandomState(0)
n, k = 12, 2
c, a, y = r.normal(size=(n, 2)), r.randint(k, size=n), r.normal(size=n)
p, pi = r.uniform(0.1, 0.9, size=n), r.dirichlet(np.ones(k), size=n)[:, :, None]
got = RegressionModel(n_actions=k, base_model=LinearRegression(), fitting_method="iw").fit_predict(c, a, y, pscore=p, action_dist=pi, n_folds=2, random_state=3)
for tr, te in KFold(2, shuffle=True, random_state=3).split(c):
    m = LinearRegression().fit(np.c_[c[tr], np.eye(k)[a[tr]]], y[tr], sample_weight=pi[tr, a[tr], 0] / p[tr])
    for b in range(k):
        want = m.predict(np.c_[c[te], np.tile(np.eye(k)[b], (len(te), 1))])
        assert np.allclose(got[te, b, 0], want), (got[te, b, 0], want)
""", "cross-fitting of an importance-weighted regression model with non-uniform propensities",
 "the models of the folds are weighted as if the logging policy had been uniform")

seed("s08-log-not-sorted", "P21",
 [("obp/dataset/real.py", """        self.data.sort_values("timestamp", inplace=True)
""", """        self.data.sort_values("timestamp")
""")],
 """
import tempfile, pathlib
import numpy as np
from obp.dataset import OpenBanditDataset
with tempfile.TemporaryDirectory() as t:
    d = pathlib.Path(t) / "random" / "all"
    d.mkdir(parents=True)
    rows = [(3, 2, 1, 0.3), (1, 0, 0, 0.1), (2, 1, 1, 0.2)]
    with open(d / "all.csv", "w") as f:
        f.write(",timestamp,item_id,position,click,propensity_score,user_feature_0\\n")
        for i, (ts, item, y, p) in enumerate(rows):
            f.write(f"{i},2019-11-0{ts} 00:00:00,{item},{i + 1},{y},{p},u{i}\\n")
    with open(d / "item_context.csv", "w") as f:
        f.write(",item_id,item_feature_0,item_feature_1\\n")
        for i in range(3):
            f.write(f"{i},{i},0.{i},x{i}\\n")
    b = OpenBanditDataset(behavior_policy="random", campaign="all", data_path=pathlib.Path(t)).obtain_batch_bandit_feedback()
    assert list(b["action"]) == [0, 1, 2], b["action"]
""", "a log file whose rows are not in the order of their timestamps",
 "the rounds keep the order of the file, so a time-series split trains on the future")

seed("s09-cascade-dr-slate-start", "P09",
 [("obp/ope/estimators_slate.py", "iw_prev[np.array([i * self.len_list for i in range(self.n_rounds_)])] = 1", "iw_prev[:: self.n_unique_action] = 1")],
 """
import numpy as np
from obp.ope import SlateCascadeDoublyRobust
r = np.random.RandomState(0)
S, L, K = 4, 2, 3
sid, pos = np.repeat(np.arange(S), L), np.tile(np.arange(L), S)
a, y = r.randint(K, size=S * L), r.normal(size=S * L)
pb = np.cumprod(r.uniform(0.2, 0.9, size=(S, L)), 1)
pe = np.cumprod(r.uniform(0.2, 0.9, size=(S, L)), 1)
q, d = r.normal(size=(S, L, K)), r.dirichlet(np.ones(K), size=(S, L))
want = 0
for s in range(S):
    for l in range(L):
        w = pe[s, l] / pb[s, l]
        v = pe[s, l - 1] / pb[s, l - 1] if l else 1.0
        want += w * (y[s * L + l] - q[s, l, a[s * L + l]]) + v * (d[s, l] * q[s, l]).sum()
got = SlateCascadeDoublyRobust(len_list=L, n_unique_action=K).estimate_policy_value(
    slate_id=sid, action=a, reward=y, position=pos, pscore_cascade=pb.ravel(), evaluation_policy_pscore_cascade=pe.ravel(),
    q_hat=q.ravel(), evaluation_policy_action_dist=d.ravel())
assert np.isclose(got, want / S), (got, want / S)
""", "slates whose length differs from the number of unique actions",
 "the cascade doubly robust estimator carries a weight over from one slate into another")

seed("s10-snipw-shift", "P28",
 [("obp/policy/offline.py", "estimated_policy_grad_arr = iw * (reward - self.lambda_)", "estimated_policy_grad_arr = iw * reward - self.lambda_")],
 """
import torch
from obp.policy import NNPolicyLearner
m = NNPolicyLearner(n_actions=2, dim_context=1, off_policy_objective="snipw", lambda_=0.5)
pi = torch.tensor([[[0.3], [0.7]]], requires_grad=True)
g = m._estimate_policy_gradient(context=torch.zeros(1, 1), action=torch.tensor([1]), reward=torch.tensor([1.0]),
                                pscore=torch.tensor([0.2]), action_dist=pi, position=torch.tensor([0]))
want = (0.7 / 0.2) * (1.0 - 0.5) * torch.log(torch.tensor(0.7))
assert torch.allclose(g[0], want), (g, want)
""", "the self-normalised objective with a non-zero shift of the reward",
 "the shift is not weighted, so the learner climbs a different objective")

seed("s11-kernel-dr-in-place", "P29",
 [("obp/ope/estimators_continuous.py", """        u = action_by_evaluation_policy - action_by_behavior_policy
        u /= self.bandwidth
        estimated_rewards = (
            kernel_func(u) * (reward - estimated_rewards_by_reg_model) / pscore
        )
""", """        u = action_by_evaluation_policy - action_by_behavior_policy
        u /= self.bandwidth
        estimated_rewards = reward
        estimated_rewards -= estimated_rewards_by_reg_model
        estimated_rewards = kernel_func(u) * estimated_rewards / pscore
""")],
 """
import numpy as np
from obp.ope import KernelizedDoublyRobust
r = np.random.RandomState(0)
n = 6
d = dict(reward=r.normal(size=n), action_by_behavior_policy=r.normal(size=n), pscore=r.uniform(0.2, 1, size=n),
         action_by_evaluation_policy=r.normal(size=n), estimated_rewards_by_reg_model=r.normal(size=n))
y = d["reward"].copy()
e = KernelizedDoublyRobust(kernel="gaussian", bandwidth=0.5)
a = e.estimate_policy_value(**d)
b = e.estimate_policy_value(**d)
assert np.array_equal(d["reward"], y) and np.isclose(a, b), (a, b)
""", "the same log evaluated a second time by the kernelized doubly robust estimator",
 "the estimator subtracts the predictions from the caller's rewards, so later evaluations of the log are wrong")

seed("s12-softmax-global-max", "P15",
 [("obp/utils.py", "    b = np.max(x, axis=1)[:, np.newaxis]\n", "    b = np.max(x)\n")],
 """
import numpy as np
from obp.utils import softmax
x = np.array([[0.0, 1.0], [2000.0, 2001.0]])
want = np.array([[1 / (1 + np.e), np.e / (1 + np.e)]] * 2)
assert np.allclose(softmax(x), want), softmax(x)
""", "rounds whose scores are far apart from those of another round",
 "the probabilities of a round depend on the scores of the other rounds and become nan")

seed("s13-position-at-length", "P31",
 [("obp/ope/regression_model.py", """            if position.max() >= self.len_list:
                raise ValueError(
                    f"`position` elements must be smaller than `len_list`, but the maximum value is {position.max()} (>= {self.len_list})"
                )
        if self.fitting_method in ["iw", "mrdr"]:
            if not (isinstance(action_dist, np.ndarray) and action_dist.ndim == 3):
                raise ValueError(
                    "when `fitting_method` is either 'iw' or 'mrdr', `action_dist` (a 3-dimensional ndarray) must be given"
                )
            if action_dist.shape != (n, ""","""            if position.max() > self.len_list:
                raise ValueError(
                    f"`position` elements must be smaller than `len_list`, but the maximum value is {position.max()} (>= {self.len_list})"
                )
        if self.fitting_method in ["iw", "mrdr"]:
            if not (isinstance(action_dist, np.ndarray) and action_dist.ndim == 3):
                raise ValueError(
                    "when `fitting_method` is either 'iw' or 'mrdr', `action_dist` (a 3-dimensional ndarray) must be given"
                )
            if action_dist.shape != (n, """)],
 """
import numpy as np
from sklearn.linear_model import LinearRegression
from obp.ope import RegressionModel
m = RegressionModel(n_actions=2, len_list=2, base_model=LinearRegression())
try:
    m.fit(np.arange(6.0).reshape(6, 1), np.array([0, 1, 0, 1, 0, 1]), np.arange(6.0), position=np.array([0, 1, 0, 1, 2, 2]))
except ValueError:
    pass
else:
    raise SystemExit("a position outside the list was accepted")
""", "a position equal to the length of the list",
 "a log with a position outside the list is trained on as if those rounds did not exist")

seed("s14-drift-resume", "P26",
 [("obp/simulator/coefficient_drifter.py", "transition_steps = transition_steps[-shift_start:]", "transition_steps = transition_steps[: self.available_rounds]")],
 """
import numpy as np
from obp.simulator.coefficient_drifter import CoefficientDrifter
def coefs(batches):
    d = CoefficientDrifter(drift_interval=6, transition_period=4, effective_dim_action_context=2, effective_dim_context=2, random_state=3)
    return np.concatenate([d.get_coefficients(n_rounds=b)[0] for b in batches])
assert np.allclose(coefs([12]), coefs([4, 8])), "the schedule depends on the batches"
""", "a batch that ends inside a transition, followed by another one",
 "the transition starts over at the next request, so the schedule depends on how the rounds are requested")

seed("s15-bernstein-n", "P05",
 [("obp/ope/helper.py", "ci2 = sqrt(2 * log(2.0 / delta) * var(x) / (n - 1))", "ci2 = sqrt(2 * log(2.0 / delta) * var(x) / n)")],
 """
import numpy as np
from obp.ope.helper import estimate_bernstein_lower_bound
x = np.array([0.0, 1.0, 0.5])
n, d = 3, 0.1
want = x.mean() - 7 * 1.0 * np.log(2 / d) / (3 * (n - 1)) - np.sqrt(2 * np.log(2 / d) * x.var() / (n - 1))
got = estimate_bernstein_lower_bound(x, x_max=1.0, delta=d)
assert np.isclose(got, want), (got, want)
""", "a small sample",
 "the Bernstein bound uses the biased variance, so it is too high and its coverage is not guaranteed")

seed("s16-relative-behavior-value", "P12",
 [("obp/ope/meta_multi.py", """        policy_value_of_behavior_policy = self.bandit_feedback["reward"].mean()
        policy_value_df = policy_value_df.T
        if policy_value_of_behavior_policy <= 0:""", """        policy_value_of_behavior_policy = self.bandit_feedback["reward"].sum()
        policy_value_of_behavior_policy /= np.count_nonzero(self.bandit_feedback["pscore"] < 1)
        policy_value_df = policy_value_df.T
        if policy_value_of_behavior_policy <= 0:""")],
 COMMON + """
from obp.ope import MultiLoggersOffPolicyEvaluation, MultiLoggersNaiveInverseProbabilityWeighting
d = log(6, 2)
d["pscore"][:2] = 1.0
d["reward"] = np.abs(d["reward"])
b = dict(reward=d["reward"], action=d["action"], position=None, pscore=d["pscore"], pscore_avg=d["pscore"], stratum_idx=np.array([0, 0, 0, 1, 1, 1]))
e = MultiLoggersNaiveInverseProbabilityWeighting()
df, _ = MultiLoggersOffPolicyEvaluation(bandit_feedback=b, ope_estimators=[e]).summarize_off_policy_estimates(action_dist=d["action_dist"], random_state=1)
row = df.loc[e.estimator_name]
close(row["relative_estimated_policy_value"], row["estimated_policy_value"] / d["reward"].mean())
""", "a log with rounds taken by a deterministic logger",
 "the value of the behavior policy leaves out rounds, so relative policy values are wrong")

seed("s17-linucb-pending", "P23",
 [("obp/policy/linear.py", "np.sqrt(context @ self.A_inv[i] @ context.T)", "np.sqrt(context @ self.A_inv_temp[i] @ context.T)")],
 """
import numpy as np
from obp.policy import LinUCB
p = LinUCB(dim=1, n_actions=2, batch_size=3, epsilon=1.0, random_state=1)
x = np.ones((1, 1))
for a in (0, 1, 1):
    p.update_params(action=a, reward=0.0, context=x)
assert p.select_action(x)[0] == 0
for _ in range(2):
    p.update_params(action=0, reward=0.0, context=x)
assert p.select_action(x)[0] == 0, "rounds of an unfinished batch were used"
""", "a batch size above one and a choice in the middle of a batch",
 "the confidence width already uses the rounds of the unfinished batch")

seed("s18-balanced-clip", "P07",
 [("obp/ope/estimators_multi.py", "        iw_avg = action_dist[np.arange(action.shape[0]), action, position] / pscore_avg\n        # weight clipping\n        if isinstance(iw_avg, np.ndarray):\n            iw_avg = np.minimum(iw_avg, self.lambda_)\n        return reward * iw_avg\n", "        pi_e = action_dist[np.arange(action.shape[0]), action, position]\n        # weight clipping\n        iw_avg = pi_e / np.maximum(pscore_avg, 1.0 / self.lambda_)\n        return reward * iw_avg\n")],
 COMMON + """
from obp.ope import MultiLoggersBalancedInverseProbabilityWeighting as B
d = log(8, 3)
d["pscore_avg"] = d.pop("pscore") * 0.2
w = d["action_dist"][np.arange(8), d["action"], d["position"]] / d["pscore_avg"]
close(B(lambda_=2.0).estimate_policy_value(**d), (np.minimum(w, 2.0) * d["reward"]).mean())
""", "a finite clipping threshold and an evaluation policy that is not deterministic",
 "the balanced estimator clips the propensities instead of the weights")

seed("s19-qlearner-batch-rank", "P27",
 [("obp/policy/offline.py", "        q_hat_argmax = np.argmax(q_hat, axis=1).astype(int)\n", "        q_hat_argmax = np.argmax(q_hat.mean(2), axis=1).astype(int)\n        q_hat_argmax = np.tile(q_hat_argmax, (self.len_list, 1)).T\n")],
 """
import numpy as np
from sklearn.linear_model import LinearRegression
from obp.policy import QLearner
r = np.random.RandomState(0)
n, k, L = 200, 3, 2
c, a, pos = r.normal(size=(n, 1)), r.randint(k, size=n), r.randint(L, size=n)
y = np.where(pos == 0, a == 0, a == 2) * 1.0
m = QLearner(n_actions=k, len_list=L, base_model=LinearRegression())
m.fit(c, a, y, position=pos)
d = m.predict(c[:5])
assert (d[:, 0, 0] == 1).all() and (d[:, 2, 1] == 1).all(), d[0]
""", "positions whose best actions differ",
 "the Q-learner recommends one action for all positions instead of the best one of each position")

seed("s20-deficient-softmax", "P16",
 [("obp/dataset/synthetic.py", """            pi_b[supported_actions_idx] = softmax(
                self.beta * pi_b_logits[supported_actions_idx]
            )""", """            pi_b[supported_actions_idx] = softmax(self.beta * pi_b_logits)[
                supported_actions_idx
            ]
            pi_b /= np.maximum(pi_b.sum(1, keepdims=True), 0.5)""")],
 """
import numpy as np
from obp.dataset import SyntheticBanditDataset
def logits(context, action_context, random_state):
    return np.tile(np.array([0.0, 0.0, 0.0, 5.0]), (context.shape[0], 1))
d = SyntheticBanditDataset(n_actions=4, dim_context=1, n_deficient_actions=2, beta=0.1, behavior_policy_function=logits, random_state=1)
b = d.obtain_batch_bandit_feedback(n_rounds=50)
assert np.allclose(b["pi_b"].sum(1), 1), b["pi_b"].sum(1).ravel()
""", "deficient actions that would hold more than half of the probability",
 "the behavior policy and the propensities do not sum to one")

seed("s21-logistic-stale-curvature", "P24",
 [("obp/policy/logistic.py", """        P = (1 + np.exp(-X.dot(self._m))) ** (-1)
        self._q = self._q + (P * (1 - P)).dot(X**2)
""", """        self._q = self._q + (P * (1 - P)).dot(X**2)
"""), ("obp/policy/logistic.py", """        self._m = minimize(
            self.loss,""", """        P = (1 + np.exp(-X.dot(self._m))) ** (-1)
        self._m = minimize(
            self.loss,""")],
 """
import numpy as np
from obp.policy import LogisticUCB
p = LogisticUCB(dim=2, n_actions=2, batch_size=2, epsilon=1.0, random_state=1)
x = np.array([[1.0, 2.0]])
for _ in range(2):
    p.update_params(action=0, reward=1, context=x)
m = p.model_list[0]._m
s = 1 / (1 + np.exp(-(x[0] @ m)))
assert np.allclose(p.model_list[0]._q, 1.0 + 2 * s * (1 - s) * x[0] ** 2), p.model_list[0]._q
""", "a completed batch whose coefficients moved away from the previous ones",
 "the curvature added to the posterior precision is taken at the coefficients before the refit")

seed("s22-truncated-density-limits", "P19",
 [("obp/dataset/synthetic_continuous.py", """                action, a, b, loc=expected_action_values, scale=self.action_noise
""", """                action,
                np.minimum(a, -3.0),
                np.maximum(b, 3.0),
                loc=expected_action_values,
                scale=self.action_noise,
""")],
 """
import numpy as np
from scipy.stats import truncnorm
from obp.dataset import SyntheticContinuousBanditDataset
f = lambda context, random_state=None: 0.3 * context[:, 0]
d = SyntheticContinuousBanditDataset(dim_context=2, action_noise=1.0, min_action_value=-1.0, max_action_value=1.0, behavior_policy_function=f, random_state=3)
b = d.obtain_batch_bandit_feedback(n_rounds=5)
m = f(b["context"])
assert np.allclose(b["pscore"], truncnorm.pdf(b["action"], -1.0 - m, 1.0 - m, loc=m, scale=1.0))
""", "action limits closer than three standard deviations to the expected action",
 "reported densities forget the truncation at close limits")

seed("s23-uniform-logger", "P17",
 [("obp/dataset/synthetic_multi.py", "            [np.ones(n_k) * self.betas[k] for k, n_k in enumerate(n_rounds_strata)]\n", "            [\n                np.ones(n_k) * (self.betas[k] or 1.0)\n                for k, n_k in enumerate(n_rounds_strata)\n            ]\n")],
 """
import numpy as np
from obp.dataset import SyntheticMultiLoggersBanditDataset
d = SyntheticMultiLoggersBanditDataset(n_actions=3, dim_context=2, betas=[0, 2], rhos=[0.5, 0.5], random_state=3)
b = d.obtain_batch_bandit_feedback(n_rounds=8)
assert np.allclose(b["pi_b"][b["stratum_idx"] == 0], 1 / 3), b["pi_b"]
""", "a logger with temperature zero",
 "a uniform logger logs with temperature one")

seed("s24-sampled-rows", "P14",
 [("obp/ope/classification_model.py", """                sampled_action_at_position = sample_action_fast(
                    action_dist=action_dist[idx][:, :, pos_],
                    random_state=random_state,
                )
                sampled_action[idx] = sampled_action_at_position

        for pos_""", """                sampled_action_at_position = sample_action_fast(
                    action_dist=action_dist[: idx.sum(), :, pos_],
                    random_state=random_state,
                )
                sampled_action[idx] = sampled_action_at_position

        for pos_""")],
 """
import numpy as np
from sklearn.linear_model import LogisticRegression
from obp.ope import ImportanceWeightEstimator

class Keep(LogisticRegression):
    def fit(self, X, y):
        Keep.seen.append((X.copy(), y.copy()))
        return super().fit(X, y)

Keep.seen = []
n, k = 6, 3
pi = np.zeros((n, k, 2))
want = np.array([0, 1, 2, 0, 1, 2])
pi[np.arange(n), want, :] = 1.0
pos = np.array([0, 1, 0, 1, 0, 1])
x = np.arange(n, dtype=float)[:, None]
e = ImportanceWeightEstimator(base_model=Keep(), n_actions=k, len_list=2, calibration_cv=1)
e.fit(context=x, action=np.zeros(n, dtype=int), action_dist=pi, position=pos, random_state=1)
for p in range(2):
    X, y = Keep.seen[p]
    got = X[y == 1]
    assert np.allclose(got[:, 0], x[pos == p, 0])
    assert (got[:, 1:].argmax(1) == want[pos == p]).all(), got
""", "several positions and a policy that differs between rounds",
 "the evaluation policy's actions of a position are sampled from the distributions of other rounds")

seed("s25-alternative-label-zero", "P20",
 [("obp/dataset/multiclass.py", "        return action_dist[np.arange(self.n_rounds_ev), self.y_ev].mean()", "        supported = self.y_ev < action_dist[:, :, 0].argmax(axis=1).max() + 1\n        return action_dist[np.arange(self.n_rounds_ev), self.y_ev][supported].mean()")],
 """
import numpy as np
from sklearn.linear_model import LogisticRegression
from obp.dataset import MultiClassToBanditReduction
r = np.random.RandomState(0)
d = MultiClassToBanditReduction(X=r.normal(size=(30, 2)), y=np.arange(30) % 3, base_classifier_b=LogisticRegression(), alpha_b=0.5)
d.split_train_eval(eval_size=10, random_state=0)
pi = np.zeros((10, 3, 1))
pi[:, 0] = 0.7
pi[:, 1] = 0.3
assert np.isclose(d.calc_ground_truth_policy_value(pi), pi[np.arange(10), d.y_ev, 0].mean())
""", "an evaluation policy that never prefers the last class",
 "rounds of classes that the policy never prefers are left out of the ground truth")

seed("s26-slate-last-slot-set", "P18",
 [("obp/dataset/synthetic_slate.py", """                if not self.is_factorizable and pos_ != self.len_list - 1:
                    unique_action_set = np.delete(
                        unique_action_set, unique_action_set == action_
                    )
""", """                if not self.is_factorizable and pos_ != self.len_list - 1:
                    unique_action_set = np.delete(
                        np.arange(self.n_unique_action),
                        action[i * self.len_list + max(pos_ - 1, 0) :][
                            : min(pos_ + 1, 2)
                        ],
                    )
""")],
 """
import numpy as np
from obp.dataset import SyntheticSlateBanditDataset
d = SyntheticSlateBanditDataset(n_unique_action=5, len_list=4, dim_context=2, reward_type="binary", random_state=3)
logit = np.array([[0.3, -0.2, 0.9, 0.1, 0.5]])
a = np.array([4, 0, 2, 1])
p, _, c = d.obtain_pscore_given_evaluation_policy_logit(action=a, evaluation_policy_logit_=logit, return_pscore_item_position=False)
w, rest, q = [], list(range(5)), 1.0
for x in a:
    q *= np.exp(logit[0, x]) / np.exp(logit[0, rest]).sum()
    rest.remove(x)
    w.append(q)
assert np.allclose(c, w), (c, w)
""", "slates of at least four slots",
 "evaluation propensities forget the items shown more than two slots earlier")

seed("s27-embed-unseen-action", "P10",
 [("obp/ope/estimators_embed.py", "        w_x_a = np.where(w_x_a < np.inf, w_x_a, 0)\n", "        w_x_a = np.nan_to_num(w_x_a, posinf=w_x_a[w_x_a < np.inf].max())\n")],
 """
import numpy as np
from sklearn.base import BaseEstimator, ClassifierMixin
from obp.ope import MarginalizedInverseProbabilityWeighting

class Flat(BaseEstimator, ClassifierMixin):
    def fit(self, X, y):
        self.k = len(np.unique(y))
        return self
    def predict_proba(self, X):
        return np.ones((len(X), self.k)) / self.k

n = 4
a = np.array([0, 1, 2, 0])
pi_b = np.tile(np.array([0.5, 0.3, 0.2])[None, :, None], (n, 1, 1))
pi_b[3, :, 0] = [0.6, 0.0, 0.4]
pi_e = np.tile(np.array([0.2, 0.6, 0.2])[None, :, None], (n, 1, 1))
r = np.array([1.0, 2.0, 3.0, 4.0])
w = np.where(pi_b > 0, pi_e / np.where(pi_b > 0, pi_b, 1), 0)[:, :, 0]
got = MarginalizedInverseProbabilityWeighting(n_actions=3, pi_a_x_e_estimator=Flat()).estimate_policy_value(
    reward=r, action=a, action_embed=np.array([[0], [1], [0], [1]]), pi_b=pi_b, action_dist=pi_e, context=np.ones((n, 1)))
assert np.isclose(got, (r * w.mean(1)).mean()), (got, (r * w.mean(1)).mean())
""", "a logging policy that never takes some action in some round",
 "actions without support get the largest weight instead of none")

seed("s28-kernel-normaliser", "P08",
 [("obp/ope/estimators_continuous.py", "        estimated_rewards /= (kernel_func(u) / pscore).mean()\n", "        weight = kernel_func(u) / pscore\n        estimated_rewards /= weight[weight > 0].mean()\n")],
 """
import numpy as np
from obp.ope import KernelizedSelfNormalizedInverseProbabilityWeighting as K
r = np.array([1.0, 1.0, 1.0, 1.0])
a = np.array([0.0, 0.5, 3.0, 0.2])
e = np.array([0.1, 0.4, 0.0, 0.3])
got = K(kernel="triangular", bandwidth=1.0).estimate_policy_value(reward=r, action_by_behavior_policy=a, pscore=np.full(4, 0.4), action_by_evaluation_policy=e)
assert np.isclose(got, 1.0), got
""", "a round whose actions lie more than one bandwidth apart",
 "self-normalized kernel estimates are no longer averages of the rewards")

seed("s29-clip-keeps-order", "P03",
 [("obp/ope/estimators.py", "        return (reward * iw) / iw.mean()", "        return (reward * iw) / max(iw.mean(), 1e-2)")],
 COMMON + """
from obp.ope import SelfNormalizedInverseProbabilityWeighting as S
d = log(5, 3)
d["action_dist"][:, :, 0] = [0.9985, 0.001, 0.0005]
d["action"][:] = [1, 2, 1, 2, 1]
w = weights(d)
close(S().estimate_policy_value(**d), (w * d["reward"]).sum() / w.sum())
""", "a policy that hardly ever takes the logged actions, so that the average weight is below one percent",
 "self-normalized estimates leave the range of the rewards when the weights are tiny")

seed("s30-zero-precision", "P30",
 [("obp/policy/logistic.py", """        if self.lambda_ <= 0.0:""", """        if self.lambda_ < 0.0:""")],
 """
from obp.policy import LogisticTS
try:
    LogisticTS(dim=2, n_actions=2, lambda_=0.0, random_state=1)
except ValueError:
    pass
else:
    raise SystemExit("accepted a prior without precision")
""", "a prior precision of exactly zero",
 "a logistic policy without a proper prior is accepted")

seed("s31-slate-evaluation-pscore", "P11",
 [("obp/utils.py", """    if np.any(evaluation_policy_pscore < 0) or np.any(evaluation_policy_pscore > 1):""", """    if evaluation_policy_pscore.min() * evaluation_policy_pscore.max() < 0 or np.any(
        evaluation_policy_pscore > 1
    ):""")],
 """
import numpy as np
from obp.ope import SlateIndependentIPS
try:
    SlateIndependentIPS(len_list=2).estimate_policy_value(slate_id=np.array([0, 0]), reward=np.array([1.0, 0.0]), position=np.array([0, 1]),
        pscore_item_position=np.array([0.5, 0.5]), evaluation_policy_pscore_item_position=np.array([-0.5, -0.25]))
except ValueError:
    pass
else:
    raise SystemExit("accepted negative probabilities")
""", "evaluation propensities that are all negative",
 "negative evaluation probabilities are accepted when none is positive")
