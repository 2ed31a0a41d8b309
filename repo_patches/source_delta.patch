From 960335971fbb3be82bd1acf69c2a62321e1b889d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:59:08 +0000
Subject: [PATCH 01/43] fix: balanced multi-logger estimators raise TypeError
 in estimate_interval

---
 obp/ope/estimators_multi.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/obp/ope/estimators_multi.py b/obp/ope/estimators_multi.py
index f5765f9..338b3c3 100644
--- a/obp/ope/estimators_multi.py
+++ b/obp/ope/estimators_multi.py
@@ -569,7 +569,7 @@ class MultiLoggersBalancedInverseProbabilityWeighting(
             reward=reward,
             action=action,
             position=position,
-            pscore=pscore_,
+            pscore_avg=pscore_,
             action_dist=action_dist,
         )
         return estimate_confidence_interval_by_bootstrap(
@@ -1473,7 +1473,7 @@ class MultiLoggersBalancedDoublyRobust(BaseMultiLoggersOffPolicyEstimator):
             reward=reward,
             action=action,
             position=position,
-            pscore=pscore_,
+            pscore_avg=pscore_,
             estimated_rewards_by_reg_model=estimated_rewards_by_reg_model,
             action_dist=action_dist,
         )
-- 
2.43.0


From 4342056f34b7e5889d8d65844ae5a0f1f58efb43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:59:08 +0000
Subject: [PATCH 02/43] fix: weighted multi-logger estimators fail when stratum
 indices are not 0..K-1

---
 obp/ope/estimators_multi.py | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/obp/ope/estimators_multi.py b/obp/ope/estimators_multi.py
index 338b3c3..3c11bd1 100644
--- a/obp/ope/estimators_multi.py
+++ b/obp/ope/estimators_multi.py
@@ -683,14 +683,16 @@ class MultiLoggersWeightedInverseProbabilityWeighting(
         if isinstance(iw, np.ndarray):
             iw = np.minimum(iw, self.lambda_)
 
-        unique_stratum_idx, n_data_strata = np.unique(stratum_idx, return_counts=True)
+        unique_stratum_idx, inverse_stratum_idx, n_data_strata = np.unique(
+            stratum_idx, return_inverse=True, return_counts=True
+        )
         var_k = np.zeros(unique_stratum_idx.shape[0])
-        for k in unique_stratum_idx:
-            idx_ = stratum_idx == k
+        for k in np.arange(unique_stratum_idx.shape[0]):
+            idx_ = inverse_stratum_idx == k
             var_k[k] = np.var(reward[idx_] * iw[idx_])
         weight_k = n / (var_k * np.sum(n_data_strata / var_k))
 
-        return reward * iw * weight_k[stratum_idx]
+        return reward * iw * weight_k[inverse_stratum_idx]
 
     def estimate_policy_value(
         self,
@@ -1600,16 +1602,18 @@ class MultiLoggersWeightedDoublyRobust(MultiLoggersNaiveDoublyRobust):
             axis=1,
         )
 
-        unique_stratum_idx, n_data_strata = np.unique(stratum_idx, return_counts=True)
+        unique_stratum_idx, inverse_stratum_idx, n_data_strata = np.unique(
+            stratum_idx, return_inverse=True, return_counts=True
+        )
         var_k = np.zeros(unique_stratum_idx.shape[0])
-        for k in unique_stratum_idx:
-            idx_ = stratum_idx == k
+        for k in np.arange(unique_stratum_idx.shape[0]):
+            idx_ = inverse_stratum_idx == k
             var_k[k] = np.var(
                 estimated_rewards[idx_]
                 + iw[idx_] * (reward[idx_] - q_hat_factual[idx_])
             )
         weight_k = n / (var_k * np.sum(n_data_strata / var_k))
-        estimated_rewards += iw * (reward - q_hat_factual) * weight_k[stratum_idx]
+        estimated_rewards += iw * (reward - q_hat_factual) * weight_k[inverse_stratum_idx]
 
         return estimated_rewards
 
-- 
2.43.0


From f44dc4d2d344c943396647239054cfdb7b717fc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:59:08 +0000
Subject: [PATCH 03/43] fix: embedding selection drops the last accepted
 candidate

---
 obp/ope/estimators_embed.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/obp/ope/estimators_embed.py b/obp/ope/estimators_embed.py
index e9b38ee..fc28c52 100644
--- a/obp/ope/estimators_embed.py
+++ b/obp/ope/estimators_embed.py
@@ -383,9 +383,9 @@ class MarginalizedInverseProbabilityWeighting(BaseOffPolicyEstimator):
                 if (np.abs(theta_j - theta_i) <= cnf_i + C * cnf_j).all():
                     theta_list.append(theta_i), cnf_list.append(cnf_i)
                 else:
-                    return theta_j[-1]
+                    return theta_list[-1]
 
-        return theta_j[-1]
+        return theta_list[-1]
 
     def _estimate_with_greedy_pruning(
         self,
@@ -469,11 +469,11 @@ class MarginalizedInverseProbabilityWeighting(BaseOffPolicyEstimator):
                 if (np.abs(theta_j - theta_i) <= cnf_i + C * cnf_j).all():
                     theta_list.append(theta_i), cnf_list.append(cnf_i)
                 else:
-                    return theta_j[-1]
+                    return theta_list[-1]
             idx_without_d = np.where(current_feat != excluded_dim, True, False)
             current_feat = current_feat[idx_without_d]
 
-        return theta_j[-1]
+        return theta_list[-1]
 
     def estimate_interval(
         self,
-- 
2.43.0


From 58aa110f305775869d685c225f8d293384522865 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:59:08 +0000
Subject: [PATCH 04/43] fix: self-normalized MIPW is not normalized when
 embedding selection is used

---
 obp/ope/estimators_embed.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/obp/ope/estimators_embed.py b/obp/ope/estimators_embed.py
index fc28c52..be1fb45 100644
--- a/obp/ope/estimators_embed.py
+++ b/obp/ope/estimators_embed.py
@@ -709,7 +709,7 @@ class SelfNormalizedMarginalizedInverseProbabilityWeighting(
             self.max_w_x_e = w_x_e.max()
 
         if with_dev:
-            r_hat = reward * w_x_e
+            r_hat = reward * w_x_e / w_x_e.mean()
             cnf = np.sqrt(np.var(r_hat) / (n - 1))
             cnf *= stats.t.ppf(1.0 - (self.delta / 2), n - 1)
 
-- 
2.43.0


From 391a0c03b02a36db69ee7db6c3a28651213a9e68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:59:08 +0000
Subject: [PATCH 05/43] fix: self-normalized slate estimators truncate to int
 with integer pscores

---
 obp/ope/estimators_slate.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/obp/ope/estimators_slate.py b/obp/ope/estimators_slate.py
index a369d96..686e19b 100644
--- a/obp/ope/estimators_slate.py
+++ b/obp/ope/estimators_slate.py
@@ -950,8 +950,8 @@ class BaseSlateSelfNormalizedInverseProbabilityWeighting(
             Self-Normalized rewards estimated for each slate and slot (position).
 
         """
-        estimated_rewards = np.zeros_like(behavior_policy_pscore)
-        iw = np.zeros_like(behavior_policy_pscore)
+        estimated_rewards = np.zeros_like(behavior_policy_pscore, dtype=float)
+        iw = np.zeros_like(behavior_policy_pscore, dtype=float)
         for pos_ in range(self.len_list):
             idx = position == pos_
             iw[idx] = evaluation_policy_pscore[idx] / behavior_policy_pscore[idx]
@@ -1028,7 +1028,7 @@ class SelfNormalizedSlateStandardIPS(
             Rewards estimated by the SNSIPS estimator for each slate and slot (position).
 
         """
-        estimated_rewards = np.zeros_like(behavior_policy_pscore)
+        estimated_rewards = np.zeros_like(behavior_policy_pscore, dtype=float)
         iw = evaluation_policy_pscore / behavior_policy_pscore
         estimated_rewards = reward * iw / iw.mean()
         return estimated_rewards
-- 
2.43.0


From e6a819bbec43faaa0246359f90898eb8c8259145 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:59:08 +0000
Subject: [PATCH 06/43] fix: p_e_a given as an array makes the evaluation class
 fail with an unbound name

---
 obp/ope/meta.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/obp/ope/meta.py b/obp/ope/meta.py
index 6eff8bf..0d445db 100644
--- a/obp/ope/meta.py
+++ b/obp/ope/meta.py
@@ -184,9 +184,9 @@ class OffPolicyEvaluation:
                             f"Expected `{var_name}.shape[0] == action_dist.shape[0]`, but found it False"
                         )
                 else:
-                    if value.shape[0] != action_dist.shape[1]:
+                    if value_or_dict.shape[0] != action_dist.shape[1]:
                         raise ValueError(
-                            f"Expected `{var_name}[{estimator_name}].shape[0] == action_dist.shape[1]`, but found it False"
+                            f"Expected `{var_name}.shape[0] == action_dist.shape[1]`, but found it False"
                         )
 
         estimator_inputs = {
-- 
2.43.0


From 4c67fccbc07f8661fcd9f88ce6a61876b06b7dd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:59:08 +0000
Subject: [PATCH 07/43] fix: z-score of the synthetic reward functions is not a
 z-score

---
 obp/dataset/synthetic.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/obp/dataset/synthetic.py b/obp/dataset/synthetic.py
index f1f0232..c784374 100644
--- a/obp/dataset/synthetic.py
+++ b/obp/dataset/synthetic.py
@@ -824,8 +824,8 @@ def _base_reward_function(
     expected_rewards = context_values + action_values + context_action_values
     if z_score:
         expected_rewards = (
-            expected_rewards - expected_rewards.mean() / expected_rewards.std()
-        )
+            expected_rewards - expected_rewards.mean()
+        ) / expected_rewards.std()
 
     expected_rewards = degree * expected_rewards
 
-- 
2.43.0


From df69f9906b7bcba8b2096d3721aca38e73ed028f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:59:08 +0000
Subject: [PATCH 08/43] fix: multi-class reduction uses raw labels instead of
 re-indexed actions for rewards

---
 obp/dataset/multiclass.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/obp/dataset/multiclass.py b/obp/dataset/multiclass.py
index 1341d6b..95c50b5 100644
--- a/obp/dataset/multiclass.py
+++ b/obp/dataset/multiclass.py
@@ -183,7 +183,7 @@ class MultiClassToBanditReduction(BaseBanditDataset):
         self.y = (rankdata(y, "dense") - 1).astype(int)  # re-index actions
         # fully observed labels (full bandit feedback)
         self.y_full = np.zeros((self.n_rounds, self.n_actions))
-        self.y_full[np.arange(self.n_rounds), y] = 1
+        self.y_full[np.arange(self.n_rounds), self.y] = 1
 
     @property
     def len_list(self) -> int:
-- 
2.43.0


From f84a4bdcdf04a6f5f22f6b63a143d563bb930062 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:59:08 +0000
Subject: [PATCH 09/43] fix: QLearner cannot be trained with importance
 weighted fitting methods

---
 obp/policy/offline.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/obp/policy/offline.py b/obp/policy/offline.py
index 21041ac..6e4e512 100644
--- a/obp/policy/offline.py
+++ b/obp/policy/offline.py
@@ -440,7 +440,9 @@ class QLearner(BaseOfflinePolicyLearner):
             if position is None:
                 raise ValueError("When `self.len_list > 1`, `position` must be given.")
 
-        unif_action_dist = np.ones((context.shape[0], self.n_actions, self.len_list))
+        unif_action_dist = (
+            np.ones((context.shape[0], self.n_actions, self.len_list)) / self.n_actions
+        )
         self.q_estimator.fit(
             context=context,
             action=action,
-- 
2.43.0


From 2f9839b5da09adac8e82f514819ed21c2b6f887f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:59:08 +0000
Subject: [PATCH 10/43] fix: importance weight and pscore estimators ignore all
 data in predict when position is None

---
 obp/ope/classification_model.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/obp/ope/classification_model.py b/obp/ope/classification_model.py
index b2c307c..aea21c6 100644
--- a/obp/ope/classification_model.py
+++ b/obp/ope/classification_model.py
@@ -203,6 +203,8 @@ class ImportanceWeightEstimator(BaseEstimator):
             Importance weights estimated via supervised classification, i.e., :math:`\\hat{w}(x_t, a_t)`.
 
         """
+        if position is None or self.len_list == 1:
+            position = np.zeros_like(action)
         proba_eval_policy = np.zeros(action.shape[0])
         for pos_ in np.arange(self.len_list):
             idx = position == pos_
@@ -521,6 +523,8 @@ class PropensityScoreEstimator(BaseEstimator):
             Estimated propensity scores, i.e., :math:`\\hat{\\pi}_b (a \\mid x)`.
 
         """
+        if position is None or self.len_list == 1:
+            position = np.zeros_like(action)
         estimated_pscore = np.zeros(action.shape[0])
         for pos_ in np.arange(self.len_list):
             idx = position == pos_
-- 
2.43.0


From 5edd483685af8453311d3038d6857cb9b5d78cae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:59:08 +0000
Subject: [PATCH 11/43] fix: optimal and anti-optimal slate evaluation policies
 are swapped

---
 obp/dataset/synthetic_slate.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/obp/dataset/synthetic_slate.py b/obp/dataset/synthetic_slate.py
index a7d369c..270620e 100644
--- a/obp/dataset/synthetic_slate.py
+++ b/obp/dataset/synthetic_slate.py
@@ -1124,12 +1124,12 @@ class SyntheticSlateBanditDataset(BaseBanditDataset):
                 epsilon, name="epsilon", target_type=(float), min_val=0.0, max_val=1.0
             )
             if evaluation_policy_type == "optimal":
-                sorted_actions = base_expected_reward.argsort(axis=1)[
+                sorted_actions = base_expected_reward.argsort(axis=1)[:, ::-1][
                     :, : self.len_list
                 ]
             else:
                 sorted_actions = base_expected_reward.argsort(axis=1)[
-                    :, -self.len_list :
+                    :, : self.len_list
                 ]
             (
                 pscore,
-- 
2.43.0


From 5f3be01fceb50497293ace9bc2c22a63bc8be23a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:59:08 +0000
Subject: [PATCH 12/43] fix: slate reward function uses the context of another
 round

---
 obp/dataset/synthetic_slate.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/obp/dataset/synthetic_slate.py b/obp/dataset/synthetic_slate.py
index 270620e..586624d 100644
--- a/obp/dataset/synthetic_slate.py
+++ b/obp/dataset/synthetic_slate.py
@@ -1427,7 +1427,7 @@ def action_interaction_reward_function(
         action = np.tile(action, n_rounds)
     # action_2d: array-like, shape (n_rounds (* len(enumerated_action_list)), len_list)
     action_2d = action.reshape((-1, len_list)).astype("int8")
-    n_enumerated_slate_actions = len(action) // n_rounds
+    n_enumerated_slate_actions = len(action_2d) // n_rounds
     # expected_reward: array-like, shape (n_rounds, n_unique_action)
     expected_reward = base_reward_function(
         context=context, action_context=action_context, random_state=random_state
-- 
2.43.0


From 53ebb9de8aebedd723c401a33199c2636db1e142 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:59:08 +0000
Subject: [PATCH 13/43] fix: slate ground truth value grows with the number of
 rounds for context-free rewards

---
 obp/dataset/synthetic_slate.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/obp/dataset/synthetic_slate.py b/obp/dataset/synthetic_slate.py
index 586624d..b8ff3cb 100644
--- a/obp/dataset/synthetic_slate.py
+++ b/obp/dataset/synthetic_slate.py
@@ -961,7 +961,9 @@ class SyntheticSlateBanditDataset(BaseBanditDataset):
                     for pos_ in np.arange(self.len_list)
                 ]
             ).T
-            policy_value = (pscores * expected_slate_rewards.sum(axis=1)).sum()
+            policy_value = (
+                pscores * expected_slate_rewards.sum(axis=1)
+            ).sum() / n_rounds
         else:
             n_batch = (
                 n_rounds * n_enumerated_slate_actions * self.len_list - 1
-- 
2.43.0


From 8fa2ad2c8885db15a3ae63c152d63d9f6ac70e4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:59:08 +0000
Subject: [PATCH 14/43] fix: initialize does not reset the parameters of linear
 bandit policies

---
 obp/policy/linear.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/obp/policy/linear.py b/obp/policy/linear.py
index 8cf4f87..162029f 100644
--- a/obp/policy/linear.py
+++ b/obp/policy/linear.py
@@ -41,6 +41,11 @@ class BaseLinPolicy(BaseContextualPolicy):
     def __post_init__(self) -> None:
         """Initialize class."""
         super().__post_init__()
+        self.initialize()
+
+    def initialize(self) -> None:
+        """Initialize policy parameters."""
+        super().initialize()
         self.theta_hat = np.zeros((self.dim, self.n_actions))
         self.A_inv = np.concatenate(
             [np.identity(self.dim) for _ in np.arange(self.n_actions)]
-- 
2.43.0


From 68ddae4e0dcd489270bad367d005aa054af6dabb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:59:08 +0000
Subject: [PATCH 15/43] fix: initialize does not reset the models of logistic
 bandit policies

---
 obp/policy/logistic.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/obp/policy/logistic.py b/obp/policy/logistic.py
index c13f72b..06bbb98 100644
--- a/obp/policy/logistic.py
+++ b/obp/policy/logistic.py
@@ -57,7 +57,11 @@ class BaseLogisticPolicy(BaseContextualPolicy):
         check_scalar(self.lambda_, "lambda_", float)
         if self.lambda_ <= 0.0:
             raise ValueError(f"`lambda_`= {self.lambda_}, must be > 0.0.")
+        self.initialize()
 
+    def initialize(self) -> None:
+        """Initialize policy parameters."""
+        super().initialize()
         self.alpha_list = self.alpha_ * np.ones(self.n_actions)
         self.lambda_list = self.lambda_ * np.ones(self.n_actions)
         self.model_list = [
-- 
2.43.0


From 4e547df5a18ecbb4fc3cab351c7e99c5e19d4eed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:59:08 +0000
Subject: [PATCH 16/43] fix: spurious constant in the precision update of
 online logistic regression

---
 obp/policy/logistic.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/obp/policy/logistic.py b/obp/policy/logistic.py
index 06bbb98..0489de3 100644
--- a/obp/policy/logistic.py
+++ b/obp/policy/logistic.py
@@ -350,7 +350,7 @@ class MiniBatchLogisticRegression:
             method="L-BFGS-B",
             options={"maxiter": 20, "disp": False},
         ).x
-        P = (1 + np.exp(1 + X.dot(self._m))) ** (-1)
+        P = (1 + np.exp(-X.dot(self._m))) ** (-1)
         self._q = self._q + (P * (1 - P)).dot(X**2)
 
     def sd(self) -> np.ndarray:
-- 
2.43.0


From 288c85c87624960871b3a70637e3f85b3f0b2f09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:59:08 +0000
Subject: [PATCH 17/43] fix: online logistic regression ignores zero rewards

---
 obp/policy/logistic.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/obp/policy/logistic.py b/obp/policy/logistic.py
index 0489de3..51784ad 100644
--- a/obp/policy/logistic.py
+++ b/obp/policy/logistic.py
@@ -342,10 +342,11 @@ class MiniBatchLogisticRegression:
 
     def fit(self, X: np.ndarray, y: np.ndarray):
         """Update coefficient vector by the mini-batch data."""
+        # `loss` and `grad` are defined for labels in {-1, 1}, rewards are in {0, 1}
         self._m = minimize(
             self.loss,
             self._m,
-            args=(X, y),
+            args=(X, 2 * y - 1),
             jac=self.grad,
             method="L-BFGS-B",
             options={"maxiter": 20, "disp": False},
-- 
2.43.0


From 12395d783ba2fe791dce0d8500c2893cbab4d096 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:01:38 +0000
Subject: [PATCH 18/43] fix: bandit simulator cannot step contextual policies
 on rounds drawn from the environment

---
 obp/simulator/simulator.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/obp/simulator/simulator.py b/obp/simulator/simulator.py
index 6f27b4d..12404b6 100755
--- a/obp/simulator/simulator.py
+++ b/obp/simulator/simulator.py
@@ -372,7 +372,7 @@ class BanditPolicySimulator:
             selected_action = self.policy.select_action()[0]
         elif self.policy.policy_type == PolicyType.CONTEXTUAL:
             selected_action = self.policy.select_action(
-                np.expand_dims(self.current_round.context, axis=0)
+                np.atleast_2d(self.current_round.context)
             )[0]
         else:
             raise RuntimeError(
@@ -426,7 +426,7 @@ class BanditPolicySimulator:
             self.policy.update_params(
                 action=action,
                 reward=reward,
-                context=np.expand_dims(context, axis=0),
+                context=np.atleast_2d(context),
             )
 
 
-- 
2.43.0


From 5ff3141d4e4b9a06b6a51309dfdbf1e686f50686 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:01:38 +0000
Subject: [PATCH 19/43] fix: ground truth simulation fails on logged data
 without positions

---
 obp/simulator/simulator.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/obp/simulator/simulator.py b/obp/simulator/simulator.py
index 12404b6..499a781 100755
--- a/obp/simulator/simulator.py
+++ b/obp/simulator/simulator.py
@@ -475,13 +475,16 @@ def calc_ground_truth_policy_value(
         position=bandit_feedback["position"],
     )
 
+    position = bandit_feedback["position"]
+    if position is None:
+        position = np.zeros_like(bandit_feedback["action"], dtype=int)
     cumulative_reward = 0.0
     dim_context = bandit_feedback["context"].shape[1]
 
     for _ in tqdm(np.arange(n_sim), total=n_sim):
         policy_ = deepcopy(policy)
         for position_, context_, expected_reward_ in zip(
-            bandit_feedback["position"],
+            position,
             bandit_feedback["context"],
             bandit_feedback["expected_reward"],
         ):
-- 
2.43.0


From ef528b63d9acb3b8f6044071c77ecbf57a426a93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:01:38 +0000
Subject: [PATCH 20/43] fix: replay overwrites the position of the given logged
 data

---
 obp/simulator/replay.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/obp/simulator/replay.py b/obp/simulator/replay.py
index dd8fc53..e807532 100644
--- a/obp/simulator/replay.py
+++ b/obp/simulator/replay.py
@@ -42,15 +42,14 @@ def run_bandit_replay(
     policy_ = policy
     selected_actions_list = list()
     dim_context = bandit_feedback["context"].shape[1]
-    if bandit_feedback["position"] is None:
-        bandit_feedback["position"] = np.zeros_like(
-            bandit_feedback["action"], dtype=int
-        )
+    position = bandit_feedback["position"]
+    if position is None:
+        position = np.zeros_like(bandit_feedback["action"], dtype=int)
     for action_, reward_, position_, context_ in tqdm(
         zip(
             bandit_feedback["action"],
             bandit_feedback["reward"],
-            bandit_feedback["position"],
+            position,
             bandit_feedback["context"],
         ),
         total=bandit_feedback["n_rounds"],
-- 
2.43.0


From 30af0aa1b100684cd417e33d28f9580432b92971 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:01:38 +0000
Subject: [PATCH 21/43] fix: replay fails when the policy chooses an action
 beyond the logged ones

---
 obp/simulator/replay.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/obp/simulator/replay.py b/obp/simulator/replay.py
index e807532..7b80634 100644
--- a/obp/simulator/replay.py
+++ b/obp/simulator/replay.py
@@ -75,7 +75,7 @@ def run_bandit_replay(
         selected_actions_list.append(selected_actions)
 
     action_dist = convert_to_action_dist(
-        n_actions=bandit_feedback["action"].max() + 1,
+        n_actions=max(policy_.n_actions, bandit_feedback["action"].max() + 1),
         selected_actions=np.array(selected_actions_list),
     )
     return action_dist
-- 
2.43.0


From 1fb9d2b7317c827f06b9747c90c4d73c1464ce40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:01:38 +0000
Subject: [PATCH 22/43] fix: continuous synthetic rewards do not have the
 reported expected reward

---
 obp/dataset/synthetic.py       | 5 ++---
 obp/dataset/synthetic_multi.py | 5 ++---
 2 files changed, 4 insertions(+), 6 deletions(-)

diff --git a/obp/dataset/synthetic.py b/obp/dataset/synthetic.py
index c784374..de5d014 100644
--- a/obp/dataset/synthetic.py
+++ b/obp/dataset/synthetic.py
@@ -326,10 +326,9 @@ class SyntheticBanditDataset(BaseBanditDataset):
         contexts = self.random_.normal(size=(n_rounds, self.dim_context))
 
         # calc expected reward given context and action
-        expected_reward_ = self.calc_expected_reward(contexts)
+        expected_reward_ = mean = self.calc_expected_reward(contexts)
         if RewardType(self.reward_type) == RewardType.CONTINUOUS:
             # correct expected_reward_, as we use truncated normal distribution here
-            mean = expected_reward_
             a = (self.reward_min - mean) / self.reward_std
             b = (self.reward_max - mean) / self.reward_std
             expected_reward_ = truncnorm.stats(
@@ -365,7 +364,7 @@ class SyntheticBanditDataset(BaseBanditDataset):
         actions = sample_action_fast(pi_b, random_state=self.random_state)
 
         # sample rewards based on the context and action
-        rewards = self.sample_reward_given_expected_reward(expected_reward_, actions)
+        rewards = self.sample_reward_given_expected_reward(mean, actions)
 
         return dict(
             n_rounds=n_rounds,
diff --git a/obp/dataset/synthetic_multi.py b/obp/dataset/synthetic_multi.py
index 1bf3f8a..7f8aaa8 100644
--- a/obp/dataset/synthetic_multi.py
+++ b/obp/dataset/synthetic_multi.py
@@ -269,10 +269,9 @@ class SyntheticMultiLoggersBanditDataset(SyntheticBanditDataset):
         )[:, np.newaxis]
 
         # calc expected reward given context and action
-        expected_reward_ = self.calc_expected_reward(contexts)
+        expected_reward_ = mean = self.calc_expected_reward(contexts)
         if RewardType(self.reward_type) == RewardType.CONTINUOUS:
             # correct expected_reward_, as we use truncated normal distribution here
-            mean = expected_reward_
             a = (self.reward_min - mean) / self.reward_std
             b = (self.reward_max - mean) / self.reward_std
             expected_reward_ = truncnorm.stats(
@@ -305,7 +304,7 @@ class SyntheticMultiLoggersBanditDataset(SyntheticBanditDataset):
             pi_b_avg += rho * softmax(beta * pi_b_logits)
 
         # sample rewards based on the context and action
-        rewards = self.sample_reward_given_expected_reward(expected_reward_, actions)
+        rewards = self.sample_reward_given_expected_reward(mean, actions)
 
         return dict(
             n_rounds=n_rounds,
-- 
2.43.0


From f289dd78184666f6d830473f945e631e2cea1680 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:02:10 +0000
Subject: [PATCH 23/43] fix: multi-logger data with deficient actions ignores
 the loggers' own parameters

---
 obp/dataset/synthetic_multi.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/obp/dataset/synthetic_multi.py b/obp/dataset/synthetic_multi.py
index 7f8aaa8..0144ef7 100644
--- a/obp/dataset/synthetic_multi.py
+++ b/obp/dataset/synthetic_multi.py
@@ -292,7 +292,7 @@ class SyntheticMultiLoggersBanditDataset(SyntheticBanditDataset):
                 supported_actions,
             )
             pi_b[supported_actions_idx] = softmax(
-                self.beta * pi_b_logits[supported_actions_idx]
+                beta_ * pi_b_logits[supported_actions_idx]
             )
         else:
             pi_b = softmax(beta_ * pi_b_logits)
@@ -301,7 +301,12 @@ class SyntheticMultiLoggersBanditDataset(SyntheticBanditDataset):
 
         pi_b_avg = np.zeros_like(pi_b_logits)
         for beta, rho in zip(self.betas, self.rhos):
-            pi_b_avg += rho * softmax(beta * pi_b_logits)
+            if self.n_deficient_actions > 0:
+                pi_b_avg[supported_actions_idx] += rho * softmax(
+                    beta * pi_b_logits[supported_actions_idx]
+                )
+            else:
+                pi_b_avg += rho * softmax(beta * pi_b_logits)
 
         # sample rewards based on the context and action
         rewards = self.sample_reward_given_expected_reward(mean, actions)
-- 
2.43.0


From 6d4b4369088ef4e90b89af90c933c9560ca8568d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:02:10 +0000
Subject: [PATCH 24/43] fix: multi-logger data generation fails when rounded
 stratum sizes exceed the data size

---
 obp/dataset/synthetic_multi.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/obp/dataset/synthetic_multi.py b/obp/dataset/synthetic_multi.py
index 0144ef7..9507a11 100644
--- a/obp/dataset/synthetic_multi.py
+++ b/obp/dataset/synthetic_multi.py
@@ -259,8 +259,8 @@ class SyntheticMultiLoggersBanditDataset(SyntheticBanditDataset):
         check_scalar(n_rounds, "n_rounds", int, min_val=1)
         contexts = self.random_.normal(size=(n_rounds, self.dim_context))
 
-        n_rounds_strata = [int(np.round(n_rounds * rho)) for rho in self.rhos]
-        n_rounds_strata[-1] += n_rounds - np.sum(n_rounds_strata)
+        strata_bounds = np.round(n_rounds * np.cumsum(self.rhos)).astype(int)
+        n_rounds_strata = np.diff(strata_bounds, prepend=0)
         stratum_idx = np.concatenate(
             [np.ones(n_k, dtype=int) * k for k, n_k in enumerate(n_rounds_strata)]
         )
-- 
2.43.0


From 55b97b012908cfd9e452f1a08d6cbc8370f149a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:02:10 +0000
Subject: [PATCH 25/43] fix: continuous synthetic reward noise is driven by the
 draws that choose the actions

---
 obp/dataset/synthetic.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/obp/dataset/synthetic.py b/obp/dataset/synthetic.py
index de5d014..4578ebe 100644
--- a/obp/dataset/synthetic.py
+++ b/obp/dataset/synthetic.py
@@ -271,7 +271,7 @@ class SyntheticBanditDataset(BaseBanditDataset):
                 b=b,
                 loc=mean,
                 scale=self.reward_std,
-                random_state=self.random_state,
+                random_state=self.random_,
             )
         else:
             raise NotImplementedError
-- 
2.43.0


From 4317aa7f01715161505396497715f19e2cfe805e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:02:10 +0000
Subject: [PATCH 26/43] fix: continuous slate reward noise is identical at all
 slots

---
 obp/dataset/synthetic_slate.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/obp/dataset/synthetic_slate.py b/obp/dataset/synthetic_slate.py
index b8ff3cb..85bf438 100644
--- a/obp/dataset/synthetic_slate.py
+++ b/obp/dataset/synthetic_slate.py
@@ -719,7 +719,7 @@ class SyntheticSlateBanditDataset(BaseBanditDataset):
                     b=b,
                     loc=mean,
                     scale=self.reward_std,
-                    random_state=self.random_state,
+                    random_state=self.random_,
                 )
         else:
             raise NotImplementedError
-- 
2.43.0


From 6e9a668a941691d652bec4cd430e523abd0c0c7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:27:39 +0000
Subject: [PATCH 27/43] fix: shrinkage estimators return nan for zero
 importance weights at the boundary of lambda

---
 obp/ope/estimators.py | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/obp/ope/estimators.py b/obp/ope/estimators.py
index 58ee77b..6a20c7c 100644
--- a/obp/ope/estimators.py
+++ b/obp/ope/estimators.py
@@ -1668,7 +1668,7 @@ class DoublyRobustWithShrinkage(DoublyRobust):
         n = action.shape[0]
         iw = action_dist[np.arange(n), action, position] / pscore
         if self.lambda_ < np.inf:
-            iw_hat = (self.lambda_ * iw) / (iw**2 + self.lambda_)
+            iw_hat = (self.lambda_ * iw) / np.where(iw > 0, iw**2 + self.lambda_, 1.0)
         else:
             iw_hat = iw
 
@@ -1751,7 +1751,7 @@ class DoublyRobustWithShrinkage(DoublyRobust):
         # estimate the (high probability) upper bound of the bias of DRos
         iw = action_dist[np.arange(n), action, position] / pscore
         if self.lambda_ < np.inf:
-            iw_hat = (self.lambda_ * iw) / (iw**2 + self.lambda_)
+            iw_hat = (self.lambda_ * iw) / np.where(iw > 0, iw**2 + self.lambda_, 1.0)
         else:
             iw_hat = iw
         if use_bias_upper_bound:
@@ -1868,7 +1868,8 @@ class SubGaussianInverseProbabilityWeighting(InverseProbabilityWeighting):
 
         """
         iw = action_dist[np.arange(action.shape[0]), action, position] / pscore
-        iw_hat = iw / (1 - self.lambda_ + self.lambda_ * iw)
+        denominator = 1 - self.lambda_ + self.lambda_ * iw
+        iw_hat = iw / np.where(iw > 0, denominator, 1.0)
         estimated_rewards = iw_hat * reward
 
         return estimated_rewards
@@ -1937,7 +1938,8 @@ class SubGaussianInverseProbabilityWeighting(InverseProbabilityWeighting):
 
         # estimate the (high probability) upper bound of the bias of SGIPW
         iw = action_dist[np.arange(n), action, position] / pscore
-        iw_hat = iw / (1 - self.lambda_ + self.lambda_ * iw)
+        denominator = 1 - self.lambda_ + self.lambda_ * iw
+        iw_hat = iw / np.where(iw > 0, denominator, 1.0)
         if use_bias_upper_bound:
             bias_term = estimate_high_probability_upper_bound_bias(
                 reward=reward,
@@ -2057,7 +2059,8 @@ class SubGaussianDoublyRobust(DoublyRobust):
         """
         n = action.shape[0]
         iw = action_dist[np.arange(n), action, position] / pscore
-        iw_hat = iw / (1 - self.lambda_ + self.lambda_ * iw)
+        denominator = 1 - self.lambda_ + self.lambda_ * iw
+        iw_hat = iw / np.where(iw > 0, denominator, 1.0)
 
         q_hat_at_position = estimated_rewards_by_reg_model[np.arange(n), :, position]
         q_hat_factual = estimated_rewards_by_reg_model[np.arange(n), action, position]
@@ -2137,7 +2140,8 @@ class SubGaussianDoublyRobust(DoublyRobust):
 
         # estimate the (high probability) upper bound of the bias of SGDR
         iw = action_dist[np.arange(n), action, position] / pscore
-        iw_hat = iw / (1 - self.lambda_ + self.lambda_ * iw)
+        denominator = 1 - self.lambda_ + self.lambda_ * iw
+        iw_hat = iw / np.where(iw > 0, denominator, 1.0)
         if use_bias_upper_bound:
             bias_term = estimate_high_probability_upper_bound_bias(
                 reward=reward,
-- 
2.43.0


From f8fe7d44df2970a76e2cb1f2d7c0e159d068a43b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:34:16 +0000
Subject: [PATCH 28/43] fix: sub-Gaussian tuning estimators ignore estimated
 pscores

---
 obp/ope/estimators_tuning.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/obp/ope/estimators_tuning.py b/obp/ope/estimators_tuning.py
index 2c31cea..e9add54 100644
--- a/obp/ope/estimators_tuning.py
+++ b/obp/ope/estimators_tuning.py
@@ -1355,6 +1355,7 @@ class SubGaussianInverseProbabilityWeightingTuning(BaseOffPolicyEstimatorTuning)
             action=action,
             position=position,
             pscore=pscore_,
+            estimated_pscore=estimated_pscore,
             action_dist=action_dist,
         )
 
@@ -1435,6 +1436,7 @@ class SubGaussianInverseProbabilityWeightingTuning(BaseOffPolicyEstimatorTuning)
             action=action,
             position=position,
             pscore=pscore_,
+            estimated_pscore=estimated_pscore,
             action_dist=action_dist,
             alpha=alpha,
             n_bootstrap_samples=n_bootstrap_samples,
@@ -1564,6 +1566,7 @@ class SubGaussianDoublyRobustTuning(BaseOffPolicyEstimatorTuning):
             action=action,
             position=position,
             pscore=pscore_,
+            estimated_pscore=estimated_pscore,
             action_dist=action_dist,
             estimated_rewards_by_reg_model=estimated_rewards_by_reg_model,
         )
@@ -1655,6 +1658,7 @@ class SubGaussianDoublyRobustTuning(BaseOffPolicyEstimatorTuning):
             action=action,
             position=position,
             pscore=pscore_,
+            estimated_pscore=estimated_pscore,
             action_dist=action_dist,
             estimated_rewards_by_reg_model=estimated_rewards_by_reg_model,
             alpha=alpha,
-- 
2.43.0


From 92d2fa1554f023d1b52351fb9b391ac450cc68d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:13:30 +0000
Subject: [PATCH 29/43] fix: true marginal importance weights factorize over
 embedding dimensions

The probability of a multi-dimensional action embedding under a policy is the
policy-weighted mixture of the per-action embedding probabilities, not the
product of the per-dimension mixtures.
---
 obp/ope/estimators_embed.py | 22 ++++++++++------------
 1 file changed, 10 insertions(+), 12 deletions(-)

diff --git a/obp/ope/estimators_embed.py b/obp/ope/estimators_embed.py
index be1fb45..f170212 100644
--- a/obp/ope/estimators_embed.py
+++ b/obp/ope/estimators_embed.py
@@ -163,13 +163,12 @@ class MarginalizedInverseProbabilityWeighting(BaseOffPolicyEstimator):
         """
         n = reward.shape[0]
         if p_e_a is not None:
-            p_e_pi_b = np.ones(n)
-            p_e_pi_e = np.ones(n)
+            # probability of the whole embedding given each action
+            p_e_given_a = np.ones((n, p_e_a.shape[0]))
             for d in np.arange(p_e_a.shape[-1]):
-                p_e_pi_b_d = pi_b[np.arange(n), :, position] @ p_e_a[:, :, d]
-                p_e_pi_b *= p_e_pi_b_d[np.arange(n), action_embed[:, d]]
-                p_e_pi_e_d = action_dist[np.arange(n), :, position] @ p_e_a[:, :, d]
-                p_e_pi_e *= p_e_pi_e_d[np.arange(n), action_embed[:, d]]
+                p_e_given_a *= p_e_a[:, action_embed[:, d], d].T
+            p_e_pi_b = (pi_b[np.arange(n), :, position] * p_e_given_a).sum(1)
+            p_e_pi_e = (action_dist[np.arange(n), :, position] * p_e_given_a).sum(1)
             w_x_e = p_e_pi_e / p_e_pi_b
             self.max_w_x_e = w_x_e.max()
 
@@ -688,13 +687,12 @@ class SelfNormalizedMarginalizedInverseProbabilityWeighting(
         """
         n = reward.shape[0]
         if p_e_a is not None:
-            p_e_pi_b = np.ones(n)
-            p_e_pi_e = np.ones(n)
+            # probability of the whole embedding given each action
+            p_e_given_a = np.ones((n, p_e_a.shape[0]))
             for d in np.arange(p_e_a.shape[-1]):
-                p_e_pi_b_d = pi_b[np.arange(n), :, position] @ p_e_a[:, :, d]
-                p_e_pi_b *= p_e_pi_b_d[np.arange(n), action_embed[:, d]]
-                p_e_pi_e_d = action_dist[np.arange(n), :, position] @ p_e_a[:, :, d]
-                p_e_pi_e *= p_e_pi_e_d[np.arange(n), action_embed[:, d]]
+                p_e_given_a *= p_e_a[:, action_embed[:, d], d].T
+            p_e_pi_b = (pi_b[np.arange(n), :, position] * p_e_given_a).sum(1)
+            p_e_pi_e = (action_dist[np.arange(n), :, position] * p_e_given_a).sum(1)
             w_x_e = p_e_pi_e / p_e_pi_b
             self.max_w_x_e = w_x_e.max()
 
-- 
2.43.0


From 441cd72d7553dc1c54bf8ecfd4203c835a8f7463 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:28:21 +0000
Subject: [PATCH 30/43] fix: propensity estimates are misaligned when some
 actions are missing from the training data

predict_proba has one column per class seen in training, so indexing it by the
action returned the probability of another action (or failed).
---
 obp/ope/classification_model.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/obp/ope/classification_model.py b/obp/ope/classification_model.py
index aea21c6..3815c93 100644
--- a/obp/ope/classification_model.py
+++ b/obp/ope/classification_model.py
@@ -530,9 +530,11 @@ class PropensityScoreEstimator(BaseEstimator):
             idx = position == pos_
             if context[idx].shape[0] == 0:
                 continue
-            estimated_pscore[idx] = self.base_model_list[pos_].predict_proba(
-                context[idx]
-            )[np.arange(action[idx].shape[0]), action[idx]]
+            base_model = self.base_model_list[pos_]
+            # actions not observed in the training data have zero probability
+            proba = np.zeros((action[idx].shape[0], self.n_actions))
+            proba[:, base_model.classes_] = base_model.predict_proba(context[idx])
+            estimated_pscore[idx] = proba[np.arange(action[idx].shape[0]), action[idx]]
         return estimated_pscore
 
     def fit_predict(
-- 
2.43.0


From 74be350422397b30b5bb9610da5f2579507f6d1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:28:21 +0000
Subject: [PATCH 31/43] fix: importance weight estimation fails when a position
 has no data to predict

---
 obp/ope/classification_model.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/obp/ope/classification_model.py b/obp/ope/classification_model.py
index 3815c93..d39d754 100644
--- a/obp/ope/classification_model.py
+++ b/obp/ope/classification_model.py
@@ -208,6 +208,8 @@ class ImportanceWeightEstimator(BaseEstimator):
         proba_eval_policy = np.zeros(action.shape[0])
         for pos_ in np.arange(self.len_list):
             idx = position == pos_
+            if context[idx].shape[0] == 0:
+                continue
             X, _, = self._pre_process_for_clf_model(
                 context=context[idx],
                 action=action[idx],
@@ -335,6 +337,8 @@ class ImportanceWeightEstimator(BaseEstimator):
                         sampled_action[idx] = sampled_action_at_position
                 for pos_ in np.arange(self.len_list):
                     idx = position[test_idx] == pos_
+                    if context[test_idx][idx].shape[0] == 0:
+                        continue
                     action_dist_at_pos = action_dist[test_idx][idx][:, :, pos_]
                     X, y = self._pre_process_for_clf_model(
                         context=context[test_idx][idx],
-- 
2.43.0


From 0b9d2c81711941d80875820b28c14ce514aa9974 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:06:25 +0000
Subject: [PATCH 32/43] fix: action embeddings are drawn with the random
 numbers that choose the actions

---
 obp/dataset/synthetic_embed.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/obp/dataset/synthetic_embed.py b/obp/dataset/synthetic_embed.py
index 013d904..4c8b139 100644
--- a/obp/dataset/synthetic_embed.py
+++ b/obp/dataset/synthetic_embed.py
@@ -313,7 +313,7 @@ class SyntheticBanditDatasetWithActionEmbeds(SyntheticBanditDataset):
         for d in np.arange(self.n_cat_dim):
             action_embed[:, d] = sample_action_fast(
                 self.p_e_a[actions, :, d],
-                random_state=d,
+                random_state=self.random_,
             )
 
         # sample rewards given the context and action embeddings
-- 
2.43.0


From 8675eda607ea844965facfa3c59939f52633c367 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:12:19 +0000
Subject: [PATCH 33/43] fix: slate expected rewards use 8-bit action indices
 and half precision

---
 obp/dataset/synthetic_slate.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/obp/dataset/synthetic_slate.py b/obp/dataset/synthetic_slate.py
index 85bf438..60b560c 100644
--- a/obp/dataset/synthetic_slate.py
+++ b/obp/dataset/synthetic_slate.py
@@ -913,7 +913,7 @@ class SyntheticSlateBanditDataset(BaseBanditDataset):
             enumerated_slate_actions = [
                 _ for _ in permutations(np.arange(self.n_unique_action), self.len_list)
             ]
-        enumerated_slate_actions = np.array(enumerated_slate_actions).astype("int8")
+        enumerated_slate_actions = np.array(enumerated_slate_actions)
         n_slate_actions = len(enumerated_slate_actions)
         n_rounds = len(evaluation_policy_logit_)
 
@@ -1428,7 +1428,7 @@ def action_interaction_reward_function(
     if is_enumerated:
         action = np.tile(action, n_rounds)
     # action_2d: array-like, shape (n_rounds (* len(enumerated_action_list)), len_list)
-    action_2d = action.reshape((-1, len_list)).astype("int8")
+    action_2d = action.reshape((-1, len_list)).astype(int)
     n_enumerated_slate_actions = len(action_2d) // n_rounds
     # expected_reward: array-like, shape (n_rounds, n_unique_action)
     expected_reward = base_reward_function(
@@ -1436,7 +1436,7 @@ def action_interaction_reward_function(
     )
     if reward_type == "binary":
         expected_reward = logit(expected_reward)
-    expected_reward_factual = np.zeros_like(action_2d, dtype="float16")
+    expected_reward_factual = np.zeros_like(action_2d, dtype=float)
     for pos_ in np.arange(len_list):
         tmp_fixed_reward = expected_reward[
             np.arange(len(action_2d)) // n_enumerated_slate_actions,
-- 
2.43.0


From 814430f9de0f2ce30f6b4f544665fb7fa2460f8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:15:17 +0000
Subject: [PATCH 34/43] fix: slate ground truth ignores the click model for
 context-free rewards

---
 obp/dataset/synthetic_slate.py | 50 +++++++++++++++++++++++-----------
 1 file changed, 34 insertions(+), 16 deletions(-)

diff --git a/obp/dataset/synthetic_slate.py b/obp/dataset/synthetic_slate.py
index 60b560c..f78e324 100644
--- a/obp/dataset/synthetic_slate.py
+++ b/obp/dataset/synthetic_slate.py
@@ -867,6 +867,36 @@ class SyntheticSlateBanditDataset(BaseBanditDataset):
 
         return reward.sum() / np.unique(slate_id).shape[0]
 
+    def _apply_click_model(self, expected_slate_rewards: np.ndarray) -> np.ndarray:
+        """Apply the click model to the expected rewards of the slots.
+
+        Parameters
+        -----------
+        expected_slate_rewards: array-like, shape (n_slates, len_list)
+            Expected rewards of the slots of each slate before applying the click model.
+
+        Returns
+        ----------
+        expected_slate_rewards: array-like, shape (n_slates, len_list)
+            Expected rewards of the slots of each slate under the click model.
+
+        """
+        expected_slate_rewards = expected_slate_rewards * self.exam_weight
+        if self.reward_type == "binary":
+            discount_factors = np.ones(expected_slate_rewards.shape[0])
+            previous_slot_expected_reward = np.zeros(expected_slate_rewards.shape[0])
+            for pos_ in np.arange(self.len_list):
+                discount_factors *= (
+                    previous_slot_expected_reward * self.attractiveness[pos_]
+                    + (1 - previous_slot_expected_reward)
+                )
+                expected_slate_rewards[:, pos_] = (
+                    discount_factors * expected_slate_rewards[:, pos_]
+                )
+                previous_slot_expected_reward = expected_slate_rewards[:, pos_]
+
+        return expected_slate_rewards
+
     def calc_ground_truth_policy_value(
         self,
         context: np.ndarray,
@@ -961,6 +991,7 @@ class SyntheticSlateBanditDataset(BaseBanditDataset):
                     for pos_ in np.arange(self.len_list)
                 ]
             ).T
+            expected_slate_rewards = self._apply_click_model(expected_slate_rewards)
             policy_value = (
                 pscores * expected_slate_rewards.sum(axis=1)
             ).sum() / n_rounds
@@ -997,22 +1028,9 @@ class SyntheticSlateBanditDataset(BaseBanditDataset):
                     random_state=self.random_state,
                 )
 
-                # click models based on expected reward
-                expected_slate_rewards_ *= self.exam_weight
-                if self.reward_type == "binary":
-                    discount_factors = np.ones(expected_slate_rewards_.shape[0])
-                    previous_slot_expected_reward = np.zeros(
-                        expected_slate_rewards_.shape[0]
-                    )
-                    for pos_ in np.arange(self.len_list):
-                        discount_factors *= (
-                            previous_slot_expected_reward * self.attractiveness[pos_]
-                            + (1 - previous_slot_expected_reward)
-                        )
-                        expected_slate_rewards_[:, pos_] = (
-                            discount_factors * expected_slate_rewards_[:, pos_]
-                        )
-                        previous_slot_expected_reward = expected_slate_rewards_[:, pos_]
+                expected_slate_rewards_ = self._apply_click_model(
+                    expected_slate_rewards_
+                )
 
                 policy_value += (
                     pscores_.flatten() * expected_slate_rewards_.sum(axis=1)
-- 
2.43.0


From 7521b1c463339246428d5430794e74fd2e07e2bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:20:31 +0000
Subject: [PATCH 35/43] fix: continuous slate rewards do not have the reported
 expected reward

---
 obp/dataset/synthetic_slate.py | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/obp/dataset/synthetic_slate.py b/obp/dataset/synthetic_slate.py
index f78e324..1244af3 100644
--- a/obp/dataset/synthetic_slate.py
+++ b/obp/dataset/synthetic_slate.py
@@ -13,6 +13,7 @@ from typing import Union
 import numpy as np
 from scipy.special import logit
 from scipy.special import perm
+from scipy.stats import norm
 from scipy.stats import truncnorm
 from sklearn.utils import check_random_state
 from sklearn.utils import check_scalar
@@ -823,6 +824,10 @@ class SyntheticSlateBanditDataset(BaseBanditDataset):
         reward = self.sample_reward_given_expected_reward(
             expected_reward_factual=expected_reward_factual
         )
+        if self.reward_type == "continuous":
+            expected_reward_factual = self._calc_mean_of_truncated_normal(
+                expected_reward_factual
+            )
 
         return dict(
             n_rounds=n_rounds,
@@ -867,6 +872,11 @@ class SyntheticSlateBanditDataset(BaseBanditDataset):
 
         return reward.sum() / np.unique(slate_id).shape[0]
 
+    def _calc_mean_of_truncated_normal(self, loc: np.ndarray) -> np.ndarray:
+        """Calculate the expectation of continuous rewards, which follow the normal distribution truncated at zero."""
+        z = loc / self.reward_std
+        return loc + self.reward_std * norm.pdf(z) / norm.cdf(z)
+
     def _apply_click_model(self, expected_slate_rewards: np.ndarray) -> np.ndarray:
         """Apply the click model to the expected rewards of the slots.
 
@@ -882,7 +892,11 @@ class SyntheticSlateBanditDataset(BaseBanditDataset):
 
         """
         expected_slate_rewards = expected_slate_rewards * self.exam_weight
-        if self.reward_type == "binary":
+        if self.reward_type == "continuous":
+            expected_slate_rewards = self._calc_mean_of_truncated_normal(
+                expected_slate_rewards
+            )
+        elif self.reward_type == "binary":
             discount_factors = np.ones(expected_slate_rewards.shape[0])
             previous_slot_expected_reward = np.zeros(expected_slate_rewards.shape[0])
             for pos_ in np.arange(self.len_list):
-- 
2.43.0


From 13cfdec256d52be5c8cfb61714788624c536b14d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:22:39 +0000
Subject: [PATCH 36/43] fix: slots of cascade-decay slates do not interact

---
 obp/dataset/synthetic_slate.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/obp/dataset/synthetic_slate.py b/obp/dataset/synthetic_slate.py
index 1244af3..1f51cfa 100644
--- a/obp/dataset/synthetic_slate.py
+++ b/obp/dataset/synthetic_slate.py
@@ -1497,7 +1497,7 @@ def action_interaction_reward_function(
                     np.arange(len(action_2d)) // n_enumerated_slate_actions,
                     action_2d[:, pos2_],
                 ]
-                weight_ = action_interaction_weight_matrix[pos_, pos2_]
+                weight_ = action_interaction_weight_matrix[pos2_, pos_]
                 tmp_fixed_reward += expected_reward_ * weight_
         expected_reward_factual[:, pos_] = tmp_fixed_reward
 
-- 
2.43.0


From 8e349a1784e2ec899a7a0c6a6e246ed829735912 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:03:18 +0000
Subject: [PATCH 37/43] fix: coefficients drift too early when requested in
 parts of an interval

---
 obp/simulator/coefficient_drifter.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/obp/simulator/coefficient_drifter.py b/obp/simulator/coefficient_drifter.py
index 75cba87..06ddbf4 100644
--- a/obp/simulator/coefficient_drifter.py
+++ b/obp/simulator/coefficient_drifter.py
@@ -191,9 +191,7 @@ class CoefficientDrifter:
         if shift_start < 0:
             transition_steps = transition_steps[-shift_start:]
 
-        shift_remainder = self.available_rounds - rounds
-        if shift_remainder > 0:
-            transition_steps = transition_steps[shift_remainder:]
+        transition_steps = transition_steps[:rounds]
 
         weights = transition_steps / (self.transition_period + 1)
 
-- 
2.43.0


From 1b442ca89b1d1b61a39891fcb7eaef2a2966eac5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:03:18 +0000
Subject: [PATCH 38/43] fix: single simulated rounds report the features of the
 first action only

---
 obp/simulator/simulator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/obp/simulator/simulator.py b/obp/simulator/simulator.py
index 499a781..97cef7c 100755
--- a/obp/simulator/simulator.py
+++ b/obp/simulator/simulator.py
@@ -239,7 +239,7 @@ class BanditEnvironmentSimulator:
         return BanditRound(
             n_actions=self.n_actions,
             context=context,
-            action_context=self.action_context[0],
+            action_context=self.action_context,
             rewards=rewards[0],
             expected_rewards=expected_reward_[0],
             round_delays=round_delays,
-- 
2.43.0


From f22126d2174335c63338719a549188b23140be5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:42:26 +0000
Subject: [PATCH 39/43] fix: scores of IPWLearner are misaligned when some
 actions are missing from the training data

---
 obp/policy/offline.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/obp/policy/offline.py b/obp/policy/offline.py
index 6e4e512..f926710 100644
--- a/obp/policy/offline.py
+++ b/obp/policy/offline.py
@@ -238,7 +238,9 @@ class IPWLearner(BaseOfflinePolicyLearner):
             score_predicteds_at_position = self.base_classifier_list[p].predict_proba(
                 context
             )
-            score_predicted[:, :, p] = score_predicteds_at_position
+            # the classifier only knows the actions observed in the training data
+            observed_actions = self.base_classifier_list[p].classes_
+            score_predicted[:, observed_actions, p] = score_predicteds_at_position
         return score_predicted
 
     def sample_action(
-- 
2.43.0


From 768cf257fbd2633c5383b720ea2ad65b84a8e1ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:42:26 +0000
Subject: [PATCH 40/43] fix: a batch of a single round turns the neural policy
 into nan

---
 obp/policy/offline.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/obp/policy/offline.py b/obp/policy/offline.py
index f926710..047ec78 100644
--- a/obp/policy/offline.py
+++ b/obp/policy/offline.py
@@ -1158,7 +1158,8 @@ class NNPolicyLearner(BaseOfflinePolicyLearner):
                 )
                 loss = -policy_grad_arr.mean()
                 loss += self.policy_reg_param * policy_constraint
-                loss += self.var_reg_param * torch.var(policy_grad_arr)
+                if policy_grad_arr.shape[0] > 1:  # the variance of a single value is nan
+                    loss += self.var_reg_param * torch.var(policy_grad_arr)
                 loss.backward()
                 optimizer.step()
 
@@ -1191,7 +1192,8 @@ class NNPolicyLearner(BaseOfflinePolicyLearner):
                     )
                     loss = -policy_grad_arr.mean()
                     loss += self.policy_reg_param * policy_constraint
-                    loss += self.var_reg_param * torch.var(policy_grad_arr)
+                    if policy_grad_arr.shape[0] > 1:
+                        loss += self.var_reg_param * torch.var(policy_grad_arr)
                     loss_value = loss.item()
                     if previous_validation_loss is not None:
                         if loss_value - previous_validation_loss < self.tol:
-- 
2.43.0


From f01835290d915d319aa026620522cd34c44214a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:44:22 +0000
Subject: [PATCH 41/43] fix: learners assume a uniform policy over the logged
 actions only when propensities are missing

---
 obp/policy/offline.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/obp/policy/offline.py b/obp/policy/offline.py
index 047ec78..a5576ec 100644
--- a/obp/policy/offline.py
+++ b/obp/policy/offline.py
@@ -164,8 +164,7 @@ class IPWLearner(BaseOfflinePolicyLearner):
                 "and please use `obp.policy.NNPolicyLearner` instead."
             )
         if pscore is None:
-            n_actions = np.int32(action.max() + 1)
-            pscore = np.ones_like(action) / n_actions
+            pscore = np.ones_like(action) / self.n_actions
         if self.len_list == 1:
             position = np.zeros_like(action, dtype=int)
         else:
@@ -434,8 +433,7 @@ class QLearner(BaseOfflinePolicyLearner):
             position=position,
         )
         if pscore is None:
-            n_actions = np.int32(action.max() + 1)
-            pscore = np.ones_like(action) / n_actions
+            pscore = np.ones_like(action) / self.n_actions
         if self.len_list == 1:
             position = np.zeros_like(action, dtype=int)
         else:
-- 
2.43.0


From 3b62b9ce70a4bcb41cf83bb901409e7a777c52eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:06:43 +0000
Subject: [PATCH 42/43] fix: continuous-action estimators fail on integer
 actions

---
 obp/ope/estimators_continuous.py | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/obp/ope/estimators_continuous.py b/obp/ope/estimators_continuous.py
index 1bae79b..4cfa1de 100644
--- a/obp/ope/estimators_continuous.py
+++ b/obp/ope/estimators_continuous.py
@@ -156,8 +156,7 @@ class KernelizedInverseProbabilityWeighting(BaseContinuousOffPolicyEstimator):
 
         """
         kernel_func = kernel_functions[self.kernel]
-        u = action_by_evaluation_policy - action_by_behavior_policy
-        u /= self.bandwidth
+        u = (action_by_evaluation_policy - action_by_behavior_policy) / self.bandwidth
         estimated_rewards = kernel_func(u) * reward / pscore
         estimated_rewards /= self.bandwidth
         return estimated_rewards
@@ -382,8 +381,7 @@ class KernelizedSelfNormalizedInverseProbabilityWeighting(
         check_array(array=pscore, name="pscore", expected_dim=1)
 
         kernel_func = kernel_functions[self.kernel]
-        u = action_by_evaluation_policy - action_by_behavior_policy
-        u /= self.bandwidth
+        u = (action_by_evaluation_policy - action_by_behavior_policy) / self.bandwidth
         estimated_rewards = kernel_func(u) * reward / pscore
         estimated_rewards /= (kernel_func(u) / pscore).mean()
         return estimated_rewards
@@ -603,8 +601,7 @@ class KernelizedDoublyRobust(BaseContinuousOffPolicyEstimator):
 
         """
         kernel_func = kernel_functions[self.kernel]
-        u = action_by_evaluation_policy - action_by_behavior_policy
-        u /= self.bandwidth
+        u = (action_by_evaluation_policy - action_by_behavior_policy) / self.bandwidth
         estimated_rewards = (
             kernel_func(u) * (reward - estimated_rewards_by_reg_model) / pscore
         )
-- 
2.43.0


From fa3e75e3b4df537fca62a1fa7832a9dd1c6440d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:06:43 +0000
Subject: [PATCH 43/43] fix: mrdr regression fails on deterministic policies of
 integer type

---
 obp/ope/regression_model.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/obp/ope/regression_model.py b/obp/ope/regression_model.py
index 421b9cb..d7d7b1d 100644
--- a/obp/ope/regression_model.py
+++ b/obp/ope/regression_model.py
@@ -173,8 +173,7 @@ class RegressionModel(BaseEstimator):
                         X, reward[idx], sample_weight=sample_weight
                     )
                 elif self.fitting_method == "mrdr":
-                    sample_weight = action_dist_at_pos
-                    sample_weight *= 1.0 - pscore[idx]
+                    sample_weight = action_dist_at_pos * (1.0 - pscore[idx])
                     sample_weight /= pscore[idx] ** 2
                     self.base_model_list[pos_].fit(
                         X, reward[idx], sample_weight=sample_weight
-- 
2.43.0

