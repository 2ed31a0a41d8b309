UT = "the existing tests evaluate a handful of fixed or randomly drawn data sets and mostly compare ranges, signs or types, so a wrong formula on other rewards, propensities, policies or hyperparameters goes unnoticed"

prop("P01", "Weighting-based OPE estimators compute their defining formulas",
 "For every logged data set, evaluation policy, position assignment and hyperparameter, inverse probability weighting (with and without weight clipping), self-normalized IPW, sub-Gaussian IPW, balanced IPW (externally estimated weights) and the replay method return the value of their published formula. The weight of a round is the evaluation policy's probability of the logged action at the logged position, divided by the logged (or, on request, the separately supplied estimated) propensity. The replay method averages rewards over the rounds whose logged action the policy takes with certainty and returns zero if there are none.",
 ["inputs", "configurations"], "all rewards, propensities, action distributions, weights and hyperparameters (reals), all logged actions and positions, within small numbers of rounds, actions and positions",
 UT, ["obp/ope/estimators.py"],
 [("per-round values", "obp/ope/estimators.py _estimate_round_rewards of the IPW family"), ("choice of propensity", "obp/ope/estimators.py estimate_policy_value")])

prop("P02", "Model-assisted OPE estimators compute their defining formulas",
 "For every logged data set, evaluation policy, reward predictions and hyperparameter, the direct method, doubly robust, self-normalized DR, Switch-DR, DR with optimistic shrinkage and sub-Gaussian DR return the value of their published formula: the policy's expected predicted reward at the logged position plus the (transformed) importance weight times the residual of the logged action. Infinite hyperparameters leave the importance weights unchanged, and the separately supplied estimated propensities are used when requested.",
 ["inputs", "configurations"], "all rewards, propensities, policies, predictions and hyperparameters (reals), all logged actions and positions, within small sizes",
 UT, ["obp/ope/estimators.py"],
 [("per-round values", "obp/ope/estimators.py _estimate_round_rewards of the DR family"), ("direct method", "obp/ope/estimators.py DirectMethod")])

prop("P03", "OPE estimators satisfy the identities that relate them",
 "On every data set the estimators coincide where theory says they must: weight one (the logging policy evaluated on itself) gives the empirical mean reward, exact reward predictions make every doubly robust variant equal the direct method, zero predictions reduce it to the corresponding weighting estimator, and limiting hyperparameters reduce shrunk estimators to the direct method or to the unshrunk ones. Self-normalized estimates shift with the rewards and stay within the range of the observed rewards, estimates scale linearly with rewards, and reordering the logged rounds changes nothing.",
 ["inputs", "configurations"], "all data sets (real rewards, propensities, policies, predictions; all actions and positions) within small sizes",
 UT, ["obp/ope/estimators.py"],
 [("estimators", "obp/ope/estimators.py")])

prop("P04", "Hyperparameter tuning selects the candidate its criterion prescribes",
 "For every data set, a freshly created estimator with automatic hyperparameter tuning returns exactly the estimate of its base estimator at one of the candidates. Under the MSE criterion it is the candidate that minimises estimated variance plus squared (upper bound of the) estimated bias; under SLOPE it is the last candidate, in order of decreasing confidence width, that is consistent with all earlier ones. The order in which candidates are listed does not matter and the estimated propensities are used throughout when requested.",
 ["inputs", "configurations"], "all rewards (reals) for fixed weights and candidate grids; all data for a single candidate; every base estimator and criterion",
 "tests only check that some candidate is chosen on one synthetic data set", ["obp/ope/estimators_tuning.py", "obp/ope/helper.py", "obp/ope/estimators.py"],
 [("selection", "obp/ope/estimators_tuning.py _tune_hyperparam_with_mse, _tune_hyperparam_with_slope"), ("scores", "obp/ope/estimators.py _estimate_mse_score")])

prop("P05", "Bias estimates and high-probability bounds follow their formulas",
 "For every sample and importance weights, the estimated bias is the absolute mean of the weight distortion times the residual, its upper bound adds the concentration terms of the largest weight and the second moment, and the Hoeffding, empirical Bernstein and Student-t lower bounds equal the sample mean minus their published half-widths. The bounds refuse a maximum below the largest sample and failure probabilities outside the unit interval.",
 ["inputs", "configurations"], "all samples, weights, residuals and confidence parameters (reals) within small sample sizes",
 "tests compare a few hand-picked vectors", ["obp/ope/helper.py"],
 [("bounds", "obp/ope/helper.py")])

prop("P06", "Interval estimates are bootstrap intervals of the estimator's own values",
 "For every sample and every outcome of the resampling, the reported interval is formed from the means of resamples of the same size drawn with replacement: the reported mean is their average and the ends are their alpha/2 and 1-alpha/2 quantiles, ordered, labelled with the confidence level and inside the range of the samples. For every estimator, the resampled values are the per-round contributions whose average is that estimator's point estimate, under the same hyperparameter and the same choice of propensities. Equal seeds give equal intervals.",
 ["inputs", "configurations"], "all sample values and all logged data (reals), all resampled index choices, for small sample sizes and numbers of resamples; every single-logger discrete-action estimator and its tuned version",
 "tests check types, key names and that lower <= mean <= upper on a few seeds", ["obp/utils.py", "obp/ope/estimators.py", "obp/ope/estimators_tuning.py"],
 [("bootstrap", "obp/utils.py estimate_confidence_interval_by_bootstrap"), ("per-estimator intervals", "obp/ope/*.py estimate_interval")])

prop("P07", "Multi-logger estimators compute their defining formulas",
 "For every data set collected by several loggers, with any logger labels, the naive, balanced and precision-weighted estimators (weighting and doubly robust, with and without weight clipping) return the value of their published formula: naive and precision-weighted use each round's own propensity, balanced uses the propensity averaged over loggers, and precision-weighted combines the loggers in inverse proportion to the sample variance of their contributions. Estimated propensities are used when requested, with a single logger the variants coincide, and interval estimates resample the same per-round contributions.",
 ["inputs", "configurations"], "all rewards, propensities, policies, predictions and thresholds (reals), all logged actions and positions, several assignments of rounds to loggers, within small sizes",
 UT, ["obp/ope/estimators_multi.py"],
 [("naive", "obp/ope/estimators_multi.py MultiLoggersNaive*"), ("balanced", "obp/ope/estimators_multi.py MultiLoggersBalanced*"), ("weighted", "obp/ope/estimators_multi.py MultiLoggersWeighted*")])

prop("P08", "Continuous-action estimators compute their kernel formulas",
 "For every data set with continuous actions, kernel and bandwidth, the kernelized IPW, self-normalized IPW and DR estimators return the value of their published formula, where a round's weight is the kernel of the scaled distance between the two policies' actions divided by bandwidth and density. The kernels are symmetric, non-negative and, but for the Gaussian, zero beyond one bandwidth; exact predictions reduce DR to the average prediction, zero predictions reduce it to IPW and self-normalized estimates stay within the range of the rewards. Interval estimates resample the same per-round contributions.",
 ["inputs", "configurations"], "all actions, rewards, densities, predictions and bandwidths (reals) for small numbers of rounds; every kernel",
 UT, ["obp/ope/estimators_continuous.py"],
 [("kernels", "obp/ope/estimators_continuous.py *_kernel"), ("estimators", "obp/ope/estimators_continuous.py Kernelized*")])

prop("P09", "Slate estimators compute their defining formulas",
 "For every logged slate data set, the standard, independent and reward-interaction inverse propensity estimators and their self-normalized versions return the average over slates of the weighted rewards of a slate, using the joint, per-position or cascade propensities respectively and normalizing weights overall or per position. Cascade doubly robust adds, at each position, the policy's expected prediction weighted by the preceding position's weight. Slate labels and the order of rows do not matter to the inverse propensity estimators, evaluating the logging policy gives the average slate reward, and interval estimates resample whole slates.",
 ["inputs", "configurations"], "all rewards, propensities, distributions and predictions (reals), small numbers of slates, slots and items, several row orders and slate labels",
 UT, ["obp/ope/estimators_slate.py"],
 [("inverse propensity", "obp/ope/estimators_slate.py Slate*IPS, SelfNormalizedSlate*IPS"), ("cascade DR", "obp/ope/estimators_slate.py SlateCascadeDoublyRobust")])

prop("P10", "Marginalized importance weighting computes embedding weights and selections as defined",
 "For every data set with action embeddings, the marginalized estimator and its self-normalized version weight a round by the ratio of the two policies' marginal embedding probabilities when the embedding distribution is known, and otherwise by the average action weight under the fitted model of the action given context and embedding; actions the logging policy never takes contribute nothing. Exact and greedy embedding selection return the estimate of the last accepted embedding under the SLOPE rule with Student-t widths. Interval estimates resample the same per-round contributions.",
 ["inputs", "configurations"], "all rewards, policies, embedding distributions and model outputs (reals), all embeddings, small sizes; for the selection, all rewards for fixed weights with distinct widths",
 UT, ["obp/ope/estimators_embed.py"],
 [("weights", "obp/ope/estimators_embed.py _estimate_round_rewards, _estimate_w_x_e, _compute_true_w_x_e"), ("selection", "obp/ope/estimators_embed.py _estimate_with_exact_pruning, _estimate_with_greedy_pruning")])

prop("P11", "Malformed inputs are refused and well-formed inputs accepted",
 "Every estimator and validation helper raises an error when an argument has the wrong type, number of dimensions or length, when actions, positions or logger labels are outside their range, when propensities are not positive (or above one where they are probabilities), when distributions do not sum to one, when estimated weights are negative, or when slate propensities contradict each other; it accepts the input otherwise. Hyperparameters, bandwidths, tuning options, interval levels and resample counts are checked in the same way.",
 ["inputs", "configurations"], "every value of the offending entry at every row (reals; integers around the valid range), every listed fault of every argument of every estimator",
 "tests feed a few dozen malformed examples per class, with the fault at one fixed entry", ["obp/utils.py", "obp/ope/estimators.py", "obp/ope/estimators_multi.py", "obp/ope/estimators_continuous.py", "obp/ope/estimators_slate.py", "obp/ope/estimators_tuning.py"],
 [("validators", "obp/utils.py check_*_inputs"), ("call sites", "obp/ope/*.py")])

prop("P12", "Evaluation classes give each estimator its own inputs and report its own results",
 "For every set of estimators, the discrete, multi-logger, continuous and slate evaluation classes call each estimator with the logged data, the evaluation policy and that estimator's own extra inputs (predictions, weights, propensities, embedding distributions; shared or given per estimator), and report under its name exactly the value or interval it returned, relative to the average logged reward where a relative value is asked. Reported squared and relative errors are those of the given ground truth. Missing data, missing predictions and inputs of the wrong shape are refused.",
 ["inputs", "configurations"], "all estimates, rewards and extra inputs (reals) of arbitrary estimators, shared and per-estimator inputs in every combination, small data",
 "tests use stub estimators with constants and compare ranges on a single configuration", ["obp/ope/meta.py", "obp/ope/meta_multi.py", "obp/ope/meta_continuous.py", "obp/ope/meta_slate.py"],
 [("input routing", "obp/ope/meta*.py _create_estimator_inputs"), ("summaries", "obp/ope/meta*.py estimate_*, evaluate_performance_of_estimators, summarize_*")])

prop("P13", "Reward regression models are trained and queried on the right data",
 "For every base model and data set, the regression wrapper trains one model per position on exactly the rounds of that position, on their context and action features, with rewards as targets and the weights its fitting method prescribes, and the prediction for every round, action and position is what that position's model outputs for that pair. With cross-fitting, a round's predictions come only from models trained without its fold. The slate regression model trains, from the last slot to the first, on the reward plus the policy's expected prediction at the next slot, weighted as its fitting method prescribes.",
 ["inputs", "configurations", "schedules"], "all rewards, propensities and policies (reals), base models that are arbitrary functions of their features, every assignment of rounds to folds, small sizes",
 "tests compare losses against a threshold on one synthetic data set", ["obp/ope/regression_model.py", "obp/ope/regression_model_slate.py"],
 [("fit/predict", "obp/ope/regression_model.py RegressionModel"), ("slate", "obp/ope/regression_model_slate.py SlateRegressionModel")])

prop("P14", "Estimated importance weights and propensities come from correctly built classification problems",
 "For every base classifier and data set, the importance weight estimator trains on logged context-action pairs against pairs of the evaluation policy (sampled, or all actions weighted by their probability) and returns the odds of the logged pair; the propensity estimator trains on logged actions given contexts and returns the probability of the logged action, also when some actions never occur in the training data. One model per position is used, each on that position's rounds, and with cross-fitting a round's estimate comes from a model trained without its fold; on request the labels and predictions of the held-out rounds are kept. Missing arguments and unusable fold counts are refused.",
 ["inputs", "configurations", "schedules"], "all evaluation policies (reals) and sampling outcomes, classifiers that are arbitrary functions of their features, every assignment of rounds to folds, small sizes",
 "tests run a couple of real classifiers and compare shapes", ["obp/ope/classification_model.py"],
 [("importance weights", "obp/ope/classification_model.py ImportanceWeightEstimator"), ("propensities", "obp/ope/classification_model.py PropensityScoreEstimator")])

prop("P15", "Sampling and probability helpers are exact",
 "For every distribution and every random number in [0, 1), fast action sampling returns the action whose cumulative-probability interval contains the number, one independent number per round, and equal seeds give equal actions. Softmax is the normalized exponential: positive, summing to one, order preserving, unchanged by shifts and free of overflow; sigmoid is the logistic function. Converting selected actions to a distribution puts probability one on the selected action of each round and position.",
 ["inputs"], "all distributions, scores and random numbers (reals), all selected actions, small numbers of rounds, actions and positions",
 "tests check sums and shapes on a few arrays", ["obp/utils.py"],
 [("sampling", "obp/utils.py sample_action_fast"), ("softmax and sigmoid", "obp/utils.py softmax, sigmoid"), ("one-hot", "obp/utils.py convert_to_action_dist")])

SIM = "tests draw a few data sets with real random numbers and compare shapes, ranges and keys, so a wrong probability, mean or alignment goes unnoticed"

prop("P16", "Synthetic bandit data has the policies, rewards and ground truth it reports",
 "For every reward function, behaviour policy, temperature and random outcome, the synthetic discrete-action data set reports the behaviour policy (the softmax of the scaled scores over the supported actions, zero on deficient ones), actions drawn from it, their propensities, and rewards drawn from a distribution whose mean is the reported expected reward of the logged action, with noise independent of the choice of actions. The ground truth value of a policy is its expected reward averaged over rounds, and the built-in reward and behaviour functions are the documented polynomials of context, action features and their interactions, standardised per round. Equal seeds give equal data.",
 ["inputs", "configurations"], "all contexts, expected rewards, scores, temperatures, noise scales and random numbers (reals), small numbers of rounds, actions and context dimensions; every built-in function",
 SIM, ["obp/dataset/synthetic.py"],
 [("generation", "obp/dataset/synthetic.py SyntheticBanditDataset.obtain_batch_bandit_feedback"), ("built-in functions", "obp/dataset/synthetic.py *_reward_function, *_behavior_policy")])

prop("P17", "Multi-logger and action-embedding synthetic data is what it reports",
 "In multi-logger data every logger collects its share of the rounds, each round's action is drawn from the policy of its own logger, and the reported per-logger and average policies and propensities are those of the loggers' temperatures. In action-embedding data the embeddings are drawn from the reported embedding distribution of the chosen action, independently of the choice of the action, the reported expected reward of an action averages the embeddings' rewards under that distribution, and rewards are drawn around the reward of the embeddings that were drawn; hidden dimensions are left out of the reported embeddings.",
 ["inputs", "configurations"], "all expected rewards, temperatures, embedding distributions and random numbers (reals), several shares of loggers, hidden, irrelevant and deficient settings, small sizes",
 SIM, ["obp/dataset/synthetic_multi.py", "obp/dataset/synthetic_embed.py"],
 [("multi-logger", "obp/dataset/synthetic_multi.py SyntheticMultiLoggersBanditDataset"), ("embeddings", "obp/dataset/synthetic_embed.py SyntheticBanditDatasetWithActionEmbeds")])

prop("P18", "Synthetic slate data has the propensities, rewards and ground truth it reports",
 "For every behaviour policy and random outcome, each slot's item is drawn from the policy given the earlier slots (without repetition unless the policy is factorizable), and the reported joint, per-position and cascade propensities of logging and evaluation policies are the probabilities of the logged slate, of its item at that slot and of its slots so far. Expected slot rewards follow the chosen interaction structure, slot rewards are drawn from distributions with these means and the click model's examination, and the ground truth value is the expected slate reward under the policy, averaged over rounds. The optimal, anti-optimal and random evaluation policies put their probability on the best, worst or all slates, and on-policy values are rewards per slate.",
 ["inputs", "configurations"], "all logits, base rewards, interaction weights and random numbers (reals), all slates, small numbers of slates, slots and items; every reward structure; the cascade click model for two slots",
 SIM, ["obp/dataset/synthetic_slate.py"],
 [("sampling and propensities", "obp/dataset/synthetic_slate.py sample_action_and_obtain_pscore, obtain_pscore_given_evaluation_policy_logit"), ("rewards", "obp/dataset/synthetic_slate.py action_interaction_reward_function, sample_reward_given_expected_reward"), ("ground truth", "obp/dataset/synthetic_slate.py calc_ground_truth_policy_value")])

prop("P19", "Synthetic continuous-action data has the densities and rewards it reports",
 "For every random outcome, logged continuous actions are drawn from the reported behaviour policy (a truncated normal around the policy's expected action, or uniform) within the action bounds, the reported propensity is that policy's density at the logged action, and rewards are drawn around the reported expected reward of the logged context and action with noise of their own. The ground truth value of an evaluation policy is the expected reward of its actions averaged over rounds, the built-in reward functions and policies follow their documented formulas, and invalid bounds, scales and shapes are refused.",
 ["inputs", "configurations"], "all contexts, expected actions and rewards, bounds, noise scales and random numbers (reals), small numbers of rounds and context dimensions",
 SIM, ["obp/dataset/synthetic_continuous.py"],
 [("generation", "obp/dataset/synthetic_continuous.py SyntheticContinuousBanditDataset"), ("functions", "obp/dataset/synthetic_continuous.py *_continuous")])

prop("P20", "Classification data becomes bandit data with exact policies and ground truth",
 "For every classifier, labels, mixture parameter and split, the logging policy built from classification data puts its mixture weight on the classifier's predicted class and the rest uniformly on all (non-deficient) classes, logged actions are drawn from it with their propensities reported, and the reward is one exactly when the action is the true class. Evaluation policies are the same mixture of another classifier (or a given policy), the ground truth value is the policy's average probability of the true class, and classifiers are trained on the training rows only. Labels may be any integers, and invalid parameters are refused.",
 ["inputs", "configurations"], "all mixture parameters, random numbers and given policies (reals), classifiers that are arbitrary functions of the features, every choice of held-out rows, several label sets, small sizes",
 "tests use one real data set and compare shapes and sums", ["obp/dataset/multiclass.py"],
 [("logging policy", "obp/dataset/multiclass.py obtain_batch_bandit_feedback"), ("evaluation policy", "obp/dataset/multiclass.py obtain_action_dist_by_eval_policy, calc_ground_truth_policy_value")])

prop("P21", "Logged data files become aligned, time-ordered bandit data",
 "For every campaign file, loading puts the rows in time order and all reported arrays (action, position, reward, propensity, context, user-item features) describe the same row at the same place; splitting by time gives training rows that precede all test rows and together are all rows, with the asked share of test rows. Resampled data repeats whole rows, the on-policy value is the average reward of the asked part, and unknown policies, campaigns, shares and resample sizes are refused.",
 ["inputs", "configurations"], "all clicks and propensities (reals), every order of time stamps, every item and position, every test share and resampled row, for a few logged rows",
 "tests load the bundled sample, whose rows are already in time order", ["obp/dataset/real.py"],
 [("loader", "obp/dataset/real.py OpenBanditDataset")])

prop("P22", "Context-free bandit policies choose by the statistics of completed batches",
 "For every history of actions and rewards, epsilon-greedy lists the actions with the highest average rewards of completed batches except with its exploration rate, when it lists a uniform choice without repetition; Bernoulli Thompson sampling lists the actions with the highest samples of Beta distributions whose parameters are the prior plus the successes and failures of completed batches (or the shipped production priors). The random policy ignores rewards, the batch action distribution is the frequency of each action at each position over its simulations, and initializing returns a policy to its initial state.",
 ["inputs", "histories"], "all rewards, exploration rates, priors and random numbers (reals), every sequence of actions up to four updates, batches of one to three, lists of one or two of up to three actions",
 "tests replay a few fixed histories and compare attributes", ["obp/policy/contextfree.py", "obp/policy/base.py"],
 [("policies", "obp/policy/contextfree.py"), ("parameters", "obp/policy/base.py")])

prop("P23", "Linear bandit policies choose by ridge regression of each action's rewards",
 "For every history of contexts, actions and rewards, the linear policies score an action by the ridge regression of that action's own rewards from completed batches on their contexts: epsilon-greedy lists the highest predictions except with its exploration rate, UCB adds epsilon times the standard error of the prediction, and Thompson sampling scores a draw from the Gaussian around the coefficients with the inverse design matrix as covariance. Lists hold distinct actions, and initializing returns a policy to its initial state.",
 ["inputs", "histories"], "all rewards, exploration rates and random numbers (reals), contexts arbitrary in one dimension and from a fixed set in two, every sequence of actions up to four updates, batches of one or two",
 "tests compare one or two updates against the same expressions", ["obp/policy/linear.py"],
 [("policies", "obp/policy/linear.py")])

prop("P24", "Logistic bandit policies choose by Bayesian logistic regression of each action's rewards",
 "For every history, the logistic policies refit an action's coefficients, after each completed batch, by minimising the logistic loss of that action's new data plus the penalty of its current Gaussian posterior, and then add the curvature of the data to the posterior's precision. Epsilon-greedy lists the highest predicted probabilities except with its exploration rate, UCB adds epsilon times the posterior standard error, Thompson sampling scores a draw from the posterior, and initializing returns a policy to its prior.",
 ["inputs", "histories"], "all rewards, prior precisions, exploration rates, random numbers and answers of the optimiser (reals), contexts from a fixed set, every sequence of actions up to four updates, batches of one to three",
 "tests compare attributes after one or two updates with a real optimiser", ["obp/policy/logistic.py"],
 [("policies", "obp/policy/logistic.py")])

prop("P25", "Simulations give policies exactly the feedback they are entitled to",
 "For every policy and environment, the online simulator shows the policy the round's context, records the chosen action and its reward, and passes that reward (with its own context and action) to the policy exactly once, in the round its delay expires and never earlier; outstanding rewards are delivered once when the queue is cleared. Replay updates the policy only in rounds where it chooses the logged action at the logged position and reports its lists as a distribution, the simulated ground truth averages the expected rewards of the choices of independent copies of the policy, and environments draw binary rewards with the reported expected rewards. None of them changes the given data.",
 ["inputs", "schedules", "histories"], "policies that choose arbitrarily, every delay of a few rounds, all rewards, expected rewards and contexts (reals), a few rounds, actions and positions",
 "tests run one policy on one seed with fixed delays", ["obp/simulator/simulator.py", "obp/simulator/replay.py", "obp/simulator/delay_sampler.py"],
 [("simulator", "obp/simulator/simulator.py BanditPolicySimulator"), ("replay", "obp/simulator/replay.py run_bandit_replay"), ("ground truth", "obp/simulator/simulator.py calc_ground_truth_policy_value")])

prop("P26", "Reward coefficients drift on schedule however the rounds are requested",
 "For every drift interval, transition length and way of requesting the rounds (one by one, in batches, across interval boundaries), the coefficients of a round depend only on its number: constant within an interval, moving linearly (or, when sampled, switching with the corresponding probability) to the next set over the transition at its end, with seasonal drift alternating between two sets. Every set mixes the base coefficients with newly drawn ones at the stated weight, and inconsistent settings are refused.",
 ["inputs", "schedules"], "all coefficients, base weights and transition draws (reals), intervals of one to four rounds, transitions of up to three, up to seven rounds requested in up to four parts",
 "tests request a few fixed numbers of rounds and compare two or three coefficients", ["obp/simulator/coefficient_drifter.py"],
 [("schedule", "obp/simulator/coefficient_drifter.py CoefficientDrifter")])

prop("P27", "Offline learners train on the right data and act by their scores",
 "For every base model and logged data set, the weighting-based learner trains one classifier per position on exactly that position's rounds, with the logged actions as classes and reward over propensity as sample weights, and the reward-model-based learner trains on rewards of context and action with the weights of its fitting method; without propensities a uniform logging policy over all actions is assumed. Scores of new contexts are the models' outputs for the right action (zero for actions a classifier never saw), deterministic choices are their argmax, sampled rankings order the score over temperature plus independent Gumbel noise without repetition, and choice probabilities are the softmax of score over temperature. Invalid rewards, positions, shapes and temperatures are refused.",
 ["inputs", "configurations"], "all rewards, propensities, temperatures and random numbers (reals), base models that are arbitrary functions of their features, all logged actions including missing ones, small numbers of rounds, actions and positions",
 "tests train a real classifier on a few rows and compare shapes and sums", ["obp/policy/offline.py"],
 [("weighting learner", "obp/policy/offline.py IPWLearner"), ("reward learner", "obp/policy/offline.py QLearner")])

prop("P28", "Neural learners climb the estimate they are told to climb",
 "For every data set and every policy network, one training step of the neural policy learner moves the network along the exact derivative of the chosen off-policy estimate (direct method, IPW, DR, self-normalized, optimistic shrinkage, sub-Gaussian) averaged over the batch, minus the stated policy and variance penalties; the continuous-action learner does so for the Gaussian-kernel IPW, DR or deterministic policy gradient of actions clipped to the output space; and the reward networks descend the squared error of the logged action. Every pass visits every training round once in batches of the asked size, held-out rounds never change the network, solvers get the given settings, predictions are the network's outputs in evaluation mode (argmax, clipped, or ranked with Gumbel noise), networks have the asked layers, and invalid settings are refused.",
 ["inputs", "configurations"], "all rewards, propensities, network outputs, bandwidths and regularisation strengths (reals), networks that are arbitrary functions of the context, every split into training and validation rounds, small numbers of rounds, actions and passes",
 "tests train on random data and check shapes and that learning does not fail", ["obp/policy/offline.py", "obp/policy/offline_continuous.py"],
 [("policy gradient", "obp/policy/offline.py NNPolicyLearner"), ("reward network", "obp/policy/offline.py QFuncEstimator"), ("continuous", "obp/policy/offline_continuous.py")])

prop("P29", "Evaluating, fitting and predicting leave the given data alone and can be repeated",
 "No estimator, evaluation class, reward, weight or propensity model, offline learner, linear bandit policy or helper function changes the arrays it is given (or replaces those inside a given logged data set), and asking the same estimator or learner again with the same data gives the same answer, also after an interval or a performance comparison was computed in between.",
 ["inputs", "histories"], "all logged data, policies, predictions and hyperparameters (reals), every estimator and entry point, small sizes",
 "tests never compare inputs before and after a call", ["obp/ope/estimators.py", "obp/ope/estimators_tuning.py", "obp/ope/estimators_multi.py", "obp/ope/estimators_continuous.py", "obp/ope/estimators_slate.py", "obp/ope/estimators_embed.py", "obp/ope/meta.py", "obp/ope/meta_multi.py", "obp/ope/meta_continuous.py", "obp/ope/meta_slate.py", "obp/ope/regression_model.py", "obp/ope/classification_model.py", "obp/policy/offline.py", "obp/policy/linear.py", "obp/utils.py"],
 [("estimators", "obp/ope/estimators*.py"), ("models", "obp/ope/regression_model.py, obp/ope/classification_model.py"), ("learners", "obp/policy/offline.py")])

prop("P30", "Unusable settings are refused and usable ones accepted",
 "For every constructor of a reward, weight or propensity model, bandit policy, offline learner, data generator or simulator, and every setting it documents (sizes, list lengths, batch sizes, rates, temperatures, bandwidths, solver and method names, flags, base models), a value outside the documented range or of the wrong type is refused with an error when the object is built (or when the method taking it is called), and every value inside the range, boundaries included, is accepted.",
 ["configurations"], "one setting at a time: every integer between -6 and about 5, every real number, every named option, and fixed values of a wrong type, next to usable other settings",
 "tests try a few bad values of each setting and rarely the boundaries", ["obp/ope/regression_model.py", "obp/ope/regression_model_slate.py", "obp/ope/classification_model.py", "obp/policy/base.py", "obp/policy/contextfree.py", "obp/policy/linear.py", "obp/policy/logistic.py", "obp/policy/offline.py", "obp/policy/offline_continuous.py", "obp/dataset/synthetic.py", "obp/dataset/synthetic_multi.py", "obp/dataset/synthetic_embed.py", "obp/dataset/synthetic_slate.py", "obp/dataset/synthetic_continuous.py", "obp/dataset/multiclass.py", "obp/simulator/simulator.py", "obp/simulator/coefficient_drifter.py", "obp/simulator/delay_sampler.py"],
 [("constructors", "__post_init__ of the classes in obp/ope, obp/policy, obp/dataset and obp/simulator")])

prop("P31", "Models, learners, policies and data sets refuse malformed data",
 "Every method of a reward, weight or propensity model, slate regression model, offline learner, bandit policy, data generator or simulator that takes logged data, contexts, scores or policies refuses arrays of the wrong kind, number of dimensions or length, arguments it needs and does not get, actions and positions outside the declared range (where it documents them), propensities that are not positive and evaluation policies whose probabilities do not sum to one; it accepts every well-formed argument, boundaries of the ranges included.",
 ["inputs", "configurations"], "one malformed argument at a time: wrong kind, shape or length, or all integers around the valid range and all reals for actions, positions, propensities, rewards and policies; two rounds, two or three actions, one or two positions",
 "tests try a few malformed arguments of each method and rarely the boundaries", ["obp/ope/regression_model.py", "obp/ope/regression_model_slate.py", "obp/ope/classification_model.py", "obp/policy/linear.py", "obp/policy/offline.py", "obp/policy/offline_continuous.py", "obp/dataset/synthetic.py", "obp/dataset/synthetic_multi.py", "obp/dataset/synthetic_embed.py", "obp/dataset/synthetic_slate.py", "obp/dataset/synthetic_continuous.py", "obp/dataset/multiclass.py", "obp/dataset/real.py", "obp/simulator/simulator.py", "obp/simulator/replay.py", "obp/utils.py"],
 [("validators", "obp/utils.py check_*"), ("callers", "obp/ope, obp/policy, obp/dataset and obp/simulator methods taking arrays")])
