HOW = {
"P01": "Each estimator is run on arbitrary logged data (`checks/common.py Log`) and its estimate compared with the formula written from the paper. Clipping forks into both sides of every comparison.",
"P02": "As P01 with symbolic reward predictions; Switch, shrinkage and sub-Gaussian weights are compared with their closed forms including zero weights and infinite hyperparameters.",
"P03": "Relational obligations between two or more runs of the real estimators on the same (or transformed) symbolic data: no formula is restated, so these also catch errors shared by P01/P02's oracles.",
"P04": "The tuned estimator runs with symbolic rewards; the oracle scores all candidates by the documented criterion and the obligation is that the returned estimate is the base estimate at a candidate no worse than every other (ties allowed). For SLOPE, weights are fixed so that the order of the widths is decided, rewards stay symbolic.",
"P05": "The helper functions are run on symbolic samples; sqrt and log are uninterpreted with sound laws, so the half-widths have to match as terms.",
"P06": "The bootstrap's index draws are symbolic choices (every resample is a path); mean and quantiles are compared with the definition. Every estimator's interval is compared with the bootstrap of its own per-round values recorded at the library boundary.",
"P07": "As P01/P02 for several loggers, with arbitrary labels; the oracle groups rounds by label and combines by inverse sample variance.",
"P08": "As P01 for kernels; comparisons inside kernels fork, exp is uninterpreted for the Gaussian kernel.",
"P09": "Slates in several row orders and with arbitrary slate labels; the oracle computes per-slate sums directly from a dictionary of rows.",
"P10": "Embedding distributions and model outputs symbolic; the selection runs with fixed weights and symbolic rewards so that every acceptance decision of SLOPE is a path.",
"P11": "Each validator is run on inputs one entry of which is arbitrary: z3 shows that a path that accepts implies validity and a path that rejects implies invalidity. Type and shape faults are enumerated for each argument of each estimator.",
"P12": "Recording estimators with arbitrary symbolic results stand for the user's estimators; what they receive and what the evaluation classes report is compared with the documentation.",
"P13": "The base model is an arbitrary function that records its training set; predictions are compared with that function's value at the right features. Every assignment to folds is a path.",
"P14": "As P13 for classifiers; the evaluation policy's sampled actions are symbolic draws.",
"P15": "The uniforms are symbolic: the obligation is that the returned action's cumulative interval contains the number. Softmax/sigmoid laws are shown with exp's algebraic laws.",
"P16": "All draws of the generator are symbolic. The obligations tie the reported quantities to one another: propensity = policy at the action, action = inverse-cdf of its own uniform, reward drawn with the reported mean, and disjoint random numbers for actions and rewards.",
"P17": "As P16 for several loggers and for embeddings.",
"P18": "As P16 for slates; propensities are compared with sums over explicitly enumerated slates, ground truth with enumeration of all slates under the click model.",
"P19": "As P16 for continuous actions; truncated-normal density and mean are uninterpreted functions whose arguments are checked.",
"P20": "Labels are enumerated, the classifier is an arbitrary function, the split arbitrary. Comparisons at the boundaries of inverse-cdf sampling are replayed with margins.",
"P21": "The CSV reader is replaced by a table with symbolic clicks/propensities and every time order; obligations compare reported rows with the table.",
"P22": "Histories are symbolic: every sequence of actions and arbitrary rewards up to the bound, fed through the public select/update calls; choices are compared with a textbook batch policy.",
"P23": "As P22 with the linear algebra done symbolically (1-2 dimensions); score order compared with an explicit ridge solution.",
"P24": "As P22; the optimiser's answer is arbitrary, and its objective, recorded as a term, is compared with the penalised loss.",
"P25": "A policy that chooses arbitrarily and records what it is told; delays are symbolic choices. The obligation is the exact sequence of deliveries.",
"P26": "The draws of coefficient sets are symbolic vectors; coefficients of a round are compared with the closed form for every partition of the requested rounds.",
"P27": "The base model is an arbitrary recorded function; scores, choices, Gumbel rankings and softmax probabilities are compared with it.",
"P28": "`storch` computes the exact gradient of the real training loss with respect to the outputs of an arbitrary policy network; it is compared with the derivative of the OPE estimate the learner is told to maximise. Data batches, splits, steps, prediction and construction are checked with recording networks.",
"P29": "Every public entry point is run on symbolic data next to a snapshot of its arguments; the obligation is that each element of each array or dictionary is the same afterwards.",
"P30": "Each constructor is run with one symbolic setting (an integer or real variable, or a symbolic choice of a name) next to fixed usable ones; on every path the solver decides whether the path's values are inside or outside the documented range, and the call has to succeed or raise accordingly.",
"P31": "As P30 for data: one argument is malformed at a time (symbolically chosen kind of malformation), or holds integer and real variables; on every path the solver decides whether the data are well-formed, and the call has to succeed or raise accordingly.",
}
NOTES = """## What is not claimed, and why

- Rounding, overflow, `clip_logit_value`, performance, plotting output and progress bars: not functions over the reals with a specification.
- The statistical quality of base models (sklearn, torch training until convergence), of the
  bundled example data, and anything asymptotic (consistency, coverage): not a property of one run within a bound.
- Neural learners' stopping rule: the documentation ("not improved at least `tol` for
  `n_iter_no_change` consecutive iterations") and the code (counts batches whose loss does not *increase* by `tol`,
  and leaves only the batch loop) disagree in several ways at once; a repair changes training everywhere and is a
  maintainer's decision, so nothing is claimed about when training stops (P28 sets `n_iter_no_change` out of reach).
- The ground truth of cascade click models for three or more slots is approximate in the code by design; P18 claims two slots.
- `BanditEnvironmentSimulator` ignores `reward_type="continuous"`; only binary rewards are claimed (P25).
- Contexts and action draws share one seed stream in some generators; only independence of actions and rewards is claimed.
- `OpenBanditDataset` assumes the item file is in item-id order (its format), P21 assumes it too.
- Estimators with hyperparameter tuning keep the first hyperparameter they chose (`best_hyperparam`) for later calls, which lets the interval
  follow the point estimate; P04 therefore speaks of a freshly created estimator.
- Negative entries in evaluation distributions that still sum to one are not refused by the validators; P11 does not claim it.
- P31 leaves out checks the code does not document: `LinTS` and the logistic policies do not validate contexts, `IPWLearner.fit`
  takes the number of classes from the data, `check_cascade_dr_inputs` tolerates left-over predictions, and
  `OffPolicyEvaluation` does not compare the number of actions in `pi_b` with the policy's.
- The neural learners and `ContinuousOffPolicyEvaluation` write keys into dictionaries they are given (documented conventions); P29 leaves those out.

## False alarms corrected on the way

- P11: an oracle demanded that slate estimators refuse positions beyond `len_list`; they document no such check. Oracle corrected.
- P15: the oracle of sigmoid(0) used the wrong constant. Corrected.
- P20: a witness exactly on a cumulative boundary replayed on the other side because of rounding. Replays now use witnesses with a margin.
- P24: the ordering of saturated sigmoids differs in floating point; the oracle now uses the library's sigmoid (decided by P15).
- P04: with a score computed from rounded constants, two candidates tie in the reals and differ in the last bit in floating point; the oracle allows a tie within the tolerance and bounds the magnitudes.
"""
