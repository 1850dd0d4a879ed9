"""Writes /verif/properties.jsonl (single source of the property texts)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=(), observe=()):
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
              "anchors": {"files": files,
                          "state": [{"name": a, "meaning": b, "where": c} for a, b, c in state],
                          "mechanism": [{"name": a, "where": b} for a, b in mech],
                          "observe_at": list(observe), "hook_needed": None}})

p("C01", "Leaves partition feature space, in sample and out of sample",
  "In every tree reachable by any sequence of grow and prune moves, every row of finite covariates, training or unseen, belongs to exactly one leaf: the one found by walking from the root, left when the value is less than or equal to the split value and right when it is greater. "
  "The training rows a node holds are exactly the training rows routed to it, so the two children of a node always divide its rows without loss or overlap. "
  "Out-of-sample prediction of a tree returns, for each row independently, the value of that one leaf.",
  ["histories", "inputs"], "every grow/prune history, every covariate matrix and every unseen finite row",
  "The tests apply one or two hand-written splits to a 1-6 row matrix and never check unseen rows, repeated splits on one variable in different orders, or trees reached after prunes.",
  ["bartpy/splitcondition.py", "bartpy/split.py", "bartpy/data.py", "bartpy/node.py", "bartpy/tree.py"],
  [("interval intersection of conditions per variable", "splitcondition.CombinedVariableCondition.add_condition"), ("row mask of a split", "data.CovariateMatrix.update_mask"), ("out of sample routing", "tree.Tree._out_of_sample_predict")],
  [("mask", "rows not in the node", "data.Data"), ("min_value/max_value", "open-closed interval of a variable", "splitcondition.CombinedVariableCondition")],
  ["Split.condition", "Tree.predict"])
p("C02", "Cached node statistics always equal recomputation",
  "At every node, at every point of any history of splits, prunes, target replacements and earlier queries, the reported number of observations, target sum, set of splittable variables (those with at least two distinct values among the node's rows), column uniqueness, column maximum and proportion of an observed value in a column equal what is recomputed from scratch from the node's own rows and current targets.",
  ["histories", "inputs"], "every interleaving of splits, prunes, target updates and (cache filling) queries, on every small covariate matrix",
  "The caches are lazily filled and inherited by children, so an error only shows for particular orders of query, split and update; the tests look at single fixed orders.",
  ["bartpy/data.py", "bartpy/node.py"],
  [("cache inheritance on split", "data.Data.__add__"), ("count and sum carried to the right child", "node.split_node"), ("sum cache invalidation", "data.Target.update_y"), ("constant column detection", "data.is_not_constant")],
  [("_splittable_variables/_unique_columns/_max_value_cache", "lazy per-column caches", "data.CovariateMatrix"), ("_summed_y", "cached target sum", "data.Target")],
  ["node.data.X", "node.data.y"])
p("C03", "Tree proposals are valid, non-degenerate, complete and uniformly drawn",
  "From any tree the default proposer can produce exactly these moves: grow a leaf that has a non-constant variable, on such a variable, at an observed value below its maximum in that leaf (so both sides are non-empty); or prune a decision node whose two children are leaves. "
  "The kind is drawn with the configured grow/prune probabilities (the possible kind when the other is impossible), the leaf or prunable node uniformly, the variable uniformly among the leaf's non-constant ones and the value uniformly among the leaf's non-maximal observations. "
  "Proposing never changes the tree, and when no move exists at all the update leaves the tree as it is instead of failing.",
  ["histories", "inputs", "configurations"], "every reachable tree on every small covariate matrix, every outcome of every random draw, every grow/prune probability pair in the menu",
  "Two tests check types of one random proposal; none looks at the set or the probabilities of proposals, nor at leaves of two rows, duplicates, or unsplittable data.",
  ["bartpy/samplers/unconstrainedtree/proposer.py", "bartpy/data.py", "bartpy/samplers/scalar.py", "bartpy/tree.py"],
  [("rejection of the maximum", "data.CovariateMatrix.random_splittable_value"), ("retry with another kind", "UniformMutationProposer.propose"), ("uniform choice of node", "random_splittable_leaf_node / random_prunable_decision_node")],
  [], ["UniformMutationProposer.propose", "UnconstrainedTreeMutationSampler.step"])
p("C04", "Tree structure stays well formed under every sequence of moves",
  "After any sequence of applied moves a tree's node collection is exactly the set of nodes reachable from one root by child links, each listed once, every decision node has two children one level deeper, and the lists of leaves, decision nodes, prunable nodes and splittable leaves agree with that structure. "
  "Growing a leaf and pruning the result restores the previous partition and statistics. "
  "A disallowed move (pruning a leaf or a node with a non-leaf child, growing a decision node) is refused and leaves the tree unchanged.",
  ["histories"], "every sequence of grow and prune moves up to the depth bound, every disallowed move in every reachable tree",
  "The tests apply a single move to two fixed trees.",
  ["bartpy/tree.py", "bartpy/mutation.py", "bartpy/node.py"],
  [("node list surgery and relinking", "tree.mutate"), ("guards", "mutation.PruneMutation / GrowMutation"), ("prunability", "node.DecisionNode.is_prunable")],
  [("_nodes", "flat list of nodes", "tree.Tree"), ("_left_child/_right_child", "links", "node.TreeNode")],
  ["Tree.nodes", "Tree.leaf_nodes", "Tree.decision_nodes", "Tree.prunable_decision_nodes", "Tree.splittable_leaf_nodes"])
p("C05", "Predictions always reflect the current trees and leaf values",
  "At any point of any history of moves, leaf value changes, target updates and earlier predictions, a tree's training prediction gives every training row the current value of the leaf holding it, and a model's training prediction is the sum over its trees. "
  "Both equal the prediction obtained by passing the training covariates as new data.",
  ["histories"], "every sequence of moves, leaf value changes, target updates and predict calls up to the bound",
  "The prediction is cached and updated in place; no test calls in-sample predict at all.",
  ["bartpy/tree.py", "bartpy/model.py"],
  [("prediction cache", "tree.Tree.predict"), ("invalidation", "tree.Tree.update_y / tree.mutate")],
  [("_prediction/cache_up_to_date", "cached in sample prediction", "tree.Tree")],
  ["Tree.predict", "Model.predict"])
p("C06", "Backfitting: each tree is fitted to what the other trees leave unexplained",
  "Whenever a sweep hands out a tree, the target seen by all of that tree's nodes equals the training target minus the sum of the current predictions of all the other trees, whatever happened in earlier visits, sweeps, or between sweeps. "
  "The model's residuals always equal target minus the current total prediction, every tree is handed out exactly once per sweep in order, and a freshly built model's trees start at an equal share of the target.",
  ["histories"], "every history of tree changes during and between sweeps (including abandoned sweeps) up to the bound, 1-3 trees",
  "No test runs a sweep.",
  ["bartpy/model.py", "bartpy/tree.py", "bartpy/node.py", "bartpy/data.py"],
  [("running total of predictions", "model.Model.refreshed_trees"), ("target push down", "tree.Tree.update_y")],
  [("_prediction", "running total prediction", "model.Model")],
  ["Model.refreshed_trees", "Model.residuals"])
p("C07", "Tree updates satisfy detailed balance for the BART posterior",
  "With the noise level and the other trees fixed, for any two trees T and T' one move apart, posterior(T) * P(T to T') = posterior(T') * P(T' to T), where P is the probability of proposing and accepting the move in one default tree update. "
  "The posterior is the BART one: each node at depth d is split with prior probability alpha*(1+d)^(-beta) and each leaf unsplit with the complement, split rules are drawn uniformly as the proposer draws them, and leaf values are integrated out under Normal(0, sigma_mu^2) leaf priors, sigma_mu = 0.5/(k*sqrt(n_trees)), with Normal(0, sigma^2) noise. "
  "It holds for any data, noise level, alpha, beta, number of trees and grow/prune probabilities.",
  ["inputs", "histories", "configurations"], "every pair of adjacent trees on every small data set, a menu of parameters",
  "A test samples one move; correctness of the chain is a statement about all pairs of trees and exact probabilities.",
  ["bartpy/samplers/unconstrainedtree/likihoodratio.py", "bartpy/samplers/unconstrainedtree/treemutation.py", "bartpy/samplers/unconstrainedtree/proposer.py", "bartpy/model.py", "bartpy/samplers/treemutation.py"],
  [("likelihood, prior and transition ratio", "UniformTreeMutationLikihoodRatio"), ("Metropolis Hastings acceptance", "UnconstrainedTreeMutationSampler.sample")],
  [], ["UnconstrainedTreeMutationSampler.step", "get_tree_sampler"])
p("C08", "A proposal is applied exactly when log(u) is below its log ratio",
  "For both shipped tree samplers, given a proposed move with log probability ratio r (when several moves are proposed together, the sum of their ratios plus the log ratio for the kind of update) and a uniform draw u, the move is applied exactly once if log(u) < r and reported as the result; otherwise (including a ratio of minus infinity or an undefined one) nothing about the tree changes and no move is reported.",
  ["inputs", "configurations"], "every combination of ratio and draw in a grid including infinities and NaN, for every move of every small tree, both samplers",
  "No test runs an update step.",
  ["bartpy/samplers/unconstrainedtree/treemutation.py", "bartpy/samplers/oblivioustrees/treemutation.py", "bartpy/tree.py"],
  [("acceptance test", "UnconstrainedTreeMutationSampler.sample (both modules)"), ("application", "step -> mutate")],
  [], ["UnconstrainedTreeMutationSampler.step"])
p("C09", "Leaf values are drawn from their exact conjugate normal posterior",
  "Given the tree, the current target of a leaf's n rows with sum S, the noise level sigma and the leaf prior scale sigma_mu = 0.5/(k*sqrt(n_trees)), a leaf update with standard normal draw z sets the leaf to mean + sd*z with variance sd^2 = 1/(1/sigma_mu^2 + n/sigma^2) and mean = sd^2*S/sigma^2. "
  "Only that leaf changes.",
  ["inputs", "histories", "configurations"], "every leaf of every small tree, after any target updates, over a grid of sigma, k, number of trees and draws",
  "No test draws a leaf value.",
  ["bartpy/samplers/leafnode.py", "bartpy/model.py", "bartpy/node.py"],
  [("conjugate update", "LeafNodeSampler.sample"), ("prior scale", "Model.sigma_m")], [], ["LeafNodeSampler.step", "LeafNode.current_value"])
p("C10", "The noise level is drawn from its exact inverse gamma posterior",
  "A noise update draws the precision from a gamma distribution with shape alpha + n/2 and rate beta + half the sum of squared current residuals, and stores its inverse square root as the noise level on the normalized scale; multiplied by the range of the training target it is the noise level on the original scale. "
  "The residuals used are those of the current trees and leaf values, whatever happened before.",
  ["inputs", "histories", "configurations"], "every small data set, tree state and prior parameter in the grid, draws at several points",
  "No test draws sigma.",
  ["bartpy/samplers/sigma.py", "bartpy/sigma.py", "bartpy/model.py"],
  [("conjugate update", "SigmaSampler.sample"), ("rescaling", "Sigma.current_unnormalized_value")], [], ["SigmaSampler.step", "Sigma.current_value"])
p("C11", "Every sweep updates each tree, each current leaf and sigma once, in order",
  "A sweep visits each tree exactly once in order; for each tree it first updates the structure, then draws exactly once every leaf of the structure as it is after that update, while the tree's targets are the residuals of the other trees' current values; after all trees it draws the noise level exactly once from the resulting residuals. "
  "This holds whatever moves are accepted.",
  ["schedules", "histories"], "every pattern of accepted moves over 1-3 trees and 1-3 sweeps",
  "No test runs the schedule; it is a lazily evaluated generator of closures over loop variables.",
  ["bartpy/samplers/schedule.py", "bartpy/samplers/modelsampler.py", "bartpy/model.py"],
  [("step generator", "SampleSchedule.steps"), ("execution", "ModelSampler.step")], [], ["SampleSchedule.steps", "ModelSampler.step", "ModelSampler.samples"])
p("C12", "Burn-in, thinning and chains retain exactly the promised samples",
  "A chain runs n_burn sweeps that are never stored, then n_samples sweeps of which the fraction thin is stored: sample 0 and then each sample whose index first reaches the next multiple of 1/thin, that is floor((n_samples-1)*thin)+1 in all for thin in (0, 1]. "
  "Each stored model, acceptance entry and in-sample prediction belongs to the same sweep (predictions and acceptance only when requested), and fitting concatenates the chains' stored samples in order, none lost or repeated.",
  ["configurations"], "every n_burn, n_samples, thin, n_chains and storage flag in a grid",
  "No test runs sampling; the counts depend on floating point arithmetic of thin and on all combinations of settings.",
  ["bartpy/samplers/modelsampler.py", "bartpy/sklearnmodel.py", "bartpy/trace.py"],
  [("thinning", "ModelSampler.samples"), ("concatenation", "SklearnModel._combine_chains")], [], ["ModelSampler.samples", "SklearnModel.model_samples", "SklearnModel.acceptance_trace", "SklearnModel.prediction_samples"])
p("C13", "Stored posterior samples are frozen snapshots",
  "A stored sample reproduces the model at the moment it was taken (trees with their structure, split rules, depths and leaf values, noise level, prior parameters, and predictions for any covariates) and nothing that happens to the live model afterwards, nor to another stored sample, changes anything reachable from it.",
  ["histories"], "every sequence of later moves, leaf changes, target updates, sigma changes and further snapshots up to the bound",
  "Aliasing only shows after particular later updates; no test stores a sample.",
  ["bartpy/tree.py", "bartpy/node.py", "bartpy/model.py", "bartpy/trace.py"],
  [("copying", "tree.deep_copy_tree / node.deep_copy_node / model.deep_copy_model")], [], ["deep_copy_model", "TraceLogger", "SklearnModel.model_samples"])
p("C14", "Fitted prediction is the mean over all stored samples on the original scale",
  "After fitting, predict(X) is for every row the mean over every stored sample of every chain of the sum of its trees, mapped back to the target's original scale; rows do not influence each other and array and DataFrame input give the same result. "
  "Training prediction without X equals predict on the training covariates (and is refused when not stored), fit_predict agrees with predict, and residuals and squared errors are target minus prediction and its square.",
  ["inputs", "configurations", "histories"], "every pattern of accepted moves in short runs, over containers, chain counts and storage flags, all query rows of a grid",
  "No test fits the estimator.",
  ["bartpy/sklearnmodel.py", "bartpy/model.py", "bartpy/data.py"],
  [("averaging and rescaling", "SklearnModel.predict / _out_of_sample_predict"), ("errors", "SklearnModel.residuals / l2_error")], [], ["SklearnModel.predict", "SklearnModel.residuals", "SklearnModel.l2_error", "SklearnModel.fit_predict"])
p("C15", "Target normalization is invertible and fitting is equivariant to affine targets",
  "Normalizing maps the smallest target to -0.5 and the largest to 0.5, is affine in between, and un-normalizing recovers the original targets, for every target including integer, negative, huge or constant ones (constant targets map inside [-0.5, 0.5] and back to the constant). "
  "With the same random draws, fitting to a*y+b with a > 0 gives the same trees and a times the predictions plus b.",
  ["inputs"], "every target vector over a value grid up to length 4, several scales, offsets and dtypes",
  "One test normalizes 1..5.",
  ["bartpy/data.py", "bartpy/sklearnmodel.py", "bartpy/sigma.py"],
  [("normalization", "data.Target.normalize_y / unnormalize_y"), ("scale for sigma", "Target.normalizing_scale")], [], ["Data.y", "SklearnModel.predict"])
p("C16", "Fitting is isolated from its inputs, other fits and other estimators",
  "Fitting never modifies the caller's covariates, targets or base estimator, and changing them afterwards does not change the fitted model. "
  "Given the same random draws a fit depends only on its parameters and data: array, DataFrame, integer and float inputs with the same values agree, fitting again replaces every trace of the previous fit, and other estimators built or fitted before, in between or after make no difference.",
  ["histories", "inputs"], "every sequence of construct/fit/mutate input/predict operations up to the bound over containers and dtypes",
  "State shared between estimators (default arguments, caches, aliased arrays) needs particular sequences of fits; no test fits.",
  ["bartpy/sklearnmodel.py", "bartpy/data.py", "bartpy/model.py"],
  [("copies of input", "SklearnModel._convert_covariates_to_data"), ("fresh model per chain", "run_chain")], [], ["SklearnModel.fit", "SklearnModel.predict"])
p("C17", "Running one model on many data sets keeps results apart",
  "Running a model specification over lists of data sets returns, in order, one fitted model per data set holding exactly the samples of its own chains, its own data and scale, so each predicts as if it had been fitted alone with the same draws; the specification passed in is left unchanged.",
  ["inputs", "configurations"], "every number of data sets and chains up to the bound, spec fitted before or not, distinguishable data",
  "No test uses the runner.",
  ["bartpy/runner.py", "bartpy/sklearnmodel.py"],
  [("grouping of chains", "runner.convert_chains_models"), ("copy with samples", "SklearnModel.from_extract")], [], ["run_models"])
p("C18", "Initialization from a scikit-learn tree reproduces that tree",
  "Mapping a fitted scikit-learn regression tree onto an empty tree gives the same partition, the same leaf values and the same prediction for every row, with consistent node statistics and depths; the scikit-learn initializer leaves every tree of a model fitted to the residual of the trees initialized before it and never exceeds its configured depth.",
  ["inputs", "configurations"], "every small data set, depth limit and minimum split size, all query rows of a grid",
  "The only test of the mapping uses one random data set and fails with current scikit-learn; the initializer is never run.",
  ["bartpy/initializers/sklearntreeinitializer.py", "bartpy/initializers/initializer.py", "bartpy/model.py"],
  [("mapping", "map_sklearn_tree_into_bartpy"), ("initializer", "SklearnTreeInitializer.initialize_tree")], [], ["map_sklearn_tree_into_bartpy", "SklearnTreeInitializer", "Model"])
p("C19", "Residual extensions add BART to the base model",
  "The residual estimators (any scikit-learn base model, or a statsmodels model) fit the base model to the data and BART to the base model's training residuals, and predict base prediction plus BART prediction for given rows or, without rows, for the training rows; their training residuals are the original target minus that prediction. "
  "The estimator object passed in by the user is not fitted or altered.",
  ["inputs", "configurations"], "every small data set and base model in the menu, in and out of sample rows",
  "No test imports the extensions.",
  ["bartpy/extensions/baseestimator.py", "bartpy/extensions/ols.py"],
  [("residual fit and sum", "ResidualBART.fit / predict"), ("residual fit and sum", "OLS.fit / predict")], [], ["ResidualBART", "OLS"])
p("C20", "Split proportions and feature selection are exact",
  "The split proportion of a variable is the number of splits on it divided by the number of all splits, over all trees of all stored samples (0 for unused variables; they sum to 1 when there is any split). "
  "Selection thresholds are the requested quantile (0 to 1) of the null distribution per variable, or of the per-permutation maximum for the global method, a variable is kept exactly when its proportion exceeds its threshold, and a fitted selector's mask has one entry per column in column order.",
  ["inputs", "configurations"], "every multiset of small trees over 2-3 variables, every small null distribution and percentile in the grid",
  "No test covers diagnostics or feature selection.",
  ["bartpy/diagnostics/features.py", "bartpy/features/featureselection.py"],
  [("counting", "feature_split_proportions"), ("thresholds", "local_thresholds / global_thresholds"), ("mask", "is_kept / _get_support_mask")], [], ["feature_split_proportions", "local_thresholds", "global_thresholds", "is_kept", "kept_features", "SelectNullDistributionThreshold", "SelectSplitProportionThreshold"])
p("C21", "Permutation importance scrambles one column and scores held-out rows",
  "The null distribution has one error per fold and permutation, each from a model trained on that fold's training rows with only the chosen column permuted and scored on the fold's held-out rows with their own targets; the baseline has one error per fold from the unpermuted data. "
  "The split-proportion null permutes only the target. The caller's data and model are not modified.",
  ["inputs", "configurations"], "every row count, fold count, column and number of permutations in the grid, recorded model calls",
  "No test covers feature importance.",
  ["bartpy/features/featureimportance.py", "bartpy/diagnostics/features.py"],
  [("permutation and folds", "null_rmse_distribution"), ("baseline", "original_model_rmse"), ("target permutation", "null_feature_split_proportions_distribution")], [], ["feature_importance", "null_rmse_distribution", "original_model_rmse", "null_feature_split_proportions_distribution"])
p("C22", "The oblivious tree sampler keeps trees well formed and predictions consistent",
  "Under the oblivious sampler every accepted grow splits every leaf by one level and every accepted prune removes every node whose children are both leaves; the tree stays well formed, every row of finite covariates is covered by a leaf, node statistics equal recomputation, a splittable leaf is split into two non-empty parts, and training prediction equals out-of-sample prediction on the training covariates.",
  ["histories", "inputs"], "every sequence of accepted proposals up to the depth bound with every outcome of the random draws on small data",
  "No test imports the oblivious sampler.",
  ["bartpy/samplers/oblivioustrees/proposer.py", "bartpy/samplers/oblivioustrees/treemutation.py", "bartpy/samplers/oblivioustrees/likihoodratio.py"],
  [("simultaneous moves", "grow_mutations / prune_mutations"), ("application in sequence", "UnconstrainedTreeMutationSampler.step")], [], ["oblivioustrees.treemutation.get_tree_sampler"])
p("C23", "Chains do not interfere when run by concurrent threads",
  "When joblib runs the chains of a fit on concurrent threads, under every interleaving each chain samples its own model with its own noise level from start to finish, no draw is delivered to two chains, no chain fails, and the fit returns every chain's samples once.",
  ["schedules"], "all interleavings of two chains at line granularity in the shared-state code up to the preemption bound",
  "The tests are single threaded; the races need a switch between two particular lines.",
  ["bartpy/sklearnmodel.py", "bartpy/samplers/scalar.py"],
  [("per chain model", "sklearnmodel.run_chain / _construct_model"), ("cache refill", "scalar.*.sample")],
  [("model/data/sigma attributes", "shared estimator state written by every chain", "sklearnmodel.SklearnModel"), ("_cache", "prefetched draws", "samplers.scalar")],
  ["run_chain", "SklearnModel.fit"])
p("C24", "Every prefetched random draw is used exactly once",
  "The cached scalar samplers hand out each draw obtained from the random generator exactly once, never reuse or invent one, and ask for more only when all previous ones have been used; the discrete sampler draws with the configured probabilities (uniform when none are given). "
  "Two independently built samplers never share draws, and a copy of a sampler (copied, or pickled to a worker process) never repeats draws held by the original.",
  ["histories", "configurations"], "every cache size and number of calls up to the bound, interleavings of several samplers",
  "No test covers the scalar samplers.",
  ["bartpy/samplers/scalar.py"],
  [("cache", "NormalScalarSampler / UniformScalarSampler / DiscreteSampler")], [("_cache", "remaining draws", "samplers.scalar")], ["*.sample"])
p("C25", "Recorded acceptance rates equal the fraction of trees changed",
  "When requested, the acceptance trace has one entry per stored sample, which gives exactly the fraction of trees whose structural update was accepted in that sweep.",
  ["histories", "configurations"], "every accept/reject pattern over up to 3 trees and 3 sweeps",
  "No test stores an acceptance trace.",
  ["bartpy/samplers/modelsampler.py", "bartpy/trace.py", "bartpy/samplers/unconstrainedtree/treemutation.py"],
  [("aggregation", "ModelSampler.step"), ("logging of moves", "TraceLogger")], [], ["ModelSampler.samples", "SklearnModel.acceptance_trace"])
p("C26", "Fitting works on every small finite data set, however degenerate",
  "For every finite numeric covariate matrix with at least one row and one column and every finite target whose range does not overflow (constant columns, duplicated rows, a single row, two rows, constant targets), fitting and predicting terminate and give finite predictions, trees are only ever split where rows differ, and with a constant target every prediction is that constant; an empty covariate matrix is refused with a ValueError.",
  ["inputs", "configurations"], "every covariate matrix and target over a small value grid up to 3-4 rows, every accept/reject pattern of a short run",
  "Tests use one well-behaved matrix each and never fit.",
  ["bartpy/sklearnmodel.py", "bartpy/data.py", "bartpy/samplers/unconstrainedtree/proposer.py", "bartpy/samplers/leafnode.py"],
  [("proposal retry", "UniformMutationProposer.propose"), ("normalization", "Target.normalize_y"), ("input validation", "SklearnModel._construct_model")], [], ["SklearnModel.fit", "SklearnModel.predict"])
p("C27", "Estimator parameters survive get_params, set_params and clone and take effect",
  "For every constructor parameter of the estimator, its residual extensions and the feature selectors, reading parameters gives back what was set, cloning yields an unfitted object with equal parameters that shares no state with the original, and a value set at construction or later through set_params (also through a pipeline or grid search) is the one the next fit uses.",
  ["configurations", "histories"], "every constructor parameter crossed with every way of setting it (constructor, set_params, clone) and of observing its effect",
  "No test constructs the estimator or a selector.",
  ["bartpy/sklearnmodel.py", "bartpy/extensions/baseestimator.py", "bartpy/extensions/ols.py", "bartpy/features/featureselection.py"],
  [("parameter storage", "SklearnModel.__init__"), ("schedule construction", "SklearnModel.__init__"), ("parameter storage", "SelectNullDistributionThreshold.__init__ / fit")], [], ["SklearnModel.get_params", "SklearnModel.set_params", "sklearn.base.clone"])
p("C28", "Diagnostic plots show the fitted model's own values",
  "The diagnostic plots draw exactly what the fitted model holds: one point per stored sample, in stored order, for the noise level (on the sampler's normalized scale), the acceptance rate and the smallest, mean and largest node depth; each training row's residual (actual target minus prediction, for the residual extensions too) against its fitted value, standardized against normal quantiles, and by row; the predictions beside the actual targets; each variable's proportion of splits under its own name, against its own threshold (in percent, passed green, failed red), and the null distribution per variable. "
  "A plot given axes draws on those axes only, a plot without axes draws on new ones, and plotting changes neither the model nor its arguments.",
  ["inputs", "configurations"], "every scripted chain, target, estimator and axes mode in the grid, every small table of proportions, thresholds and null distributions",
  "No test imports the plots.",
  ["bartpy/diagnostics/diagnostics.py", "bartpy/diagnostics/features.py", "bartpy/diagnostics/residuals.py", "bartpy/diagnostics/sampling.py", "bartpy/diagnostics/sigma.py", "bartpy/diagnostics/trees.py", "bartpy/plotting.py"],
  [("depth per sample", "plot_tree_depth"), ("residuals", "plot_qq / plot_homoskedasity_diagnostics / plot_residuals"), ("thresholds", "plot_feature_proportions_against_thresholds")], [], ["plot_diagnostics", "plot_*"])
p("C29", "Oblivious level updates satisfy detailed balance for the BART posterior",
  "With the noise level and the other trees fixed, for any two trees T and T' one level apart that the oblivious sampler can reach from a single leaf, posterior(T) * P(T to T') = posterior(T') * P(T' to T), where P is the probability of proposing and accepting the whole level in one oblivious update, including that the only possible kind of update is always the one proposed. The posterior is the BART one of the default sampler; the levels that the sampler adds below a leaf that cannot be split stand for the same leaf, so they change neither the fit nor the posterior. It holds for any data, noise level, alpha, beta, number of trees and grow/prune probabilities.",
  ["inputs", "histories", "configurations"], "every pair of trees one level apart on every small data set, a menu of parameters",
  "No test imports the oblivious sampler; correctness of the chain is a statement about all pairs of trees and exact probabilities.",
  ["bartpy/samplers/oblivioustrees/likihoodratio.py", "bartpy/samplers/oblivioustrees/treemutation.py", "bartpy/samplers/oblivioustrees/proposer.py", "bartpy/samplers/treemutation.py"],
  [("ratio of each split of a level", "UniformTreeMutationLikihoodRatio"), ("ratio of the kinds of update", "UniformTreeMutationLikihoodRatio.log_method_ratio"), ("acceptance of a level", "UnconstrainedTreeMutationSampler.sample")], [], ["oblivioustrees.treemutation.get_tree_sampler"])
p("C30", "Extension points of the lower level API are honoured",
  "A sampling run performs exactly the steps a (custom) schedule yields, each once, in order and before the next is asked for, in every sweep including burn-in. A custom trace logger decides what is kept: its function for a kind of step gets each step's result, its model and in-sample-prediction functions are called once at the end of each retained sweep (predictions only when requested), what they return is stored as it is and in order, None is not stored, and an acceptance entry holds for each kind of step the fraction of true values logged in that sweep. A proposer given a lookup of methods uses exactly these with their probabilities. A custom initializer is given each tree of each new model once, in order, at the residual of the trees before it, and the model starts from what it built.",
  ["histories", "configurations", "inputs"], "every short schedule, every pattern of logged values, every menu of proposal methods and probabilities, every assignment of initial trees",
  "Tests never replace a schedule, logger, proposal method or initializer.",
  ["bartpy/samplers/modelsampler.py", "bartpy/samplers/schedule.py", "bartpy/trace.py", "bartpy/samplers/unconstrainedtree/proposer.py", "bartpy/initializers/initializer.py", "bartpy/model.py", "bartpy/sklearnmodel.py"],
  [("steps of a sweep", "ModelSampler.step"), ("what is stored", "ModelSampler.samples / TraceLogger"), ("proposal methods", "UniformMutationProposer.__init__ / propose"), ("initialization", "Model.__init__ / Initializer.initialize_trees")], [], ["ModelSampler", "SampleSchedule", "TraceLogger", "UniformMutationProposer", "Initializer"])
p("C31", "Copies of models and estimators are faithful and independent",
  "A deep copy, a pickled copy or a copy saved to and loaded from a file of a live model, of a stored sample, of a new or fitted estimator, residual extension or feature selector holds the same parameters, trees, statistics, leaf values, noise level, data, samples and predictions as the original. Doing the same to both on the same draws (moves, value changes, target updates, sweeps, fits, changed parameters) keeps them equal, and nothing done to one changes the other.",
  ["histories", "configurations"], "every small tree and model, every way of copying, every operation afterwards on either side; every pair of operations on estimators",
  "Tests copy nothing but a tree or two.",
  ["bartpy/model.py", "bartpy/tree.py", "bartpy/node.py", "bartpy/data.py", "bartpy/splitcondition.py", "bartpy/sklearnmodel.py", "bartpy/samplers/scalar.py", "bartpy/features/featureselection.py"],
  [("links between nodes", "TreeNode"), ("caches", "CovariateMatrix / Target / Tree"), ("operators compared by identity", "SplitCondition"), ("fitted state", "SklearnModel")], [], ["copy.deepcopy", "pickle.dumps", "joblib.dump"])
if __name__ == "__main__":
    out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
    with open(out, "w") as f:
        for r in P:
            f.write(json.dumps(r) + "\n")
