"""Source of truth for properties.jsonl and MANIFEST.json.  Run: python3 /verif/tools/props.py"""
import json, os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(id, title, statement, over, text, why, files, mechanism, observe, technique, note):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why,
                  files=files, mechanism=mechanism, observe=observe, technique=technique, note=note))


G = "effector/global_effect.py"
A = "effector/global_effect_ale.py"
PD = "effector/global_effect_pdp.py"
S = "effector/global_effect_shap.py"
U = "effector/utils.py"
B = "effector/bin_splitting.py"
BM = "effector/binning_methods.py"
R = "effector/regional_effect.py"
RA = "effector/regional_effect_ale.py"
RP = "effector/regional_effect_pdp.py"
RS = "effector/regional_effect_shap.py"
PT = "effector/partitioning.py"
V = "effector/visualization.py"
H = "effector/helpers.py"
I = "effector/interaction.py"

TR = ("Trusts numpy/scipy/shap, the naive reference in /verif/vlib/ref.py and the stated numeric tolerances; "
      "exploration of generated inputs only, no absence proof.")

prop("C01", "PDP and ICE curves equal their definition",
     "Uncentered PDP evaluated at any query points equals the average, over the instances inside the axis limits of that feature, of the model output with the feature replaced by the query value; the ICE matrix holds exactly those per-instance outputs (one column per instance, in data order) and the heterogeneity is their population standard deviation. "
     "The vectorized and the non-vectorized computation agree, for the one-feature partial dependence functions (model outputs and Jacobians) and the multi-feature ones (model outputs).",
     ["inputs", "configurations"],
     "Every data set, deterministic model, feature, vector of query points (unsorted, repeated, outside the data range, of length one), axis limits and vectorization flag.",
     "The tests evaluate PDP on three hand-written models with fixed uniform data; they never use custom axis limits, query points out of order, the ICE matrix or the multi-feature functions.",
     [PD, G, H], [{"name": "vectorized / looped partial dependence", "where": PD}, {"name": "dropping instances outside axis limits", "where": PD}],
     ["PDP.eval(heterogeneity, return_all, use_vectorized)", "partial dependence helper functions"],
     "Hypothesis PBT: differential against a naive per-point reference", TR)

prop("C02", "d-PDP and d-ICE curves equal the averaged model derivative",
     "Uncentered d-PDP evaluated at any query points equals the average over the instances inside the axis limits of the model's partial derivative with respect to the feature at the query value; d-ICE holds the per-instance derivatives and heterogeneity is their population standard deviation. "
     "With a Jacobian supplied the values are exactly that Jacobian's column; without one they agree with the true derivative up to finite-difference error, on both the vectorized and the non-vectorized path.",
     ["inputs", "configurations"],
     "Every data set, differentiable model with or without Jacobian, feature, query points, axis limits, vectorization flag.",
     "Tests check the d-PDP of two fixed models at a handful of points with loose tolerance, always on the default axis limits.",
     [PD], [{"name": "derivative branch of partial dependence", "where": PD}], ["DerPDP.eval"],
     "Hypothesis PBT: differential against analytic derivatives", TR)

prop("C03", "Centering only shifts curves and normalises them as documented",
     "For all five global methods centering shifts the uncentered effect by a constant: 'zero_start' makes the effect zero at the start of the axis (the smallest data value for SHAP-DP) and True/'zero_integral' makes its mean along the axis zero. "
     "For PDP and d-PDP each ICE curve is centered on its own, with the number of centering points the user asked for, and heterogeneity is that of the centered curves; for the other methods heterogeneity is unaffected by centering.",
     ["inputs", "configurations"],
     "Every method, data set, model, feature, centering mode, number of centering points and query vector.",
     "The tests compare centered curves of three models to closed forms; no test relates the centering modes to each other or varies the centering points.",
     [G, A, PD, S, "effector/utils_integrate.py"], [{"name": "normalisation constants", "where": A}, {"name": "per-ICE norm constants", "where": PD}, {"name": "spline norm constant", "where": S}],
     ["eval(centering=...) of every global method"],
     "Hypothesis PBT: metamorphic relations and reference norm constants", TR)

prop("C04", "ALE equals its definition on any data",
     "The ALE effect is the accumulation, from the left-most bin edge, of the per-bin average of finite differences: each instance inside the axis limits contributes the model's change between its own bin's right and left edge divided by that bin's width; empty bins take the linear interpolation of their neighbours and evaluation is constant outside the bins. "
     "Heterogeneity is the accumulated within-bin standard deviation of those local effects (bins with fewer than two points interpolated).",
     ["inputs", "configurations"],
     "Every data set (continuous, discrete, clustered with empty bins, unevenly spaced categories), model, axis limits, number of bins, query points.",
     "Tests use uniform data with equally wide non-empty bins only, so unequal widths, empty bins, boundary points and outside queries are never reached.",
     [A, U, B], [{"name": "local effects", "where": U}, {"name": "bin aggregation and accumulation", "where": U}],
     ["ALE.fit/eval, fitted bin limits/effects/variances"],
     "Hypothesis PBT: differential against a naive ALE reference", TR)

prop("C05", "RHALE accumulates the given derivatives bin by bin",
     "For any binning, the RHALE effect is the accumulation of the per-bin mean of the instances' derivatives along the feature and its heterogeneity the accumulation of their within-bin standard deviations, with interpolation for bins that have no (or one) point and constant extension outside. "
     "Derivatives come from the supplied data effects if given, else the supplied Jacobian, else numerical differentiation, and the three routes agree for models where they must.",
     ["inputs", "configurations"],
     "Every data set, model with analytic Jacobian, binning method and parameters, axis limits, derivative source, query points.",
     "Tests cover three models with one analytic Jacobian and default binning; other derivative sources, axis limits and sparse bins are not exercised.",
     [A, U], [{"name": "choice of derivative source", "where": A}, {"name": "bin aggregation and accumulation", "where": U}], ["RHALE.fit/eval"],
     "Hypothesis PBT: differential against a naive accumulation reference", TR)

prop("C06", "Every produced binning is a valid partition with enough points",
     "For Fixed, Greedy and DynamicProgramming the bin edges are strictly increasing, start and end at the feature's axis limits, number at most the requested bins, and every bin holds at least the requested minimum of points (a point on a shared edge counts for both its bins); Fixed bins have equal width. "
     "A feature with no more unique values than the categorical limit gets one bin per value with edges midway between neighbouring values (outer edges half a gap outside); when no such binning exists (constant feature, too few points) the method reports failure instead of returning an invalid binning.",
     ["inputs", "configurations"],
     "Every data set, derivative scale, axis limits, binning method and parameters (bins, minimum points, discount, categorical limit).",
     "Tests compare Greedy and DP on a few piecewise-constant signals with known break points; no test checks the minimum-points or coverage guarantees on arbitrary data.",
     [B, BM], [{"name": "Fixed/Greedy/DP search", "where": B}, {"name": "minimum points and categorical rule", "where": B}], ["binning limits", "fitted limits and points per bin"],
     "Hypothesis PBT: validity predicates over produced binnings", TR)

prop("C07", "Automatic binning optimises its stated cost",
     "DynamicProgramming binning attains the minimum, over all partitions of the uniform grid into at most the allowed number of bins that respect the minimum number of points, of the summed bin cost: variance of the derivatives in the bin times bin width times (1 - discount * fraction of points in the bin). "
     "Greedy binning closes a bin at a grid edge exactly when extending it by one grid cell would increase the same cost (both candidate bins having enough points).",
     ["inputs", "configurations"],
     "Every data set, derivative values, grid size, minimum points and discount.",
     "Tests check only signals whose optimal partition is obvious; optimality over all partitions needs comparison with exhaustive search on arbitrary inputs.",
     [B, BM], [{"name": "dynamic programming over bin edges", "where": B}, {"name": "greedy merge rule", "where": B}], ["binning limits"],
     "Hypothesis PBT: exhaustive-search oracle for DP, decision-rule oracle for Greedy", TR)

prop("C08", "SHAP-DP uses exact Shapley values and fits their spline",
     "For models with few features the per-instance SHAP values used by SHAP-DP are the exact Shapley values of the value function that averages the model over the explained instances, sorted by the feature value and paired with it; instances outside the feature's axis limits take no part. "
     "The curve is the default smoothing spline of these pairs (of the degree the distinct values determine when there are two or three; instances sharing a value act through their mean and number) and the heterogeneity that of the absolute residuals; both are finite for every data set with two distinct values.",
     ["inputs"],
     "Every data set of up to the explainer's background size, model of up to four features, feature, axis limits, query points.",
     "The tests compare SHAP-DP to closed forms for two models; the pairing, sorting and spline on arbitrary data are not tested.",
     [S], [{"name": "Shapley values and spline fit", "where": S}], ["ShapDP.eval, fitted SHAP values"],
     "Hypothesis PBT: differential against exact Shapley enumeration", TR)

prop("C09", "Additive models are recovered exactly and show no heterogeneity",
     "For a model that is a sum of one-feature functions, PDP, d-PDP, ALE, RHALE and SHAP-DP all describe the feature's own function (up to a constant and each method's discretisation; exactly for linear terms) and report zero heterogeneity for PDP when centered, for d-PDP always, for ALE wherever the local effects of a bin agree (linear terms always, and every additive model, as all instances of a bin share its edges) and for RHALE on linear terms. "
     "A feature the model ignores gets a flat effect with zero heterogeneity, and no regional method accepts a split of a feature without heterogeneity (for the uncentered regional PDP: of a model that uses only that feature).",
     ["inputs", "programs"],
     "Every additive or linear model, data set (correlated, discrete, unevenly spaced) and feature.",
     "The linear test uses one coefficient vector and uniform continuous data.",
     [PD, A, S, PT], [{"name": "all effect estimators", "where": "effector/"}], ["eval of every global method", "regional trees"],
     "Hypothesis PBT: model-family oracle (known ground truth)", TR)

prop("C10", "Results do not depend on the history of earlier calls",
     "On one object, the answer to eval, fit-then-eval or plot for a feature depends only on the constructor arguments, the last explicit fit of that feature and the query: other features' queries, earlier centering modes, plots and repeated calls change nothing. "
     "In particular binning and centering options given to fit stay in force when a later query needs a different centering, and a regional object refitted with other options answers as a fresh one would.",
     ["histories"],
     "Every sequence of fit, eval, plot and (for regional methods) partition-reporting calls over features, centering modes and options.",
     "Each test makes one or two calls per object; no test replays interleaved histories against a fresh object.",
     [G, A, PD, S, R, RA], [{"name": "refit decision and stored fit arguments", "where": G}, {"name": "cached feature effects and trees", "where": R}], ["eval results after arbitrary histories"],
     "Hypothesis stateful-style PBT: random call histories against a fresh-object model", TR)

prop("C11", "Caller's inputs are never modified and full-data results are deterministic",
     "No constructor, fit, eval, plot or report changes the caller's data, Jacobian, axis limits, feature names, query points, scaling dictionaries or binning objects. "
     "With nof_instances='all', two runs on the same input give identical results whatever the state of the global random generator.",
     ["inputs", "histories", "configurations"],
     "Every public class, method sequence and argument.",
     "No test compares arguments before and after a call, nor repeats a run under a different random state.",
     [G, R, U, PD], [{"name": "copies made before substituting features", "where": PD}, {"name": "instance selection", "where": H}], ["arguments before/after", "results under different RNG states"],
     "Hypothesis PBT: before/after snapshot oracle and repeat-run differential", TR)

prop("C12", "Effects respect symmetries of data and model",
     "Permuting rows, renaming/permuting columns, duplicating the data set, converting data to another numeric type, adding a constant to the model or scaling its output changes every global effect exactly as the definition says (unchanged, relabelled, shifted, scaled); the PDP, ALE and RHALE of a sum of models is the sum of their effects on common bins. "
     "Query points are evaluated independently: the effect at a point does not depend on which other points are asked for.",
     ["inputs"],
     "Every data set, model pair, permutation, affine output map, numeric type and query vector.",
     "Metamorphic relations between runs are not expressed in any test.",
     [G, A, PD, S, U], [{"name": "all effect estimators", "where": "effector/"}], ["eval of every global method"],
     "Hypothesis PBT: metamorphic relations", TR)

prop("C13", "nof_instances selects a subset of distinct rows, consistently",
     "With an integer nof_instances smaller than the data set, each method explains exactly that many distinct rows of the data (all rows if it is larger or 'all'), together with their own derivatives when these were supplied; the published result equals the one computed on just those rows. "
     "Inferred axis limits, average output and all statistics are those of the selected rows (of the full data for regional axis limits), and an invalid value is rejected.",
     ["inputs", "configurations"],
     "Every method, data size and nof_instances value, under any random state.",
     "Tests only use the defaults or 'all'.",
     [G, A, S, R, H], [{"name": "instance selection", "where": H}], ["object's data, eval equality with a fresh object on the selected rows"],
     "Hypothesis PBT: subset oracle plus differential re-run on the chosen rows", TR)

prop("C14", "Subregions partition the data exactly as their rules say",
     "In every regional tree the root holds all used instances, each level's nodes partition them, and every node holds exactly the instances of its parent that satisfy its displayed condition (<=, >, ==, != at the split position), with its own derivatives row by row. "
     "Node counts and weights (fraction of all instances), levels, parents, indices and names are consistent with that, the pruned tree is a top part of the full tree, and only allowed conditioning features are used, at most the requested depth deep.",
     ["inputs", "configurations"],
     "Every data set (with ties at split positions, categorical features, user-declared types), model, regional method, depth, candidate number and conditioning features.",
     "The regional test checks only that fitting and evaluating node 5 works without error on one data set.",
     [PT, R], [{"name": "splitting a data set", "where": PT}, {"name": "building trees from splits", "where": PT}], ["regional trees, node data and derivatives"],
     "Hypothesis PBT: invariants over the tree recomputed from the published rules", TR)

prop("C15", "Each accepted split is the best candidate by weighted heterogeneity",
     "Heterogeneity reported for a node is the regional method's documented measure on that node's instances, and at each level the chosen (feature, position) maximises the population-weighted (instances plus one) heterogeneity drop over all candidates: observed values of categorical features and the equally spaced interior positions of numerical ones, the same split being applied to every node of the level. "
     "Candidates leaving a subregion with too few instances are never preferred to valid ones.",
     ["inputs", "configurations"],
     "Every data set, model, regional method (PDP, d-PDP, ALE, RHALE, SHAP), candidate count and depth.",
     "No test compares the chosen split with any alternative.",
     [PT, RA, RP, RS], [{"name": "exhaustive level-wise split search", "where": PT}, {"name": "heterogeneity functions", "where": RP}], ["full regional tree"],
     "Hypothesis PBT: brute-force search oracle with tie tolerance", TR)

prop("C16", "Pruning keeps exactly the leading important levels",
     "The pruned tree consists of the leading levels of the full tree whose relative drop of weighted heterogeneity exceeds the threshold, stopping at the first that does not; it is only the root when the initial heterogeneity is below the 'small enough' threshold. "
     "Raising either threshold never enlarges the pruned tree.",
     ["inputs", "configurations"],
     "Every heterogeneity profile, both thresholds and depth.",
     "Default thresholds on one data set only.",
     [PT, R], [{"name": "choice of important splits", "where": PT}], ["pruned versus full tree"],
     "Hypothesis PBT: rule recomputed from the full tree, monotonicity relation", TR)

prop("C17", "Accepted subregions have the minimum size at any output scale",
     "No node of a pruned regional tree has fewer instances than min_points_per_subregion, and no accepted split makes heterogeneity worse, whatever the scale of the model output or of the features. "
     "Rescaling the model output (with the absolute heterogeneity threshold rescaled alike) leaves the accepted subregions unchanged.",
     ["inputs", "configurations"],
     "Every data set, output scale from tiny to very large, minimum size, depth and regional method.",
     "Only unit-scale outputs are tested.",
     [PT, RA, RP, RS, H], [{"name": "sentinel heterogeneity of invalid subregions", "where": PT}], ["pruned trees"],
     "Hypothesis PBT: invariant plus metamorphic rescaling", TR)

prop("C18", "A regional effect is the global effect on the subregion's instances",
     "Evaluating a regional effect at any node of the accepted tree equals evaluating the corresponding global method on exactly that node's instances (and derivatives), for every centering mode and with or without heterogeneity; the root therefore equals the global effect. "
     "Evaluating a node that does not exist, or a feature that has no tree, is rejected.",
     ["inputs", "configurations"],
     "Every regional method, data set, model, node, centering mode and query vector.",
     "One node of one tree is evaluated without checking the values.",
     [R, PT], [{"name": "creation of the node's global method", "where": R}, {"name": "node lookup", "where": R}], ["Regional*.eval"],
     "Hypothesis PBT: differential against the global method on node data", TR)

prop("C19", "Plots draw the evaluated effect in the requested units",
     "The curve drawn by plot of each global method is its eval on the plotted grid, after x -> x*std+mean and y -> y*std+mean scaling (y -> y*std for d-PDP and for spreads); ICE curves, std bands, SHAP scatter, bin bars and error bars, the average-output line, axis labels and axis limits show the corresponding computed quantities. "
     "Each of scale_x and scale_y works alone or together with every heterogeneity and centering option.",
     ["inputs", "configurations"],
     "Every global method, plot option combination and scaling.",
     "No test calls any plot function.",
     [V, A, PD, S], [{"name": "drawing and unit transforms", "where": V}], ["matplotlib artists after plot"],
     "Hypothesis PBT: drawn artists compared with independently evaluated effects", TR)

prop("C20", "Regional plots show the node's effect and its rule in user units",
     "A regional plot of a node draws the effect of the same regional method on that node's instances with the fitted options, in the requested units, and labels the x axis with the node's condition and the y axis with the target; with scaling the positions in the label are the scaled split positions, without scaling the raw ones, and labels always belong to the latest fit. "
     "Plotting with scaling changes nothing in later evaluations.",
     ["inputs", "configurations", "histories"],
     "Every regional method, node, scaling list and order of fit/plot calls.",
     "No test calls a regional plot.",
     [R, RA, PT], [{"name": "regional plotting and scaled trees", "where": R}, {"name": "node names", "where": PT}], ["matplotlib artists", "node names"],
     "Hypothesis PBT: drawn artists compared with an independent evaluation on node data", TR)

prop("C21", "Partition reports state the facts of the fitted tree",
     "The printed partition tree, per-level statistics and subregion description agree with the fitted (full or pruned) tree: node ids, names, heterogeneity, instance counts, weights, level heterogeneity and drops, split feature, type, position (scaled when asked) and counts before/after. "
     "Features without (important) splits are reported as such.",
     ["inputs", "configurations"],
     "Every fitted tree, report kind, only_important flag and scaling.",
     "No test reads the printed reports.",
     [R, PT], [{"name": "show_partitioning / describe_subregions", "where": R}, {"name": "tree printing", "where": PT}], ["stdout of the report functions"],
     "Hypothesis PBT: parsed report compared with the tree", TR)

prop("C22", "Interaction indices equal their definitions",
     "The pairwise H-index equals the mean squared difference between the centered two-feature partial dependence and the sum of the centered one-feature ones, relative to the former, at the data points; the one-vs-all H-index relates the model to feature plus all-other-features partial dependence; model output is centered like the partial dependences, both matrices are symmetric, computed once and independent of query order. "
     "The REPID index equals the mean, over the 20 cell midpoints of the feature's range, of the standard deviation of ICE curves started at zero; all indices vanish for additive models up to numerical error.",
     ["inputs"],
     "Every data set, model and feature pair.",
     "The interaction module has no tests.",
     [I, PD], [{"name": "H-index and REPID", "where": I}], ["HIndex/REPID eval_* and matrices"],
     "Hypothesis PBT: differential against naive definitions", TR)

prop("C23", "Results are equivariant under changes of units of a feature",
     "Re-expressing a feature in other units (x -> a*x+b with a>0, from tiny to astronomically large values) and composing the model and its Jacobian accordingly leaves PDP, ALE, RHALE and SHAP-DP effects at corresponding points unchanged, scales d-PDP by 1/a, and maps bin edges by the same rule. "
     "No internal absolute constant may distort, reject or crash on such data (derivative-based methods with the Jacobian supplied: numerical differentiation has a documented absolute step).",
     ["inputs"],
     "Every data set, model, feature and affine unit change.",
     "All tests use features in [-1, 1].",
     [U, A, B, H], [{"name": "bin assignment and accumulation", "where": U}], ["eval of the global methods before/after unit change"],
     "Hypothesis PBT: metamorphic unit-change relation", TR)

prop("C24", "Documented options are accepted and everything else is rejected",
     "Every documented value of every option of every class (binning names and objects, centering modes, nof_instances, centering points including 'all', axis limits, candidate features, heterogeneity display) is accepted and yields arrays of the documented shape with finite values for non-degenerate data. "
     "Undocumented values, impossible binnings, constant features and non-2D data raise an exception instead of returning a number.",
     ["configurations", "inputs"],
     "Every class, option value and shape of valid data, including tiny data sets.",
     "Tests exercise about one option combination per class.",
     [G, A, PD, S, H, R, RA, RP, RS], [{"name": "argument preparation", "where": H}], ["constructor, fit, eval, plot outcomes"],
     "Hypothesis PBT: option-grammar fuzzing with accept/reject oracle", TR)

prop("C25", "Categorical features are recognised and treated consistently",
     "A feature is categorical for partitioning exactly when declared so or, undeclared, when it has fewer unique values than the limit; categorical conditioning features are split by equality with one of their observed values and numerical ones at interior positions by order; a categorical feature of interest is partitioned only when asked. "
     "User-declared types override inference for any number of categories.",
     ["inputs", "configurations"],
     "Every mixture of discrete and continuous features, limits, declared types and numbers of categories.",
     "The tests' data are all continuous.",
     [PT, U, R], [{"name": "feature type inference", "where": U}, {"name": "candidate positions by type", "where": PT}], ["feature types, trees and split positions"],
     "Hypothesis PBT: rule recomputed from the data", TR)

prop("C26", "Documented building blocks honour their contracts on any input",
     "The documented helper functions - local effects, point filtering, per-bin mean and variance, NaN filling, accumulated effects, ALE parameters, numerical Jacobian, numerical integrals, argument preparation - return what their formulas state for any valid input and leave their arguments unchanged. "
     "The data transformer maps every instance to exactly one active copy of each split feature, that of its subregion, with the original value and the rule as column name.",
     ["inputs"],
     "Every valid array input of the helpers; every split dictionary and data matrix of the transformer.",
     "Only the docstring examples exist, and they are not run by the tests.",
     [U, H, PT, "effector/utils_integrate.py"], [{"name": "helper functions", "where": U}, {"name": "data transformer", "where": PT}], ["function results and arguments"],
     "Hypothesis PBT: differential against naive formulas", TR)

prop("C27", "Numeric types and memory layout do not matter",
     "A model may return booleans, integers of any width, single or double precision, contiguous or not, read-only or not, and so may a Jacobian; data and Jacobians may be in row or column order, strided or read-only. Effects, heterogeneity, curves, trees and interaction indices are those of the same numbers given as contiguous doubles: nothing wraps around, is truncated, is rejected or is misread.",
     ["inputs"],
     "Every class, data set, model whose outputs fit the type, output and derivative type, and memory layout.",
     "The tests use double-precision models and freshly allocated arrays only.",
     [PD, A, S, R, U, I], [{"name": "local effects, Jacobians, stacking of model outputs", "where": U}, {"name": "PDP averaging", "where": PD}], ["constructor, fit and eval results of all classes"],
     "Hypothesis PBT: metamorphic relation against the same numbers as contiguous doubles", TR)

prop("C28", "The model is only asked about points the method's definition needs",
     "The model and its Jacobian receive only non-empty two-dimensional arrays of finite numbers with one column per feature, and only such points: (d-)PDP the instances inside the axis limits with the one feature replaced by a query or grid value inside the limits (or a numerical differentiation step beside it), ALE each such instance at the edges of its own bin (at most two evaluations per instance), RHALE the instances themselves, at most once each over the object's lifetime and never when derivatives are supplied, SHAP-DP and the H-index combinations of two instances, the average output the instances themselves (not at all when it is supplied). "
     "An (RH)ALE or SHAP-DP already fitted is evaluated and plotted without asking again, and a regional effect at a node asks only about that subregion's instances.",
     ["inputs", "histories"],
     "Every class, data set, axis limits, options and history of fit, eval and plot calls.",
     "No test looks at what the model is asked; extrapolation to impossible points, repeated costly evaluation and evaluation of instances of other subregions leave the tested curves unchanged.",
     [PD, A, S, R, RA, U, I], [{"name": "PDP substitution", "where": PD}, {"name": "local effects at bin edges, Jacobian on data", "where": U}, {"name": "effect object of a node", "where": R}], ["arguments of every model and Jacobian call"],
     "Hypothesis stateful PBT: invariant over the recorded model calls of generated call histories", TR)

prop("C29", "Failures are reported and leave no trace",
     "An exception the model or its Jacobian raises - at any call, of any type but AssertionError, in a constructor, fit, eval, plot or report of a global, regional or interaction class - reaches the caller; it is never swallowed, turned into a number or taken for a property of the data. "
     "After such a failure, and after a call rejected for its arguments, the object answers every later call as if the failed call had not been made (after a failed fit of several features each of them is either as before or completely refitted).",
     ["histories", "faults"],
     "Every class, history of calls, and position and type of the fault.",
     "No test makes the model fail.",
     [G, PD, A, S, R, RA, I], [{"name": "fit loops and their state updates", "where": A}, {"name": "heterogeneity functions of regional methods", "where": RA}, {"name": "fit state of regional classes", "where": R}], ["exceptions and later answers of all classes"],
     "Hypothesis stateful PBT with fault injection: differential against a twin without the failed calls", TR)

prop("C30", "Methods agree where their definitions coincide",
     "The integral of each d-ICE curve is its ICE curve and of the d-PDP the PDP; an ALE with a single bin ends where the PDP started at zero ends, with the same heterogeneity; for models linear in the feature ALE equals RHALE on the same bins, one-bin RHALE equals the PDP started at zero and both have the slope and spread of the d-PDP; on fully crossed data ALE at its bin edges is the PDP. "
     "The (d-)PDP of a subregion is the instance-weighted mean of that of its parts, its squared heterogeneity their pooled within and between variance; for a model of two features the pairwise and both one-vs-all H-indices are equal; the SHAP values of two features follow from model and partial dependences, and for any number of features sum to the output minus its mean.",
     ["inputs"],
     "Every data set, model (polynomial or linear in the feature where stated), axis limits and options.",
     "The tests check each method against its own closed form for a few models; no relation between methods is tested.",
     [PD, A, S, R, U, I], [{"name": "PDP and d-PDP", "where": PD}, {"name": "ALE and RHALE accumulation", "where": U}, {"name": "SHAP values", "where": S}, {"name": "node effects", "where": R}, {"name": "H-index", "where": I}], ["eval results of all classes"],
     "Hypothesis PBT: differential and metamorphic relations between methods", TR)

prop("C31", "Options left out mean their documented defaults",
     "Leaving out any option of a constructor, fit, eval, plot or report of a global, regional or interaction class or of a binning object is the same as giving its documented default value, whatever the other options are, and options may be given by position in the documented order or by name: the selected instances, axis limits, effects, trees, reports and plots are the same.",
     ["configurations", "inputs"],
     "Every class, every subset of options left out, every valid value of the others, data large enough for each default to matter.",
     "The tests give most options explicitly and never compare a default with its documented value.",
     [G, PD, A, S, R, RA, RP, RS, BM, I], [{"name": "default arguments and their handing on", "where": R}, {"name": "binning names and classes", "where": BM}], ["results of every class with options left out, named and positional"],
     "Hypothesis PBT: differential between omitted, named and positional options", TR)

prop("C32", "Objects in one process are independent of each other",
     "Whatever other global, regional or interaction objects exist or existed in the process - of the same or other classes, for other data of the same shape or the same data with another model, given the same data, model, name lists or binning objects, still alive or already collected - the constructor, fits, evaluations, plots, reports, trees and indices of an object give what they give when it is the only object of the process. "
     "A plot draws on a figure of its own and leaves open figures and matplotlib's settings as they are.",
     ["histories", "inputs"],
     "Every set of objects and every interleaving of their constructors and calls.",
     "Each test uses one or two objects and compares with numbers that a value kept from the other would also give.",
     [G, PD, A, S, R, RA, BM, I, V], [{"name": "state kept on instances, classes, modules and default arguments", "where": G}, {"name": "binning objects kept as defaults", "where": A}, {"name": "figures", "where": V}], ["results of all calls of every object"],
     "Hypothesis stateful PBT: interleaved histories of several objects, differential against each object alone in a fresh process", TR)


def main(claimed=None, na=()):
    with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
        for p in P:
            f.write(json.dumps(dict(
                id=p["id"], title=p["title"], statement=p["statement"],
                quantifier=dict(over=p["over"], text=p["text"]), why_tests_cant=p["why"],
                anchors=dict(files=p["files"], mechanism=p["mechanism"], observe_at=p["observe"], hook_needed=None))) + "\n")
    checks, missing = [], []
    for p in P:
        mod = os.path.join(HERE, "vlib", "checks", p["id"].lower() + ".py")
        if os.path.exists(mod):
            cmd = "bash /verif/run.sh %s" % p["id"]
            checks.append(dict(property=p["id"], quick_cmd="bash run.sh %s quick" % p["id"],
                               thorough_cmd="bash run.sh %s thorough" % p["id"],
                               technique=p["technique"], level="exploration", level_note=p["note"]))
        else:
            missing.append(dict(property=p["id"], reason="check not built yet"))
    json.dump(dict(version=1, setup_cmd="bash setup.sh", checks=checks, not_applicable=missing),
              open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)


if __name__ == "__main__":
    main()
