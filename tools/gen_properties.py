"""Writes /verif/properties.jsonl. Kept so that the statements are edited in one readable place."""
import json, os

P = []
A = "artemis/"
PDC = A + "_utilities/pd_calculator.py"
PDP = A + "interactions_methods/model_agnostic/partial_dependence_based/_pdp.py"
FRI = A + "interactions_methods/model_agnostic/partial_dependence_based/_friedman_h_statistic.py"
GRE = A + "interactions_methods/model_agnostic/partial_dependence_based/_greenwell.py"
SEJ = A + "interactions_methods/model_agnostic/performance_based/_sejong_oh.py"
CMD = A + "interactions_methods/model_specific/random_forest/_conditional_minimal_depth.py"
SPL = A + "interactions_methods/model_specific/gb_trees/_split_score.py"
IPD = A + "importance_methods/model_agnostic/_pdp.py"
IPE = A + "importance_methods/model_agnostic/_permutational_importance.py"
IMD = A + "importance_methods/model_specific/_minimal_depth.py"
ISP = A + "importance_methods/model_specific/_split_score.py"
ADD = A + "additivity/_additivity_meter.py"
CMP = A + "comparison/_method_comparator.py"
VIS = A + "visualizer/_visualizer.py"
CFG = A + "visualizer/_configuration.py"
PDV = A + "visualizer/_pdp_visualizer.py"
OPS = A + "_utilities/ops.py"
HND = A + "_utilities/_handler.py"
ZEN = A + "_utilities/zenplot.py"
BASE = A + "interactions_methods/_method.py"
MET = A + "_utilities/performance_metrics.py"
EXC = A + "_utilities/exceptions.py"


def p(id, title, statement, over, text, why, files, mech, observe, state=()):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=list(over), text=text), why_tests_cant=why,
                  anchors=dict(files=list(files),
                               state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
                               mechanism=[dict(name=n, where=w) for n, w in mech],
                               observe_at=list(observe), hook_needed=None)))


p("C01", "Partial dependence values always equal their definition, in any call history",
  "After any sequence of partial dependence computations on one calculator (single features, feature pairs in either orientation, all-but-one, any subsets, all or only observed combinations), every requested value equals the mean prediction over the data rows with exactly the stated features set to the stated values (all-but-one: every other feature set to the given row's values). Values that were not requested are missing or correct, never wrong. Asking again for values that are already there returns the same values and does not query the model.",
  ["histories", "inputs"], "all operation sequences up to the stated depth, over every calculator state reachable by them, on small data sets with repeated values, mixed types and all orientations; all requested values read back through both orientations",
  "The tests compute single features and pairs once on one data set; the order of calls, partially filled caches, and the orientation of a pair never vary.",
  [PDC], [("cell-wise fill guarded by missing-value check", PDC + ": calculate_pd_single/pairs/minus_single"), ("canonical pair key and value reordering", PDC + ": _get_pair_key, get_pd_pairs")],
  ["PartialDependenceCalculator.get_pd_single/get_pd_pairs/get_pd_minus_single", "frames the model is asked to predict"],
  [("pd_single/pd_pairs/pd_minus_single", "cached PD values, NaN = not computed", PDC)])

p("C02", "Batch size, progress display and row labels never change an explanation",
  "For every batch size, with or without progress display, and for every labelling of the rows (shuffled, duplicated, non-numeric), partial dependence values and all explanations based on them (H-statistic pairs and one-vs-all, Greenwell, importance, additivity index) are the same. The model is only ever asked to predict frames that have exactly the columns of the data, in the same order.",
  ["configurations", "inputs"], "all batch sizes from below one data set to above all requests, all row labellings of the listed kinds, all PD-based explanations",
  "The tests use the default batch size on data small enough never to be split and a default row index.",
  [PDC, FRI, GRE, IPD, ADD], [("batch buffers with row ranges", PDC + ": range_dict/current_len"), ("fill by position", PDC + ": fill_pd_*")],
  ["result tables of the PD-based methods", "frames passed to predict"])

p("C03", "A failing prediction never leaves wrong values behind",
  "If the model raises during any of its prediction calls, the error reaches the caller, the data and target given by the user are unchanged, and the partial dependence calculator holds only missing or correct values. Repeating the same call afterwards (same object or same shared calculator) gives exactly the results of an undisturbed run.",
  ["fault_sequences", "histories"], "a failure injected at every prediction call of every explanation (and pairs of failures), for several batch sizes, with ordinary and interrupt-like exceptions",
  "No test lets a prediction fail.",
  [PDC, PDP, FRI, GRE, IPD, ADD, SEJ, IPE], [("cache written only after predict returned", PDC + ": fill_pd_*"), ("copies of the data are modified, never the data", IPE + ", " + SEJ)],
  ["results of the retried call", "PartialDependenceCalculator getters", "X and y after the failure"])

p("C04", "Pairwise H-statistic equals Friedman's definition",
  "For every model, data set and selection of features, the reported pair value is the sum over data rows of the squared difference between the centered two-feature partial dependence and the two centered single partial dependences, divided by the sum of squares of the centered two-feature partial dependence; unnormalized it is the square root of the mean squared difference. A pair with a flat joint effect has value 0, and so has any pair on which the model is additive.",
  ["inputs", "configurations"], "every model table over small feature grids and every data set over that grid up to the stated number of rows, normalized and unnormalized, numeric and non-numeric features, feature subsets and orders",
  "The tests check one or two fixed models for shape and a single value.",
  [FRI, PDC], [("H value from centered PD vectors at observed rows", FRI + ": _calculate_hstat_value, _calculate_ovo_interactions_from_pd")],
  ["FriedmanHStatisticMethod.fit(...).ovo"])

p("C05", "One-vs-all H-statistic equals its definition",
  "For every model, data set and selection of features, the one-vs-all value of a feature is the sum over rows of the squared difference between the centered predictions and the centered partial dependences of that feature and of all other features together, divided by the sum of squares of the centered predictions; unnormalized it is the square root of the mean squared difference. It is 0 for constant predictions and for a feature the model does not combine with the others; it is available exactly when it was requested.",
  ["inputs", "configurations"], "as C04, plus one-vs-all switched on and off",
  "One fixed model is checked for shape only; all-but-one partial dependence is only exercised with all features.",
  [FRI, PDC], [("all-but-one PD per row", PDC + ": calculate_pd_minus_single"), ("ova", FRI + ": _calculate_ova_interactions_from_pd")],
  ["FriedmanHStatisticMethod.fit(...).ova"])

p("C06", "Greenwell interaction equals its definition",
  "For every model, data set and selection of features, the value of a pair is the average of two numbers: for each of the two features, the sample standard deviation, across the values of that feature, of the importance of the other feature given that value. The conditional importance is the sample standard deviation of the pair's partial dependence for a numeric feature and a quarter of its range for a non-numeric one; spreads over a single value count as 0.",
  ["inputs", "configurations"], "every model table over small grids, data sets with every set of values up to the bound, all numeric/non-numeric type combinations, all feature orders",
  "Greenwell's method has no reliable test at all.",
  [GRE, PDC], [("conditional importance along both axes of the PD matrix", GRE + ": _calculate_ovo_interactions_from_pd")],
  ["GreenwellMethod.fit(...).ovo"])

p("C07", "Partial dependence importance equals its definition",
  "For every model and data set, the importance of a numeric feature is the population standard deviation of its partial dependence over its distinct values, and that of a non-numeric feature a quarter of the range of its partial dependence; a feature with a flat profile has importance 0. The same numbers are reported stand-alone and as the importance part of the H-statistic and Greenwell explanations.",
  ["inputs", "configurations"], "every model table over small grids, data sets up to the bound, numeric/string/boolean features, feature subsets and orders",
  "The tests check one fixed model.",
  [IPD, OPS], [("std / range over the PD profile", IPD + ": _calc_importance"), ("type split", OPS + ": split_features_num_cat")],
  ["PartialDependenceBasedImportance.importance", "feature_importance of the PD-based interaction methods"])

p("C08", "Additivity index equals its definition",
  "For every model whose predictions vary on the data, the additivity index is one minus the ratio of two sums of squares over the data rows: of predictions minus (mean prediction plus the sum over features of the partial dependence centered by the mean prediction), and of predictions centered by their mean. It equals 1 for models that are additive in the features, and the full result lists for every row the partial dependence of each feature, centered by the mean prediction, and the centered prediction.",
  ["inputs", "configurations"], "every model table over small grids with every data set up to the bound, numeric and non-numeric features",
  "The additivity meter has no reliable test.",
  [ADD, PDC], [("first-order reconstruction", ADD + ": _calculate_additivity")],
  ["AdditivityMeter.fit(...)", "AdditivityMeter.full_result"])

p("C09", "Permutation importance is the mean score loss over permuted copies",
  "For every model, data, target, metric and number of repeats, the importance of a feature is the mean, over the repeats, of the change of the metric when only that feature's column is replaced by a uniformly random permutation of itself, with the sign chosen so that losing performance is positive (error metrics up, accuracy down). Features are permuted one at a time from the intact data, each repeat with its own permutation; target labels and row labels do not matter.",
  ["inputs", "schedules", "configurations"], "all outcomes of the random generator (every permutation at every draw) for small data sets, repeats 1-2, all metrics, targets as arrays and as series with foreign labels, feature subsets",
  "One seeded run on one data set is tested; other random outcomes, metrics and repeats never occur.",
  [IPE, MET], [("permute, score, restore", IPE + ": _corrupted_scores"), ("sign", IPE + ": _neg_if_class")],
  ["PermutationImportance.importance", "exact distribution of results over all random outcomes"])

p("C10", "Sejong Oh interaction is the mean absolute joint-minus-separate score loss",
  "For every model, data, target, metric and number of repeats, the value of a pair is the mean over repeats of the absolute value of (loss when both features are permuted with one common permutation) minus (loss when only the first is permuted) minus (loss when only the second is permuted), where the three permutations are drawn independently and the loss is the metric's change from the intact data. The accompanying feature importance is permutation importance on the same (sampled) data with the same metric and number of repeats.",
  ["inputs", "schedules", "configurations"], "all outcomes of the random generator for small data sets, all metrics, repeats 1-2, series/array targets, feature subsets",
  "Sejong Oh's method has no reliable test.",
  [SEJ, IPE, MET], [("_inter/_permute_score", SEJ), ("importance on the sampled data", SEJ + ": fit")],
  ["SejongOhMethod.fit(...).ovo and .feature_importance", "exact distribution over all random outcomes"])

p("C11", "Conditional minimal depth equals its definition on every forest",
  "For every scikit-learn forest, whatever the numbering of its nodes, the value of an ordered pair (root feature, feature) is averaged over the trees that split on both: in a tree it is the minimum, over the shallowest nodes splitting on the root feature, of the number of levels strictly between that node and the nearest node below it splitting on the other feature, or, if there is none below it, of the height difference between that node and the right-most leaf below it. The occurrence count is the number of trees in which the other feature is used below a shallowest node of the root feature; pairs never used together in one tree have a missing value and count 0.",
  ["inputs"], "all binary trees up to the stated number of splits over 2-3 features in every growing order (depth-first and best-first numbering), forests of up to 2-3 such trees, regressors and classifiers",
  "The method has no reliable test; a test would sample a few fitted forests.",
  [CMD], [("BFS depths, subtree id ranges", CMD + ": _bfs, _conditional_minimal_depth"), ("averaging over trees", CMD + ": _summarise_results")],
  ["ConditionalMinimalDepthMethod.fit(forest).ovo"])

p("C12", "Minimal depth importance equals its definition on every forest",
  "For every scikit-learn forest the importance of a feature is the mean, over the trees that split on it, of the smallest depth at which it splits (root = 0). Exactly the features used by some split are listed, smallest depth first.",
  ["inputs"], "the same enumeration of trees and forests as C11",
  "No reliable test covers it.",
  [IMD, CMD], [("first node per split variable in BFS order", IMD + ": importance")],
  ["ConditionalMinimalDepthMethod.fit(forest).feature_importance"])

p("C13", "Split score interactions equal their definition on every boosted ensemble",
  "For every XGBoost or LightGBM model, however it is handed over (scikit-learn wrapper, booster or prepared handler), a pair (parent feature, child feature) is reported exactly when some split on the child directly below a split on the parent has a larger gain and a different feature (or, with only_def_interactions=False, for every parent-child split). Its value is the sum or mean of gain or cover, or the mean depth, of exactly those child splits, according to the chosen metric, over all trees; the full table (full_ovo) lists every metric and the number of such splits.",
  ["inputs", "configurations"], "all small trees (shapes, features, gains, covers) up to the bound, ensembles of up to 2-3 trees, every metric, both packages, both definitions",
  "The method has no reliable test.",
  [SPL, HND], [("parent statistics per node", SPL + ": _prepare_stats"), ("aggregation", SPL + ": _get_summary"), ("unified tree table", HND)],
  ["SplitScoreMethod.fit(model).ovo, full_ovo"])

p("C14", "Split score importance equals its definition on every boosted ensemble",
  "For every XGBoost or LightGBM model the importance of a feature is, by chosen metric, the sum or mean of the gain or cover of its splits, the mean depth of its splits (plain or gain-weighted), the number of trees it roots, or that number weighted by the share of root gain it holds. Exactly the features used in a split (and selected) are listed; stand-alone and as part of the interaction explanation it gives the same numbers.",
  ["inputs", "configurations"], "the same enumeration of ensembles as C13, every metric, feature selections",
  "It has no reliable test.",
  [ISP, HND], [("basic/root/weighted metrics", ISP), ("depth computation", ISP + ": _calculate_depth")],
  ["SplitScoreImportance.importance", "SplitScoreMethod.fit(...).feature_importance"])

p("C15", "Result tables are complete and ordered strongest first",
  "For every selection and order of features, the model-agnostic tables hold each unordered pair (each feature) of the selection exactly once with a number in the method's column and none outside it; one-vs-all and importance tables likewise. Every table is ordered from strongest to weakest in the sense of its measure: descending, but ascending for depth measures, and the conditional minimal depth table by occurrences first.",
  ["inputs", "configurations"], "all feature subsets and orders of up to 4 features, all rank orders of values reachable from the enumerated models, every method and metric",
  "Tests check the column names and number of rows on one model.",
  [FRI, GRE, SEJ, CMD, SPL, IPD, IPE, IMD, ISP, BASE], [("combinations of selected features and sort_values", BASE + " and the methods")],
  ["ovo, ova, feature_importance tables"])

p("C16", "Explaining and plotting never modify inputs, results or later plots",
  "No fit, importance or plot call changes the data frame, target, feature list, model, prepared handler or keyword arguments it is given (values, types, labels, column order). Plotting, looking up values and comparing never change a fitted explanation, and what a plot shows does not depend on the plots made before it.",
  ["histories", "inputs"], "every method and option combination on frames of several kinds; all sequences of plot calls (every visualization, default and customised) up to the stated length",
  "No test compares inputs or results before and after.",
  [FRI, GRE, SEJ, CMD, SPL, ADD, IPE, IPD, VIS, CFG, CMP], [("copies before modification", "throughout"), ("per-instance configuration", CFG)],
  ["user objects before/after", "content of figures"])

p("C17", "Sampling keeps rows, targets and results aligned",
  "With n given, an explanation is computed on n distinct rows of the data, each with its own target, and equals the explanation obtained by passing exactly those rows and targets without sampling; every n-row subset can be drawn. This holds for any row labels of data and target, including duplicates and labels that differ between them.",
  ["schedules", "inputs"], "every possible sample drawn by the random generator for small data sets, every n, every kind of row labels, array and series targets, all methods that sample",
  "One seeded sample with a default index is tested for length.",
  [OPS, PDP, ADD, IPD, SEJ], [("sample_if_not_none / sample_both_if_not_none", OPS)],
  ["X_sampled, y_sampled and the result tables"])

p("C18", "Explanations are reproducible from random_state alone",
  "Two objects created with the same random_state and given the same calls produce identical results, whatever happens in between: global random state, other objects' draws, the interleaving of their calls, unseeded randomness of the environment, the hash seed of the interpreter. Methods without randomness give identical results on every run.",
  ["schedules", "histories"], "all interleavings of the calls of two equally seeded objects with a disturbing third party, several seeds, all randomised methods",
  "Tests run each seeded method once.",
  [BASE, SEJ, IPE, PDP, ADD, A + "importance_methods/_method.py"], [("one generator per object, passed to every draw", BASE)],
  ["result tables of both objects"])

p("C19", "Refitting and other instances leave no trace",
  "The result of a fit depends only on its arguments (and the object's random state): after any sequence of earlier fits of the same object with other models, data, features or options, and with any other objects fitted in between, it equals the result of a fresh object. Results of one object never change when another object is fitted.",
  ["histories"], "all sequences of up to 3 fits over 3-4 different configurations per method, and all interleavings with a second instance",
  "Every test uses a fresh object once.",
  [BASE, PDP, FRI, GRE, SEJ, CMD, SPL, ADD], [("state rebuilt by every fit", "fit of each method")],
  ["public result attributes after every step"])

p("C20", "A shared partial dependence calculator changes cost, never results",
  "Passing a calculator built for the same model and data gives the same results as not passing one, whichever explanations used that calculator before and in whichever order. What the calculator already holds is not computed again, and a calculator built for another model or for different data (any cell, row order, column order) is rejected with a ValueError before anything is computed.",
  ["histories", "inputs"], "all sequences of up to 3 explanations sharing one calculator, with all feature selections of the alphabet; all single-cell, row and column perturbations of the data",
  "One test passes a calculator once.",
  [PDC, PDP, IPD, ADD], [("identity/equality guard", PDP + ", " + IPD + ", " + ADD), ("fill only what is missing", PDC)],
  ["result tables", "rows the model is asked to predict", "ValueError"])

p("C21", "Misuse is rejected with the documented error and changes nothing",
  "Before fit is called, plots, value lookups and comparisons raise MethodNotFittedException; after it, exactly the visualizations documented for the method are accepted and any other raises VisualizationNotSupportedException. Unsupported models, cover metrics on LightGBM, minimal depth importance without its interaction counterpart raise their specific exceptions, and a call that is rejected this way leaves the tables, looked-up values and plots of an earlier explanation unchanged.",
  ["histories", "configurations"], "the full table of method x life-cycle state x operation x visualization name, and all rejected calls followed by every visualization",
  "Only a few of these combinations are tested.",
  [BASE, FRI, CMD, SPL, VIS, CFG, HND, IMD, CMP, EXC], [("guards", BASE + ": plot, _compare_ovo"), ("accepted visualizations", CFG), ("metric check", SPL)],
  ["exception types", "results after the rejected call"])

p("C22", "Heatmap shows exactly the reported interactions and importances",
  "In the heatmap every diagonal cell shows the feature's importance and every other cell the reported value of that pair (ordered pairs: row = first feature, column = second; for undirected display the reversed pair where only that is reported), under matching row and column labels in the same feature order, with printed numbers equal to the values. Cells without a reported value are blank, and the colour direction follows the direction of the measure.",
  ["inputs", "configurations"], "all assignments of small value sets (zeros, ties, negatives, missing) to the pairs of 2-4 features, every method, stand-alone and in the summary",
  "Plots are not tested.",
  [VIS], [("symmetrise, diagonal, pivot, mask", VIS + ": plot_heatmap, order_heatmap")],
  ["matplotlib artists of the figure"])

p("C23", "Interaction graph shows exactly the relevant interactions",
  "In the graph every feature that has an importance is a labelled node with area proportional to its importance; edges join exactly the reported pairs of such features, pairs beyond the relevance threshold have no visible edge, and a stronger relevant pair never has a thinner edge, the strongest having the maximum width. For measures where larger is stronger, the strongest relevant pairs, at most the requested number, carry their value (two decimals) as label.",
  ["inputs", "configurations"], "all assignments of small value sets (zeros, ties, around the threshold) to the pairs of 2-4 features, every method, thresholds and label counts",
  "Plots are not tested.",
  [VIS, CFG], [("filter, width scaling, labels", VIS + ": plot_interaction_graph")],
  ["matplotlib artists of the figure"])

p("C24", "Bar charts, lollipop and summary show exactly the strongest results",
  "Bar charts (pairs, one-vs-all, conditional) show the first top_k rows of the corresponding table, strongest first, each bar labelled with its pair or feature and as long as its value; the conditional chart marks each pair's unconditional depth and colours each bar by the pair's number of occurrences on its colour bar. The lollipop plot shows root gains and split gains down to max_depth of the requested fraction of trees, with interacting splits labelled parent:child. The summary contains the same plots as produced individually, with the options given for each; titles given by the user are shown.",
  ["inputs", "configurations"], "tables of 1-12 rows with ties and missing values, top_k below/at/above the number of rows, all small ensembles, every method",
  "Plots are not tested.",
  [VIS, CFG], [("head(top_k)", VIS + ": plot_barchart_*"), ("tree selection", VIS + ": plot_lollipop"), ("delegation", VIS + ": plot_summary")],
  ["matplotlib artists of the figure"])

p("C25", "Method comparison correlates the ranks given to the same pairs",
  "The comparator reports Kendall, Spearman and Pearson correlation of the strength ranks that two fitted explanations give to the same unordered feature pairs, ties sharing their average rank and strength meaning the method's own direction. The result does not depend on the row order of the tables, on pair orientation or on which method is named first; identical explanations correlate with 1 and exactly reversed ones with -1.",
  ["inputs", "configurations"], "all pairs of weak orderings of up to 4 pairs, all row orders and orientations, every combination of method directions, partial overlap of the pairs",
  "The comparator has no reliable test.",
  [CMP, BASE, CMD], [("rank per pair, inner join", CMP + ": _rank_pairs")],
  ["FeatureInteractionMethodComparator.correlation/correlations"])

p("C26", "Comparison plot and value lookup use the same pair's values",
  "interaction_value returns the reported value of a pair in either order of the names (directed depth tables: the mean of both directions). The comparison plot has one point per pair known to both methods, at the two methods' values for that same pair, with axes inverted for measures where smaller is stronger and the first method's strongest pairs, as many as requested, labelled; the correlation box shows the reported correlations.",
  ["inputs", "configurations"], "all value assignments to the pairs of 3 features from small value sets, all row orders/orientations, every combination of methods, label counts 0..all",
  "Neither is tested.",
  [CMP, BASE, CMD], [("interaction_value", BASE), ("comparison_plot", CMP)],
  ["FeatureInteractionMethod.interaction_value", "matplotlib artists"])

p("C27", "Partial dependence profiles and zenplots show the right values",
  "A profile plot shows, for one feature, its distinct values against their partial dependence and, for two, the pair's partial dependence at the right coordinates under the right axis names, whichever order the features are given in (the H-statistic may leave combinations that do not occur in the data blank). A zenplot shows up to the requested number of strongest pairs, each at most once, starting with the strongest and continuing with the strongest remaining pair that shares the last feature, if any; every panel shows that pair's values under the names of its own two features, all on one common colour scale.",
  ["inputs", "configurations"], "all small data sets and models of the alphabet, both feature orders, path lengths below/at/above the number of pairs for 2-4 features",
  "Neither plot is tested.",
  [PDP, ZEN, PDV], [("plot_profile, plot_zenplot", PDP), ("path", ZEN)],
  ["matplotlib artists"])

p("C28", "Every part of an explanation uses the same prediction function",
  "If a prediction function is given it alone is used; otherwise the probability of the second class if the model offers predict_proba, else predict. This holds uniformly for partial dependences, one-vs-all values, importance and additivity; performance-based methods always score predict.",
  ["configurations", "inputs"], "all combinations of offered prediction interfaces (distinct outputs), given/not given function, every explanation",
  "Tests use plain regressors only.",
  [OPS, PDC, PDP, FRI, IPD, ADD, SEJ, IPE], [("get_predict_function", OPS)],
  ["result tables against tables computed for each interface"])

p("C29", "Row order, column order and feature names never matter",
  "Permuting the rows of the data (with the target), permuting its columns (for a model that reads columns by name), renaming features consistently, or replacing feature values by an order-preserving recoding that the model undoes, permutes/renames the results accordingly and changes no number. For boosted trees and forests, permuting the trees changes no number.",
  ["inputs"], "all row and column permutations and tree permutations for small inputs, feature names that are prefixes/concatenations of each other or contain separators or differ only in case",
  "No test varies order or names.",
  [PDC, FRI, GRE, ADD, CMD, SPL, SEJ, CMP], [("name-keyed look-ups", "throughout")],
  ["result tables"])

p("C30", "The model is only asked about rows of the data's own types",
  "Every frame an explanation shows to the model has the data's columns in the data's order with the data's own column types (integers of any width, booleans, floats, strings, categoricals, dates, nullable integers), and every cell holds exactly a value that occurs in that column: no value is rounded, cast or replaced, missing values stay missing. Results for such data equal the same definitions as for plain numbers.",
  ["inputs"], "all triples of 16 column kinds (incl. integers beyond 2^53, float32, categoricals with unused levels, dates, missing values) x designs x explanations",
  "Tests use float data only, for which casting is invisible.",
  [PDC, FRI, GRE, PDP, IPD, IPE, SEJ, ADD], [("building prediction frames", PDC + ": calculate_pd_single, calculate_pd_pairs, _calculate_pd_*"), ("permuted copies", SEJ + ", " + IPE)],
  ["frames received by predict, result tables"])

p("C31", "The form in which predictions and targets come does not matter",
  "Predictions given as array of any numeric type, column vector, list, pandas Series (with any labels) and targets given as array, Series, list or one-column form with the same values give the same results as float arrays, for every explanation and metric.",
  ["inputs", "configurations"], "all combinations of prediction form x target form x metric x explanation over small data",
  "Tests use arrays of floats only.",
  [OPS, PDC, SEJ, IPE, ADD, MET], [("prediction functions", OPS), ("metrics", MET)],
  ["result tables"])

p("C32", "Every plot option changes what it documents, and nothing else",
  "Every documented option of every plot (colour maps, number format, lines, colour bar size, top_k, colours, label counts, node size, fonts, threshold, numbers of trees and depths, shapes, scale, title, figure size; kind, colour map and size of profiles and zenplots) takes effect exactly as documented, alone and combined with any other option, on the whole plot and on nothing else; given through the summary it takes effect on its own plot only.",
  ["configurations"], "all values of small sets of every option, all combinations of up to 2 (3) options and all at once, every plot of every method, all parts of the summary",
  "Plots are not tested.",
  [VIS, CFG, PDP], [("kwargs.pop per option", VIS + ": plot_*"), ("nested options", VIS + ": plot_summary")],
  ["matplotlib artists"])

with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for x in P:
        f.write(json.dumps(x) + "\n")
print(len(P))
