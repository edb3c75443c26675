import json
P=[]
def p(id,title,statement,over,qtext,why,files,mech,observe=None,state=None):
    d=dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech]))
    if observe: d["anchors"]["observe_at"]=observe
    if state: d["anchors"]["state"]=[dict(name=a,meaning=b,where=c) for a,b,c in state]
    d["anchors"]["hook_needed"]=None
    P.append(d)
B="optbinning/binning/"
p("C01","Transform gives every record the metric of its own bin",
 "Transforming a one-dimensional variable (binary, continuous or multiclass target) gives each non-missing, non-special record the metric, index or label of the one bin that contains it: the half-open interval [split k-1, split k) for a numerical variable, the category group for a categorical one, and the documented unknown-category value when no group has it. Special-code records get their special bin's value and missing records the missing bin's value, or the user's numeric override. The value never depends on the other records in the call and is never truncated to an integer.",
 ["inputs","configurations"],"every array of values, every increasing split list or category grouping, every count vector, every metric / special / missing / unknown-category setting",
 "Tests compare a handful of fixed inputs (one value per bin) with the library's own output; boundary values, mixes of special and missing records, special-code dictionaries and numeric overrides are sampled once or not at all.",
 [B+"transformations.py",B+"binning_statistics.py"],[("per-bin masks over digitized indices",B+"transformations.py:_apply_transform"),("special/missing masks",B+"transformations.py:_mask_special_missing"),("metric tables",B+"transformations.py:transform_binary_target"),("metric tables",B+"transformations.py:transform_continuous_target"),("metric tables",B+"transformations.py:transform_multiclass_target")],
 ["OptimalBinning.transform","ContinuousOptimalBinning.transform","MulticlassOptimalBinning.transform"])
p("C02","Every training record is counted in exactly one row of the table",
 "Pre-processing splits the records into disjoint clean, missing, special and 'others' parts that together are the whole input (minus detected outliers and records outside user bounds, when requested), keeping each target and weight with its record. The per-bin totals of the fitted table (event/non-event counts, per-class counts, or records, sums, zeros, minima, maxima) are exactly the totals over the records falling in each final bin, with the others, special and missing rows appended in that order, so nothing is lost or counted twice when bins are merged.",
 ["inputs","configurations"],"every dataset, weight vector, special-code set, category cut-off and every merge pattern chosen by the optimizer",
 "Tests check table totals on two or three real datasets with one solution each; conservation must hold for every merge pattern, every number of special codes and every partition of the records.",
 [B+"preprocessing.py",B+"binning_statistics.py",B+"binning.py",B+"continuous_binning.py",B+"multiclass_binning.py"],
 [("partition masks",B+"preprocessing.py:split_data"),("merge of prebins into bins",B+"binning_statistics.py:bin_info"),("merge of prebins into bins",B+"binning_statistics.py:continuous_bin_info"),("merge of prebins into bins",B+"binning_statistics.py:multiclass_bin_info"),("counts of special/missing",B+"binning_statistics.py:target_info_special"),("prebin counts",B+"binning.py:_compute_prebins")],
 ["binning_table.build()"])
p("C03","Binning-table statistics equal their definitions",
 "In a binary binning table the event rate of a bin is events/records, its WoE is ln(((non-events)/(total non-events))/((events)/(total events))) and its IV contribution is (share of non-events minus share of events) times that WoE; bins without events or without non-events show 0 for all three. The total IV and JS are the sums of their columns, every IV contribution is non-negative, counts and percentages add up, and converting an event rate to WoE and back returns the event rate. The continuous table's mean and the multiclass table's per-class rates are likewise sum/records and class count/records.",
 ["inputs"],"every vector of non-negative event and non-event counts with positive totals",
 "Tests compare the totals of a few tables with stored constants; the identities quantify over all count vectors, including pure and empty bins.",
 [B+"binning_statistics.py",B+"transformations.py",B+"metrics.py"],
 [("per-bin statistics",B+"binning_statistics.py:BinningTable.build"),("continuous per-bin statistics",B+"binning_statistics.py:ContinuousBinningTable.build"),("multiclass per-bin statistics",B+"binning_statistics.py:MulticlassBinningTable.build"),("WoE conversions",B+"transformations.py:transform_event_rate_to_woe")],
 ["BinningTable.build","transform_event_rate_to_woe","transform_woe_to_event_rate"])
p("C04","Divergence measures obey their mathematical laws",
 "Jeffrey's divergence, Jensen-Shannon, Hellinger and triangular discrimination between two vectors of positive shares are computed term by term from their definitions, are symmetric in their arguments, never negative, zero for equal arguments, and with return_sum equal the sum of the per-term values. The Gini coefficient, Herfindahl index, entropy and quality score are the documented functions of their inputs.",
 ["inputs"],"every pair of positive vectors of equal length",
 "Tests never call most of these functions directly; laws over all positive vectors cannot be sampled.",
 [B+"metrics.py"],[("divergences",B+"metrics.py:jeffrey"),("divergences",B+"metrics.py:jensen_shannon"),("divergences",B+"metrics.py:hellinger"),("divergences",B+"metrics.py:triangular"),("concentration",B+"metrics.py:hhi")],
 ["optbinning.binning.metrics"])
p("C05","Optimal bins respect every size, count and fixed-split bound",
 "Whenever the solver accepts a solution of the binning model, the bins it describes are consecutive groups of pre-bins covering each pre-bin exactly once, their number lies in [min_n_bins, max_n_bins], each bin's records lie within the requested minimum and maximum bin size, its event and non-event counts lie within the requested minima and maxima, and every split the user fixed is kept. This holds for the constraint-programming and mixed-integer formulations of the binary, continuous and multiclass problems and for multi-scenario binning in every scenario.",
 ["inputs","configurations"],"every number of pre-bins, every count vector, every combination of bounds, every feasible assignment of the model's variables",
 "Tests try one or two bound combinations on one dataset and look at the resulting bin count only; the bounds must follow from the model for all feasible assignments.",
 [B+"cp.py",B+"mip.py",B+"continuous_cp.py",B+"multiclass_cp.py",B+"multiclass_mip.py",B+"binning.py"],
 [("constraints",B+"cp.py:BinningCP.add_constraint_unique_assignment"),("constraints",B+"cp.py:BinningCP.add_constraint_min_max_bins"),("constraints",B+"cp.py:BinningCP.add_constraint_min_max_bin_size"),("constraints",B+"mip.py:BinningMIP.build_model"),("argument passing",B+"binning.py:OptimalBinning._fit_optimizer")],
 ["OptimalBinning.splits","binning_table"])
p("C06","Optimal bins respect the requested trend and minimum differences",
 "Whenever the solver accepts a solution with a monotonic trend set, the event rates (means, per-class rates) of the resulting bins, in the model's own precision, are non-decreasing for 'ascending', non-increasing for 'descending', concave or convex for those trends, and for 'peak' and 'valley' (and their heuristic variants) rise then fall or fall then rise around one change point. With a minimum difference or maximum p-value set, no two consecutive bins of the solution differ by less than the minimum or fail the significance test.",
 ["inputs","configurations"],"every number of pre-bins, every count vector, every feasible assignment of the model's variables",
 "Tests check the event rates of one fitted variable per trend; the guarantee quantifies over all inputs and all feasible assignments.",
 [B+"cp.py",B+"mip.py",B+"continuous_cp.py",B+"multiclass_cp.py",B+"multiclass_mip.py",B+"model_data.py"],
 [("trend constraints",B+"cp.py:BinningCP.add_constraint_monotonic_ascending"),("trend constraints",B+"cp.py:BinningCP.add_constraint_monotonic_peak"),("pairwise exclusions",B+"model_data.py:find_min_diff_violation_indices"),("pairwise exclusions",B+"model_data.py:find_pvalue_violation_indices"),("pairwise exclusions",B+"cp.py:BinningCP.add_constraint_violation")],
 ["binning_table event rate / mean column"])
p("C07","The optimizer scores a binning by its true divergence",
 "The aggregated data handed to the optimizer are exact: for every group of consecutive pre-bins the rate (or mean) and the divergence contribution are those of the merged group, scaled where the formulation is integral. The objective of the model at the assignment describing a binning is the sum of its bins' contributions, less the dominance penalty when a regularization is set, and a binning that meets the requested count and size bounds is never excluded when no trend, difference, p-value or fixed split is requested.",
 ["inputs","configurations"],"every number of pre-bins, every count vector, every consecutive grouping",
 "Tests see only the final optimum on a few datasets; a wrong contribution for one group or a stray constraint changes the optimum only for particular data.",
 [B+"model_data.py",B+"cp.py",B+"mip.py",B+"continuous_cp.py",B+"multiclass_cp.py"],
 [("aggregates",B+"model_data.py:model_data"),("aggregates",B+"model_data.py:continuous_model_data"),("aggregates",B+"model_data.py:multiclass_model_data"),("objective",B+"cp.py:BinningCP.build_model")],
 ["OptimalBinning.fit with status OPTIMAL"])
p("C08","Pre-bin refinement removes impure pre-bins and only those",
 "After refinement every remaining pre-bin of a binary variable holds at least one event and one non-event (at least one record for a continuous target, at least one record of some class and of the others for multiclass), the surviving split points are a subset of the candidates in their original order, and the reported counts are the counts of the records between the surviving splits. A fixed user split is never dropped silently: it survives or fitting fails with an error.",
 ["inputs","configurations"],"every candidate split list, every dataset, every weight vector, any depth of repeated merging",
 "Refinement recurses as merging creates new situations; tests exercise at most one or two levels on fixed data.",
 [B+"binning.py",B+"continuous_binning.py",B+"multiclass_binning.py"],
 [("recursive refinement",B+"binning.py:OptimalBinning._compute_prebins"),("recursive refinement",B+"continuous_binning.py:ContinuousOptimalBinning._compute_prebins"),("recursive refinement",B+"multiclass_binning.py:MulticlassOptimalBinning._compute_prebins")],
 ["OptimalBinning.splits","binning_table"])
p("C09","Out-of-domain parameters are always rejected, valid ones never",
 "Fitting a binning, scorecard, sketch, piecewise, two-dimensional, monitoring or binning-process object with any documented parameter outside its documented domain (wrong type, unknown option, out-of-range number, minimum above maximum) raises TypeError or ValueError before any data is processed. A combination of parameters that all lie in their documented domains passes the parameter check without error.",
 ["inputs","configurations"],"every value of every parameter, in every combination",
 "test_params tries one bad value per parameter with all others at their defaults; range boundaries, type variations and pairs of parameters are not covered.",
 [B+"binning.py",B+"continuous_binning.py",B+"multiclass_binning.py",B+"multidimensional/binning_2d.py",B+"piecewise/base.py",B+"distributed/binning_sketch.py",B+"distributed/bsketch.py",B+"binning_process.py","optbinning/scorecard/scorecard.py","optbinning/scorecard/monitoring.py",B+"uncertainty/binning_scenarios.py"],
 [("parameter checks",B+"binning.py:_check_parameters"),("parameter checks",B+"continuous_binning.py:_check_parameters"),("parameter checks","optbinning/scorecard/scorecard.py:_check_scorecard_scaling")],
 ["fit"])
p("C10","A score is the scaled linear predictor, additive over variables",
 "A record's score is the intercept plus, for each selected variable, the points of the bin that contains its value. Points are the coefficient times the bin's WoE (mean), and with pdo_odds scaling the score equals offset minus factor times the linear predictor, with factor pdo/ln 2 and offset scorecard_points - factor ln(odds), so that doubling the odds moves the score by pdo; with min_max scaling the attainable scores span exactly [min, max]. The intercept-based option moves each variable's smallest points to zero without changing any total score.",
 ["inputs","configurations"],"every set of binning tables, coefficients, intercept and scaling parameters",
 "Tests compare scores on one dataset and one parameter set per method with stored values; the affine laws quantify over all tables and parameters.",
 ["optbinning/scorecard/scorecard.py"],[("points","optbinning/scorecard/scorecard.py:_compute_scorecard_points"),("intercept","optbinning/scorecard/scorecard.py:_compute_intercept_based"),("score","optbinning/scorecard/scorecard.py:Scorecard.score")],
 ["Scorecard.score","Scorecard.table"])
p("C11","Rounded scorecard points are integers preserving the score range",
 "With rounding and min_max scaling, every solution accepted by the rounding model assigns integer points to each bin, and the sums over variables of the smallest and of the largest points the model allows equal the rounded minimum and maximum scores, so no record's rounded score leaves that range. The model's objective is the total absolute deviation from the unrounded points, and the points are returned in the order of the scorecard rows.",
 ["inputs"],"every scorecard table: any number of variables, bins and real points",
 "One test rounds one scorecard; the range guarantee must hold for every table.",
 ["optbinning/scorecard/rounding.py"],[("rounding model","optbinning/scorecard/rounding.py:RoundingMIP.build_model"),("solution read-out","optbinning/scorecard/rounding.py:RoundingMIP.solve")],
 ["Scorecard.table after rounding"])
p("C12","Sketches merged from partitions report the counts of the whole",
 "Feeding data to a binning sketch in any number of batches, or to several sketches that are then merged in any order and however the batches are distributed (including sketches holding only missing or special records), yields event, non-event, missing and special totals equal to those of the concatenated data. For categorical sketches the per-category counts are the exact sums, merging never alters the other sketch's later state, and the bins returned account for every stored record exactly once.",
 ["inputs","histories"],"every sequence of add and merge calls, every batch",
 "Tests add and merge a couple of sketches of one dataset; additivity is a whole-history property.",
 [B+"distributed/bsketch.py",B+"distributed/binning_sketch.py"],[("counters",B+"distributed/bsketch.py:BSketch.add"),("merge",B+"distributed/bsketch.py:BSketch.merge"),("categorical counters",B+"distributed/bsketch.py:BCatSketch.add"),("categorical merge",B+"distributed/bsketch.py:BCatSketch.merge")],
 ["BSketch.n_event","BSketch.n_nonevent","OptimalBinningSketch.merge"])
p("C13","Variable selection is exactly what the criteria say",
 "A variable is selected by a binning process if and only if it is listed as fixed or it passes every configured criterion, applied in turn: its metric lies within [min, max] and, where a strategy and a top count or fraction are given, it is among that many best remaining variables. Without criteria every variable is selected, and the number kept by a 'top' criterion is min(number still eligible, top) with fractions rounded up.",
 ["inputs","configurations"],"every table of variable metrics and every selection-criteria dictionary",
 "Tests run one criteria dictionary on one dataset.",
 [B+"binning_process.py"],[("support computation",B+"binning_process.py:BaseBinningProcess._support_selection_criteria")],
 ["BinningProcess.get_support","BinningProcess.summary"])
p("C14","A binning process transforms each column as its own binning does",
 "Each column produced by a binning process equals the transform of that variable by its own fitted binning with the settings that apply to that variable: its own per-variable transform parameters where given and the call's arguments otherwise. Settings given for one variable never affect another, and columns come out in the order of the selected variables.",
 ["inputs","configurations"],"every set of variables, every per-variable parameter dictionary, every metric",
 "Tests use identical settings for all variables or compare output shapes only.",
 [B+"binning_process.py"],[("per-variable dispatch",B+"binning_process.py:BinningProcess._transform"),("chunked dispatch",B+"binning_process.py:BinningProcess._transform_disk")],
 ["BinningProcess.transform"])
p("C15","Stability index and system tests are exact functions of the counts",
 "The population stability index of a monitored scorecard is, bin by bin, (actual share - expected share) times ln(actual share/expected share), totals are column sums, and the actual and expected counts of the score bins are the numbers of records whose score falls in each bin, every record in exactly one. The binary confusion-matrix metrics and the regression metrics reported for both samples equal their definitions.",
 ["inputs"],"every pair of samples and every set of score splits",
 "Tests compare one monitored dataset with stored totals.",
 ["optbinning/scorecard/monitoring.py","optbinning/metrics/classification.py","optbinning/metrics/regression.py"],[("psi","optbinning/scorecard/monitoring.py:ScorecardMonitoring._system_psi"),("counts","optbinning/scorecard/monitoring.py:ScorecardMonitoring._fit_system"),("metrics","optbinning/metrics/classification.py")],
 ["ScorecardMonitoring.psi_table","ScorecardMonitoring.psi_variable_table"])
p("C16","Counterfactuals change few, actionable features and flip the outcome",
 "Every solution accepted by the single-counterfactual model picks at most one new bin per feature, changes at most max_changes features and none marked non-actionable, and its feature vector is the original with the picked bins' metrics substituted. The linear predictor at that vector satisfies the requested outcome (opposite side for a binary outcome, at least / at most the target for hard minimum / maximum constraints), whichever objectives are chosen.",
 ["inputs","configurations"],"every scorecard, original point, objective set, constraint set and every feasible assignment",
 "The counterfactual tests need a downloaded dataset and do not run here; they check one query per option.",
 ["optbinning/scorecard/counterfactual/mip.py","optbinning/scorecard/counterfactual/model_data.py"],[("constraints","optbinning/scorecard/counterfactual/mip.py:CFMIP.add_constraint_max_changes"),("constraints","optbinning/scorecard/counterfactual/mip.py:CFMIP.add_constraint_opposite")],
 ["Counterfactual.generate","Counterfactual.display"])
p("C17","Two-dimensional bins tile the pre-binning grid exactly once",
 "Every solution accepted by the two-dimensional model covers each cell of the pre-binning grid by exactly one selected rectangle, the number of rectangles lies within the requested bounds, and each rectangle's record, event and sum totals are the totals of its cells and lie within the requested bounds. The grid counts are the numbers of clean records per cell, and every candidate rectangle appears in the lists of exactly the cells it covers.",
 ["inputs","configurations"],"every grid of counts, every bound, every feasible assignment",
 "Tests fit two datasets; tiling must follow from the model for all grids.",
 [B+"multidimensional/model_data_2d.py",B+"multidimensional/cp_2d.py",B+"multidimensional/mip_2d.py",B+"multidimensional/binning_2d.py"],[("rectangles",B+"multidimensional/model_data_2d.py:model_data"),("cover constraint",B+"multidimensional/cp_2d.py:Binning2DCP.add_constraint_unique_assignment")],
 ["OptimalBinning2D.splits","OptimalBinning2D.binning_table"])
p("C18","Quantile sketch preserves its count, order and extremes",
 "After any sequence of additions and merges a quantile sketch reports exactly the number of values seen and their minimum and maximum, its summary entries are sorted by value with positive weights, and compressing the buffer never changes the total weight it represents. Every reported quantile is a value that was added, quantiles are non-decreasing in q, and a quantile outside [0, 1] or of an empty sketch is rejected.",
 ["inputs","histories"],"every sequence of add / merge / compress calls",
 "The sketch has no direct tests; its invariants are over all insertion histories.",
 [B+"distributed/gk.py"],[("insertion",B+"distributed/gk.py:GK.add"),("compression",B+"distributed/gk.py:GK.merge_compress"),("merge",B+"distributed/gk.py:GK.merge"),("query",B+"distributed/gk.py:GK.quantile")],
 ["GK.n","GK.quantile"])
p("C19","Outlier detectors flag exactly the records outside their bounds",
 "The range detector flags exactly the values above upper + k (upper - lower) or below lower - k (upper - lower) of its interval, the modified z-score detector exactly the values whose 0.6745 |x - median| exceeds threshold times the median absolute deviation, and the quantile detector applies one of them to the target within each quantile bin of x. The support mask has one entry per record, in record order.",
 ["inputs"],"every sample, interval length, k, threshold and number of bins",
 "Outlier tests need a downloaded dataset and do not run here.",
 [B+"outlier.py"],[("range rule",B+"outlier.py:RangeDetector._fit"),("z-score rule",B+"outlier.py:ModifiedZScoreDetector._fit"),("per-bin rule",B+"outlier.py:YQuantileDetector._fit")],
 ["get_support"])
p("C20","Saving a fitted binning and reading it back preserves its table",
 "Writing a fitted binning to JSON and reading it into a fresh object gives a binning table that builds to the same contents, whatever the variable type, special codes and user splits.",
 ["inputs","histories"],"every fitted numerical or categorical binning for the three target types",
 "Tests do not write or read JSON.",
 [B+"binning.py",B+"continuous_binning.py",B+"multiclass_binning.py"],[("save",B+"binning.py:OptimalBinning.to_json"),("load",B+"binning.py:OptimalBinning.read_json")],
 ["to_json","read_json"])
p("C21","Fitting again on the same data gives the same binning",
 "Fitting the same binning object twice on the same data and parameters gives the same splits, counts and status as fitting a fresh object once.",
 ["histories"],"every sequence of fits of one object",
 "Tests fit each object once.",
 [B+"binning.py",B+"mdlp.py"],[("state reset",B+"binning.py:OptimalBinning._fit"),("state reset",B+"mdlp.py:MDLP.fit")],["fit"])
p("C22","The pre-binning and optimization solvers return true optima",
 "With status OPTIMAL no other binning meeting the constraints has a larger objective, and CART, quantile and uniform pre-binning return the splits their definitions prescribe.",
 ["inputs"],"every dataset",
 "Tests compare a few optima with stored values.",
 [B+"prebinning.py",B+"cp.py"],[("solver call",B+"cp.py:BinningCP.solve"),("pre-binning",B+"prebinning.py:PreBinning.fit")],["status"])
with open("/verif/properties.jsonl","w") as f:
    for d in P: f.write(json.dumps(d)+"\n")
