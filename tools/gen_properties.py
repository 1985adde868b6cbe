"""Source of properties.jsonl: run to regenerate the file next to it."""
import json
import pathlib

P = []


def prop(id, title, statement, over, qtext, why, files, mechanism, observe, state=()):
    assert len(title) <= 80, (id, len(title))
    P.append(
        dict(
            id=id,
            title=title,
            statement=statement,
            quantifier=dict(over=over, text=qtext),
            why_tests_cant=why,
            anchors=dict(
                files=["src/skfolio/" + f for f in files],
                state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
                mechanism=[dict(name=n, where=w) for n, w in mechanism],
                observe_at=observe,
                hook_needed=None,
            ),
        )
    )


prop(
    "C01",
    "Walk-forward folds are chronological, exactly sized, purged and never leak",
    "For every accepted walk-forward configuration, each fold's training and test rows are valid, increasing, contiguous row positions, the training rows end exactly the purge gap before the test rows start, and both have the requested size, whether sizes are counted in rows or in calendar periods. Successive test windows move forward without overlapping, cover every row the configuration allows and none it does not, and the training window rolls or expands as requested. The announced number of folds is the number of folds produced.",
    ["inputs", "configurations"],
    "all numbers of rows, train/test sizes, purge sizes, expanding/reduced/rolling options, period frequencies, offsets, previous/next rounding and calendars with gaps",
    "Tests pin a handful of row counts and two calendars; the boundary arithmetic (purging with a period-based training window, offsets falling outside the calendar, short tails) is only right or wrong on particular combinations.",
    ["model_selection/_walk_forward.py"],
    [("row based splitter", "model_selection/_walk_forward.py:_split_without_period"),
     ("period based splitters", "model_selection/_walk_forward.py:_split_from_period_without_train_offset, _split_from_period_with_train_offset")],
    ["WalkForward.split", "WalkForward.get_n_splits"],
)
prop(
    "C02",
    "Combinatorial purged folds rebuild every path once and never leak",
    "For every accepted combinatorial purged configuration, all combinations of test blocks are produced once, the test blocks partition the rows, and training rows never include a test row, a row within the purge gap before or after a test block, or a row within the embargo after one, while every other row is used for training. Recombining the announced path assignment rebuilds the announced number of test paths, each containing every row exactly once in order. The recommended number of folds is the one whose paths and training size are closest to the requested targets.",
    ["inputs", "configurations"],
    "all numbers of rows, folds, test folds, purge and embargo sizes accepted by the splitter",
    "Tests pin a few index tables; leakage appears only where block edges, purge and embargo interact, and path bookkeeping only for particular (folds, test folds) pairs.",
    ["model_selection/_combinatorial.py"],
    [("split and purge loops", "model_selection/_combinatorial.py:CombinatorialPurgedCV.split"),
     ("path bookkeeping", "model_selection/_combinatorial.py:get_path_ids, recombined_paths"),
     ("fold recommendation", "model_selection/_combinatorial.py:optimal_folds_number")],
    ["CombinatorialPurgedCV.split", "get_path_ids", "recombined_paths", "optimal_folds_number"],
)
prop(
    "C03",
    "Cross-validated predictions equal independent refits on each training set",
    "Cross-validated prediction returns, for every splitter, one portfolio per test window equal to what a fresh copy of the model fitted only on that window's training rows predicts on its test rows, in chronological order, and for combinatorial splitters one path per announced path. The result does not depend on the number of workers or the order folds are evaluated, never uses test rows for fitting, and leaves the given model and data unchanged. Overlapping or shuffled test windows are refused.",
    ["schedules", "inputs", "configurations"],
    "all splitters, models, worker counts and orders of fold completion",
    "Tests compare a few aggregate numbers for one model and one splitter; fold mix-ups, leakage and schedule effects need every fold of many splitters compared with an independent refit.",
    ["model_selection/_validation.py", "utils/tools.py"],
    [("per fold clone, fit and predict", "model_selection/_validation.py:cross_val_predict"),
     ("fold worker", "utils/tools.py:fit_and_predict")],
    ["cross_val_predict"],
)
prop(
    "C04",
    "Portfolio measures never go stale after any change of settings",
    "After any sequence of reading measures and changing a portfolio's settings (risk-free rate, annualisation, compounding, confidence levels, acceptable return, fitness measures and the like), every measure read, as well as the summary and the fitness, equals the one a freshly built portfolio with the final settings reports. Rejected changes leave the portfolio as it was, and quantities documented as fixed cannot be changed.",
    ["histories"],
    "all interleavings of measure reads and setting changes on single-period and multi-period portfolios",
    "Tests read each measure once on a fresh object; a missed invalidation shows only after a read, a change and another read of a dependent measure.",
    ["portfolio/_base.py", "portfolio/_portfolio.py", "portfolio/_multi_period_portfolio.py"],
    [("lazy measures and invalidation on assignment", "portfolio/_base.py:__getattribute__, __setattr__, clear")],
    ["Portfolio attributes", "MultiPeriodPortfolio attributes"],
    [("cached measures", "computed values kept until a setting changes", "portfolio/_base.py slots")],
)
prop(
    "C05",
    "Multi-period portfolios stay consistent with their list of sub-portfolios",
    "After any sequence of list operations (append, replace, delete, assign the whole list, index, slice, iterate, measure reads and copies), a multi-period portfolio equals one freshly built from the same list: same returns, observations, lengths, weights tables and measures. An operation that is refused (wrong type, overlapping or out-of-order periods) changes nothing. Changing a copy, or the list it was built from, never changes the original.",
    ["histories"],
    "all sequences of list operations over single- and multi-observation sub-portfolios with ordered, adjacent, overlapping and out-of-order periods",
    "Tests exercise one operation at a time on one object; corruption needs an order of operations, a rejected operation followed by a read, or two objects sharing a list.",
    ["portfolio/_multi_period_portfolio.py", "portfolio/_base.py"],
    [("list protocol and re-concatenation", "portfolio/_multi_period_portfolio.py:append, __setitem__, __delitem__, portfolios setter"),
     ("order check", "portfolio/_multi_period_portfolio.py:_set_portfolios")],
    ["MultiPeriodPortfolio"],
    [("sub-portfolio list", "list and the concatenated returns derived from it", "portfolio/_multi_period_portfolio.py:_portfolios, returns, observations")],
)
prop(
    "C06",
    "Portfolio returns account exactly for weights, costs and fees",
    "A portfolio's return series is always the weighted sum of its assets' returns, less the cost of moving from the previous weights to the current weights and less the management fees, whichever form (number, per-asset array, per-asset mapping) each is given in. Adding, subtracting, scaling, dividing, negating and rounding portfolios is the same as applying the operation to the weights, and the reported composition, non-zero assets, exposures, diversification and contributions agree with those weights. Incompatible or malformed inputs are refused.",
    ["inputs", "configurations"],
    "all small weight vectors, return matrices, cost/fee/previous-weight forms and operator combinations",
    "Tests check one random portfolio; cost attribution, form conversion and operator bookkeeping depend on the combination of inputs.",
    ["portfolio/_portfolio.py"],
    [("net return computation", "portfolio/_portfolio.py:Portfolio.__init__"),
     ("operators", "portfolio/_portfolio.py:__add__, __sub__, __mul__, ...")],
    ["Portfolio.returns, weights, composition, total_cost, total_fee, contribution"],
)
prop(
    "C07",
    "Copies and serialised portfolios and models are faithful and independent",
    "Copying or pickling a portfolio, a multi-period portfolio, a population, or a fitted or unfitted model gives an object that reports the same values, equality and predictions as the original, whatever was read or changed on the original beforehand. Changing either one afterwards never changes the other.",
    ["histories", "configurations"],
    "all kinds of objects, all histories of reads and changes before and after the copy",
    "Tests copy a fresh portfolio once; lost or shared state shows only for particular histories and model types.",
    ["portfolio/_base.py", "portfolio/_multi_period_portfolio.py", "population/_population.py", "optimization/convex/_maximum_diversification.py"],
    [("copy and reduce", "portfolio/_base.py:__copy__, __reduce__ / slots state"),
     ("clonable estimators", "scikit-learn get_params protocol")],
    ["copy.copy, pickle, sklearn.clone on public objects"],
)
prop(
    "C08",
    "Every measure equals its mathematical definition on every return series",
    "Each performance, risk, extra-risk and ratio measure of a portfolio, and each measure function, returns the value given by its documented definition for the portfolio's return series and settings (means, deviations, lower partial moments, quantile and tail averages, entropic measures, drawdowns compounded or not, moments, mean difference, risk-adjusted ratios, annualised and rolling versions). Measures that are undefined for a series are reported consistently rather than as an arbitrary number.",
    ["inputs"],
    "all return series up to a bounded length over a small alphabet of returns including ties, zeros, all-gain and all-loss series, and all confidence levels on a grid",
    "Tests pin each measure on one random series; ties, tail-count rounding, short series and all-gain series are where definitions break.",
    ["measures/_measures.py", "measures/_enums.py", "portfolio/_base.py"],
    [("measure functions", "measures/_measures.py"), ("dispatch with settings", "portfolio/_base.py:get_measure, rolling_measure")],
    ["skfolio.measures functions", "Portfolio measure attributes"],
)
prop(
    "C09",
    "Risk measures obey their orderings, scaling and invariances",
    "For every return series and confidence level, tail measures are ordered (value at risk, then conditional, then entropic, then worst case, and the same for drawdowns), grow with the confidence level, scale in proportion to the returns, shift or stay unchanged when a constant is added as their definition demands, and do not depend on the order of observations unless they are path-dependent. Deviation and drawdown measures are never negative and vanish exactly for constant or never-falling series.",
    ["inputs"],
    "all return series up to a bounded length over a small alphabet, their permutations, scalings and shifts, and all pairs of confidence levels on a grid",
    "The relations quantify over pairs of inputs; tests evaluate single points.",
    ["measures/_measures.py"],
    [("measure functions", "measures/_measures.py")],
    ["skfolio.measures functions"],
)
prop(
    "C10",
    "Domination and non-dominated fronts are exact",
    "One portfolio dominates another exactly when its fitness is at least as good on every chosen measure and strictly better on one, with performance counted as gains and risk as losses. Non-dominated sorting places every member in exactly one front, the first front is exactly the set dominated by nobody, and each later front is exactly the set dominated only by members of earlier fronts, whatever the order of, or ties among, the members.",
    ["inputs"],
    "all multisets of fitness vectors of small size over a small value grid, in every order, with one to three measures",
    "Tests check one random population; ties, duplicates and order effects need all small configurations.",
    ["utils/sorting.py", "portfolio/_base.py", "population/_population.py"],
    [("domination", "utils/sorting.py:dominate"), ("sorting", "utils/sorting.py:non_denominated_sort")],
    ["Portfolio.dominates", "Population.non_denominated_sort", "skfolio.utils.sorting"],
)
prop(
    "C11",
    "Populations are typed lists with exact selections and order statistics",
    "After any sequence of list operations a population contains exactly the portfolios a plain list would, refuses anything that is not a portfolio without changing, and slices and sums to populations. Filtering by name and tag, sorting, quantile, minimum, maximum, mean and spread of any measure, and the summary, composition and rolling tables agree with computing them on the members one by one, and setting portfolio parameters applies to every member and returns the population.",
    ["histories", "inputs"],
    "all sequences of list operations up to a bounded depth and all small populations with ties and repeated names or tags",
    "Tests exercise single operations on one population; type leaks and off-by-one order statistics need sequences and all sizes and quantiles.",
    ["population/_population.py", "utils/tools.py"],
    [("validated list operations", "population/_population.py:Population"), ("order statistics", "population/_population.py:quantile, sort_measure")],
    ["Population"],
)
prop(
    "C12",
    "Constraint and view strings mean exactly what they say",
    "A textual linear constraint or view over assets and groups is turned into the linear relation an ordinary reading of it gives: coefficients add up over repeated terms and both sides, the comparison direction and constant are kept, and a group stands for all its assets (or their equally weighted average for views). A text that is not a well-formed relation, or that names an unknown group, is refused or reported as documented and never silently reinterpreted.",
    ["inputs"],
    "all strings generated by a small grammar of terms, coefficients, signs, spacing, constants, number formats and comparisons, over all small group tables, plus all one-token corruptions of them",
    "Tests parse a few dozen strings; parsing errors live in combinations of sign, number format, spacing and repeated names.",
    ["utils/equations.py"],
    [("tokeniser and matrix builder", "utils/equations.py:equations_to_matrix, group_cardinalities_to_matrix")],
    ["skfolio.utils.equations.equations_to_matrix", "linear_constraints parameter"],
)
prop(
    "C13",
    "Per-asset settings mean the same in every accepted form",
    "Weight bounds, costs, fees, previous weights, risk budgets, groups and other per-asset settings give the same fitted model and the same portfolio whether given as one number, as a sequence in asset order, or as a mapping by asset name in any key order, with the documented default for names left out. Settings of the wrong size or with undefined values are refused.",
    ["inputs", "configurations"],
    "all per-asset settings, forms, key orders and omissions on small universes, across every model that accepts them",
    "Tests check one form per setting; mix-ups of order or default appear only for particular key orders, omissions and column orders.",
    ["utils/tools.py", "optimization/convex/_base.py", "optimization/cluster/hierarchical/_base.py", "portfolio/_portfolio.py"],
    [("input conversion", "utils/tools.py:input_to_array, validate_input_list")],
    ["weights of fitted models", "Portfolio.returns"],
)
prop(
    "C14",
    "Optimised weights satisfy every requested constraint",
    "Whenever an optimisation succeeds, the weights it returns satisfy, within solver tolerance, every requested limit: budget or budget range, per-asset bounds, long and short limits, linear and group constraints, turnover, tracking error, minimum return net of costs, every limit on a risk measure, cardinality, group cardinality and minimum position sizes, whatever the objective and risk measure. Requests that no weights can meet end in an error and never in weights that break them.",
    ["configurations", "inputs"],
    "all combinations of objective, risk measure and sets of constraints at binding levels on small universes",
    "Tests check each constraint with one or two objectives; a constraint formulated for one objective can be wrong under another, which only shows when it binds.",
    ["optimization/convex/_base.py", "optimization/convex/_mean_risk.py", "optimization/convex/_distributionally_robust.py", "optimization/convex/_maximum_diversification.py", "optimization/convex/_risk_budgeting.py"],
    [("constraint construction", "optimization/convex/_base.py:_get_weight_constraints and risk expressions"), ("homogenised ratio problem", "optimization/convex/_mean_risk.py:fit")],
    ["weights_", "predict"],
)
prop(
    "C15",
    "Optimised weights are optimal and reported values are true",
    "No portfolio in the feasible region has a better objective than the one returned, for every objective (minimum risk, maximum return, maximum utility, maximum ratio, maximum diversification, robust tail risk) and every risk measure, costs, fees and regularisation included. The expected return and risk the optimiser reports for its solution are those of the portfolio it returns.",
    ["inputs", "configurations"],
    "all weight vectors on a fine simplex grid, for all objectives, risk measures, cost and regularisation settings on a family of small return matrices",
    "Tests compare the optimiser with its own pinned output or with a second run; optimality quantifies over all feasible weights.",
    ["optimization/convex/_base.py", "optimization/convex/_mean_risk.py", "optimization/convex/_maximum_diversification.py", "optimization/convex/_distributionally_robust.py"],
    [("risk formulations", "optimization/convex/_base.py:_*_risk"), ("objectives", "optimization/convex/_mean_risk.py:fit")],
    ["weights_", "problem_values_"],
)
prop(
    "C16",
    "Fitting depends only on parameters and data, never on history",
    "Fitting any model gives the same result as fitting a fresh model with the same parameters on the same data, whatever the model was fitted on before, whether earlier fits failed, and whatever parameters were changed in between. Fitting and predicting never modify the caller's data, the model's parameters, or the sub-models given as parameters.",
    ["histories", "fault_sequences"],
    "all sequences of fit, failing fit, parameter change, predict and clone up to a bounded depth, for every model family",
    "Tests fit each estimator once; leftovers need a failed or different fit first, and mutation of inputs shows only on the second use.",
    ["optimization/convex/_base.py", "optimization/convex/_mean_risk.py", "optimization/convex/_risk_budgeting.py", "moments/covariance/_implied_covariance.py", "prior/_black_litterman.py", "prior/_empirical.py", "utils/tools.py"],
    [("model cache cleared between fits", "optimization/convex/_base.py:_clear_models_cache"), ("sub-model cloning", "utils/tools.py:check_estimator")],
    ["fitted attributes", "get_params", "input arrays"],
    [("expression cache", "expressions shared within one fit", "optimization/convex/_base.py:_cvx_cache")],
)
prop(
    "C17",
    "Reordering the assets only reorders the result",
    "Permuting the asset columns of the data (and any per-asset settings with them) permutes moments, distances, pre-selection results and optimised weights in the same way, for every model whose definition does not involve asset order, and names always stay attached to their data.",
    ["inputs", "configurations"],
    "all permutations of the assets of small universes, for every model family and naming of columns",
    "Tests use one column order throughout.",
    ["optimization", "moments", "distance", "pre_selection", "prior"],
    [("index bookkeeping in each model", "moments/, distance/, prior/, pre_selection/, optimization/")],
    ["weights_", "mu_", "covariance_", "distance_", "get_support"],
)
prop(
    "C18",
    "Hierarchical, nested and stacked allocations are valid and composed correctly",
    "Hierarchical risk parity and equal risk contribution weights are non-negative, sum to one, respect every feasible set of per-asset bounds, and split between sibling clusters in inverse proportion to their risk when no bound binds; infeasible bounds are refused. Nested and stacked optimisations return exactly the outer weights applied to the inner weights, where the outer model is trained only on out-of-sample returns of the inner ones. Naive allocations match their formulas.",
    ["inputs", "configurations"],
    "all small return families, bound vectors on a grid, risk measures, linkage methods and inner/outer/cross-validation choices",
    "Tests check sums and one bound vector; bound handling interacts with the shape of the tree.",
    ["optimization/cluster/hierarchical/_hrp.py", "optimization/cluster/hierarchical/_herc.py", "optimization/cluster/hierarchical/_base.py", "optimization/cluster/_nco.py", "optimization/ensemble/_stacking.py", "optimization/naive/_naive.py", "utils/stats.py"],
    [("recursive bisection with bounds", "optimization/cluster/hierarchical/_hrp.py"), ("inner/outer composition", "optimization/cluster/_nco.py, optimization/ensemble/_stacking.py")],
    ["weights_"],
)
prop(
    "C19",
    "Codependence, distance and clusters are well formed and mutually consistent",
    "Every distance model yields a symmetric matrix with zero diagonal and non-negative entries that matches the documented transform of its codependence, for every shape of data with varying assets. Hierarchical clustering partitions the assets into consecutively numbered clusters, at most the requested number, each a connected branch of the reported merge tree, and the automatic number of clusters is the one maximising the documented criterion.",
    ["inputs", "configurations"],
    "all small data matrices over a small alphabet, all distance models and options, all linkage methods and cluster limits",
    "Tests pin one dataset per distance.",
    ["distance/_distance.py", "cluster/_hierarchical.py", "utils/stats.py"],
    [("codependence to distance", "distance/_distance.py"), ("cluster extraction", "cluster/_hierarchical.py:fit"), ("cluster count", "utils/stats.py:compute_optimal_n_clusters")],
    ["codependence_, distance_", "labels_, n_clusters_, linkage_matrix_"],
)
prop(
    "C20",
    "Estimated covariances and expected returns match their definitions",
    "Every covariance model returns a symmetric, positive-semidefinite matrix equal to its documented formula on the data (windowing, weighting, shrinkage, denoising, detoning and implied volatilities included), leaves an already valid matrix unchanged apart from rounding, and refuses assets without variance. Every expected-return model returns the vector its formula gives, and correlation/covariance conversions and nearest-matrix repair are exact and idempotent.",
    ["inputs", "configurations"],
    "all small data matrices over a small alphabet with fewer or more rows than assets, and all options of each estimator",
    "Tests pin one dataset; definiteness and windowing fail on short or degenerate data.",
    ["moments/covariance", "moments/expected_returns", "utils/stats.py"],
    [("nearest covariance", "utils/stats.py:cov_nearest"), ("estimators", "moments/")],
    ["covariance_", "mu_"],
)
prop(
    "C21",
    "Priors combine moments exactly as their formulas say",
    "The empirical, Black-Litterman, factor-model and synthetic-data priors return expected returns, covariance, returns and square-root factor that satisfy their documented formulas and agree with each other, for all views, confidences, groups, factor sets and log-normal horizons. Certain views are met exactly, views held with no confidence change nothing, and asset returns never mix up assets or factors.",
    ["inputs", "configurations"],
    "all small sets of views, confidences, groups, factor numbers and horizons on small universes",
    "Tests pin numbers for one configuration each.",
    ["prior/_empirical.py", "prior/_black_litterman.py", "prior/_factor_model.py", "prior/_synthetic_data.py"],
    [("posterior computation", "prior/_black_litterman.py:fit"), ("factor mapping", "prior/_factor_model.py:fit"), ("log-normal scaling", "prior/_empirical.py:fit")],
    ["prior_model_"],
)
prop(
    "C22",
    "Pre-selection keeps exactly the qualifying assets",
    "Each pre-selection step keeps exactly the assets its documented rule qualifies: complete histories, not expiring within the look-ahead, variance above the threshold, not too correlated (in absolute value when asked) with a kept asset, among the best or worst by a measure, or on the leading non-dominated fronts until the minimum number is reached. What is kept is passed on unchanged, in order and under its own name, in pipelines as well.",
    ["inputs", "configurations"],
    "all small data matrices and missing-value patterns, and all thresholds, counts and options",
    "Tests use one dataset per step; boundary cases (ties, thresholds met exactly, options combined) need enumeration.",
    ["pre_selection"],
    [("selection rules", "pre_selection/_*.py:fit")],
    ["get_support", "transform"],
)
prop(
    "C23",
    "Converting prices to returns loses, invents and misaligns nothing",
    "For every table of prices with any pattern of missing values, the returned linear or logarithmic returns are those of the prices after the documented filling and dropping rules, on the documented rows and columns, with asset and factor tables aligned on the same rows. The rows dropped for missing data depend only on the missing asset prices, and the input tables are never changed.",
    ["inputs", "configurations"],
    "all missing-value patterns of small price tables, thresholds, join modes and options, with and without factor prices",
    "Tests cover a few patterns; rule interactions depend on where gaps fall.",
    ["preprocessing/_returns.py"],
    [("filling, dropping and joining", "preprocessing/_returns.py:prices_to_returns")],
    ["prices_to_returns"],
)
prop(
    "C24",
    "Scores and model selection rank in the right direction",
    "A scorer built from a measure returns the measure of the prediction with the sign that makes larger better, unless told otherwise, for every measure and for populations as well as single portfolios where defined; the default score is the Sharpe ratio. Model selection by such a scorer therefore picks the candidate that is best by that measure, and predictions carry the model's own costs, fees, previous weights, risk-free rate and name unless overridden.",
    ["inputs", "configurations"],
    "all measures, direction settings and portfolio parameter overrides, on several models and data sets",
    "Tests check a couple of measures.",
    ["metrics/_scorer.py", "optimization/_base.py", "measures/_enums.py"],
    [("sign selection", "metrics/_scorer.py:make_scorer"), ("portfolio parameters", "optimization/_base.py:predict, score")],
    ["make_scorer", "score", "predict"],
)
prop(
    "C25",
    "Bivariate copulas and margins are internally consistent distributions",
    "For every copula family, parameter and rotation, the joint distribution is a valid distribution with uniform margins, its conditional distributions and density are the derivatives of it, the inverse conditional undoes the conditional, and sampling draws from it; fitted parameters and tail dependence match the family's relation to rank correlation. Univariate margins' quantile and distribution functions are mutual inverses consistent with their density, and model selection picks the candidate with the best criterion.",
    ["inputs", "configurations"],
    "all families, rotations, margins and a grid of parameters and points, including the corners",
    "Tests pin values at a few interior points of a few rotations.",
    ["distribution/copula", "distribution/univariate"],
    [("rotation handling", "distribution/copula/_utils.py"), ("family formulas", "distribution/copula/_*.py")],
    ["cdf, partial_derivative, inverse_partial_derivative, score_samples, sample"],
)
prop(
    "C26",
    "Vine copula samples follow the fitted density, conditioned or not",
    "For every tree structure, copula family, rotation and truncation depth, the samples a fitted vine draws are distributed according to the density it reports, and conditioned samples honour the condition and follow the conditional distribution. Scores and samples depend only on the fitted model, the request and the random state, never on earlier calls.",
    ["histories", "configurations", "inputs"],
    "all sign patterns of dependence between three or four assets, families, depths and sets of conditioning assets, and all sequences of score and sample calls up to a bounded depth",
    "Tests check shapes and a few pinned draws; a wrong conditional on one branch of one rotation only shows by comparing draws with the density for that structure.",
    ["distribution/multivariate/_vine_copula.py", "distribution/multivariate/_utils.py"],
    [("sampling propagation", "distribution/multivariate/_vine_copula.py:_propagate_samples, _sampling_order"), ("visit counters", "distribution/multivariate/_utils.py:ChildNode")],
    ["VineCopula.sample, score_samples"],
    [("node caches", "conditional values cached on tree nodes with visit counts", "distribution/multivariate/_utils.py:ChildNode")],
)
prop(
    "C27",
    "A dataset download interrupted at any point never poisons the cache",
    "Whatever point a dataset download is interrupted at (connection, partial file, decoding, writing or moving the cached copy, cleaning up), a later request returns the complete dataset, fetching it again if needed, and never fails because of, or returns, leftovers of the interrupted one. A cached dataset is returned identical without network access, a missing one with downloads disabled is refused, and clearing the cache removes only the cache directory.",
    ["crash_points", "fault_sequences", "histories"],
    "all interruption points of a download, sequences of up to a few requests, interruptions and clearings, and all ways of naming the cache directory",
    "Tests mock one successful download; crash points are never exercised.",
    ["datasets/_base.py"],
    [("download then cache", "datasets/_base.py:download_dataset"), ("cache location", "datasets/_base.py:get_data_home, clear_data_home")],
    ["download_dataset, get_data_home, clear_data_home"],
    [("cache directory", "files left by earlier calls", "data home directory")],
)
prop(
    "C28",
    "A list of targets gives the same portfolios as solving each target alone",
    "Optimising for a list of target values, or for an efficient frontier of a given size, returns one portfolio per target, in order, each equal to the one obtained by requesting that target alone, and a frontier runs from minimum risk to maximum return with returns and risks that never decrease and no portfolio dominated by another feasible one. Lists of different lengths are refused, and targets that cannot be met are reported without disturbing the others.",
    ["configurations", "fault_sequences"],
    "all combinations and orders of feasible and infeasible targets for each kind of limit, and all frontier sizes up to a bound",
    "Tests compare lengths for a few lists; parameter carry-over between targets depends on their order and on failures in between.",
    ["optimization/convex/_base.py", "optimization/convex/_mean_risk.py"],
    [("parametrised re-solve loop", "optimization/convex/_base.py:_solve_problem"), ("frontier bounds", "optimization/convex/_mean_risk.py:fit")],
    ["weights_", "predict", "problem_values_"],
)
prop(
    "C29",
    "Risk budgeting delivers the requested split of risk",
    "Without binding constraints, the share of total risk each asset contributes equals its requested budget for every budget vector and every risk measure offered, with equal shares by default, and weights sum to one and are positive. The result does not depend on the scale of the budget or of the returns, and extra constraints, when given, hold.",
    ["inputs", "configurations"],
    "all budget vectors on a grid, all risk measures, and a family of small return matrices",
    "Tests check a couple of budgets for variance; the relation quantifies over budgets and measures.",
    ["optimization/convex/_risk_budgeting.py", "portfolio/_portfolio.py"],
    [("log-barrier formulation", "optimization/convex/_risk_budgeting.py:fit"), ("risk contributions", "portfolio/_portfolio.py:contribution")],
    ["weights_", "Portfolio.contribution"],
)
prop(
    "C30",
    "Seeded randomness is reproducible, isolated and correctly shaped",
    "Every randomised component (bootstrap resampling, uncertainty sets, random weights, distribution sampling, synthetic data, random splits) gives identical results for identical seeds regardless of what else used random numbers before, and a seeded call does not alter the global random stream seen by the caller. Resampled data consists only of contiguous, possibly wrapped, blocks of the original rows, random weights are valid allocations, and uncertainty sets have the documented size and shape.",
    ["histories", "inputs", "configurations"],
    "all interleavings of seeded and unseeded calls up to a bounded depth, and all seeds, sizes and block lengths on a grid",
    "Tests call each component once with one seed; interference needs two calls and a check of the global stream.",
    ["utils/bootstrap.py", "uncertainty_set", "utils/stats.py", "distribution"],
    [("seeding", "utils/bootstrap.py:stationary_bootstrap"), ("ellipsoid construction", "uncertainty_set/_empirical.py, uncertainty_set/_bootstrap.py")],
    ["stationary_bootstrap", "uncertainty_set_", "rand_weights*", "sample"],
)
prop(
    "C31",
    "Metadata reaches every nested estimator that asked for it and no other",
    "With metadata routing enabled, extra arrays given to fit, cross-validation or a grid search (implied volatilities, sample information, anything a user-defined component asks for) reach every nested component that requested them, at any depth and in any slot, under the name or alias it asked for and unaltered; components that declined receive nothing, and names nobody asked for or whose request was left unset are refused. Where rows or asset columns are subset (training folds, clusters) the metadata is subset to the same rows and columns.",
    ["configurations", "inputs", "histories"],
    "all trees of composite estimators up to a bounded depth, all assignments of request states to their components and all sets of passed names",
    "Tests route one array through one path per estimator; slots, aliases, refusals and column subsets combine.",
    ["optimization", "prior", "moments", "uncertainty_set", "distance", "model_selection/_validation.py", "utils/tools.py"],
    [("routers", "get_metadata_routing of every composite estimator"), ("row and column subsets", "utils/tools.py:_check_method_params, optimization/cluster/_nco.py")],
    ["fit(**fit_params)", "set_fit_request", "cross_val_predict(params=)"],
)
prop(
    "C32",
    "Tables and figures show exactly the portfolios' own numbers",
    "Every table (composition, contribution, summary, measures, cumulative returns) and every figure drawn from portfolios, multi-period portfolios, populations, splitters, clusterings and fitted distributions shows the values of the objects it is drawn from: the right asset, portfolio, row and label, for any selection of rows, tags or subset. Contributions are the documented finite differences of the portfolio's own measure, formatted numbers are the values rounded with enough digits and the right unit, and a valid request is never refused because of names, sizes or the kind of measure.",
    ["inputs", "configurations"],
    "all populations up to a bounded size drawn from a pool of differing portfolios, all measures and all display options on a grid of weights and settings",
    "Tests only assert that plotting does not raise for one example; nothing compares what is drawn with the numbers.",
    ["portfolio", "population", "model_selection/_combinatorial.py", "cluster/_hierarchical.py", "distribution", "utils/tools.py"],
    [("tables", "portfolio/_portfolio.py:contribution, composition, portfolio/_base.py:summary"), ("figures", "plot_* methods")],
    ["summary", "composition", "contribution", "plot_*"],
)

prop(
    "C33",
    "Unusable data and contradictory settings are refused, never silently accepted",
    "Fitting any estimator on data with missing or infinite values, of the wrong shape or type, or with factors or implied volatilities that do not match, raises instead of returning a result. A fitted estimator refuses to predict, transform or score data whose assets are fewer, more, renamed or in another order than those it was fitted on, so weights are never applied to the wrong assets; an unfitted one refuses to answer. Per-asset settings of the wrong length, settings outside their documented domain, contradictory or unreachable constraints and nested estimators of the wrong kind are refused. The same data as a table or as an array of any memory layout give the same result, and predictions carry the assets and dates of the data they were made on.",
    ["inputs", "configurations"],
    "every estimator, every column and row position of an unusable value, every kind of mismatching data, every nested slot with every wrong kind of object and a catalogue of contradictory settings",
    "Tests exercise a handful of refusals; whether each estimator refuses each kind of bad input, and whether mismatching columns slip through at prediction time, is untested.",
    ["optimization", "prior", "moments", "uncertainty_set", "distance", "distribution", "pre_selection", "portfolio", "model_selection", "utils/tools.py"],
    [("validation", "fit of every estimator, utils/tools.py:input_to_array, check_estimator"), ("asset names at prediction", "optimization/_base.py:predict")],
    ["fit", "predict", "transform", "score"],
)

prop(
    "C34",
    "Restating a problem changes no answer, and failures are always reported",
    "Writing the same convex problem differently gives the same portfolio and the same reported values: returns in percent, another scale of the objective or the constraints, another capable solver, observations in another order or all repeated, a sure return added to every asset where the risk measure ignores it, redundant constraints, limits or strings, a budget vector in other units. A request that has no solution always raises, or, when raising is turned off, warns and leaves weights that cannot be mistaken for an answer or used for a prediction, whatever was fitted before.",
    ["inputs", "configurations"],
    "all pairs of risk measure and objective on a family of feasible regions, each with every applicable restatement, and a catalogue of impossible requests under every reporting mode",
    "Tests fix one formulation per model; invariance relates pairs of formulations over all measures, objectives and constraints.",
    ["optimization/convex"],
    [("scaling of objective and constraints", "optimization/convex/_base.py:_solve_problem"), ("homogenised ratio problem", "optimization/convex/_base.py"), ("error reporting", "optimization/convex/_base.py:_solve_problem")],
    ["weights_", "problem_values_", "raise_on_failure"],
)

prop(
    "C35",
    "A pipeline equals its steps by hand, and settings follow the kept assets",
    "Selections of assets followed by an optimisation in one pipeline give the same kept assets, weights and predicted portfolios as fitting each step by hand on the assets the step before left, on the training rows alone, in plain fits, in every fold of a cross-validation and in a search over the parameters of the selection, with factors kept on the same dates. Bounds, costs, fees, previous weights, budgets, groups and constraints written by name for the whole universe apply to the assets that remain exactly as if given by position for those alone; constraints and cardinality limits naming only assets or groups that are gone are dropped with a warning, and views naming them are refused.",
    ["configurations", "inputs"],
    "every subset of a small universe kept by a selection, every model with settings given by name, and all ordered sequences of selections with every optimisation and splitter",
    "Tests run one pipeline on one data set; which combination of dropped names and settings still works is untested.",
    ["pre_selection", "optimization", "model_selection/_validation.py", "utils/tools.py", "utils/equations.py"],
    [("settings by name", "utils/tools.py:input_to_array"), ("missing groups", "utils/equations.py:equations_to_matrix, group_cardinalities_to_matrix"), ("folds", "utils/tools.py:fit_and_predict")],
    ["Pipeline.fit", "Pipeline.predict", "cross_val_predict", "GridSearchCV"],
)

out = pathlib.Path(__file__).resolve().parent.parent / "properties.jsonl"
out.write_text("".join(json.dumps(p) + "\n" for p in P))
print(len(P))
