"""Writes /verif/properties.jsonl (run by hand when a property changes)."""
import json
import os

P = []


def prop(pid, title, statement, over, text, why, files, mech):
    assert len(title) <= 80, title
    P.append(
        dict(
            id=pid,
            title=title,
            statement=statement,
            quantifier=dict(over=over, text=text),
            why_tests_cant=why,
            anchors=dict(files=["mlpaper/%s.py" % f for f in files], mechanism=[dict(name=n, where=w) for n, w in mech]),
        )
    )


prop(
    "C01",
    "Class probabilities are floored, then renormalised, before they are scored",
    "For every classifier, the tabulated log probabilities are the classifier's own test predictions raised to the requested minimum log probability and only then renormalised, so that each test point's probabilities sum to one; this holds whether the classifier offers log probabilities or only probabilities. Scoring a table of predictions renormalises every method's rows first, unless the caller declares them normalised.",
    ["inputs", "configurations"],
    "all classifiers, predictions (including zeros and unnormalised rows), floors and numbers of labels",
    "Tests drive a few fixed classifiers with the default floor; a swapped order or a skipped renormalisation only shows for predictions below the floor or unnormalised inputs.",
    ["classification", "util"],
    [("get_pred_log_prob", "mlpaper/classification.py:get_pred_log_prob"), ("normalize", "mlpaper/util.py:normalize"), ("loss_table", "mlpaper/classification.py:loss_table")],
)
prop(
    "C02",
    "No information about the test set reaches model fitting",
    "In both the classification and the regression benchmark, every method is fitted exactly once on the training inputs and training targets and nothing else, and is fitted before it predicts. Predictions are made from the test inputs only and are stored under the name of the method that made them; the test targets are used for scoring alone.",
    ["inputs", "programs", "configurations"],
    "all data sets, all collections of methods",
    "A leak of test data into fitting improves or barely changes the scores, so no example-based assertion fails.",
    ["classification", "regression"],
    [("fit/predict loop", "mlpaper/classification.py:get_pred_log_prob"), ("fit/predict loop", "mlpaper/regression.py:get_gauss_pred"), ("end to end driver", "mlpaper/classification.py:just_benchmark"), ("end to end driver", "mlpaper/regression.py:just_benchmark")],
)
prop(
    "C03",
    "NaNs and out-of-contract inputs are rejected, and valid ones are accepted",
    "A sample or set of bootstrap estimates containing NaN is rejected by every test, error-bar, percentile and significance routine, and points outside stated limits, invalid confidence levels, labels outside the label range, non-finite predictions or non-positive predictive deviations are rejected by the routines that depend on them; none of these silently yields a number. Conversely no routine turns away an input that satisfies its documented contract.",
    ["inputs"],
    "all arrays, limits, confidence levels and labels",
    "Tests feed valid inputs almost exclusively; one missing or over-strict guard on one path is invisible to them.",
    ["boot_util", "util", "mlpaper", "classification", "regression", "data_splitter", "perf_curves", "sciprint"],
    [("validity checks", "mlpaper/mlpaper.py:t_test,t_EB,bernstein_test,bernstein_EB,get_mean_and_EB"), ("validity checks", "mlpaper/boot_util.py:percentile,significance"), ("shape_and_validate", "mlpaper/classification.py, mlpaper/regression.py"), ("split checks", "mlpaper/data_splitter.py")],
)
prop(
    "C04",
    "Comparisons against the reference method are paired",
    "Every significance value in a performance table compares a method with the reference on the same test points: for losses the test is applied to the point-by-point loss difference, for curve areas both methods are resampled with the very same bootstrap weights. With paired intervals requested the error bar is that of the same difference, otherwise that of the method itself.",
    ["inputs", "configurations"],
    "all loss tables, methods, references, metrics, resampling draws and interval settings",
    "An unpaired comparison still yields plausible p-values; detecting it by sampling needs large correlated examples the tests do not have.",
    ["mlpaper", "classification"],
    [("pairing of losses", "mlpaper/mlpaper.py:loss_summary_table"), ("shared bootstrap weights", "mlpaper/classification.py:curve_boot"), ("reference choice", "mlpaper/classification.py:curve_summary_table")],
)
prop(
    "C05",
    "Combined and separate statistics routines agree",
    "Asking for mean, error bar and p-value in one call gives the same mean, the same error bar and the same p-value as the separate calls with the same settings, for each of the three interval methods. For the bootstrap method both parts are derived from one and the same set of resamples.",
    ["inputs", "configurations"],
    "all samples, limits, confidence levels, minimum bars and methods",
    "The combined path duplicates the dispatch of the separate ones; tests compare them on a few samples and cannot cover every limit and degenerate-sample combination.",
    ["mlpaper"],
    [("combined routine", "mlpaper/mlpaper.py:get_mean_EB_test"), ("separate routines", "mlpaper/mlpaper.py:get_mean_and_EB,get_test"), ("bootstrap core", "mlpaper/mlpaper.py:_boot_EB_and_test,boot_EB,boot_test")],
)
prop(
    "C06",
    "The reference method's own row carries no comparison against itself",
    "In every performance table the reference method has an undefined p-value for every metric, and an undefined error bar exactly when paired intervals are requested; every other method has a computed error bar and p-value. The mean column is always the plain mean loss or the area of the curve on the original data, for every method including the reference.",
    ["inputs", "configurations"],
    "all tables, metrics, methods and interval settings",
    "Requires checking every combination of reference position, metric and interval setting rather than one table.",
    ["mlpaper", "classification"],
    [("loss rows", "mlpaper/mlpaper.py:loss_summary_table"), ("curve rows", "mlpaper/classification.py:curve_summary_table")],
)
prop(
    "C07",
    "p-values lie in [0, 1] and error bars are never negative",
    "Every p-value returned by the t, Bernstein and bootstrap tests and by the bootstrap significance routine lies between 0 and 1, and every error bar is at least zero or infinite. In particular twice a tail fraction is capped at one and exponential bounds are capped at one.",
    ["inputs"],
    "all samples, references, confidence levels and resamples",
    "Only particular samples (ties at the reference, tiny samples) exceed the cap; random tests rarely hit them.",
    ["boot_util", "mlpaper"],
    [("caps", "mlpaper/boot_util.py:significance"), ("caps", "mlpaper/mlpaper.py:bernstein_test"), ("bars", "mlpaper/boot_util.py:error_bar"), ("bars", "mlpaper/mlpaper.py:t_EB,bernstein_EB,clip_EB")],
)
prop(
    "C08",
    "Samples that support no inference give the non-committal answer",
    "For a sample with at most one point or with an infinite value, every test returns p = 1 and every error bar is infinite, or the full range of the stated limits for the Bernstein bar; the Bernstein test is also non-committal when the limits are infinite or coincide. A finite sample of two or more points without spread is decided exactly by whether its mean is zero.",
    ["inputs"],
    "all degenerate samples for all three methods",
    "Degenerate sizes, infinities and zero variance are separate paths of every routine; tests cover few of the combinations.",
    ["mlpaper"],
    [("degenerate branches", "mlpaper/mlpaper.py:t_test,t_EB,bernstein_test,bernstein_EB,_boot_EB_and_test")],
)
prop(
    "C09",
    "Means and error bars respect the stated limits",
    "Reported means are the sample mean kept inside the stated limits, and the error bar is never larger than the distance from the mean to the farther limit and never smaller than the requested minimum, with no cap when that distance is undefined. Limits of a paired difference are minus and plus the range of the metric, and impossible combinations of mean, limits and minimum bar are errors.",
    ["inputs", "configurations"],
    "all means, bars, finite and infinite limits, and minimum bars",
    "Boundary combinations (mean on a limit, NaN mean, one infinite limit, minimum bar larger than the distance) form a large case space the tests sample sparsely.",
    ["mlpaper", "util"],
    [("clip_EB", "mlpaper/mlpaper.py:clip_EB"), ("clip_chk", "mlpaper/util.py:clip_chk"), ("use of limits", "mlpaper/mlpaper.py:get_mean_and_EB,get_mean_EB_test,loss_summary_table")],
)
prop(
    "C10",
    "t and Bernstein intervals and tests implement their stated formulas",
    "The t error bar is half the central Student-t interval at the requested confidence with n-1 degrees of freedom times the standard error, and the t p-value is that of the one-sample test against zero. The Bernstein bar is the empirical Bernstein bound for the population deviation and the stated range, and the Bernstein p-value is the level at which that bound just reaches the mean, so bar and test are dual.",
    ["inputs"],
    "all samples, limits and confidence levels",
    "A wrong degrees-of-freedom or bias correction changes results by a few percent on small samples only, below what the calibration tests resolve.",
    ["mlpaper"],
    [("t interval", "mlpaper/mlpaper.py:t_EB,t_test"), ("Bernstein bound", "mlpaper/mlpaper.py:bernstein_EB,bernstein_test"), ("method dispatch", "mlpaper/mlpaper.py:get_mean_and_EB,get_test")],
)
prop(
    "C11",
    "Bootstrap intervals and tests are the percentile bootstrap, rounded outwards",
    "Each bootstrap replicate reweights the sample by one multinomial resample of its n equally likely points, with every weight at least the requested epsilon, and the replicate statistic is the weighted mean over all n points. Percentile limits take the lower order statistic at the lower tail and the higher one at the upper tail of a central interval, along the replicate axis; the basic interval mirrors it about the estimate, the error bar is the larger deviation of the two limits from the original estimate, and the two-sided significance doubles the smaller tail counting ties in both tails.",
    ["inputs", "configurations"],
    "all samples, replicate counts, confidence levels and draws",
    "Outward versus inward rounding or a one-sided tie rule changes results only by one order statistic, far below sampling noise.",
    ["boot_util", "mlpaper"],
    [("resampling weights", "mlpaper/boot_util.py:boot_weights"), ("percentiles", "mlpaper/boot_util.py:confidence_to_percentiles,percentile,basic,error_bar"), ("significance", "mlpaper/boot_util.py:significance"), ("bootstrap mean", "mlpaper/mlpaper.py:_boot_EB_and_test")],
)
prop(
    "C12",
    "ROC, precision-recall and PRG curves follow their definitions for all inputs",
    "Every curve has one point per distinct score, in decreasing order of score, preceded by the point where nothing is predicted positive; tied scores share one point and sample weights count as multiplicities. The coordinates are the definitions of true and false positive rate, recall and precision, and recall and precision gain; precision at the leading point continues that of the next, recall gain is cut at zero, and a class that is absent (or has zero weight) is replaced by a vanishing copy of the other so that no coordinate is undefined by a missing class.",
    ["inputs"],
    "all labels, scores with ties, weight matrices and single-class samples",
    "Tests compare a few random samples with another library; ties combined with weights and absent classes are rare in them.",
    ["perf_curves"],
    [("counting", "mlpaper/perf_curves.py:_binary_clf_curve"), ("coordinates", "mlpaper/perf_curves.py:roc_curve,recall_precision_curve,prg_curve")],
)
prop(
    "C13",
    "A curve's area and its plotted values use the same interpolation rule",
    "Linear curves are integrated by the trapezoid rule and evaluated by linear interpolation; stepwise curves hold each value until the next point both when integrated and when evaluated, using the last value wherever a horizontal position repeats and being continuous from the right. The rule applied is always the one the curve itself declares, for the original curve and for every bootstrap replicate, and any other rule is an error.",
    ["inputs", "configurations"],
    "all curves, grids and interpolation kinds",
    "The area and the grid values are computed by different code; they can drift apart on steep or repeated segments without failing a test.",
    ["util", "perf_curves", "classification"],
    [("area", "mlpaper/util.py:area"), ("interpolation", "mlpaper/util.py:_interp1d,eval_step_func,unique_take_last"), ("declared kind", "mlpaper/perf_curves.py"), ("use", "mlpaper/classification.py:curve_boot")],
)
prop(
    "C14",
    "Train, test and unused rows partition the data set",
    "Splitting a table returns three tables whose rows are disjoint and together are exactly the rows of the input, unchanged and in their original order. A row is training only if it is selected for training by every splitting feature, test only if it is deselected by every one, and unused otherwise.",
    ["inputs", "configurations"],
    "all tables, features, fractions and combinations of split kinds",
    "With one splitting feature the unused part is empty, so errors in combining several features escape single-feature examples.",
    ["data_splitter"],
    [("combination of masks", "mlpaper/data_splitter.py:split_df")],
)
prop(
    "C15",
    "Splits are made by value, so equal values always fall on the same side",
    "Every split assigns a row by the value of its feature: a random split draws, without replacement, the requested fraction (rounded up) of the distinct values, an ordered split takes the smallest such fraction of the distinct values, and a linear split takes the values up to the requested fraction of the way from the smallest to the largest. Declaring the feature unique or sorted only skips work and selects the same rows whenever the declaration is true.",
    ["inputs", "configurations"],
    "all features with or without duplicates, fractions in [0, 1] and declarations",
    "Group leakage between train and test needs duplicated values with particular fractions; existing examples use few of them.",
    ["data_splitter"],
    [("split kinds", "mlpaper/data_splitter.py:random_split_series,ordered_split_series,linear_split_series"), ("random subsets", "mlpaper/data_splitter.py:rand_subset,rand_mask"), ("declarations", "mlpaper/data_splitter.py:split_df")],
)
prop(
    "C16",
    "No routine modifies the caller's arguments or shared defaults",
    "Arrays, tables, dictionaries and lists passed in by the caller, and default argument values, are left exactly as they were by every routine. The only exceptions are the model objects, which are fitted, and an explicitly requested in-place operation.",
    ["inputs", "histories"],
    "all calls and sequences of calls",
    "A test sees an aliasing bug only if it reuses the very object afterwards and the values happen to change.",
    ["boot_util", "util", "mlpaper", "perf_curves", "classification", "regression", "data_splitter", "sciprint"],
    [("all public functions", "mlpaper/*.py")],
)
prop(
    "C17",
    "Randomness comes only from the global generator, and no other global state leaks",
    "All randomness is drawn from numpy's global generator, so seeding it makes every result reproducible, and routines that need no randomness never consume any. No routine reseeds the generator or leaves any other process-wide setting changed, such as floating-point error handling or the decimal context.",
    ["histories", "configurations"],
    "all call sequences and seeds",
    "Tests run with a fixed seed and never check what state a call leaves behind.",
    ["boot_util", "util", "mlpaper", "perf_curves", "classification", "regression", "data_splitter", "sciprint"],
    [("random draws", "mlpaper/boot_util.py:boot_weights, mlpaper/util.py:epsilon_noise, mlpaper/data_splitter.py:rand_subset"), ("scoped contexts", "mlpaper/sciprint.py:create_decimal, numpy errstate blocks")],
)
prop(
    "C18",
    "Published numbers are rounded conservatively",
    "Error bars and p-values are rounded upwards to their requested number of digits and never downwards, and bars above the requested limit count as infinite. A mean is rounded half up to exactly the last digit of its error bar, or to the default number of digits when the bar is zero, infinite or undefined, and each rounded value stays in the row, metric and statistic it came from.",
    ["inputs", "configurations"],
    "all tables and digit settings",
    "Rounding direction only shows for values between representable digits, and misplacement only for particular column orders.",
    ["sciprint"],
    [("decimalize", "mlpaper/sciprint.py:decimalize"), ("create_decimal", "mlpaper/sciprint.py:create_decimal,decimal_1ek,decimal_from_tuple")],
)
prop(
    "C19",
    "Column headers state exactly the scaling that was applied to the column",
    "When a column has been multiplied by a power of ten, its header shows that power, or the matching SI prefix in front of the unit when prefixes are wanted and one exists, in the plain and in the TeX style; an unscaled column shows neither. Every SI prefix in the table denotes its own power of ten, and p-value columns are headed as p-values only.",
    ["inputs", "configurations"],
    "all shifts, units, metrics and styles",
    "There is one case per shift, unit, prefix and style; a wrong sign or table entry misreports results by orders of magnitude without failing the sampled cases.",
    ["sciprint"],
    [("adjust_headers", "mlpaper/sciprint.py:adjust_headers"), ("prefix tables", "mlpaper/sciprint.py:PREFIX,TEX_PREFIX"), ("shift applied", "mlpaper/sciprint.py:format_table,print_estimate")],
)
prop(
    "C20",
    "Each printed estimate shows the shifted mean with its error digits, or a bound",
    "An estimate is printed as the mean times the requested power of ten in full decimal notation followed by the digits of its error bar in parentheses when the bar is finite; values beyond the given limits are printed as strictly below or above the scaled limit, and undefined or infinite values use the caller's text. A p-value is printed exactly unless it is at most its own resolution, in which case it is printed as below that resolution.",
    ["inputs", "configurations"],
    "all decimals, shifts, limits and formats",
    "Signs, exponents, clipping on either side and non-finite values multiply into more cases than the examples cover.",
    ["sciprint"],
    [("print_estimate", "mlpaper/sciprint.py:print_estimate"), ("print_pval", "mlpaper/sciprint.py:print_pval"), ("digits", "mlpaper/sciprint.py:digit_str,decimal_eps")],
)
prop(
    "C21",
    "The chosen scaling is the admissible shift giving the shortest column",
    "The shift chosen for a metric is a multiple of the requested step within the range that needs no artificial zeros, and minimises the width of the longest printed estimate; among equally short ones the shift closest to zero wins, and an empty column is not shifted. Padding then aligns all estimates of a column at the decimal point and adds nothing but padding.",
    ["inputs", "configurations"],
    "all columns of finite estimates and step sizes",
    "Optimality and tie-breaking quantify over every admissible shift for every column.",
    ["sciprint"],
    [("find_shift", "mlpaper/sciprint.py:find_shift"), ("get_shift_range", "mlpaper/sciprint.py:get_shift_range,floor_mod,ceil_mod"), ("pad_num_str", "mlpaper/sciprint.py:pad_num_str,find_last_dig,str_print_len"), ("use", "mlpaper/sciprint.py:format_table")],
)
prop(
    "C22",
    "Plain-text and LaTeX exports show the same numbers",
    "For the same table and options, the plain and the LaTeX export contain the same cells, rows and columns and the same shifts, limits and rounding; they differ only in header style and markup. Every formatting option given by the caller reaches the stage it belongs to in both styles.",
    ["inputs", "configurations"],
    "all tables and formatting options",
    "The LaTeX path is not executed by the test suite at all.",
    ["sciprint"],
    [("just_format_it", "mlpaper/sciprint.py:just_format_it"), ("exporters", "mlpaper/sciprint.py:table_to_latex,table_to_string"), ("format_table", "mlpaper/sciprint.py:format_table")],
)
prop(
    "C23",
    "Classification losses are the stated proper scores of the true label",
    "For each test point the log loss is minus the log probability of its true label, the Brier loss is the squared distance between the probability vector and the one-hot truth, and the spherical loss is the negative normalised probability of the truth. When rescaling is on, Brier and spherical losses give zero for a perfect and one for a uniform prediction for any number of labels.",
    ["inputs"],
    "all labels, prediction matrices and numbers of labels",
    "Tests check properness and scale for small random cases; single-label and many-label cases and the rescaling constants are not settled by them.",
    ["classification", "util"],
    [("losses", "mlpaper/classification.py:log_loss,brier_loss,spherical_loss,hard_loss"), ("one_hot", "mlpaper/util.py:one_hot"), ("loss_table", "mlpaper/classification.py:loss_table")],
)
prop(
    "C24",
    "Hard decisions minimise expected loss",
    "For every loss matrix the chosen action minimises the expected loss under the predicted class probabilities, the first one winning ties, and the reported loss is the matrix entry for the true label and that action. Without a loss matrix every error costs one and every correct decision nothing.",
    ["inputs"],
    "all prediction matrices and loss matrices, including non-square ones",
    "With symmetric zero-one losses a transposed matrix or a most-probable-class rule gives the same answers.",
    ["classification"],
    [("Bayes action", "mlpaper/classification.py:hard_loss_decision"), ("hard_loss", "mlpaper/classification.py:hard_loss")],
)
prop(
    "C25",
    "Regression losses and predictive deviations follow the Gaussian definitions",
    "Squared, absolute and Gaussian log losses of every test point are the standard functions of target, predicted mean and predicted standard deviation. Predicted deviations are raised to the requested minimum and never lowered, a method that cannot report deviations (TypeError for return_std) gets one while any other error is passed on, and each loss is filed under its own metric and method.",
    ["inputs", "configurations"],
    "all targets, predictions, minima and methods",
    "There are no unit tests of the regression losses or of the deviation floor in the stable suite.",
    ["regression"],
    [("losses", "mlpaper/regression.py:square_loss,abs_loss,log_loss"), ("deviation floor", "mlpaper/regression.py:get_gauss_pred"), ("loss_table", "mlpaper/regression.py:loss_table")],
)
prop(
    "C26",
    "Options given to a high-level call reach the step they control",
    "Every option of the one-call benchmark, summary and formatting routines (confidence, limits, interval method, paired intervals, reference, number of resamples, grid, floors and display options) takes effect in the step it documents, with the value the caller gave, for losses and curves alike. Omitted options have their documented defaults.",
    ["configurations"],
    "all option combinations",
    "Tests call the high-level routines with few or default options, so a dropped or swapped option goes unnoticed.",
    ["classification", "regression", "mlpaper", "sciprint"],
    [("drivers", "mlpaper/classification.py:just_benchmark,summary_table,curve_summary_table"), ("driver", "mlpaper/regression.py:just_benchmark"), ("summary", "mlpaper/mlpaper.py:loss_summary_table"), ("formatting driver", "mlpaper/sciprint.py:just_format_it,format_table")],
)
prop(
    "C27",
    "Cached predictions are keyed by everything that determines them",
    "When a checkpoint directory is given, the cached computation for a method receives as arguments every input on which its result depends (method, training data and test inputs), so a cached prediction is never reused for other data. With or without a checkpoint directory the same predictions are tabulated.",
    ["histories", "configurations"],
    "all sequences of benchmark calls sharing a cache directory",
    "Stale-cache reuse needs two runs with different data sharing a directory; no test uses caching.",
    ["classification", "regression"],
    [("cached worker", "mlpaper/classification.py:get_pred_log_prob"), ("cached worker", "mlpaper/regression.py:get_gauss_pred")],
)
prop(
    "C28",
    "Every cell of a result table belongs to its row, metric, method and statistic",
    "Result tables are indexed by method (or test point) and by metric with the documented statistics or labels and level names, and each number is written to the cell of the method and metric it was computed for; curves are returned under the same keys. Loss and curve results are joined side by side without reordering or dropping methods.",
    ["inputs"],
    "all collections of methods, labels and metrics",
    "Swapped keys are invisible when a test uses one method or one metric, or checks only shapes.",
    ["mlpaper", "classification", "regression", "sciprint"],
    [("loss tables", "mlpaper/classification.py:loss_table, mlpaper/regression.py:loss_table"), ("summary tables", "mlpaper/mlpaper.py:loss_summary_table, mlpaper/classification.py:curve_summary_table,summary_table"), ("formatted tables", "mlpaper/sciprint.py:decimalize,format_table")],
)
prop(
    "C29",
    "Lagged tables never look ahead",
    "A lag table contains the original columns unshifted as lag zero and, for each further lag (the requested number of lags counts lag zero), the chosen features as they were that many strides earlier, never later. Rows keep their original index and every column is labelled with its feature and its lag.",
    ["inputs", "configurations"],
    "all tables, lag counts, strides and feature selections",
    "A reversed shift leaks the future but leaves shapes and labels intact.",
    ["data_splitter"],
    [("build_lag_df", "mlpaper/data_splitter.py:build_lag_df")],
)
prop(
    "C30",
    "The noise baselines predict only the training marginal",
    "The classification baseline predicts for every test point the smoothed label frequencies of the training targets, ignoring all inputs; the regression baseline predicts their mean and population standard deviation. Both give one prediction per test row and depend on no test information other than the number of rows.",
    ["inputs"],
    "all training targets, test sizes, label counts and pseudo counts",
    "Baselines are exercised by end-to-end runs only; smoothing and the deviation's bias are never asserted.",
    ["classification", "regression"],
    [("JustNoise", "mlpaper/classification.py:JustNoise"), ("JustNoise", "mlpaper/regression.py:JustNoise")],
)
prop(
    "C31",
    "Numerical helpers keep their contracts",
    "Clipping and one-hot encoding are exact, log-normalisation subtracts each row's log total, and tie-breaking noise never exceeds half the smallest gap between distinct values or the given maximum, so it cannot reorder distinct values. A strict running maximum is strictly increasing and changes a value only when needed, a step function returns the value of the last break point not to the right of the query, and removing characters removes exactly those characters.",
    ["inputs"],
    "all arrays and strings",
    "These helpers are shared by every result; the tests sample small random arrays.",
    ["util"],
    [("helpers", "mlpaper/util.py:clip_chk,one_hot,normalize,epsilon_noise,unique_take_last,cummax_strict,eval_step_func,remove_chars")],
)

prop(
    "C90",
    "Error bars and p-values have their nominal coverage",
    "Intervals at a given confidence contain the true mean, and tests reject a true null hypothesis, at the stated long-run frequencies.",
    ["inputs"],
    "all sampling distributions and sample sizes",
    "It is a statement about probabilities over random samples, which simulation tests approximate for a few distributions.",
    ["mlpaper", "boot_util"],
    [("intervals", "mlpaper/mlpaper.py:t_EB,bernstein_EB,boot_EB")],
)
prop(
    "C91",
    "Floating-point results are accurate to rounding error",
    "Every statistic, loss and curve area agrees with its exact real-number value up to rounding error, without overflow or cancellation, for all finite inputs.",
    ["inputs"],
    "all finite floating-point inputs",
    "Accuracy depends on the magnitudes and cancellation in the actual values.",
    ["mlpaper", "classification", "util", "perf_curves"],
    [("numerics", "mlpaper/*.py")],
)

if __name__ == "__main__":
    out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
    with open(out, "w") as f:
        for p in P:
            f.write(json.dumps(p) + "\n")
    print(len(P), "properties")
