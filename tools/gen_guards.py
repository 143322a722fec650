"""Writes spec/guards.py: one function per (routine, kind of bad input).  The
asserts of a guard function are different ways of noticing the same bad input;
the analyser assumes all of them fail and then requires the routine to reject."""
import os

OUT = []


def g(fn, tag, params, *tests, **kw):
    """witness: further facts about the bad input that may be assumed."""
    mod, f = fn.split(".")
    ps = params.split(", ")
    if kw.get("of"):
        ps.sort(key=lambda x: x.split(":")[0] != kw["of"])
    params = ", ".join(ps)
    OUT.append("def %s__%s__%s(%s):" % (mod, f, tag, params))
    for t in tests:
        OUT.append("    assert " + t)
    w = list(kw.get("witness", ()))
    if tests[0].startswith("not np.any(np.isnan("):
        # some other element is a number
        x = tests[0][len("not np.any(np.isnan(") : -2]
        w += ["not np.isnan(np.%s(%s))" % (f, x) for f in ("nanmean", "nansum", "nanmin", "nanmax")]
    if w:
        OUT.append("    return [%s]" % ", ".join(w))
    if kw.get("body"):
        OUT.append(kw["body"])
    OUT.append("\n")


def cell(fn, tag, params, prelude, cell, tests, facts):
    """A bad cell of a table: the loops of the guard range over the table's
    labels; the analyser picks one arbitrary position of each loop.  facts:
    what else is true of the bad input."""
    mod, f = fn.split(".")
    OUT.append("def %s__%s__%s(%s):" % (mod, f, tag, params))
    pad = "    "
    for line in prelude:
        OUT.append(pad + line)
        if line.endswith(":"):
            pad += "    "
    OUT.append(pad + "cell = " + cell)
    for t in tests:
        OUT.append(pad + "assert " + t)
    for t in facts:
        OUT.append(pad + "assert not (%s)" % t)
    OUT.append("\n")


def nan(p, *more):
    return ("not np.any(np.isnan(%s))" % p, "not np.isnan(np.sum(%s))" % p, "not np.isnan(np.mean(%s))" % p, "not np.isnan(np.min(%s))" % p,
            "not np.isnan(np.max(%s))" % p, "not np.sum(np.isnan(%s)) > 0" % p, "not np.sum(np.isnan(%s)) >= 1" % p, "np.sum(np.isnan(%s)) == 0" % p,
            "np.all(np.isfinite(%s))" % p, "np.all(np.isfinite(%s) | np.isinf(%s))" % (p, p)) + more


def low(p, b):
    """Some element of p below b."""
    return ("np.all(%s <= %s)" % (b, p), "not np.any(%s < %s)" % (p, b), "%s <= np.min(%s)" % (b, p), "not np.min(%s) < %s" % (p, b))


def high(p, b, strict=False):
    """Some element of p above b."""
    lo, hi = ("<", "<=") if strict else ("<=", "<")
    return ("np.all(%s %s %s)" % (p, lo, b), "not np.any(%s %s %s)" % (b, hi, p), "np.max(%s) %s %s" % (p, lo, b), "not %s %s np.max(%s)" % (b, hi, p))


TBL = 'loss_table: "df", ref_method: "", pairwise_CI: "bool", confidence: "float", method_EB: "str", limits: "dict"'
HEAD = ["metrics, methods = loss_table.columns.levels", "for metric in metrics:", "lower, upper = limits.get(metric, (-np.inf, np.inf))", "ref = loss_table.loc[:, (metric, ref_method)].values"]
LIM = ("lower <= np.mean(cell)", "np.mean(cell) <= upper", "lower <= upper", "0.0 <= upper - lower", "pairwise_CI")
OTHER = LIM + ("method != ref_method", 'method_EB == "t"', "len(cell) == 1", "len(ref) == 1", "len(cell - ref) == 1", "not np.any(np.isnan(ref))", "np.all(lower <= ref)", "np.all(ref <= upper)")
APART = OTHER + ("0.0 <= np.fmax(upper - lower - np.clip(np.mean(cell - ref), lower - upper, upper - lower), upper - lower + np.clip(np.mean(cell - ref), lower - upper, upper - lower))", "lower - upper <= np.clip(np.mean(cell - ref), lower - upper, upper - lower)", "np.clip(np.mean(cell - ref), lower - upper, upper - lower) <= upper - lower", "np.clip(np.mean(cell - ref), lower - upper, upper - lower) == np.mean(cell - ref)", "lower - upper <= np.mean(cell - ref)", "np.mean(cell - ref) <= upper - lower", "np.mean(cell) - np.mean(ref) <= upper - lower", "lower - upper <= np.mean(cell) - np.mean(ref)", "not np.any(np.isnan(cell - ref))", "np.all(lower - upper <= cell - ref)", "np.all(cell - ref <= upper - lower)", "not np.any(np.isnan(cell))", "0.0 < confidence", "confidence < 1.0")
LST = "mlpaper.loss_summary_table"
NCELL = nan("cell", "np.all(lower <= cell)", "np.all(cell <= upper)", "lower <= np.min(cell)", "np.max(cell) <= upper")
REF = "loss_table.loc[:, (metric, ref_method)].values"
OTH = "loss_table.loc[:, (metric, method)].values"
cell(LST, "refnan", TBL, HEAD, REF, NCELL, LIM[2:])
cell(LST, "refbelow", TBL, HEAD, REF, low("cell", "lower"), LIM + ("not np.any(np.isnan(cell))",))
cell(LST, "refabove", TBL, HEAD, REF, high("cell", "upper"), LIM + ("not np.any(np.isnan(cell))",))
INNER = HEAD + ["for method in methods:"]
cell(LST, "cellnan", TBL, INNER, OTH, NCELL, OTHER[2:])
cell(LST, "cellbelow", TBL, INNER, OTH, low("cell", "lower"), APART)
cell(LST, "cellabove", TBL, INNER, OTH, high("cell", "upper"), APART)
LP = 'log_pred_prob_table: "df", y: "lab1", assume_normalized: "bool"'
cell("classification.loss_table", "cellnan", LP, ["methods, labels = log_pred_prob_table.columns.levels", "for method in methods:"], "log_pred_prob_table[method].values", nan("cell"), ())
X = 'x: "arr1"'
LU = 'lower: "float", upper: "float"'
C = 'confidence: "float"'
for f, extra in (("t_test", ""), ("t_EB", ""), ("boot_test", ""), ("boot_EB", ""), ("bernstein_test", "lu"), ("bernstein_EB", "lu"), ("get_mean_and_EB", "lu"), ("get_mean_EB_test", "lu"), ("get_test", "")):
    more = ("np.all(lower <= x)", "np.all(x <= upper)", "lower <= np.min(x)", "np.max(x) <= upper") if extra else ()
    g("mlpaper." + f, "nan", X + (", " + LU if extra else ""), *nan("x", *more))
    if extra:
        inner = ("lower <= np.mean(x)", "np.mean(x) <= upper", "0.0 <= min_EB", "not np.fmax(upper - np.mean(x), np.mean(x) - lower) < min_EB", "not 2 * min_EB > upper - lower", "0.0 <= upper - lower", "lower <= upper") if f.startswith("get") else ()
        g("mlpaper." + f, "below", X + ", " + LU + ', method: "str", min_EB: "float"', *low("x", "lower"), witness=inner and inner + ('method == "t"',))
        g("mlpaper." + f, "above", X + ", " + LU + ', method: "str", min_EB: "float"', *high("x", "upper"), witness=inner and inner + ('method == "t"',))
for f in ("mlpaper.t_EB", "mlpaper.bernstein_EB", "boot_util.confidence_to_percentiles", "boot_util.percentile", "boot_util.error_bar", "boot_util.basic"):
    g(f, "confidence0", C, "0.0 < confidence", "not confidence <= 0.0")
    g(f, "confidence1", C, "confidence < 1.0", "not confidence >= 1.0")
for f in ("mlpaper.bernstein_test", "mlpaper.bernstein_EB", "mlpaper.clip_EB"):
    g(f, "limits", LU, "lower <= upper", "not upper < lower", "upper - lower >= 0.0", "not upper - lower < 0.0")
M = 'mu: "float", EB: "float", lower: "float", upper: "float", min_EB: "float"'
g("mlpaper.clip_EB", "mu_low", M, "not mu < lower", "lower <= mu", "not lower > mu")
g("mlpaper.clip_EB", "mu_high", M, "not mu > upper", "mu <= upper")
g("mlpaper.clip_EB", "min_negative", M, "0.0 <= min_EB", "not min_EB < 0.0", of="min_EB")
g("mlpaper.clip_EB", "min_too_wide", M, "not 2 * min_EB > upper - lower", "2 * min_EB <= upper - lower", of="min_EB")
for f in ("percentile", "error_bar", "basic"):
    g("boot_util." + f, "nan", 'boot_estimates: "arr"' if f != "error_bar" else 'boot_estimates: "arr1"', *nan("boot_estimates"))
g("boot_util.significance", "nan", 'boot_estimates: "arr1"', *nan("boot_estimates"))
g("boot_util.significance", "refnan", 'ref: "arr"', *nan("ref"))
AREA = 'x_curve: "arr2", y_curve: "arr2", kind: "str"'
SUMS = ['kind == "previous"', "not np.any(np.isnan(np.nansum(y_curve[:, :-1] * np.diff(x_curve, axis=1), axis=1)))"]
g("util.area", "xnan", AREA, *nan("x_curve"), witness=SUMS)
g("util.area", "ynan", AREA, *nan("y_curve"), witness=SUMS, of="y_curve")
g("util.unique_take_last", "nan", 'xp: "arr1"', *nan("xp"))
g("util.epsilon_noise", "nan", 'x: "arr1"', *nan("x"))
INFT = ("not np.any(np.isinf(%s))", "np.all(np.isfinite(%s))", "np.all(np.abs(%s) < np.inf)")
g("util.epsilon_noise", "inf", 'x: "arr1"', *[t % "x" for t in INFT])
CL = 'a: "float", a_min: "float", a_max: "float"'
CLOSE = ["np.%s(%s, %s)" % (f, x, y) for f in ("isclose", "allclose") for x, y in (("a", "a_min"), ("a_min", "a"), ("a", "a_max"), ("a_max", "a"))]
g("util.clip_chk", "below", CL, "a_min <= a", *CLOSE, witness=["a_min < a_max", "a < a_max"])
g("util.clip_chk", "above", CL, "a <= a_max", *CLOSE, witness=["a_min < a_max", "a_min < a"])
g("util.one_hot", "low", 'y: "lab1", n_labels: "int"', *low("y", "0"))
g("util.one_hot", "high", 'y: "lab1", n_labels: "int"', *high("y", "n_labels", True))
for f in ("hard_loss", "log_loss", "brier_loss", "spherical_loss", "curve_boot"):
    g("classification." + f, "label_low", 'y: "lab1", log_pred_prob: "arr2"', *low("y", "0"))
    g("classification." + f, "label_high", 'y: "lab1", log_pred_prob: "arr2"', *high("y", "log_pred_prob.shape[1]", True))
g("classification.curve_boot", "nan", 'log_pred_prob: "arr2"', *nan("log_pred_prob"))
g("classification.curve_boot", "refnan", 'ref: ""', "not np.any(np.isnan(ref))", "not np.isnan(np.sum(ref))")
g("classification.get_pred_log_prob", "label_low", 'y_train: "lab1", n_labels: "int"', *low("y_train", "0"))
g("classification.get_pred_log_prob", "label_high", 'y_train: "lab1", n_labels: "int"', *high("y_train", "n_labels", True))
g("classification.get_pred_log_prob", "floor", 'min_log_prob: "float"', "min_log_prob < 0.0", "not min_log_prob >= 0.0")
g("regression.get_gauss_pred", "floor", 'min_std: "float"', "min_std >= 0.0", "not min_std < 0.0")
for f in ("square_loss", "abs_loss", "log_loss"):
    for p in ("y", "mu", "std"):
        g("regression." + f, p + "_nan", '%s: "arr1"' % p, *(nan(p) + (("np.all(0.0 < std)", "0.0 < np.min(std)") if p == "std" else ())))
        g("regression." + f, p + "_inf", '%s: "arr1"' % p, *[t % p for t in INFT])
    g("regression." + f, "std_not_positive", 'std: "arr1"', "np.all(0.0 < std)", "not np.any(std <= 0.0)", "0.0 < np.min(std)", "not np.min(std) <= 0.0")
for f in ("random_split_series", "ordered_split_series", "linear_split_series"):
    g("data_splitter." + f, "null", 'S: "series"', "not S.isnull().any()", "S.notnull().all()", "not np.any(np.isnan(S))", "not np.any(pd.isnull(S))", "not np.any(pd.isnull(S.values))", "not pd.isnull(S).any()", "S.isnull().sum() == 0", "not S.isnull().sum() > 0")
for f in ("rand_subset", "ordered_split_series", "linear_split_series"):
    g("data_splitter." + f, "frac_low", 'frac: "float"', "0.0 <= frac", "not frac < 0.0")
    g("data_splitter." + f, "frac_high", 'frac: "float"', "frac <= 1.0", "not frac > 1.0")
for end, oth in (("max", "min"), ("min", "max")):
    piv = "np.maximum(np.min(S.values), np.minimum((1.0 - frac) * np.min(S.values) + frac * np.max(S.values), np.max(S.values)))"
    # an infinite endpoint has no linear pivot
    g("data_splitter.linear_split_series", "inf_" + end, 'S: "series", frac: "float", assume_sorted: "bool"', "np.isfinite(np.%s(S.values))" % end, "not np.isinf(np.%s(S.values))" % end, "np.all(np.isfinite(S.values))", "not np.any(np.isinf(S.values))", witness=("not assume_sorted", "0.0 < frac", "frac < 1.0", "not np.any(np.isnan(S.values))", "not S.isnull().any()", "np.isfinite(np.%s(S.values))" % oth, "np.min(S.values) <= " + piv, piv + " <= np.max(S.values)"))
g("sciprint.digit_str", "nan", 'x_dec: "dec"', "not np.isnan(x_dec)", "x_dec.is_finite()", "not x_dec.is_nan()")
g("sciprint.digit_str", "inf", 'x_dec: "dec"', "not np.isinf(x_dec)", "x_dec.is_finite()", "not x_dec.is_infinite()")
g("sciprint.print_estimate", "clip", 'min_clip: "dec", max_clip: "dec"', "min_clip < max_clip", "not min_clip >= max_clip")
g("sciprint.get_shift_range", "empty", 'x_dec_list: "listdec"', "len(x_dec_list) >= 1", "len(x_dec_list) > 0")

W = 'y_true: "arr1", y_score: "arr1", sample_weight: "arr2"'
GIVEN = "sample_weight is None"
# what the routine checks about its own results holds for these inputs as well
CURVE = """    order = np.argsort(y_score, kind="mergesort")[::-1]
    score, truth = y_score[order], y_true[order]
    last = np.r_[np.where(np.diff(score))[0], truth.size - 1]
    if sample_weight is None:
        tps = np.cumsum(truth)[last]
        fps = 1 + last - tps
        ok = [fps[-1] == np.sum(~truth), tps[-1] == np.sum(truth)]
        tps, fps = tps[None, :], fps[None, :]
    else:
        weight = sample_weight[:, order]
        tps = np.cumsum(truth[None, :] * weight, axis=1)[:, last]
        fps = np.cumsum(weight, axis=1)[:, last] - tps
        ok = [np.allclose(fps[:, -1], np.sum(weight[:, ~truth], axis=1)), np.allclose(tps[:, -1], np.sum(weight[:, truth], axis=1))]
    zero = np.zeros((fps.shape[0], 1), dtype=fps.dtype)
    fps, tps = np.c_[zero, fps], np.c_[zero, tps]
    ok = ok + [np.r_[np.inf, score[last]].size >= 2]
    fps, tps = pc._add_pseudo_points(fps, tps)
    ok = ok + [np.all(fps[:, -1] > 0), np.all(tps[:, -1] > 0), fps.dtype == tps.dtype]
    fps = np.maximum.accumulate(fps, axis=1)
    return ok + [np.all((np.diff(fps, axis=1) >= 0.0) & (np.diff(tps, axis=1) >= 0.0))]"""
g("perf_curves._binary_clf_curve", "weight_not_positive", W, GIVEN, "np.all(0 < sample_weight)", "not np.any(sample_weight <= 0)", "0 < np.min(sample_weight)", "not np.min(sample_weight) <= 0", body=CURVE, of="sample_weight")
g("perf_curves._binary_clf_curve", "weight_nan", W, GIVEN, "np.all(0 < sample_weight)", "0 < np.min(sample_weight)", *nan("sample_weight"), of="sample_weight")
g("perf_curves._binary_clf_curve", "weight_inf", W, GIVEN, *[t % "sample_weight" for t in INFT], of="sample_weight")
g("perf_curves._binary_clf_curve", "nan", W, "sample_weight is not None", *nan("y_score"), body=CURVE, of="y_score")
g("perf_curves._binary_clf_curve", "inf", W, "sample_weight is not None", *[t % "y_score" for t in INFT], body=CURVE, of="y_score")
g("util.area", "kind", 'kind: "str"', 'kind == "previous" or kind == "linear"')
g("util._interp1d", "kind", 'kind: "str"', 'kind != "next"')
for f in ("get_mean_and_EB", "get_mean_EB_test", "get_test"):
    g("mlpaper." + f, "method", 'method: "str"', 'method in ("t", "bernstein", "boot")')
ST = 'x_grid: "arr1", xp: "arr1", yp: "arr1", ival: "", assume_sorted: "bool", skip_unique_chk: "bool"'
g("util.eval_step_func", "left", ST, "ival is not None", "not assume_sorted", "len(x_grid) == 0", "np.all(xp[0] <= x_grid)", "xp[0] <= np.min(x_grid)", "not np.any(x_grid < xp[0])", "not np.min(x_grid) < xp[0]")
g("util.eval_step_func", "repeated", ST, "skip_unique_chk", "not assume_sorted", "np.all(np.diff(xp) > 0.0)", "not np.any(np.diff(xp) <= 0.0)", "np.all(xp[1:] > xp[:-1])", "np.min(np.diff(xp)) > 0.0", of="xp")
g("util.unique_take_last", "unsorted", 'xp: "arr1"', "np.all(np.diff(xp) >= 0)", "not np.any(np.diff(xp) < 0)", "np.all(xp[1:] >= xp[:-1])", "np.min(np.diff(xp)) >= 0.0")
g("util._interp1d", "unsorted", 'xp: "arr1", kind: "str"', "np.all(np.diff(xp) >= 0)", "not np.any(np.diff(xp) < 0)", "np.all(xp[1:] >= xp[:-1])", "np.min(np.diff(xp)) >= 0.0", witness=['kind == "linear"'])
for f in ("hard_loss", "log_loss", "brier_loss", "spherical_loss", "curve_boot"):
    g("classification." + f, "count", 'y: "lab1", log_pred_prob: "arr2"', "y.shape == (log_pred_prob.shape[0],)", "len(y) == len(log_pred_prob)")
g("classification.hard_loss", "loss_rows", 'log_pred_prob: "arr2", loss_mat: "arr2"', "loss_mat is None", "loss_mat.shape[0] == log_pred_prob.shape[1]", "len(loss_mat) == log_pred_prob.shape[1]", of="loss_mat")
g("classification.curve_boot", "binary", 'log_pred_prob: "arr2"', "log_pred_prob.shape[1] == 2")
for f in ("square_loss", "abs_loss", "log_loss"):
    g("regression." + f, "mu_count", 'y: "arr1", mu: "arr1"', "mu.shape == y.shape", "len(mu) == len(y)", of="mu")
    g("regression." + f, "std_count", 'y: "arr1", std: "arr1"', "std.shape == y.shape", "len(std) == len(y)", of="std")
g("util.area", "shapes", 'x_curve: "arr2", y_curve: "arr2"', "x_curve.shape == y_curve.shape", "y_curve.shape == x_curve.shape")
g("sciprint.create_decimal", "digits", 'digits: "int"', "digits >= 1", "digits > 0")
for f in ("get_shift_range", "find_shift"):
    g("sciprint." + f, "step", 'shift_mod: "int"' + (', mean_list: "listdec"' if f[0] == "f" else ""), "shift_mod >= 1", "shift_mod > 0", *(("len(mean_list) == 0",) if f[0] == "f" else ()))
g("data_splitter.split_df", "empty", 'df: "df"', "len(df) > 0", "len(df) >= 1")
g("data_splitter.split_df", "no_splits", 'splits: "dict"', "len(splits) > 0", "len(splits) >= 1")
g("boot_util.boot_weights", "points", 'N: "int"', "N >= 1", "N > 0")
g("boot_util.boot_weights", "replicates", 'n_boot: "int"', "n_boot >= 1", "n_boot > 0")

HEAD = '''"""Inputs that must be rejected.  Generated by tools/gen_guards.py; parsed by the
analyser, never executed.  <module>__<function>__<kind>: when every assert below
fails, the routine must not return a value."""
import numpy as np
import pandas as pd
import mlpaper.perf_curves as pc


'''
if __name__ == "__main__":
    p = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "spec", "guards.py")
    with open(p, "w") as fh:
        fh.write(HEAD + "\n".join(OUT).rstrip() + "\n")
