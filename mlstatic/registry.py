"""Which obligations decide which property."""
from . import rules as R
from .oblig import HOLDS, UNDECIDED, Outcome, Anchor, SPEC_ONLY  # noqa

BOOT = ["boot_util." + f for f in ("boot_weights", "confidence_to_percentiles", "percentile", "basic", "error_bar", "significance")]
T_ = ["mlpaper.t_test", "mlpaper.t_EB"]
BERN = ["mlpaper.bernstein_test", "mlpaper.bernstein_EB"]
BMEAN = ["mlpaper.boot_test", "mlpaper.boot_EB", "mlpaper._boot_EB_and_test"]
GET = ["mlpaper.get_mean_and_EB", "mlpaper.get_test", "mlpaper.get_mean_EB_test"]
LST = ["mlpaper.loss_summary_table"]
CURVES = ["perf_curves." + f for f in ("_binary_clf_curve", "roc_curve", "recall_precision_curve", "prg_curve")]
INTERP = ["util.area", "util._interp1d", "util.eval_step_func", "util.unique_take_last"]
CSUM = ["classification.curve_boot", "classification.curve_summary_table", "classification.summary_table"]
CLOSS = ["classification." + f for f in ("log_loss", "brier_loss", "spherical_loss")]
HARD = ["classification.hard_loss_decision", "classification.hard_loss"]
RLOSS = ["regression.square_loss", "regression.abs_loss", "regression.log_loss"]
BENCH = ["classification.just_benchmark", "regression.just_benchmark"]
PRED = ["classification.get_pred_log_prob", "regression.get_gauss_pred"]
SPLIT = ["data_splitter." + f for f in ("random_split_series", "ordered_split_series", "linear_split_series", "rand_subset", "rand_mask", "split_df")]
DEC = ["sciprint." + f for f in ("decimal_from_tuple", "decimal_1ek", "decimal_eps", "create_decimal", "digit_str")]
SHIFT = ["sciprint." + f for f in ("find_shift", "get_shift_range", "floor_mod", "ceil_mod")]
PAD = ["sciprint." + f for f in ("pad_num_str", "find_last_dig", "str_print_len")]
EXPORT = ["sciprint.table_to_latex", "sciprint.table_to_string", "sciprint.adjust_headers"]
UTIL = ["util." + f for f in ("clip_chk", "one_hot", "normalize", "epsilon_noise", "unique_take_last", "cummax_strict", "eval_step_func", "remove_chars")]

# functions whose value graph must equal the specification's, per property
EQUAL = {
    "C01": ["classification.get_pred_log_prob", "util.normalize", "classification.loss_table", "classification.summary_table", "classification.just_benchmark"],
    "C02": PRED + BENCH,
    "C03": [],
    "C04": LST + CSUM + GET + ["boot_util.boot_weights", "boot_util.significance", "boot_util.error_bar"],
    "C05": GET + BMEAN + T_ + BERN + ["mlpaper.clip_EB", "util.clip_chk"],
    "C06": LST + CSUM + ["util.area"] + BENCH,
    "C07": ["boot_util.significance", "boot_util.error_bar", "boot_util.percentile", "boot_util.confidence_to_percentiles"] + T_ + BERN + BMEAN + GET + ["mlpaper.clip_EB"],
    "C08": T_ + BERN + BMEAN + GET,
    "C09": ["mlpaper.clip_EB", "util.clip_chk", "mlpaper.get_mean_and_EB", "mlpaper.get_mean_EB_test"] + LST,
    "C10": T_ + BERN + GET,
    "C11": BOOT + BMEAN + GET,
    "C12": CURVES,
    "C13": INTERP + CURVES[1:] + ["classification.curve_boot"],
    "C14": ["data_splitter.split_df"],
    "C15": SPLIT + ["data_splitter.index_to_series"],
    "C16": [],
    "C17": ["boot_util.boot_weights", "util.epsilon_noise", "data_splitter.rand_subset"],
    "C18": ["sciprint.decimalize", "sciprint.create_decimal", "sciprint.decimal_1ek", "sciprint.decimal_from_tuple"],
    "C19": EXPORT + ["sciprint.format_table", "sciprint.print_estimate", "sciprint.just_format_it"],
    "C20": ["sciprint.print_estimate", "sciprint.print_pval", "sciprint.format_table", "sciprint.decimal_all_finite"] + DEC,
    "C21": SHIFT + PAD + ["sciprint.format_table", "sciprint.print_estimate", "sciprint.decimal_to_dot", "util.remove_chars"],
    "C22": ["sciprint.just_format_it", "sciprint.format_table", "sciprint.decimalize"] + EXPORT,
    "C23": CLOSS + ["util.one_hot", "util.normalize", "classification.loss_table"],
    "C24": HARD,
    "C25": RLOSS + ["regression.get_gauss_pred", "regression.loss_table"],
    "C26": BENCH + CSUM + LST + GET + ["sciprint.just_format_it", "sciprint.format_table", "sciprint.decimalize"] + EXPORT + PRED + ["classification.loss_table", "regression.loss_table", "data_splitter.split_df", "data_splitter.build_lag_df"],
    "C27": PRED,
    "C28": LST + CSUM + ["classification.loss_table", "regression.loss_table"] + PRED + ["sciprint.decimalize", "sciprint.format_table", "sciprint.table_to_latex", "sciprint.table_to_string"] + BENCH,
    "C29": ["data_splitter.build_lag_df"],
    "C30": [],
    "C31": UTIL,
}
LOG_SPACE = ("util.normalize", "regression.log_loss", "classification.log_loss")
NAMES = ["constants." + n for n in ("METRIC", "METHOD", "STAT", "MEAN_COL", "ERR_COL", "PVAL_COL", "EST_COL", "STD_STATS", "FMT_STATS", "XGRID", "YGRID", "LB", "UB", "CURVE_STATS")]
TABLES = {
    "C11": ["mlpaper.N_BOOT"],
    "C12": ["classification.STD_BINARY_CURVES"],
    "C13": ["util.interp1d"],
    "C15": ["data_splitter." + n for n in ("SPLITTER_LIB", "DEFAULT_SPLIT", "RANDOM", "ORDRED", "ORDERED", "LINEAR", "INDEX")],
    "C19": ["constants._PREFIX"],
    "C23": ["classification.STD_CLASS_LOSS"],
    "C24": ["classification.STD_CLASS_LOSS"],
    "C25": ["regression.STD_REGR_LOSS"],
    "C26": ["constants.PAIRWISE_DEFAULT", "mlpaper.N_BOOT", "data_splitter.DEFAULT_SPLIT"],
    "C28": NAMES + ["classification.STD_CLASS_LOSS", "classification.STD_BINARY_CURVES", "regression.STD_REGR_LOSS"],
}
DRIVERS = ["class_noise", "class_noise_kw", "class_noise_default", "class_noise_refit", "reg_noise", "reg_noise_default", "reg_noise_refit"]


def everything(P):
    return [q for q in P.specs if q.rsplit(".", 1)[1] not in SPEC_ONLY]


def safely(rule, q, f, *args):
    """An internal error of the analyser is an undecided obligation, not a verdict."""
    try:
        r = f(*args)
    except Anchor:
        raise
    except (Exception, RecursionError) as e:
        return [Outcome(UNDECIDED, rule, q, "analyser error %s: %s" % (type(e).__name__, str(e)[:200]))]
    return r if isinstance(r, list) else [r]


def function_obligations(P, q, progress=None):
    out = safely("same-value", q, P.equal, q)
    out += safely("default of parameter", q, P.defaults, q)
    out += safely("accepts", q, P.accepts, q)
    return out


def extra(P, pid):
    out = []
    if pid == "C02":
        for f in PRED + BENCH:
            if P.impl("mlpaper." + f) is not None:
                out += safely("leak", f, R.leak, P, "mlpaper." + f)
    elif pid == "C03":
        out += R.guards(P)
        for q in everything(P):
            out += safely("accepts", q, P.accepts, q)
    elif pid == "C13":
        out += R.guards(P, ("mlpaper.util.area", "mlpaper.util._interp1d"), ("kind",))
    elif pid == "C16":
        for q in everything(P):
            out += safely("arguments unchanged", q, R.purity, P, q)
        for d in DRIVERS:
            out += safely("arguments unchanged", d, R.driver_purity, P, [d])
    elif pid == "C17":
        for q in everything(P):
            out += safely("global state", q, R.state, P, q)
            if q[len("mlpaper.") :] in R.MAY_DRAW:
                out += safely("no randomness needed", q, R.needless, P, q)
        out += safely("no randomness needed", "classes", R.quiet_methods, P)
        out += safely("import is silent", "mlpaper", R.module_state, P)
    elif pid == "C25":
        if P.impl("mlpaper.regression.get_gauss_pred") is not None:
            out += safely("only a missing return_std falls back", "regression.get_gauss_pred", R.fallback, P, "mlpaper.regression.get_gauss_pred")
    elif pid == "C27":
        for f in PRED:
            if P.impl("mlpaper." + f) is not None:
                out += safely("cache key is complete", f, R.cache_key, P, "mlpaper." + f)
    elif pid == "C31":
        out += R.guards(P, ("mlpaper.util.clip_chk",), ("below", "above"))
    elif pid == "C30":
        for d in DRIVERS:
            out += safely("same behaviour of the class", d, R.driver, P, d)
        for m in ("mlpaper.classification", "mlpaper.regression"):
            out += safely("same behaviour of the class", m, R.driver_method, P, m, "JustNoise")
    return out


def obligations(P, pid):
    """All outcomes for one property, in a fixed order."""
    present = 0
    out = []
    for f in EQUAL[pid]:
        q = "mlpaper." + f
        if P.impl(q) is not None:
            present += 1
        out += function_obligations(P, q)
        if f in LOG_SPACE:
            out += safely("stays in log space", q, R.log_space, P, q)
    if EQUAL[pid] and present * 2 < len(EQUAL[pid]):
        raise Anchor("only %d of the %d functions %s is anchored to still exist" % (present, len(EQUAL[pid]), pid))
    for t in TABLES.get(pid, ()):
        out += safely("documented table", t, R.constant, P, t)
    out += extra(P, pid)
    return out
