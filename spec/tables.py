"""Documented values of module-level tables: <module>__<name>.
Parsed by the analyser, never executed."""
import numpy as np

import mlpaper.classification as c
import mlpaper.data_splitter as d
import mlpaper.perf_curves as pc
import mlpaper.regression as r
import mlpaper.util as u

classification__STD_CLASS_LOSS = {"NLL": c.log_loss, "Brier": c.brier_loss, "sphere": c.spherical_loss, "zero_one": c.hard_loss}
classification__STD_BINARY_CURVES = {"AUC": pc.roc_curve, "AP": pc.recall_precision_curve, "AUPRG": pc.prg_curve}
regression__STD_REGR_LOSS = {"NLL": r.log_loss, "MSE": r.square_loss, "MAE": r.abs_loss}
data_splitter__SPLITTER_LIB = {"random": d.random_split_series, "ordered": d.ordered_split_series, "linear": d.linear_split_series}
data_splitter__DEFAULT_SPLIT = {None: ("random", 0.8)}
data_splitter__RANDOM = "random"
data_splitter__ORDRED = "ordered"
data_splitter__ORDERED = "ordered"
data_splitter__LINEAR = "linear"
data_splitter__INDEX = None
util__interp1d = np.vectorize(u._interp1d, otypes=(float,), excluded={3, "kind"}, signature="(n),(m),(m)->(n)")
constants__METRIC = "metric"
constants__METHOD = "method"
constants__STAT = "stat"
constants__MEAN_COL = "mean"
constants__ERR_COL = "error"
constants__PVAL_COL = "p"
constants__EST_COL = "estimate"
constants__STD_STATS = ("mean", "error", "p")
constants__FMT_STATS = ("estimate", "p")
constants__XGRID = "xgrid"
constants__YGRID = "ygrid"
constants__LB = "LB"
constants__UB = "UB"
constants__CURVE_STATS = ("xgrid", "ygrid", "LB", "UB")
constants__PAIRWISE_DEFAULT = False
mlpaper__N_BOOT = 1000
constants___PREFIX = {
    -24: "y", -21: "z", -18: "a", -15: "f", -12: "p", -9: "n", -6: "u", -3: "m", -2: "c", -1: "d", 0: "",
    3: "k", 6: "M", 9: "G", 12: "T", 15: "P", 18: "E", 21: "Z", 24: "Y",
}
