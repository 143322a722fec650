"""Specification of mlpaper.classification.  Parsed by the analyser, never executed."""
import numpy as np
import pandas as pd
from scipy.special import logsumexp

import mlpaper.boot_util as bu
from mlpaper.util import area, interp1d, normalize, one_hot
from mlpaper.mlpaper import loss_summary_table
from mlpaper.perf_curves import roc_curve
from mlpaper.classification import curve_boot as _curve_boot, curve_summary_table as _cst, loss_table as _lt
from mlpaper.classification import get_pred_log_prob as _gplp, summary_table as _st, hard_loss_decision as _hld


def valid(y, log_pred_prob):
    assert log_pred_prob.shape[0] >= 1
    assert log_pred_prob.shape[1] >= 1
    assert y.shape[0] == log_pred_prob.shape[0]
    assert y.dtype.kind in ("b", "i")
    assert 0 <= y.min() and y.max() < log_pred_prob.shape[1]


def hard_loss_decision(log_pred_prob: "arr2", loss_mat: "arr2") -> "arr1":
    # Bayes action: least expected loss, first one on ties
    return np.argmin(np.dot(np.exp(log_pred_prob), loss_mat), axis=1)


def hard_loss(y: "lab1", log_pred_prob: "arr2", loss_mat: "arr2?" = None):
    valid(y, log_pred_prob)
    L = 1.0 - np.eye(log_pred_prob.shape[1]) if loss_mat is None else loss_mat
    return L[y.astype(int), _hld(log_pred_prob, L)]


def log_loss(y: "lab1", log_pred_prob: "arr2"):
    valid(y, log_pred_prob)
    return -log_pred_prob[np.arange(len(log_pred_prob)), y.astype(int)]


def brier_loss(y: "lab1", log_pred_prob: "arr2", rescale: "bool" = True):
    valid(y, log_pred_prob)
    K = log_pred_prob.shape[1]
    loss = np.sum((np.exp(log_pred_prob) - one_hot(y.astype(int), K)) ** 2, axis=1)
    if rescale and K > 1:
        return K / (K - 1) * loss
    return loss


def spherical_loss(y: "lab1", log_pred_prob: "arr2", rescale: "bool" = True):
    valid(y, log_pred_prob)
    N, K = len(log_pred_prob), log_pred_prob.shape[1]
    loss = -np.exp(log_pred_prob[np.arange(N), y.astype(int)] - 0.5 * logsumexp(2.0 * log_pred_prob, axis=1))
    if not rescale:
        return loss
    return (1.0 + loss) / (1.0 - 1.0 / np.sqrt(K) if K > 1 else 1.0)


def loss_table(log_pred_prob_table: "df", y: "lab1", metrics_dict: "dict", assume_normalized: "bool" = False):
    methods, labels = log_pred_prob_table.columns.levels
    assert len(y) == len(log_pred_prob_table) and len(y) >= 1
    cols = pd.MultiIndex.from_product([metrics_dict.keys(), methods], names=["metric", "method"])
    tbl = pd.DataFrame(index=log_pred_prob_table.index, columns=cols, dtype=float)
    for method in methods:
        lp = log_pred_prob_table[method].values
        if not assume_normalized:
            lp = normalize(lp)
        for metric, metric_f in metrics_dict.items():
            tbl.loc[:, (metric, method)] = metric_f(y, lp)
    return tbl


def _curve_of(result):
    return result[0]


def curve_boot(y: "lab1", log_pred_prob: "arr2", ref: "", curve_f: "fn" = roc_curve, x_grid: "arr1?" = None, n_boot: "int" = 1000, pairwise_CI: "bool" = False, confidence: "float" = 0.95):
    valid(y, log_pred_prob)
    assert log_pred_prob.shape[1] == 2
    assert np.ndim(ref) == 0 or ref.shape == log_pred_prob.shape
    assert np.ndim(ref) == 0 or np.ndim(ref) == 2
    assert n_boot >= 1
    grid = np.linspace(0.0, 1.0, 100) if x_grid is None else x_grid
    truth = y.astype(bool)
    score = log_pred_prob[:, 1]
    weight = bu.boot_weights(len(log_pred_prob), n_boot, epsilon=1e-10)
    x, v, kind = curve_f(truth, score)[0]
    xb, vb, kindb = curve_f(truth, score, weight)[0]
    auc = area(x, v, kind)[0]
    auc_boot = area(xb, vb, kindb)
    ref_boot, ref_val = ref, ref
    if np.ndim(ref) == 2:
        # the reference is resampled with the very same weights
        xr, vr, kindr = curve_f(truth, ref[:, 1], weight)[0]
        ref_boot = area(xr, vr, kindr)
        xo, vo, kindo = curve_f(truth, ref[:, 1])[0]
        ref_val = area(xo, vo, kindo)[0]
    if pairwise_CI:
        EB = bu.error_bar(auc_boot - ref_boot, auc - ref_val, confidence=confidence)
    else:
        EB = bu.error_bar(auc_boot, auc, confidence=confidence)
    pval = bu.significance(auc_boot, ref_boot)
    LB, UB = bu.percentile(interp1d(grid, xb, vb, kindb), confidence)
    data = np.stack((grid, interp1d(grid, x, v, kind)[0], LB, UB), axis=1)
    curve = pd.DataFrame(data=data, index=range(grid.size), columns=("xgrid", "ygrid", "LB", "UB"), dtype=float)
    return (auc, EB, pval), curve


def curve_summary_table(log_pred_prob_table: "df", y: "lab1", curve_dict: "dict", ref_method: "", x_grid: "arr1?" = None, n_boot: "int" = 1000, pairwise_CI: "bool" = False, confidence: "float" = 0.95):
    methods, labels = log_pred_prob_table.columns.levels
    assert ref_method in methods
    assert len(y) == len(log_pred_prob_table) and len(y) >= 1
    assert len(curve_dict) >= 1
    ref = log_pred_prob_table[ref_method].values
    cols = pd.MultiIndex.from_product([curve_dict.keys(), ("mean", "error", "p")], names=["metric", "stat"])
    tbl = pd.DataFrame(index=methods, columns=cols, dtype=float)
    tbl.index.set_names("method", inplace=True)
    dump = {}
    for method in methods:
        lp = log_pred_prob_table[method].values
        for curve_name, curve_f in curve_dict.items():
            (auc, EB, pval), curve = _curve_boot(y, lp, ref=ref, curve_f=curve_f, x_grid=x_grid, n_boot=n_boot, pairwise_CI=pairwise_CI, confidence=confidence)
            EB = np.nan if (pairwise_CI and method == ref_method) else EB
            pval = np.nan if method == ref_method else pval
            tbl.loc[method, curve_name] = (auc, EB, pval)
            dump[(method, curve_name)] = curve
    return tbl, dump


def summary_table(log_pred_prob_table: "df", y: "lab1", loss_dict: "dict", curve_dict: "dict", ref_method: "", x_grid: "arr1?" = None, n_boot: "int" = 1000, pairwise_CI: "bool" = False, confidence: "float" = 0.95, method_EB: "str" = "t", limits: "dict" = {}):
    curves, dump = _cst(log_pred_prob_table, y, curve_dict, ref_method, x_grid=x_grid, n_boot=n_boot, pairwise_CI=pairwise_CI, confidence=confidence)
    losses = loss_summary_table(_lt(log_pred_prob_table, y, loss_dict), ref_method, pairwise_CI=pairwise_CI, confidence=confidence, method_EB=method_EB, limits=limits)
    return pd.concat((losses, curves), axis=1), dump


def get_pred_log_prob(X_train: "arr", y_train: "lab1", X_test: "arr", n_labels: "int", methods: "dict", min_log_prob: "float" = -np.inf, verbose: "bool" = False, checkpointdir: "" = None):
    n_test = X_test.shape[0]
    assert n_test >= 1
    assert X_train.shape[0] == y_train.shape[0]
    assert y_train.dtype.kind in ("b", "i")
    assert X_train.shape[1] == X_test.shape[1]
    assert X_train.dtype.kind == X_test.dtype.kind
    assert min_log_prob < 0.0
    cols = pd.MultiIndex.from_product([methods.keys(), range(n_labels)], names=["method", "label"])
    tbl = pd.DataFrame(index=range(n_test), columns=cols, dtype=float)
    for name, method_obj in methods.items():
        method_obj.fit(X_train, y_train)
        try:
            lp = method_obj.predict_log_proba(X_test)
        except:  # noqa
            lp = np.log(method_obj.predict_proba(X_test))
        # floor first, then renormalise
        tbl.loc[:, name] = normalize(np.maximum(min_log_prob, lp))
    return tbl


def just_benchmark(X_train: "arr", y_train: "lab1", X_test: "arr", y_test: "lab1", n_labels: "int", methods: "dict", loss_dict: "dict", curve_dict: "dict", ref_method: "", min_pred_log_prob: "float" = -np.inf, pairwise_CI: "bool" = False, method_EB: "str" = "t", limits: "dict" = {}):
    assert y_train.dtype == y_test.dtype
    pred = _gplp(X_train, y_train, X_test, n_labels, methods, min_log_prob=min_pred_log_prob)
    full, dump = _st(pred, y_test, loss_dict, curve_dict, ref_method, pairwise_CI=pairwise_CI, method_EB=method_EB, limits=limits)
    return full, dump


class JustNoise:
    def __init__(self, n_labels=2, pseudo_count=0.0):
        self.pred = np.nan + np.zeros(n_labels)
        self.pseudo_count = pseudo_count

    def fit(self, X_train, y_train):
        K = len(self.pred)
        counts = np.sum(one_hot(y_train.astype(int), K), axis=0)
        self.pred = np.log((counts + self.pseudo_count) / (len(y_train) + K * self.pseudo_count))

    def predict_log_proba(self, X_test):
        return np.repeat([self.pred], X_test.shape[0], axis=0)


def noise_log_prob(X_train: "arr", y_train: "lab1", X_test: "arr", n_labels: "int", pseudo_count: "float"):
    m = JustNoise(n_labels, pseudo_count)
    m.fit(X_train, y_train)
    return m.predict_log_proba(X_test)
