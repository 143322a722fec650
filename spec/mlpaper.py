"""Specification of mlpaper.mlpaper.  Parsed by the analyser, never executed."""
import numpy as np
import pandas as pd
import scipy.stats as ss

import mlpaper.boot_util as bu
from mlpaper.util import clip_chk
from mlpaper.mlpaper import t_test as _t_test, t_EB as _t_EB, bernstein_test as _b_test, bernstein_EB as _b_EB
from mlpaper.mlpaper import boot_test as _boot_test, boot_EB as _boot_EB, clip_EB as _clip_EB
from mlpaper.mlpaper import get_mean_and_EB as _gme, get_test as _gt, get_mean_EB_test as _gmet


def clip_EB(mu: "float", EB: "float", lower: "float" = -np.inf, upper: "float" = np.inf, min_EB: "float" = 0.0):
    assert upper - lower >= 0.0
    assert 0.0 <= min_EB and min_EB < np.inf
    assert not (lower > mu) and not (mu > upper)
    assert not (2 * min_EB > upper - lower)
    # never longer than what already covers both limits, never below min_EB
    farthest = np.fmax(upper - mu, mu - lower)
    assert not (min_EB > farthest)  # follows from the limits
    trivial = np.inf if np.isnan(farthest) else farthest
    return np.clip(EB, min_EB, trivial)


def t_test(x: "arr1"):
    assert not np.any(np.isnan(x))
    if len(x) <= 1 or not np.all(np.isfinite(x)):
        return 1.0
    p = ss.ttest_1samp(x, 0.0)[1]
    # zero variance: certain
    return float(np.mean(x) == 0.0) if np.isnan(p) else p


def t_EB(x: "arr1", confidence: "float" = 0.95):
    assert not np.any(np.isnan(x))
    assert 0.0 < confidence and confidence < 1.0
    n = len(x)
    if n <= 1 or not np.all(np.isfinite(x)):
        return np.inf
    return ss.t.ppf(0.5 + confidence / 2, n - 1) * np.std(x, ddof=1) / np.sqrt(n)


def bernstein_test(x: "arr1", lower: "float", upper: "float"):
    assert not np.any(np.isnan(x))
    assert upper - lower >= 0.0
    assert np.all(lower <= x) and np.all(x <= upper)
    if len(x) <= 1 or not np.all(np.isfinite(x)):
        return 1.0
    if upper - lower == 0.0 or upper - lower == np.inf:
        return 1.0
    n = len(x)
    # |mean| = std sqrt(2 A / n) + 3 A range / n with A = root ** 2, solved for sqrt(A)
    root = np.max(np.roots([3.0 * (upper - lower) / n, np.std(x, ddof=0) * np.sqrt(2.0 / n), -np.abs(np.mean(x))]))
    return np.minimum(1.0, 3.0 * np.exp(-(root ** 2)))


def bernstein_EB(x: "arr1", lower: "float", upper: "float", confidence: "float" = 0.95):
    assert not np.any(np.isnan(x))
    assert upper - lower >= 0.0
    assert np.all(lower <= x) and np.all(x <= upper)
    assert 0.0 < confidence and confidence < 1.0
    n = len(x)
    if n <= 1 or not np.all(np.isfinite(x)):
        return upper - lower
    A = np.log(3.0 / (1.0 - confidence))
    return np.std(x, ddof=0) * np.sqrt(2.0 * A / n) + 3.0 * A * (upper - lower) / n


N_BOOT = 1000


def boot_test(x: "arr1", n_boot: "int" = N_BOOT):
    assert not np.any(np.isnan(x))
    if len(x) <= 1 or not np.all(np.isfinite(x)):
        return 1.0
    return bu.significance(np.mean(x * bu.boot_weights(len(x), n_boot), axis=1), ref=0.0)


def boot_EB(x: "arr1", confidence: "float" = 0.95, n_boot: "int" = N_BOOT):
    assert not np.any(np.isnan(x))
    if len(x) <= 1 or not np.all(np.isfinite(x)):
        return np.inf
    return bu.error_bar(np.mean(x * bu.boot_weights(len(x), n_boot), axis=1), np.mean(x), confidence=confidence)


def _boot_EB_and_test(x: "arr1", confidence: "float" = 0.95, n_boot: "int" = N_BOOT, return_EB: "bool" = True, return_test: "bool" = True, return_CI: "bool" = False):
    assert not np.any(np.isnan(x))
    if len(x) <= 1 or not np.all(np.isfinite(x)):
        return np.inf, 1.0, (-np.inf, np.inf)
    mu_boot = np.mean(x * bu.boot_weights(len(x), n_boot), axis=1)
    EB = bu.error_bar(mu_boot, np.mean(x), confidence=confidence) if return_EB else np.inf
    pval = bu.significance(mu_boot, ref=0.0) if return_test else 1.0
    CI = bu.percentile(mu_boot, confidence=confidence) if return_CI else (-np.inf, np.inf)
    return EB, pval, CI


def get_mean_and_EB(x: "arr1", confidence: "float" = 0.95, min_EB: "float" = 0.0, lower: "float" = -np.inf, upper: "float" = np.inf, method: "str" = "t"):
    assert method in ("t", "bernstein", "boot")
    assert np.all(lower <= x) and np.all(x <= upper)
    assert lower <= upper
    if method == "t":
        EB = _t_EB(x, confidence=confidence)
    elif method == "bernstein":
        EB = _b_EB(x, lower, upper, confidence=confidence)
    else:
        EB = _boot_EB(x, confidence=confidence)
    mu = clip_chk(np.mean(x), lower, upper)
    return mu, _clip_EB(mu, EB, lower, upper, min_EB=min_EB)


def get_test(x: "arr1", lower: "float" = -np.inf, upper: "float" = np.inf, method: "str" = "t"):
    assert method in ("t", "bernstein", "boot")
    if method == "t":
        return _t_test(x)
    elif method == "bernstein":
        return _b_test(x, lower, upper)
    return _boot_test(x)


def get_mean_EB_test(x: "arr1", confidence: "float" = 0.95, min_EB: "float" = 0.0, lower: "float" = -np.inf, upper: "float" = np.inf, method: "str" = "t"):
    assert method in ("t", "bernstein", "boot")
    assert np.all(lower <= x) and np.all(x <= upper)
    assert lower <= upper
    assert not np.any(np.isnan(x))
    if method == "t":
        EB, pval = _t_EB(x, confidence=confidence), _t_test(x)
    elif method == "bernstein":
        EB, pval = _b_EB(x, lower, upper, confidence=confidence), _b_test(x, lower, upper)
    else:
        # one set of bootstrap weights serves both
        if len(x) <= 1 or not np.all(np.isfinite(x)):
            EB, pval = np.inf, 1.0
        else:
            mu_boot = np.mean(x * bu.boot_weights(len(x), N_BOOT), axis=1)
            EB = bu.error_bar(mu_boot, np.mean(x), confidence=confidence)
            pval = bu.significance(mu_boot, ref=0.0)
    mu = clip_chk(np.mean(x), lower, upper)
    return mu, _clip_EB(mu, EB, lower, upper, min_EB=min_EB), pval


def loss_summary_table(loss_table: "df", ref_method: "", pairwise_CI: "bool" = False, confidence: "float" = 0.95, method_EB: "str" = "t", limits: "dict" = {}):
    metrics, methods = loss_table.columns.levels
    assert ref_method in methods
    assert len(loss_table) >= 1
    tbl = pd.DataFrame(index=methods, columns=pd.MultiIndex.from_product([metrics, ("mean", "error", "p")], names=["metric", "stat"]), dtype=float)
    tbl.index.set_names("method", inplace=True)
    for metric in metrics:
        lower, upper = limits.get(metric, (-np.inf, np.inf))
        ref = loss_table.loc[:, (metric, ref_method)].values
        for method in methods:
            loss = loss_table.loc[:, (metric, method)].values
            width = upper - lower
            EB, pval = np.nan, np.nan
            if pairwise_CI:
                if method != ref_method:
                    _, EB, pval = _gmet(loss - ref, confidence, lower=-width, upper=width, method=method_EB)
            else:
                _, EB = _gme(loss, confidence=confidence, lower=lower, upper=upper, method=method_EB)
                if method != ref_method:
                    pval = _gt(loss - ref, lower=-width, upper=width, method=method_EB)
            tbl.loc[method, metric] = (np.mean(loss), EB, pval)
    return tbl
