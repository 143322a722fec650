"""Specification of mlpaper.regression.  Parsed by the analyser, never executed."""
import numpy as np
import pandas as pd
import scipy.stats as ss

from mlpaper.mlpaper import loss_summary_table
from mlpaper.regression import get_gauss_pred as _ggp, loss_table as _lt


def valid(y, mu, std):
    assert np.all(np.isfinite(y))
    assert y.shape[0] >= 1
    assert len(y) == len(mu) and len(y) == len(std)
    assert np.all(np.isfinite(mu)) and np.all(np.isfinite(std))
    assert np.all(std > 0.0)


def square_loss(y: "arr1", mu: "arr1", std: "arr1"):
    valid(y, mu, std)
    return (y - mu) ** 2


def abs_loss(y: "arr1", mu: "arr1", std: "arr1"):
    valid(y, mu, std)
    return np.abs(y - mu)


def log_loss(y: "arr1", mu: "arr1", std: "arr1"):
    valid(y, mu, std)
    return 0.5 * np.log(2 * np.pi) + np.log(std) + 0.5 * ((y - mu) / std) ** 2


def loss_table(pred_tbl: "df", y: "arr1", metrics_dict: "dict"):
    methods, moments = pred_tbl.columns.levels
    assert len(y) == len(pred_tbl) and len(y) >= 1
    cols = pd.MultiIndex.from_product([metrics_dict.keys(), methods], names=["metric", "method"])
    tbl = pd.DataFrame(index=pred_tbl.index, columns=cols, dtype=float)
    for method in methods:
        mu, std = pred_tbl[(method, "mu")].values, pred_tbl[(method, "std")].values
        for metric, metric_f in metrics_dict.items():
            tbl.loc[:, (metric, method)] = metric_f(y, mu, std)
    return tbl


def get_gauss_pred(X_train: "arr2", y_train: "arr1", X_test: "arr2", methods: "dict", min_std: "float" = 0.0, verbose: "bool" = False, checkpointdir: "" = None):
    assert X_test.shape[0] >= 1
    assert X_train.shape[0] == y_train.shape[0]
    assert X_train.shape[1] == X_test.shape[1]
    assert X_train.dtype.kind == X_test.dtype.kind
    assert min_std >= 0.0
    cols = pd.MultiIndex.from_product([methods.keys(), ("mu", "std")], names=["method", "moment"])
    tbl = pd.DataFrame(index=range(X_test.shape[0]), columns=cols, dtype=float)
    for name, method_obj in methods.items():
        method_obj.fit(X_train, y_train)
        try:
            mu, std = method_obj.predict(X_test, return_std=True)
        except TypeError:
            mu = method_obj.predict(X_test)
            std = np.ones_like(mu)
        tbl.loc[:, (name, "mu")] = mu
        tbl.loc[:, (name, "std")] = np.maximum(min_std, std)
    return tbl


def just_benchmark(X_train: "arr2", y_train: "arr1", X_test: "arr2", y_test: "arr1", methods: "dict", loss_dict: "dict", ref_method: "", min_std: "float" = 0.0, pairwise_CI: "bool" = False, method_EB: "str" = "t", limits: "dict" = {}):
    assert y_train.dtype == y_test.dtype
    pred = _ggp(X_train, y_train, X_test, methods, min_std=min_std)
    return loss_summary_table(_lt(pred, y_test, loss_dict), ref_method, pairwise_CI=pairwise_CI, method_EB=method_EB, limits=limits)


class JustNoise:
    def __init__(self):
        self.mu = np.nan
        self.std = np.nan

    def fit(self, X_train, y_train):
        assert y_train.ndim == 1 and len(y_train) >= 2
        self.mu = np.mean(y_train)
        self.std = np.std(y_train, ddof=0)

    def predict(self, X_test, return_std=True):
        N = X_test.shape[0]
        return np.repeat([self.mu], N, axis=0), np.repeat([self.std], N, axis=0)


def noise_pred(X_train: "arr2", y_train: "arr1", X_test: "arr2"):
    m = JustNoise()
    m.fit(X_train, y_train)
    return m.predict(X_test, return_std=True)
