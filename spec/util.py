"""Specification of mlpaper.util.  Parsed by the analyser, never executed."""
import numpy as np
import scipy.interpolate as si
from scipy.special import logsumexp

from mlpaper.util import eval_step_func as _esf, unique_take_last as _utl  # noqa


def clip_chk(a: "float", a_min: "float", a_max: "float"):
    assert a_min <= a_max
    return np.clip(a, a_min, a_max)


def one_hot(y: "lab1", n_labels: "int"):
    assert n_labels >= 1
    assert y.dtype.kind == "i"
    assert np.all(0 <= y) and np.all(y < n_labels)
    y_bin = np.zeros((len(y), n_labels), dtype=bool)
    y_bin[range(len(y)), y] = True
    return y_bin


def normalize(log_pred_prob: "arr2"):
    assert log_pred_prob.ndim == 2
    assert log_pred_prob.shape[1] >= 1
    return log_pred_prob - logsumexp(log_pred_prob, axis=1, keepdims=True)


def epsilon_noise(x: "arr1", default_epsilon: "float" = 1e-10, max_epsilon: "float" = 1.0):
    assert x.ndim == 1
    assert np.all(np.isfinite(x))
    u_x = np.unique(x)
    gap = default_epsilon if len(u_x) <= 1 else np.min(np.diff(u_x))
    width = np.minimum(max_epsilon, gap)
    return x + width * (np.random.rand(len(x)) - 0.5)


def unique_take_last(xp: "arr1", yp: "arr1?" = None):
    assert xp.ndim == 1
    assert not np.any(np.isnan(xp))
    assert np.all(np.diff(xp) >= 0)
    keep = [] if xp.size == 0 else np.concatenate((np.diff(xp) > 0, [True]))
    return xp[keep], (None if yp is None else yp[keep])


def cummax_strict(x: "arr1", copy: "bool" = True):
    assert x.ndim == 1
    x = np.copy(x) if copy else x
    for ii in range(1, len(x)):
        x[ii] = np.maximum(np.nextafter(x[ii - 1], np.inf), x[ii])
    return x


def eval_step_func(x_grid: "arr1", xp: "arr1", yp: "arr1", ival: "float?" = None, assume_sorted: "bool" = False, skip_unique_chk: "bool" = False):
    assert x_grid.ndim == 1
    assert xp.ndim == 1 and xp.shape == yp.shape
    order = np.argsort(xp)
    xs = xp if assume_sorted else xp[order]
    ys = yp if assume_sorted else yp[order]
    if ival is not None:
        xs = np.concatenate(([-np.inf], xs))
        ys = np.concatenate(([ival], ys))
    # right continuous: value at the last break point <= x
    return ys[np.searchsorted(xs, x_grid, side="right") - 1]


def _interp1d(x_grid: "arr1", xp: "arr1", yp: "arr1", kind: "str" = "linear"):
    assert x_grid.ndim == 1
    assert xp.ndim == 1 and xp.shape == yp.shape
    assert xp.size >= 2
    assert np.all(np.diff(xp) >= 0)
    assert kind != "next"
    if kind == "previous":
        xu, yu = _utl(xp, yp)
        return _esf(x_grid, xu, yu, assume_sorted=True)
    return si.interp1d(xp, yp, kind=kind, assume_sorted=True)(x_grid)


interp1d = np.vectorize(_interp1d, otypes=(float,), excluded=("kind", 3), signature="(n),(m),(m)->(n)")


def area(x_curve: "arr2", y_curve: "arr2", kind: "str") -> "arr1":
    assert x_curve.ndim == 2
    assert x_curve.shape[1] >= 2
    assert kind in ("previous", "linear")
    if kind == "previous":
        # left-continuous steps: each value held until the next x
        return np.nansum(y_curve[:, :-1] * np.diff(x_curve, axis=1), axis=1)
    return np.trapz(y_curve, x_curve, axis=1)


def remove_chars(x_str: "str", del_chars: "str") -> "str":
    return x_str.translate(str.maketrans("", "", del_chars))
