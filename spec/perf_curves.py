"""Specification of mlpaper.perf_curves.  Parsed by the analyser, never executed."""
import numpy as np

from mlpaper.perf_curves import _binary_clf_curve as _bcc


def _binary_clf_curve(y_true: "arr1", y_score: "arr1", sample_weight: "arr2?" = None):
    assert y_true.dtype.kind == "b"
    assert y_score.shape == y_true.shape and np.all(np.isfinite(y_score))
    assert y_true.size >= 1
    if sample_weight is not None:
        assert sample_weight.shape[1] == len(y_true) and sample_weight.shape[0] >= 1
    order = np.argsort(y_score, kind="mergesort")[::-1]
    score, truth = y_score[order], y_true[order]
    # last position of every run of tied scores
    last = np.r_[np.where(np.diff(score))[0], y_true.size - 1]
    if sample_weight is None:
        tps = np.cumsum(truth)[last]
        fps = 1 + last - tps
        tps, fps = tps[None, :], fps[None, :]
    else:
        w = sample_weight[:, order]
        tps = np.cumsum(truth[None, :] * w, axis=1)[:, last]
        fps = np.cumsum(w, axis=1)[:, last] - tps
    zero = np.zeros((fps.shape[0], 1), dtype=fps.dtype)
    fps, tps = np.c_[zero, fps], np.c_[zero, tps]
    thresholds = np.r_[np.inf, score[last]]
    # a missing class is replaced by an epsilon copy of the other one
    no_neg, no_pos = fps[:, -1] == 0, tps[:, -1] == 0
    if np.any(no_neg) or np.any(no_pos):
        fps, tps = fps.astype(float), tps.astype(float)
        fps[no_neg, :] = 1e-10 * tps[no_neg, :]
        tps[no_pos, :] = 1e-10 * fps[no_pos, :]
    return np.maximum.accumulate(fps, axis=1), tps, thresholds


def roc_curve(y_true: "arr1", y_score: "arr1", sample_weight: "arr2?" = None):
    fps, tps, thresholds = _bcc(y_true, y_score, sample_weight=sample_weight)
    return (fps / fps[:, -1:], tps / tps[:, -1:], "linear"), thresholds


def recall_precision_curve(y_true: "arr1", y_score: "arr1", sample_weight: "arr2?" = None):
    fps, tps, thresholds = _bcc(y_true, y_score, sample_weight=sample_weight)
    recall = tps / tps[:, -1:]
    precision = tps / (tps + fps)
    precision[:, 0] = precision[:, 1]
    return (recall, precision, "previous"), thresholds


def prg_curve(y_true: "arr1", y_score: "arr1", sample_weight: "arr2?" = None):
    fps, tps, thresholds = _bcc(y_true, y_score, sample_weight=sample_weight)
    n_neg, n_pos = fps[:, -1:], tps[:, -1:]
    rec_gain = 1.0 - (n_pos * (n_pos - tps)) / (n_neg * tps)
    prec_gain = 1.0 - (n_pos * fps) / (n_neg * tps)
    prec_gain[:, 0] = prec_gain[:, 1]
    return (np.maximum(0.0, rec_gain), prec_gain, "previous"), thresholds
