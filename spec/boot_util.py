"""Specification of mlpaper.boot_util.  Parsed by the analyser, never executed."""
import numpy as np

from mlpaper.boot_util import boot_weights as _w, confidence_to_percentiles as _ctp, percentile as _perc  # noqa


def boot_weights(N: "int", n_boot: "int", epsilon: "float" = 0) -> "arr2":
    assert N >= 1
    assert n_boot >= 1
    # one multinomial resample of N points per row, each point equally likely
    return np.maximum(epsilon, np.random.multinomial(N, np.ones(N) / N, size=n_boot))


def confidence_to_percentiles(confidence: "float"):
    assert 0.0 < confidence and confidence < 1.0
    return 100.0 * (1.0 - confidence) / 2.0, 100.0 * (1.0 + confidence) / 2.0


def percentile(boot_estimates: "arr", confidence: "float" = 0.95):
    assert boot_estimates.ndim >= 1
    assert not np.any(np.isnan(boot_estimates))
    lo, hi = _ctp(confidence)
    # rounded outwards, along the bootstrap axis
    LB = np.percentile(boot_estimates, lo, axis=0, interpolation="lower")
    UB = np.percentile(boot_estimates, hi, axis=0, interpolation="higher")
    return LB, UB


def basic(boot_estimates: "arr", original_estimate: "arr", confidence: "float" = 0.95):
    assert boot_estimates.ndim >= 1
    LB, UB = _perc(boot_estimates, confidence)
    return 2 * original_estimate - UB, 2 * original_estimate - LB


def error_bar(boot_estimates: "arr1", original_estimate: "float", confidence: "float" = 0.95):
    assert boot_estimates.ndim == 1
    LB, UB = _perc(boot_estimates, confidence)
    # symmetric bar covering the percentile interval; NaN ignored
    return np.fmax(UB - original_estimate, original_estimate - LB)


def significance(boot_estimates: "arr1", ref: "arr01"):
    assert boot_estimates.ndim == 1
    assert not np.any(np.isnan(boot_estimates))
    assert not np.any(np.isnan(ref))
    return np.minimum(1.0, 2.0 * np.minimum(np.mean(boot_estimates <= ref), np.mean(ref <= boot_estimates)))
