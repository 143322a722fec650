"""Inputs that must be rejected.  Generated by tools/gen_guards.py; parsed by the
analyser, never executed.  <module>__<function>__<kind>: when every assert below
fails, the routine must not return a value."""
import numpy as np
import pandas as pd
import mlpaper.perf_curves as pc


def mlpaper__loss_summary_table__refnan(loss_table: "df", ref_method: "", pairwise_CI: "bool", confidence: "float", method_EB: "str", limits: "dict"):
    metrics, methods = loss_table.columns.levels
    for metric in metrics:
        lower, upper = limits.get(metric, (-np.inf, np.inf))
        ref = loss_table.loc[:, (metric, ref_method)].values
        cell = loss_table.loc[:, (metric, ref_method)].values
        assert not np.any(np.isnan(cell))
        assert not np.isnan(np.sum(cell))
        assert not np.isnan(np.mean(cell))
        assert not np.isnan(np.min(cell))
        assert not np.isnan(np.max(cell))
        assert not np.sum(np.isnan(cell)) > 0
        assert not np.sum(np.isnan(cell)) >= 1
        assert np.sum(np.isnan(cell)) == 0
        assert np.all(np.isfinite(cell))
        assert np.all(np.isfinite(cell) | np.isinf(cell))
        assert np.all(lower <= cell)
        assert np.all(cell <= upper)
        assert lower <= np.min(cell)
        assert np.max(cell) <= upper
        assert not (lower <= upper)
        assert not (0.0 <= upper - lower)
        assert not (pairwise_CI)


def mlpaper__loss_summary_table__refbelow(loss_table: "df", ref_method: "", pairwise_CI: "bool", confidence: "float", method_EB: "str", limits: "dict"):
    metrics, methods = loss_table.columns.levels
    for metric in metrics:
        lower, upper = limits.get(metric, (-np.inf, np.inf))
        ref = loss_table.loc[:, (metric, ref_method)].values
        cell = loss_table.loc[:, (metric, ref_method)].values
        assert np.all(lower <= cell)
        assert not np.any(cell < lower)
        assert lower <= np.min(cell)
        assert not np.min(cell) < lower
        assert not (lower <= np.mean(cell))
        assert not (np.mean(cell) <= upper)
        assert not (lower <= upper)
        assert not (0.0 <= upper - lower)
        assert not (pairwise_CI)
        assert not (not np.any(np.isnan(cell)))


def mlpaper__loss_summary_table__refabove(loss_table: "df", ref_method: "", pairwise_CI: "bool", confidence: "float", method_EB: "str", limits: "dict"):
    metrics, methods = loss_table.columns.levels
    for metric in metrics:
        lower, upper = limits.get(metric, (-np.inf, np.inf))
        ref = loss_table.loc[:, (metric, ref_method)].values
        cell = loss_table.loc[:, (metric, ref_method)].values
        assert np.all(cell <= upper)
        assert not np.any(upper < cell)
        assert np.max(cell) <= upper
        assert not upper < np.max(cell)
        assert not (lower <= np.mean(cell))
        assert not (np.mean(cell) <= upper)
        assert not (lower <= upper)
        assert not (0.0 <= upper - lower)
        assert not (pairwise_CI)
        assert not (not np.any(np.isnan(cell)))


def mlpaper__loss_summary_table__cellnan(loss_table: "df", ref_method: "", pairwise_CI: "bool", confidence: "float", method_EB: "str", limits: "dict"):
    metrics, methods = loss_table.columns.levels
    for metric in metrics:
        lower, upper = limits.get(metric, (-np.inf, np.inf))
        ref = loss_table.loc[:, (metric, ref_method)].values
        for method in methods:
            cell = loss_table.loc[:, (metric, method)].values
            assert not np.any(np.isnan(cell))
            assert not np.isnan(np.sum(cell))
            assert not np.isnan(np.mean(cell))
            assert not np.isnan(np.min(cell))
            assert not np.isnan(np.max(cell))
            assert not np.sum(np.isnan(cell)) > 0
            assert not np.sum(np.isnan(cell)) >= 1
            assert np.sum(np.isnan(cell)) == 0
            assert np.all(np.isfinite(cell))
            assert np.all(np.isfinite(cell) | np.isinf(cell))
            assert np.all(lower <= cell)
            assert np.all(cell <= upper)
            assert lower <= np.min(cell)
            assert np.max(cell) <= upper
            assert not (lower <= upper)
            assert not (0.0 <= upper - lower)
            assert not (pairwise_CI)
            assert not (method != ref_method)
            assert not (method_EB == "t")
            assert not (len(cell) == 1)
            assert not (len(ref) == 1)
            assert not (len(cell - ref) == 1)
            assert not (not np.any(np.isnan(ref)))
            assert not (np.all(lower <= ref))
            assert not (np.all(ref <= upper))


def mlpaper__loss_summary_table__cellbelow(loss_table: "df", ref_method: "", pairwise_CI: "bool", confidence: "float", method_EB: "str", limits: "dict"):
    metrics, methods = loss_table.columns.levels
    for metric in metrics:
        lower, upper = limits.get(metric, (-np.inf, np.inf))
        ref = loss_table.loc[:, (metric, ref_method)].values
        for method in methods:
            cell = loss_table.loc[:, (metric, method)].values
            assert np.all(lower <= cell)
            assert not np.any(cell < lower)
            assert lower <= np.min(cell)
            assert not np.min(cell) < lower
            assert not (lower <= np.mean(cell))
            assert not (np.mean(cell) <= upper)
            assert not (lower <= upper)
            assert not (0.0 <= upper - lower)
            assert not (pairwise_CI)
            assert not (method != ref_method)
            assert not (method_EB == "t")
            assert not (len(cell) == 1)
            assert not (len(ref) == 1)
            assert not (len(cell - ref) == 1)
            assert not (not np.any(np.isnan(ref)))
            assert not (np.all(lower <= ref))
            assert not (np.all(ref <= upper))
            assert not (0.0 <= np.fmax(upper - lower - np.clip(np.mean(cell - ref), lower - upper, upper - lower), upper - lower + np.clip(np.mean(cell - ref), lower - upper, upper - lower)))
            assert not (lower - upper <= np.clip(np.mean(cell - ref), lower - upper, upper - lower))
            assert not (np.clip(np.mean(cell - ref), lower - upper, upper - lower) <= upper - lower)
            assert not (np.clip(np.mean(cell - ref), lower - upper, upper - lower) == np.mean(cell - ref))
            assert not (lower - upper <= np.mean(cell - ref))
            assert not (np.mean(cell - ref) <= upper - lower)
            assert not (np.mean(cell) - np.mean(ref) <= upper - lower)
            assert not (lower - upper <= np.mean(cell) - np.mean(ref))
            assert not (not np.any(np.isnan(cell - ref)))
            assert not (np.all(lower - upper <= cell - ref))
            assert not (np.all(cell - ref <= upper - lower))
            assert not (not np.any(np.isnan(cell)))
            assert not (0.0 < confidence)
            assert not (confidence < 1.0)


def mlpaper__loss_summary_table__cellabove(loss_table: "df", ref_method: "", pairwise_CI: "bool", confidence: "float", method_EB: "str", limits: "dict"):
    metrics, methods = loss_table.columns.levels
    for metric in metrics:
        lower, upper = limits.get(metric, (-np.inf, np.inf))
        ref = loss_table.loc[:, (metric, ref_method)].values
        for method in methods:
            cell = loss_table.loc[:, (metric, method)].values
            assert np.all(cell <= upper)
            assert not np.any(upper < cell)
            assert np.max(cell) <= upper
            assert not upper < np.max(cell)
            assert not (lower <= np.mean(cell))
            assert not (np.mean(cell) <= upper)
            assert not (lower <= upper)
            assert not (0.0 <= upper - lower)
            assert not (pairwise_CI)
            assert not (method != ref_method)
            assert not (method_EB == "t")
            assert not (len(cell) == 1)
            assert not (len(ref) == 1)
            assert not (len(cell - ref) == 1)
            assert not (not np.any(np.isnan(ref)))
            assert not (np.all(lower <= ref))
            assert not (np.all(ref <= upper))
            assert not (0.0 <= np.fmax(upper - lower - np.clip(np.mean(cell - ref), lower - upper, upper - lower), upper - lower + np.clip(np.mean(cell - ref), lower - upper, upper - lower)))
            assert not (lower - upper <= np.clip(np.mean(cell - ref), lower - upper, upper - lower))
            assert not (np.clip(np.mean(cell - ref), lower - upper, upper - lower) <= upper - lower)
            assert not (np.clip(np.mean(cell - ref), lower - upper, upper - lower) == np.mean(cell - ref))
            assert not (lower - upper <= np.mean(cell - ref))
            assert not (np.mean(cell - ref) <= upper - lower)
            assert not (np.mean(cell) - np.mean(ref) <= upper - lower)
            assert not (lower - upper <= np.mean(cell) - np.mean(ref))
            assert not (not np.any(np.isnan(cell - ref)))
            assert not (np.all(lower - upper <= cell - ref))
            assert not (np.all(cell - ref <= upper - lower))
            assert not (not np.any(np.isnan(cell)))
            assert not (0.0 < confidence)
            assert not (confidence < 1.0)


def classification__loss_table__cellnan(log_pred_prob_table: "df", y: "lab1", assume_normalized: "bool"):
    methods, labels = log_pred_prob_table.columns.levels
    for method in methods:
        cell = log_pred_prob_table[method].values
        assert not np.any(np.isnan(cell))
        assert not np.isnan(np.sum(cell))
        assert not np.isnan(np.mean(cell))
        assert not np.isnan(np.min(cell))
        assert not np.isnan(np.max(cell))
        assert not np.sum(np.isnan(cell)) > 0
        assert not np.sum(np.isnan(cell)) >= 1
        assert np.sum(np.isnan(cell)) == 0
        assert np.all(np.isfinite(cell))
        assert np.all(np.isfinite(cell) | np.isinf(cell))


def mlpaper__t_test__nan(x: "arr1"):
    assert not np.any(np.isnan(x))
    assert not np.isnan(np.sum(x))
    assert not np.isnan(np.mean(x))
    assert not np.isnan(np.min(x))
    assert not np.isnan(np.max(x))
    assert not np.sum(np.isnan(x)) > 0
    assert not np.sum(np.isnan(x)) >= 1
    assert np.sum(np.isnan(x)) == 0
    assert np.all(np.isfinite(x))
    assert np.all(np.isfinite(x) | np.isinf(x))
    return [not np.isnan(np.nanmean(x)), not np.isnan(np.nansum(x)), not np.isnan(np.nanmin(x)), not np.isnan(np.nanmax(x))]


def mlpaper__t_EB__nan(x: "arr1"):
    assert not np.any(np.isnan(x))
    assert not np.isnan(np.sum(x))
    assert not np.isnan(np.mean(x))
    assert not np.isnan(np.min(x))
    assert not np.isnan(np.max(x))
    assert not np.sum(np.isnan(x)) > 0
    assert not np.sum(np.isnan(x)) >= 1
    assert np.sum(np.isnan(x)) == 0
    assert np.all(np.isfinite(x))
    assert np.all(np.isfinite(x) | np.isinf(x))
    return [not np.isnan(np.nanmean(x)), not np.isnan(np.nansum(x)), not np.isnan(np.nanmin(x)), not np.isnan(np.nanmax(x))]


def mlpaper__boot_test__nan(x: "arr1"):
    assert not np.any(np.isnan(x))
    assert not np.isnan(np.sum(x))
    assert not np.isnan(np.mean(x))
    assert not np.isnan(np.min(x))
    assert not np.isnan(np.max(x))
    assert not np.sum(np.isnan(x)) > 0
    assert not np.sum(np.isnan(x)) >= 1
    assert np.sum(np.isnan(x)) == 0
    assert np.all(np.isfinite(x))
    assert np.all(np.isfinite(x) | np.isinf(x))
    return [not np.isnan(np.nanmean(x)), not np.isnan(np.nansum(x)), not np.isnan(np.nanmin(x)), not np.isnan(np.nanmax(x))]


def mlpaper__boot_EB__nan(x: "arr1"):
    assert not np.any(np.isnan(x))
    assert not np.isnan(np.sum(x))
    assert not np.isnan(np.mean(x))
    assert not np.isnan(np.min(x))
    assert not np.isnan(np.max(x))
    assert not np.sum(np.isnan(x)) > 0
    assert not np.sum(np.isnan(x)) >= 1
    assert np.sum(np.isnan(x)) == 0
    assert np.all(np.isfinite(x))
    assert np.all(np.isfinite(x) | np.isinf(x))
    return [not np.isnan(np.nanmean(x)), not np.isnan(np.nansum(x)), not np.isnan(np.nanmin(x)), not np.isnan(np.nanmax(x))]


def mlpaper__bernstein_test__nan(x: "arr1", lower: "float", upper: "float"):
    assert not np.any(np.isnan(x))
    assert not np.isnan(np.sum(x))
    assert not np.isnan(np.mean(x))
    assert not np.isnan(np.min(x))
    assert not np.isnan(np.max(x))
    assert not np.sum(np.isnan(x)) > 0
    assert not np.sum(np.isnan(x)) >= 1
    assert np.sum(np.isnan(x)) == 0
    assert np.all(np.isfinite(x))
    assert np.all(np.isfinite(x) | np.isinf(x))
    assert np.all(lower <= x)
    assert np.all(x <= upper)
    assert lower <= np.min(x)
    assert np.max(x) <= upper
    return [not np.isnan(np.nanmean(x)), not np.isnan(np.nansum(x)), not np.isnan(np.nanmin(x)), not np.isnan(np.nanmax(x))]


def mlpaper__bernstein_test__below(x: "arr1", lower: "float", upper: "float", method: "str", min_EB: "float"):
    assert np.all(lower <= x)
    assert not np.any(x < lower)
    assert lower <= np.min(x)
    assert not np.min(x) < lower


def mlpaper__bernstein_test__above(x: "arr1", lower: "float", upper: "float", method: "str", min_EB: "float"):
    assert np.all(x <= upper)
    assert not np.any(upper < x)
    assert np.max(x) <= upper
    assert not upper < np.max(x)


def mlpaper__bernstein_EB__nan(x: "arr1", lower: "float", upper: "float"):
    assert not np.any(np.isnan(x))
    assert not np.isnan(np.sum(x))
    assert not np.isnan(np.mean(x))
    assert not np.isnan(np.min(x))
    assert not np.isnan(np.max(x))
    assert not np.sum(np.isnan(x)) > 0
    assert not np.sum(np.isnan(x)) >= 1
    assert np.sum(np.isnan(x)) == 0
    assert np.all(np.isfinite(x))
    assert np.all(np.isfinite(x) | np.isinf(x))
    assert np.all(lower <= x)
    assert np.all(x <= upper)
    assert lower <= np.min(x)
    assert np.max(x) <= upper
    return [not np.isnan(np.nanmean(x)), not np.isnan(np.nansum(x)), not np.isnan(np.nanmin(x)), not np.isnan(np.nanmax(x))]


def mlpaper__bernstein_EB__below(x: "arr1", lower: "float", upper: "float", method: "str", min_EB: "float"):
    assert np.all(lower <= x)
    assert not np.any(x < lower)
    assert lower <= np.min(x)
    assert not np.min(x) < lower


def mlpaper__bernstein_EB__above(x: "arr1", lower: "float", upper: "float", method: "str", min_EB: "float"):
    assert np.all(x <= upper)
    assert not np.any(upper < x)
    assert np.max(x) <= upper
    assert not upper < np.max(x)


def mlpaper__get_mean_and_EB__nan(x: "arr1", lower: "float", upper: "float"):
    assert not np.any(np.isnan(x))
    assert not np.isnan(np.sum(x))
    assert not np.isnan(np.mean(x))
    assert not np.isnan(np.min(x))
    assert not np.isnan(np.max(x))
    assert not np.sum(np.isnan(x)) > 0
    assert not np.sum(np.isnan(x)) >= 1
    assert np.sum(np.isnan(x)) == 0
    assert np.all(np.isfinite(x))
    assert np.all(np.isfinite(x) | np.isinf(x))
    assert np.all(lower <= x)
    assert np.all(x <= upper)
    assert lower <= np.min(x)
    assert np.max(x) <= upper
    return [not np.isnan(np.nanmean(x)), not np.isnan(np.nansum(x)), not np.isnan(np.nanmin(x)), not np.isnan(np.nanmax(x))]


def mlpaper__get_mean_and_EB__below(x: "arr1", lower: "float", upper: "float", method: "str", min_EB: "float"):
    assert np.all(lower <= x)
    assert not np.any(x < lower)
    assert lower <= np.min(x)
    assert not np.min(x) < lower
    return [lower <= np.mean(x), np.mean(x) <= upper, 0.0 <= min_EB, not np.fmax(upper - np.mean(x), np.mean(x) - lower) < min_EB, not 2 * min_EB > upper - lower, 0.0 <= upper - lower, lower <= upper, method == "t"]


def mlpaper__get_mean_and_EB__above(x: "arr1", lower: "float", upper: "float", method: "str", min_EB: "float"):
    assert np.all(x <= upper)
    assert not np.any(upper < x)
    assert np.max(x) <= upper
    assert not upper < np.max(x)
    return [lower <= np.mean(x), np.mean(x) <= upper, 0.0 <= min_EB, not np.fmax(upper - np.mean(x), np.mean(x) - lower) < min_EB, not 2 * min_EB > upper - lower, 0.0 <= upper - lower, lower <= upper, method == "t"]


def mlpaper__get_mean_EB_test__nan(x: "arr1", lower: "float", upper: "float"):
    assert not np.any(np.isnan(x))
    assert not np.isnan(np.sum(x))
    assert not np.isnan(np.mean(x))
    assert not np.isnan(np.min(x))
    assert not np.isnan(np.max(x))
    assert not np.sum(np.isnan(x)) > 0
    assert not np.sum(np.isnan(x)) >= 1
    assert np.sum(np.isnan(x)) == 0
    assert np.all(np.isfinite(x))
    assert np.all(np.isfinite(x) | np.isinf(x))
    assert np.all(lower <= x)
    assert np.all(x <= upper)
    assert lower <= np.min(x)
    assert np.max(x) <= upper
    return [not np.isnan(np.nanmean(x)), not np.isnan(np.nansum(x)), not np.isnan(np.nanmin(x)), not np.isnan(np.nanmax(x))]


def mlpaper__get_mean_EB_test__below(x: "arr1", lower: "float", upper: "float", method: "str", min_EB: "float"):
    assert np.all(lower <= x)
    assert not np.any(x < lower)
    assert lower <= np.min(x)
    assert not np.min(x) < lower
    return [lower <= np.mean(x), np.mean(x) <= upper, 0.0 <= min_EB, not np.fmax(upper - np.mean(x), np.mean(x) - lower) < min_EB, not 2 * min_EB > upper - lower, 0.0 <= upper - lower, lower <= upper, method == "t"]


def mlpaper__get_mean_EB_test__above(x: "arr1", lower: "float", upper: "float", method: "str", min_EB: "float"):
    assert np.all(x <= upper)
    assert not np.any(upper < x)
    assert np.max(x) <= upper
    assert not upper < np.max(x)
    return [lower <= np.mean(x), np.mean(x) <= upper, 0.0 <= min_EB, not np.fmax(upper - np.mean(x), np.mean(x) - lower) < min_EB, not 2 * min_EB > upper - lower, 0.0 <= upper - lower, lower <= upper, method == "t"]


def mlpaper__get_test__nan(x: "arr1"):
    assert not np.any(np.isnan(x))
    assert not np.isnan(np.sum(x))
    assert not np.isnan(np.mean(x))
    assert not np.isnan(np.min(x))
    assert not np.isnan(np.max(x))
    assert not np.sum(np.isnan(x)) > 0
    assert not np.sum(np.isnan(x)) >= 1
    assert np.sum(np.isnan(x)) == 0
    assert np.all(np.isfinite(x))
    assert np.all(np.isfinite(x) | np.isinf(x))
    return [not np.isnan(np.nanmean(x)), not np.isnan(np.nansum(x)), not np.isnan(np.nanmin(x)), not np.isnan(np.nanmax(x))]


def mlpaper__t_EB__confidence0(confidence: "float"):
    assert 0.0 < confidence
    assert not confidence <= 0.0


def mlpaper__t_EB__confidence1(confidence: "float"):
    assert confidence < 1.0
    assert not confidence >= 1.0


def mlpaper__bernstein_EB__confidence0(confidence: "float"):
    assert 0.0 < confidence
    assert not confidence <= 0.0


def mlpaper__bernstein_EB__confidence1(confidence: "float"):
    assert confidence < 1.0
    assert not confidence >= 1.0


def boot_util__confidence_to_percentiles__confidence0(confidence: "float"):
    assert 0.0 < confidence
    assert not confidence <= 0.0


def boot_util__confidence_to_percentiles__confidence1(confidence: "float"):
    assert confidence < 1.0
    assert not confidence >= 1.0


def boot_util__percentile__confidence0(confidence: "float"):
    assert 0.0 < confidence
    assert not confidence <= 0.0


def boot_util__percentile__confidence1(confidence: "float"):
    assert confidence < 1.0
    assert not confidence >= 1.0


def boot_util__error_bar__confidence0(confidence: "float"):
    assert 0.0 < confidence
    assert not confidence <= 0.0


def boot_util__error_bar__confidence1(confidence: "float"):
    assert confidence < 1.0
    assert not confidence >= 1.0


def boot_util__basic__confidence0(confidence: "float"):
    assert 0.0 < confidence
    assert not confidence <= 0.0


def boot_util__basic__confidence1(confidence: "float"):
    assert confidence < 1.0
    assert not confidence >= 1.0


def mlpaper__bernstein_test__limits(lower: "float", upper: "float"):
    assert lower <= upper
    assert not upper < lower
    assert upper - lower >= 0.0
    assert not upper - lower < 0.0


def mlpaper__bernstein_EB__limits(lower: "float", upper: "float"):
    assert lower <= upper
    assert not upper < lower
    assert upper - lower >= 0.0
    assert not upper - lower < 0.0


def mlpaper__clip_EB__limits(lower: "float", upper: "float"):
    assert lower <= upper
    assert not upper < lower
    assert upper - lower >= 0.0
    assert not upper - lower < 0.0


def mlpaper__clip_EB__mu_low(mu: "float", EB: "float", lower: "float", upper: "float", min_EB: "float"):
    assert not mu < lower
    assert lower <= mu
    assert not lower > mu


def mlpaper__clip_EB__mu_high(mu: "float", EB: "float", lower: "float", upper: "float", min_EB: "float"):
    assert not mu > upper
    assert mu <= upper


def mlpaper__clip_EB__min_negative(min_EB: "float", mu: "float", EB: "float", lower: "float", upper: "float"):
    assert 0.0 <= min_EB
    assert not min_EB < 0.0


def mlpaper__clip_EB__min_too_wide(min_EB: "float", mu: "float", EB: "float", lower: "float", upper: "float"):
    assert not 2 * min_EB > upper - lower
    assert 2 * min_EB <= upper - lower


def boot_util__percentile__nan(boot_estimates: "arr"):
    assert not np.any(np.isnan(boot_estimates))
    assert not np.isnan(np.sum(boot_estimates))
    assert not np.isnan(np.mean(boot_estimates))
    assert not np.isnan(np.min(boot_estimates))
    assert not np.isnan(np.max(boot_estimates))
    assert not np.sum(np.isnan(boot_estimates)) > 0
    assert not np.sum(np.isnan(boot_estimates)) >= 1
    assert np.sum(np.isnan(boot_estimates)) == 0
    assert np.all(np.isfinite(boot_estimates))
    assert np.all(np.isfinite(boot_estimates) | np.isinf(boot_estimates))
    return [not np.isnan(np.nanmean(boot_estimates)), not np.isnan(np.nansum(boot_estimates)), not np.isnan(np.nanmin(boot_estimates)), not np.isnan(np.nanmax(boot_estimates))]


def boot_util__error_bar__nan(boot_estimates: "arr1"):
    assert not np.any(np.isnan(boot_estimates))
    assert not np.isnan(np.sum(boot_estimates))
    assert not np.isnan(np.mean(boot_estimates))
    assert not np.isnan(np.min(boot_estimates))
    assert not np.isnan(np.max(boot_estimates))
    assert not np.sum(np.isnan(boot_estimates)) > 0
    assert not np.sum(np.isnan(boot_estimates)) >= 1
    assert np.sum(np.isnan(boot_estimates)) == 0
    assert np.all(np.isfinite(boot_estimates))
    assert np.all(np.isfinite(boot_estimates) | np.isinf(boot_estimates))
    return [not np.isnan(np.nanmean(boot_estimates)), not np.isnan(np.nansum(boot_estimates)), not np.isnan(np.nanmin(boot_estimates)), not np.isnan(np.nanmax(boot_estimates))]


def boot_util__basic__nan(boot_estimates: "arr"):
    assert not np.any(np.isnan(boot_estimates))
    assert not np.isnan(np.sum(boot_estimates))
    assert not np.isnan(np.mean(boot_estimates))
    assert not np.isnan(np.min(boot_estimates))
    assert not np.isnan(np.max(boot_estimates))
    assert not np.sum(np.isnan(boot_estimates)) > 0
    assert not np.sum(np.isnan(boot_estimates)) >= 1
    assert np.sum(np.isnan(boot_estimates)) == 0
    assert np.all(np.isfinite(boot_estimates))
    assert np.all(np.isfinite(boot_estimates) | np.isinf(boot_estimates))
    return [not np.isnan(np.nanmean(boot_estimates)), not np.isnan(np.nansum(boot_estimates)), not np.isnan(np.nanmin(boot_estimates)), not np.isnan(np.nanmax(boot_estimates))]


def boot_util__significance__nan(boot_estimates: "arr1"):
    assert not np.any(np.isnan(boot_estimates))
    assert not np.isnan(np.sum(boot_estimates))
    assert not np.isnan(np.mean(boot_estimates))
    assert not np.isnan(np.min(boot_estimates))
    assert not np.isnan(np.max(boot_estimates))
    assert not np.sum(np.isnan(boot_estimates)) > 0
    assert not np.sum(np.isnan(boot_estimates)) >= 1
    assert np.sum(np.isnan(boot_estimates)) == 0
    assert np.all(np.isfinite(boot_estimates))
    assert np.all(np.isfinite(boot_estimates) | np.isinf(boot_estimates))
    return [not np.isnan(np.nanmean(boot_estimates)), not np.isnan(np.nansum(boot_estimates)), not np.isnan(np.nanmin(boot_estimates)), not np.isnan(np.nanmax(boot_estimates))]


def boot_util__significance__refnan(ref: "arr"):
    assert not np.any(np.isnan(ref))
    assert not np.isnan(np.sum(ref))
    assert not np.isnan(np.mean(ref))
    assert not np.isnan(np.min(ref))
    assert not np.isnan(np.max(ref))
    assert not np.sum(np.isnan(ref)) > 0
    assert not np.sum(np.isnan(ref)) >= 1
    assert np.sum(np.isnan(ref)) == 0
    assert np.all(np.isfinite(ref))
    assert np.all(np.isfinite(ref) | np.isinf(ref))
    return [not np.isnan(np.nanmean(ref)), not np.isnan(np.nansum(ref)), not np.isnan(np.nanmin(ref)), not np.isnan(np.nanmax(ref))]


def util__area__xnan(x_curve: "arr2", y_curve: "arr2", kind: "str"):
    assert not np.any(np.isnan(x_curve))
    assert not np.isnan(np.sum(x_curve))
    assert not np.isnan(np.mean(x_curve))
    assert not np.isnan(np.min(x_curve))
    assert not np.isnan(np.max(x_curve))
    assert not np.sum(np.isnan(x_curve)) > 0
    assert not np.sum(np.isnan(x_curve)) >= 1
    assert np.sum(np.isnan(x_curve)) == 0
    assert np.all(np.isfinite(x_curve))
    assert np.all(np.isfinite(x_curve) | np.isinf(x_curve))
    return [kind == "previous", not np.any(np.isnan(np.nansum(y_curve[:, :-1] * np.diff(x_curve, axis=1), axis=1))), not np.isnan(np.nanmean(x_curve)), not np.isnan(np.nansum(x_curve)), not np.isnan(np.nanmin(x_curve)), not np.isnan(np.nanmax(x_curve))]


def util__area__ynan(y_curve: "arr2", x_curve: "arr2", kind: "str"):
    assert not np.any(np.isnan(y_curve))
    assert not np.isnan(np.sum(y_curve))
    assert not np.isnan(np.mean(y_curve))
    assert not np.isnan(np.min(y_curve))
    assert not np.isnan(np.max(y_curve))
    assert not np.sum(np.isnan(y_curve)) > 0
    assert not np.sum(np.isnan(y_curve)) >= 1
    assert np.sum(np.isnan(y_curve)) == 0
    assert np.all(np.isfinite(y_curve))
    assert np.all(np.isfinite(y_curve) | np.isinf(y_curve))
    return [kind == "previous", not np.any(np.isnan(np.nansum(y_curve[:, :-1] * np.diff(x_curve, axis=1), axis=1))), not np.isnan(np.nanmean(y_curve)), not np.isnan(np.nansum(y_curve)), not np.isnan(np.nanmin(y_curve)), not np.isnan(np.nanmax(y_curve))]


def util__unique_take_last__nan(xp: "arr1"):
    assert not np.any(np.isnan(xp))
    assert not np.isnan(np.sum(xp))
    assert not np.isnan(np.mean(xp))
    assert not np.isnan(np.min(xp))
    assert not np.isnan(np.max(xp))
    assert not np.sum(np.isnan(xp)) > 0
    assert not np.sum(np.isnan(xp)) >= 1
    assert np.sum(np.isnan(xp)) == 0
    assert np.all(np.isfinite(xp))
    assert np.all(np.isfinite(xp) | np.isinf(xp))
    return [not np.isnan(np.nanmean(xp)), not np.isnan(np.nansum(xp)), not np.isnan(np.nanmin(xp)), not np.isnan(np.nanmax(xp))]


def util__epsilon_noise__nan(x: "arr1"):
    assert not np.any(np.isnan(x))
    assert not np.isnan(np.sum(x))
    assert not np.isnan(np.mean(x))
    assert not np.isnan(np.min(x))
    assert not np.isnan(np.max(x))
    assert not np.sum(np.isnan(x)) > 0
    assert not np.sum(np.isnan(x)) >= 1
    assert np.sum(np.isnan(x)) == 0
    assert np.all(np.isfinite(x))
    assert np.all(np.isfinite(x) | np.isinf(x))
    return [not np.isnan(np.nanmean(x)), not np.isnan(np.nansum(x)), not np.isnan(np.nanmin(x)), not np.isnan(np.nanmax(x))]


def util__epsilon_noise__inf(x: "arr1"):
    assert not np.any(np.isinf(x))
    assert np.all(np.isfinite(x))
    assert np.all(np.abs(x) < np.inf)


def util__clip_chk__below(a: "float", a_min: "float", a_max: "float"):
    assert a_min <= a
    assert np.isclose(a, a_min)
    assert np.isclose(a_min, a)
    assert np.isclose(a, a_max)
    assert np.isclose(a_max, a)
    assert np.allclose(a, a_min)
    assert np.allclose(a_min, a)
    assert np.allclose(a, a_max)
    assert np.allclose(a_max, a)
    return [a_min < a_max, a < a_max]


def util__clip_chk__above(a: "float", a_min: "float", a_max: "float"):
    assert a <= a_max
    assert np.isclose(a, a_min)
    assert np.isclose(a_min, a)
    assert np.isclose(a, a_max)
    assert np.isclose(a_max, a)
    assert np.allclose(a, a_min)
    assert np.allclose(a_min, a)
    assert np.allclose(a, a_max)
    assert np.allclose(a_max, a)
    return [a_min < a_max, a_min < a]


def util__one_hot__low(y: "lab1", n_labels: "int"):
    assert np.all(0 <= y)
    assert not np.any(y < 0)
    assert 0 <= np.min(y)
    assert not np.min(y) < 0


def util__one_hot__high(y: "lab1", n_labels: "int"):
    assert np.all(y < n_labels)
    assert not np.any(n_labels <= y)
    assert np.max(y) < n_labels
    assert not n_labels <= np.max(y)


def classification__hard_loss__label_low(y: "lab1", log_pred_prob: "arr2"):
    assert np.all(0 <= y)
    assert not np.any(y < 0)
    assert 0 <= np.min(y)
    assert not np.min(y) < 0


def classification__hard_loss__label_high(y: "lab1", log_pred_prob: "arr2"):
    assert np.all(y < log_pred_prob.shape[1])
    assert not np.any(log_pred_prob.shape[1] <= y)
    assert np.max(y) < log_pred_prob.shape[1]
    assert not log_pred_prob.shape[1] <= np.max(y)


def classification__log_loss__label_low(y: "lab1", log_pred_prob: "arr2"):
    assert np.all(0 <= y)
    assert not np.any(y < 0)
    assert 0 <= np.min(y)
    assert not np.min(y) < 0


def classification__log_loss__label_high(y: "lab1", log_pred_prob: "arr2"):
    assert np.all(y < log_pred_prob.shape[1])
    assert not np.any(log_pred_prob.shape[1] <= y)
    assert np.max(y) < log_pred_prob.shape[1]
    assert not log_pred_prob.shape[1] <= np.max(y)


def classification__brier_loss__label_low(y: "lab1", log_pred_prob: "arr2"):
    assert np.all(0 <= y)
    assert not np.any(y < 0)
    assert 0 <= np.min(y)
    assert not np.min(y) < 0


def classification__brier_loss__label_high(y: "lab1", log_pred_prob: "arr2"):
    assert np.all(y < log_pred_prob.shape[1])
    assert not np.any(log_pred_prob.shape[1] <= y)
    assert np.max(y) < log_pred_prob.shape[1]
    assert not log_pred_prob.shape[1] <= np.max(y)


def classification__spherical_loss__label_low(y: "lab1", log_pred_prob: "arr2"):
    assert np.all(0 <= y)
    assert not np.any(y < 0)
    assert 0 <= np.min(y)
    assert not np.min(y) < 0


def classification__spherical_loss__label_high(y: "lab1", log_pred_prob: "arr2"):
    assert np.all(y < log_pred_prob.shape[1])
    assert not np.any(log_pred_prob.shape[1] <= y)
    assert np.max(y) < log_pred_prob.shape[1]
    assert not log_pred_prob.shape[1] <= np.max(y)


def classification__curve_boot__label_low(y: "lab1", log_pred_prob: "arr2"):
    assert np.all(0 <= y)
    assert not np.any(y < 0)
    assert 0 <= np.min(y)
    assert not np.min(y) < 0


def classification__curve_boot__label_high(y: "lab1", log_pred_prob: "arr2"):
    assert np.all(y < log_pred_prob.shape[1])
    assert not np.any(log_pred_prob.shape[1] <= y)
    assert np.max(y) < log_pred_prob.shape[1]
    assert not log_pred_prob.shape[1] <= np.max(y)


def classification__curve_boot__nan(log_pred_prob: "arr2"):
    assert not np.any(np.isnan(log_pred_prob))
    assert not np.isnan(np.sum(log_pred_prob))
    assert not np.isnan(np.mean(log_pred_prob))
    assert not np.isnan(np.min(log_pred_prob))
    assert not np.isnan(np.max(log_pred_prob))
    assert not np.sum(np.isnan(log_pred_prob)) > 0
    assert not np.sum(np.isnan(log_pred_prob)) >= 1
    assert np.sum(np.isnan(log_pred_prob)) == 0
    assert np.all(np.isfinite(log_pred_prob))
    assert np.all(np.isfinite(log_pred_prob) | np.isinf(log_pred_prob))
    return [not np.isnan(np.nanmean(log_pred_prob)), not np.isnan(np.nansum(log_pred_prob)), not np.isnan(np.nanmin(log_pred_prob)), not np.isnan(np.nanmax(log_pred_prob))]


def classification__curve_boot__refnan(ref: ""):
    assert not np.any(np.isnan(ref))
    assert not np.isnan(np.sum(ref))
    return [not np.isnan(np.nanmean(ref)), not np.isnan(np.nansum(ref)), not np.isnan(np.nanmin(ref)), not np.isnan(np.nanmax(ref))]


def classification__get_pred_log_prob__label_low(y_train: "lab1", n_labels: "int"):
    assert np.all(0 <= y_train)
    assert not np.any(y_train < 0)
    assert 0 <= np.min(y_train)
    assert not np.min(y_train) < 0


def classification__get_pred_log_prob__label_high(y_train: "lab1", n_labels: "int"):
    assert np.all(y_train < n_labels)
    assert not np.any(n_labels <= y_train)
    assert np.max(y_train) < n_labels
    assert not n_labels <= np.max(y_train)


def classification__get_pred_log_prob__floor(min_log_prob: "float"):
    assert min_log_prob < 0.0
    assert not min_log_prob >= 0.0


def regression__get_gauss_pred__floor(min_std: "float"):
    assert min_std >= 0.0
    assert not min_std < 0.0


def regression__square_loss__y_nan(y: "arr1"):
    assert not np.any(np.isnan(y))
    assert not np.isnan(np.sum(y))
    assert not np.isnan(np.mean(y))
    assert not np.isnan(np.min(y))
    assert not np.isnan(np.max(y))
    assert not np.sum(np.isnan(y)) > 0
    assert not np.sum(np.isnan(y)) >= 1
    assert np.sum(np.isnan(y)) == 0
    assert np.all(np.isfinite(y))
    assert np.all(np.isfinite(y) | np.isinf(y))
    return [not np.isnan(np.nanmean(y)), not np.isnan(np.nansum(y)), not np.isnan(np.nanmin(y)), not np.isnan(np.nanmax(y))]


def regression__square_loss__y_inf(y: "arr1"):
    assert not np.any(np.isinf(y))
    assert np.all(np.isfinite(y))
    assert np.all(np.abs(y) < np.inf)


def regression__square_loss__mu_nan(mu: "arr1"):
    assert not np.any(np.isnan(mu))
    assert not np.isnan(np.sum(mu))
    assert not np.isnan(np.mean(mu))
    assert not np.isnan(np.min(mu))
    assert not np.isnan(np.max(mu))
    assert not np.sum(np.isnan(mu)) > 0
    assert not np.sum(np.isnan(mu)) >= 1
    assert np.sum(np.isnan(mu)) == 0
    assert np.all(np.isfinite(mu))
    assert np.all(np.isfinite(mu) | np.isinf(mu))
    return [not np.isnan(np.nanmean(mu)), not np.isnan(np.nansum(mu)), not np.isnan(np.nanmin(mu)), not np.isnan(np.nanmax(mu))]


def regression__square_loss__mu_inf(mu: "arr1"):
    assert not np.any(np.isinf(mu))
    assert np.all(np.isfinite(mu))
    assert np.all(np.abs(mu) < np.inf)


def regression__square_loss__std_nan(std: "arr1"):
    assert not np.any(np.isnan(std))
    assert not np.isnan(np.sum(std))
    assert not np.isnan(np.mean(std))
    assert not np.isnan(np.min(std))
    assert not np.isnan(np.max(std))
    assert not np.sum(np.isnan(std)) > 0
    assert not np.sum(np.isnan(std)) >= 1
    assert np.sum(np.isnan(std)) == 0
    assert np.all(np.isfinite(std))
    assert np.all(np.isfinite(std) | np.isinf(std))
    assert np.all(0.0 < std)
    assert 0.0 < np.min(std)
    return [not np.isnan(np.nanmean(std)), not np.isnan(np.nansum(std)), not np.isnan(np.nanmin(std)), not np.isnan(np.nanmax(std))]


def regression__square_loss__std_inf(std: "arr1"):
    assert not np.any(np.isinf(std))
    assert np.all(np.isfinite(std))
    assert np.all(np.abs(std) < np.inf)


def regression__square_loss__std_not_positive(std: "arr1"):
    assert np.all(0.0 < std)
    assert not np.any(std <= 0.0)
    assert 0.0 < np.min(std)
    assert not np.min(std) <= 0.0


def regression__abs_loss__y_nan(y: "arr1"):
    assert not np.any(np.isnan(y))
    assert not np.isnan(np.sum(y))
    assert not np.isnan(np.mean(y))
    assert not np.isnan(np.min(y))
    assert not np.isnan(np.max(y))
    assert not np.sum(np.isnan(y)) > 0
    assert not np.sum(np.isnan(y)) >= 1
    assert np.sum(np.isnan(y)) == 0
    assert np.all(np.isfinite(y))
    assert np.all(np.isfinite(y) | np.isinf(y))
    return [not np.isnan(np.nanmean(y)), not np.isnan(np.nansum(y)), not np.isnan(np.nanmin(y)), not np.isnan(np.nanmax(y))]


def regression__abs_loss__y_inf(y: "arr1"):
    assert not np.any(np.isinf(y))
    assert np.all(np.isfinite(y))
    assert np.all(np.abs(y) < np.inf)


def regression__abs_loss__mu_nan(mu: "arr1"):
    assert not np.any(np.isnan(mu))
    assert not np.isnan(np.sum(mu))
    assert not np.isnan(np.mean(mu))
    assert not np.isnan(np.min(mu))
    assert not np.isnan(np.max(mu))
    assert not np.sum(np.isnan(mu)) > 0
    assert not np.sum(np.isnan(mu)) >= 1
    assert np.sum(np.isnan(mu)) == 0
    assert np.all(np.isfinite(mu))
    assert np.all(np.isfinite(mu) | np.isinf(mu))
    return [not np.isnan(np.nanmean(mu)), not np.isnan(np.nansum(mu)), not np.isnan(np.nanmin(mu)), not np.isnan(np.nanmax(mu))]


def regression__abs_loss__mu_inf(mu: "arr1"):
    assert not np.any(np.isinf(mu))
    assert np.all(np.isfinite(mu))
    assert np.all(np.abs(mu) < np.inf)


def regression__abs_loss__std_nan(std: "arr1"):
    assert not np.any(np.isnan(std))
    assert not np.isnan(np.sum(std))
    assert not np.isnan(np.mean(std))
    assert not np.isnan(np.min(std))
    assert not np.isnan(np.max(std))
    assert not np.sum(np.isnan(std)) > 0
    assert not np.sum(np.isnan(std)) >= 1
    assert np.sum(np.isnan(std)) == 0
    assert np.all(np.isfinite(std))
    assert np.all(np.isfinite(std) | np.isinf(std))
    assert np.all(0.0 < std)
    assert 0.0 < np.min(std)
    return [not np.isnan(np.nanmean(std)), not np.isnan(np.nansum(std)), not np.isnan(np.nanmin(std)), not np.isnan(np.nanmax(std))]


def regression__abs_loss__std_inf(std: "arr1"):
    assert not np.any(np.isinf(std))
    assert np.all(np.isfinite(std))
    assert np.all(np.abs(std) < np.inf)


def regression__abs_loss__std_not_positive(std: "arr1"):
    assert np.all(0.0 < std)
    assert not np.any(std <= 0.0)
    assert 0.0 < np.min(std)
    assert not np.min(std) <= 0.0


def regression__log_loss__y_nan(y: "arr1"):
    assert not np.any(np.isnan(y))
    assert not np.isnan(np.sum(y))
    assert not np.isnan(np.mean(y))
    assert not np.isnan(np.min(y))
    assert not np.isnan(np.max(y))
    assert not np.sum(np.isnan(y)) > 0
    assert not np.sum(np.isnan(y)) >= 1
    assert np.sum(np.isnan(y)) == 0
    assert np.all(np.isfinite(y))
    assert np.all(np.isfinite(y) | np.isinf(y))
    return [not np.isnan(np.nanmean(y)), not np.isnan(np.nansum(y)), not np.isnan(np.nanmin(y)), not np.isnan(np.nanmax(y))]


def regression__log_loss__y_inf(y: "arr1"):
    assert not np.any(np.isinf(y))
    assert np.all(np.isfinite(y))
    assert np.all(np.abs(y) < np.inf)


def regression__log_loss__mu_nan(mu: "arr1"):
    assert not np.any(np.isnan(mu))
    assert not np.isnan(np.sum(mu))
    assert not np.isnan(np.mean(mu))
    assert not np.isnan(np.min(mu))
    assert not np.isnan(np.max(mu))
    assert not np.sum(np.isnan(mu)) > 0
    assert not np.sum(np.isnan(mu)) >= 1
    assert np.sum(np.isnan(mu)) == 0
    assert np.all(np.isfinite(mu))
    assert np.all(np.isfinite(mu) | np.isinf(mu))
    return [not np.isnan(np.nanmean(mu)), not np.isnan(np.nansum(mu)), not np.isnan(np.nanmin(mu)), not np.isnan(np.nanmax(mu))]


def regression__log_loss__mu_inf(mu: "arr1"):
    assert not np.any(np.isinf(mu))
    assert np.all(np.isfinite(mu))
    assert np.all(np.abs(mu) < np.inf)


def regression__log_loss__std_nan(std: "arr1"):
    assert not np.any(np.isnan(std))
    assert not np.isnan(np.sum(std))
    assert not np.isnan(np.mean(std))
    assert not np.isnan(np.min(std))
    assert not np.isnan(np.max(std))
    assert not np.sum(np.isnan(std)) > 0
    assert not np.sum(np.isnan(std)) >= 1
    assert np.sum(np.isnan(std)) == 0
    assert np.all(np.isfinite(std))
    assert np.all(np.isfinite(std) | np.isinf(std))
    assert np.all(0.0 < std)
    assert 0.0 < np.min(std)
    return [not np.isnan(np.nanmean(std)), not np.isnan(np.nansum(std)), not np.isnan(np.nanmin(std)), not np.isnan(np.nanmax(std))]


def regression__log_loss__std_inf(std: "arr1"):
    assert not np.any(np.isinf(std))
    assert np.all(np.isfinite(std))
    assert np.all(np.abs(std) < np.inf)


def regression__log_loss__std_not_positive(std: "arr1"):
    assert np.all(0.0 < std)
    assert not np.any(std <= 0.0)
    assert 0.0 < np.min(std)
    assert not np.min(std) <= 0.0


def data_splitter__random_split_series__null(S: "series"):
    assert not S.isnull().any()
    assert S.notnull().all()
    assert not np.any(np.isnan(S))
    assert not np.any(pd.isnull(S))
    assert not np.any(pd.isnull(S.values))
    assert not pd.isnull(S).any()
    assert S.isnull().sum() == 0
    assert not S.isnull().sum() > 0


def data_splitter__ordered_split_series__null(S: "series"):
    assert not S.isnull().any()
    assert S.notnull().all()
    assert not np.any(np.isnan(S))
    assert not np.any(pd.isnull(S))
    assert not np.any(pd.isnull(S.values))
    assert not pd.isnull(S).any()
    assert S.isnull().sum() == 0
    assert not S.isnull().sum() > 0


def data_splitter__linear_split_series__null(S: "series"):
    assert not S.isnull().any()
    assert S.notnull().all()
    assert not np.any(np.isnan(S))
    assert not np.any(pd.isnull(S))
    assert not np.any(pd.isnull(S.values))
    assert not pd.isnull(S).any()
    assert S.isnull().sum() == 0
    assert not S.isnull().sum() > 0


def data_splitter__rand_subset__frac_low(frac: "float"):
    assert 0.0 <= frac
    assert not frac < 0.0


def data_splitter__rand_subset__frac_high(frac: "float"):
    assert frac <= 1.0
    assert not frac > 1.0


def data_splitter__ordered_split_series__frac_low(frac: "float"):
    assert 0.0 <= frac
    assert not frac < 0.0


def data_splitter__ordered_split_series__frac_high(frac: "float"):
    assert frac <= 1.0
    assert not frac > 1.0


def data_splitter__linear_split_series__frac_low(frac: "float"):
    assert 0.0 <= frac
    assert not frac < 0.0


def data_splitter__linear_split_series__frac_high(frac: "float"):
    assert frac <= 1.0
    assert not frac > 1.0


def data_splitter__linear_split_series__inf_max(S: "series", frac: "float", assume_sorted: "bool"):
    assert np.isfinite(np.max(S.values))
    assert not np.isinf(np.max(S.values))
    assert np.all(np.isfinite(S.values))
    assert not np.any(np.isinf(S.values))
    return [not assume_sorted, 0.0 < frac, frac < 1.0, not np.any(np.isnan(S.values)), not S.isnull().any(), np.isfinite(np.min(S.values)), np.min(S.values) <= np.maximum(np.min(S.values), np.minimum((1.0 - frac) * np.min(S.values) + frac * np.max(S.values), np.max(S.values))), np.maximum(np.min(S.values), np.minimum((1.0 - frac) * np.min(S.values) + frac * np.max(S.values), np.max(S.values))) <= np.max(S.values)]


def data_splitter__linear_split_series__inf_min(S: "series", frac: "float", assume_sorted: "bool"):
    assert np.isfinite(np.min(S.values))
    assert not np.isinf(np.min(S.values))
    assert np.all(np.isfinite(S.values))
    assert not np.any(np.isinf(S.values))
    return [not assume_sorted, 0.0 < frac, frac < 1.0, not np.any(np.isnan(S.values)), not S.isnull().any(), np.isfinite(np.max(S.values)), np.min(S.values) <= np.maximum(np.min(S.values), np.minimum((1.0 - frac) * np.min(S.values) + frac * np.max(S.values), np.max(S.values))), np.maximum(np.min(S.values), np.minimum((1.0 - frac) * np.min(S.values) + frac * np.max(S.values), np.max(S.values))) <= np.max(S.values)]


def sciprint__digit_str__nan(x_dec: "dec"):
    assert not np.isnan(x_dec)
    assert x_dec.is_finite()
    assert not x_dec.is_nan()


def sciprint__digit_str__inf(x_dec: "dec"):
    assert not np.isinf(x_dec)
    assert x_dec.is_finite()
    assert not x_dec.is_infinite()


def sciprint__print_estimate__clip(min_clip: "dec", max_clip: "dec"):
    assert min_clip < max_clip
    assert not min_clip >= max_clip


def sciprint__get_shift_range__empty(x_dec_list: "listdec"):
    assert len(x_dec_list) >= 1
    assert len(x_dec_list) > 0


def perf_curves___binary_clf_curve__weight_not_positive(sample_weight: "arr2", y_true: "arr1", y_score: "arr1"):
    assert sample_weight is None
    assert np.all(0 < sample_weight)
    assert not np.any(sample_weight <= 0)
    assert 0 < np.min(sample_weight)
    assert not np.min(sample_weight) <= 0
    order = np.argsort(y_score, kind="mergesort")[::-1]
    score, truth = y_score[order], y_true[order]
    last = np.r_[np.where(np.diff(score))[0], truth.size - 1]
    if sample_weight is None:
        tps = np.cumsum(truth)[last]
        fps = 1 + last - tps
        ok = [fps[-1] == np.sum(~truth), tps[-1] == np.sum(truth)]
        tps, fps = tps[None, :], fps[None, :]
    else:
        weight = sample_weight[:, order]
        tps = np.cumsum(truth[None, :] * weight, axis=1)[:, last]
        fps = np.cumsum(weight, axis=1)[:, last] - tps
        ok = [np.allclose(fps[:, -1], np.sum(weight[:, ~truth], axis=1)), np.allclose(tps[:, -1], np.sum(weight[:, truth], axis=1))]
    zero = np.zeros((fps.shape[0], 1), dtype=fps.dtype)
    fps, tps = np.c_[zero, fps], np.c_[zero, tps]
    ok = ok + [np.r_[np.inf, score[last]].size >= 2]
    fps, tps = pc._add_pseudo_points(fps, tps)
    ok = ok + [np.all(fps[:, -1] > 0), np.all(tps[:, -1] > 0), fps.dtype == tps.dtype]
    fps = np.maximum.accumulate(fps, axis=1)
    return ok + [np.all((np.diff(fps, axis=1) >= 0.0) & (np.diff(tps, axis=1) >= 0.0))]


def perf_curves___binary_clf_curve__weight_nan(sample_weight: "arr2", y_true: "arr1", y_score: "arr1"):
    assert sample_weight is None
    assert np.all(0 < sample_weight)
    assert 0 < np.min(sample_weight)
    assert not np.any(np.isnan(sample_weight))
    assert not np.isnan(np.sum(sample_weight))
    assert not np.isnan(np.mean(sample_weight))
    assert not np.isnan(np.min(sample_weight))
    assert not np.isnan(np.max(sample_weight))
    assert not np.sum(np.isnan(sample_weight)) > 0
    assert not np.sum(np.isnan(sample_weight)) >= 1
    assert np.sum(np.isnan(sample_weight)) == 0
    assert np.all(np.isfinite(sample_weight))
    assert np.all(np.isfinite(sample_weight) | np.isinf(sample_weight))


def perf_curves___binary_clf_curve__weight_inf(sample_weight: "arr2", y_true: "arr1", y_score: "arr1"):
    assert sample_weight is None
    assert not np.any(np.isinf(sample_weight))
    assert np.all(np.isfinite(sample_weight))
    assert np.all(np.abs(sample_weight) < np.inf)


def perf_curves___binary_clf_curve__nan(y_score: "arr1", y_true: "arr1", sample_weight: "arr2"):
    assert sample_weight is not None
    assert not np.any(np.isnan(y_score))
    assert not np.isnan(np.sum(y_score))
    assert not np.isnan(np.mean(y_score))
    assert not np.isnan(np.min(y_score))
    assert not np.isnan(np.max(y_score))
    assert not np.sum(np.isnan(y_score)) > 0
    assert not np.sum(np.isnan(y_score)) >= 1
    assert np.sum(np.isnan(y_score)) == 0
    assert np.all(np.isfinite(y_score))
    assert np.all(np.isfinite(y_score) | np.isinf(y_score))
    order = np.argsort(y_score, kind="mergesort")[::-1]
    score, truth = y_score[order], y_true[order]
    last = np.r_[np.where(np.diff(score))[0], truth.size - 1]
    if sample_weight is None:
        tps = np.cumsum(truth)[last]
        fps = 1 + last - tps
        ok = [fps[-1] == np.sum(~truth), tps[-1] == np.sum(truth)]
        tps, fps = tps[None, :], fps[None, :]
    else:
        weight = sample_weight[:, order]
        tps = np.cumsum(truth[None, :] * weight, axis=1)[:, last]
        fps = np.cumsum(weight, axis=1)[:, last] - tps
        ok = [np.allclose(fps[:, -1], np.sum(weight[:, ~truth], axis=1)), np.allclose(tps[:, -1], np.sum(weight[:, truth], axis=1))]
    zero = np.zeros((fps.shape[0], 1), dtype=fps.dtype)
    fps, tps = np.c_[zero, fps], np.c_[zero, tps]
    ok = ok + [np.r_[np.inf, score[last]].size >= 2]
    fps, tps = pc._add_pseudo_points(fps, tps)
    ok = ok + [np.all(fps[:, -1] > 0), np.all(tps[:, -1] > 0), fps.dtype == tps.dtype]
    fps = np.maximum.accumulate(fps, axis=1)
    return ok + [np.all((np.diff(fps, axis=1) >= 0.0) & (np.diff(tps, axis=1) >= 0.0))]


def perf_curves___binary_clf_curve__inf(y_score: "arr1", y_true: "arr1", sample_weight: "arr2"):
    assert sample_weight is not None
    assert not np.any(np.isinf(y_score))
    assert np.all(np.isfinite(y_score))
    assert np.all(np.abs(y_score) < np.inf)
    order = np.argsort(y_score, kind="mergesort")[::-1]
    score, truth = y_score[order], y_true[order]
    last = np.r_[np.where(np.diff(score))[0], truth.size - 1]
    if sample_weight is None:
        tps = np.cumsum(truth)[last]
        fps = 1 + last - tps
        ok = [fps[-1] == np.sum(~truth), tps[-1] == np.sum(truth)]
        tps, fps = tps[None, :], fps[None, :]
    else:
        weight = sample_weight[:, order]
        tps = np.cumsum(truth[None, :] * weight, axis=1)[:, last]
        fps = np.cumsum(weight, axis=1)[:, last] - tps
        ok = [np.allclose(fps[:, -1], np.sum(weight[:, ~truth], axis=1)), np.allclose(tps[:, -1], np.sum(weight[:, truth], axis=1))]
    zero = np.zeros((fps.shape[0], 1), dtype=fps.dtype)
    fps, tps = np.c_[zero, fps], np.c_[zero, tps]
    ok = ok + [np.r_[np.inf, score[last]].size >= 2]
    fps, tps = pc._add_pseudo_points(fps, tps)
    ok = ok + [np.all(fps[:, -1] > 0), np.all(tps[:, -1] > 0), fps.dtype == tps.dtype]
    fps = np.maximum.accumulate(fps, axis=1)
    return ok + [np.all((np.diff(fps, axis=1) >= 0.0) & (np.diff(tps, axis=1) >= 0.0))]


def util__area__kind(kind: "str"):
    assert kind == "previous" or kind == "linear"


def util___interp1d__kind(kind: "str"):
    assert kind != "next"


def mlpaper__get_mean_and_EB__method(method: "str"):
    assert method in ("t", "bernstein", "boot")


def mlpaper__get_mean_EB_test__method(method: "str"):
    assert method in ("t", "bernstein", "boot")


def mlpaper__get_test__method(method: "str"):
    assert method in ("t", "bernstein", "boot")


def util__eval_step_func__left(x_grid: "arr1", xp: "arr1", yp: "arr1", ival: "", assume_sorted: "bool", skip_unique_chk: "bool"):
    assert ival is not None
    assert not assume_sorted
    assert len(x_grid) == 0
    assert np.all(xp[0] <= x_grid)
    assert xp[0] <= np.min(x_grid)
    assert not np.any(x_grid < xp[0])
    assert not np.min(x_grid) < xp[0]


def util__eval_step_func__repeated(xp: "arr1", x_grid: "arr1", yp: "arr1", ival: "", assume_sorted: "bool", skip_unique_chk: "bool"):
    assert skip_unique_chk
    assert not assume_sorted
    assert np.all(np.diff(xp) > 0.0)
    assert not np.any(np.diff(xp) <= 0.0)
    assert np.all(xp[1:] > xp[:-1])
    assert np.min(np.diff(xp)) > 0.0


def util__unique_take_last__unsorted(xp: "arr1"):
    assert np.all(np.diff(xp) >= 0)
    assert not np.any(np.diff(xp) < 0)
    assert np.all(xp[1:] >= xp[:-1])
    assert np.min(np.diff(xp)) >= 0.0


def util___interp1d__unsorted(xp: "arr1", kind: "str"):
    assert np.all(np.diff(xp) >= 0)
    assert not np.any(np.diff(xp) < 0)
    assert np.all(xp[1:] >= xp[:-1])
    assert np.min(np.diff(xp)) >= 0.0
    return [kind == "linear"]


def classification__hard_loss__count(y: "lab1", log_pred_prob: "arr2"):
    assert y.shape == (log_pred_prob.shape[0],)
    assert len(y) == len(log_pred_prob)


def classification__log_loss__count(y: "lab1", log_pred_prob: "arr2"):
    assert y.shape == (log_pred_prob.shape[0],)
    assert len(y) == len(log_pred_prob)


def classification__brier_loss__count(y: "lab1", log_pred_prob: "arr2"):
    assert y.shape == (log_pred_prob.shape[0],)
    assert len(y) == len(log_pred_prob)


def classification__spherical_loss__count(y: "lab1", log_pred_prob: "arr2"):
    assert y.shape == (log_pred_prob.shape[0],)
    assert len(y) == len(log_pred_prob)


def classification__curve_boot__count(y: "lab1", log_pred_prob: "arr2"):
    assert y.shape == (log_pred_prob.shape[0],)
    assert len(y) == len(log_pred_prob)


def classification__hard_loss__loss_rows(loss_mat: "arr2", log_pred_prob: "arr2"):
    assert loss_mat is None
    assert loss_mat.shape[0] == log_pred_prob.shape[1]
    assert len(loss_mat) == log_pred_prob.shape[1]


def classification__curve_boot__binary(log_pred_prob: "arr2"):
    assert log_pred_prob.shape[1] == 2


def regression__square_loss__mu_count(mu: "arr1", y: "arr1"):
    assert mu.shape == y.shape
    assert len(mu) == len(y)


def regression__square_loss__std_count(std: "arr1", y: "arr1"):
    assert std.shape == y.shape
    assert len(std) == len(y)


def regression__abs_loss__mu_count(mu: "arr1", y: "arr1"):
    assert mu.shape == y.shape
    assert len(mu) == len(y)


def regression__abs_loss__std_count(std: "arr1", y: "arr1"):
    assert std.shape == y.shape
    assert len(std) == len(y)


def regression__log_loss__mu_count(mu: "arr1", y: "arr1"):
    assert mu.shape == y.shape
    assert len(mu) == len(y)


def regression__log_loss__std_count(std: "arr1", y: "arr1"):
    assert std.shape == y.shape
    assert len(std) == len(y)


def util__area__shapes(x_curve: "arr2", y_curve: "arr2"):
    assert x_curve.shape == y_curve.shape
    assert y_curve.shape == x_curve.shape


def sciprint__create_decimal__digits(digits: "int"):
    assert digits >= 1
    assert digits > 0


def sciprint__get_shift_range__step(shift_mod: "int"):
    assert shift_mod >= 1
    assert shift_mod > 0


def sciprint__find_shift__step(shift_mod: "int", mean_list: "listdec"):
    assert shift_mod >= 1
    assert shift_mod > 0
    assert len(mean_list) == 0


def data_splitter__split_df__empty(df: "df"):
    assert len(df) > 0
    assert len(df) >= 1


def data_splitter__split_df__no_splits(splits: "dict"):
    assert len(splits) > 0
    assert len(splits) >= 1


def boot_util__boot_weights__points(N: "int"):
    assert N >= 1
    assert N > 0


def boot_util__boot_weights__replicates(n_boot: "int"):
    assert n_boot >= 1
    assert n_boot > 0
