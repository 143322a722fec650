"""Specification of mlpaper.sciprint.  Parsed by the analyser, never executed."""
import decimal

import numpy as np
import pandas as pd

from mlpaper.util import remove_chars
from mlpaper.sciprint import create_decimal as _cd, decimal_1ek as _1ek, print_estimate as _pe, print_pval as _pp
from mlpaper.sciprint import find_shift as _fs, pad_num_str as _pad, get_shift_range as _gsr, adjust_headers as _ah
from mlpaper.sciprint import decimalize as _dec, format_table as _ft, table_to_latex as _tl, table_to_string as _ts
from mlpaper.sciprint import digit_str as _ds, decimal_eps as _eps, str_print_len as _spl, find_last_dig as _fld, decimal_from_tuple as _dft
from mlpaper.sciprint import floor_mod as _fm, ceil_mod as _cm

D_INF = decimal.Decimal("Infinity")
D_NINF = decimal.Decimal("-Infinity")

PREFIX = {-24: "y", -21: "z", -18: "a", -15: "f", -12: "p", -9: "n", -6: "u", -3: "m", -2: "c", -1: "d", 0: "", 3: "k", 6: "M", 9: "G", 12: "T", 15: "P", 18: "E", 21: "Z", 24: "Y"}
PREFIX_TEX = {-24: "y", -21: "z", -18: "a", -15: "f", -12: "p", -9: "n", -6: "$\\mu$", -3: "m", -2: "c", -1: "d", 0: "", 3: "k", 6: "M", 9: "G", 12: "T", 15: "P", 18: "E", 21: "Z", 24: "Y"}


def all_same(L: "list") -> "bool":
    return len(L) == 0 or all(x == L[0] for x in L)


def floor_mod(x: "int", mod: "int") -> "int":
    return (x // mod) * mod


def ceil_mod(x: "int", mod: "int") -> "int":
    return -((-x // mod) * mod)


def str_print_len(x_str: "str") -> "int":
    return len(remove_chars(x_str, ",."))


def decimal_all_finite(x_dec_list: "listdec") -> "bool":
    return all(x.is_finite() for x in x_dec_list)


def decimal_from_tuple(signed: "bool", digits: "list", expo: "") -> "dec":
    e = expo if expo in ("F", "n", "N") else int(expo)
    return decimal.Decimal(decimal.DecimalTuple(int(signed), tuple(int(d) for d in digits), e))


def decimal_1ek(k: "", signed: "bool" = False) -> "dec":
    return _dft(signed, (1,), k)


def decimal_eps(x_dec: "dec") -> "dec":
    return _1ek(x_dec.as_tuple().exponent)


def decimal_to_dot(x_dec: "dec") -> "bool":
    return x_dec.is_finite() and x_dec.as_tuple().exponent <= 0


def create_decimal(x: "float", digits: "int", rounding: "str" = decimal.ROUND_HALF_UP) -> "dec":
    assert digits >= 1
    with decimal.localcontext() as ctx:
        ctx.prec = digits
        ctx.rounding = rounding
        return +decimal.Decimal(x)


def digit_str(x_dec: "dec") -> "str":
    assert x_dec.is_finite()
    return "".join(str(d) for d in x_dec.as_tuple().digits)


def decimalize(perf_tbl: "df", err_digits: "int" = 2, pval_digits: "int" = 4, default_digits: "int" = 5, EB_limit: "dict" = {}):
    assert pval_digits >= 1
    out = pd.DataFrame(index=perf_tbl.index, columns=perf_tbl.columns, dtype=object)
    for metric in perf_tbl.columns.levels[0]:
        limit = _1ek(EB_limit.get(metric, "F"), signed=False)
        for method in perf_tbl.index:
            # error bars and p-values are only ever rounded up
            EB = _cd(perf_tbl.loc[method, (metric, "error")], err_digits, decimal.ROUND_CEILING)
            EB = EB if EB.is_nan() or EB <= limit else D_INF
            mean = perf_tbl.loc[method, (metric, "mean")]
            if EB.is_finite() and not EB.is_zero():
                mu = decimal.Decimal(mean).quantize(EB, rounding=decimal.ROUND_HALF_UP)
            else:
                mu = _cd(mean, default_digits, decimal.ROUND_HALF_UP)
            p = decimal.Decimal(perf_tbl.loc[method, (metric, "p")]).quantize(_1ek(-pval_digits), rounding=decimal.ROUND_CEILING)
            out.loc[method, (metric, "mean")] = mu
            out.loc[method, (metric, "error")] = EB
            out.loc[method, (metric, "p")] = p
    return out


def print_estimate(mu: "dec", EB: "dec", shift: "int" = 0, min_clip: "dec" = D_NINF, max_clip: "dec" = D_INF, below_fmt: "str" = "<{0:,f}", above_fmt: "str" = ">{0:,f}", non_finite_fmt: "dict" = {}) -> "str":
    assert min_clip < max_clip
    if mu.is_nan():
        return non_finite_fmt.get("nan", "nan")
    if mu > max_clip:
        return above_fmt.format(max_clip.scaleb(shift))
    if mu < min_clip:
        return below_fmt.format(min_clip.scaleb(shift))
    if not mu.is_finite():
        return non_finite_fmt.get(str(float(mu)), str(float(mu)))
    shifted = mu.scaleb(shift)
    if not (shifted.is_finite() and shifted.as_tuple().exponent <= 0):
        raise ValueError
    if EB.is_finite():
        return "{0:,f}".format(shifted) + "(" + _ds(EB) + ")"
    return "{0:,f}".format(shifted)


def print_pval(pval: "dec", below_fmt: "str" = "<{0:,f}", non_finite_fmt: "dict" = {}) -> "str":
    eps = _eps(pval)
    if pval.is_nan():
        return non_finite_fmt.get("nan", "nan")
    assert 0 <= pval and pval <= 1
    if pval <= eps:
        return below_fmt.format(eps)
    return "{0:,f}".format(pval)


def get_shift_range(x_dec_list: "listdec", shift_mod: "int" = 1):
    assert len(x_dec_list) >= 1
    assert shift_mod >= 1
    assert all(x.is_finite() for x in x_dec_list)
    hi = _fm(min(-mu.as_tuple().exponent for mu in x_dec_list), shift_mod)
    lo = _cm(min(-mu.adjusted() for mu in x_dec_list), shift_mod)
    return (hi if lo > hi else lo), hi, lo > hi


def find_shift(mean_list: "listdec", err_list: "listdec", shift_mod: "int" = 1):
    assert len(mean_list) == len(err_list)
    assert all(x.is_finite() for x in mean_list)
    assert shift_mod >= 1
    if len(mean_list) == 0:
        return 0
    lo, hi, _ = _gsr(mean_list, shift_mod)
    L = np.array(range(lo, hi + 1))
    # smallest magnitude first, so it wins ties
    L = L[np.argsort(np.abs(L))]
    best, best_len = None, np.inf
    for shift in L:
        if shift % shift_mod == 0:
            width = max(_spl(_pe(mu, EB, shift)) for mu, EB in zip(mean_list, err_list))
            if width < best_len:
                best, best_len = shift, width
    return best


def find_last_dig(num_str: "str") -> "int":
    assert len(num_str) >= 1
    pos = num_str.find(".")
    assert pos != 0
    if pos < 0:
        pos = num_str.find("(")
        assert pos != 0
    if pos < 0:
        pos = len(num_str)
    return pos - 1


def pad_num_str(num_str_list: "liststr", pad: "str" = " ") -> "liststr":
    tail = max(len(s) - _fld(s) for s in num_str_list)
    return [s + pad * (tail - (len(s) - _fld(s))) for s in num_str_list]


def format_table(perf_tbl_dec: "df", shift_mod: "int?" = None, pad: "bool" = True, crap_limit_max: "dict" = {}, crap_limit_min: "dict" = {}, non_finite_fmt: "dict" = {}):
    assert len(perf_tbl_dec) >= 1
    metrics = perf_tbl_dec.columns.levels[0]
    cols = pd.MultiIndex.from_product([metrics, ("estimate", "p")], names=["metric", "stat"])
    out = pd.DataFrame(index=perf_tbl_dec.index, columns=cols, dtype=object)
    shifts = {}
    for metric in metrics:
        mean = perf_tbl_dec[(metric, "mean")]
        err = perf_tbl_dec[(metric, "error")]
        lo = _1ek(crap_limit_min.get(metric, "F"), signed=True)
        hi = _1ek(crap_limit_max.get(metric, "F"), signed=False)
        shown = (lo <= mean) & (mean <= hi)
        if shift_mod is None:
            shift = 0
        else:
            shift = _fs(mean[shown].tolist(), err[shown].tolist(), shift_mod=shift_mod)
        shifts[metric] = shift
        for method in perf_tbl_dec.index:
            out.loc[method, (metric, "estimate")] = _pe(mean[method], err[method], shift, lo, hi, non_finite_fmt=non_finite_fmt)
            out.loc[method, (metric, "p")] = _pp(perf_tbl_dec.loc[method, (metric, "p")], non_finite_fmt=non_finite_fmt)
        if pad:
            out.loc[:, (metric, "estimate")] = _pad(out[(metric, "estimate")])
    return out, shifts


def header(metric, stat, shift, unit, use_prefix, use_tex):
    name = metric.replace("_", " ")
    prefix = (PREFIX_TEX if use_tex else PREFIX).get(-shift, None)
    if stat == "p":
        return "p"
    if unit is None:
        if shift == 0:
            return name
        return "%s $\\times 10^{%d}$" % (name, shift) if use_tex else "%s x 1e%d" % (name, shift)
    if use_prefix and prefix is not None:
        return "%s (%s%s)" % (name, prefix, unit)
    if shift == 0:
        return "%s (%s)" % (name, unit)
    return "%s $\\times 10^{%d}$ (%s)" % (name, shift, unit) if use_tex else "%s x 1e%d (%s)" % (name, shift, unit)


def adjust_headers(headers: "list", shifts: "dict", unit_dict: "dict", use_prefix: "bool" = True, use_tex: "bool" = False) -> "liststr":
    out = []
    for metric, stat in headers:
        h = header(metric, stat, shifts[metric], unit_dict.get(metric, None), use_prefix, use_tex)
        out.append("{%s}" % h if use_tex else h)
    return out


def table_to_latex(perf_tbl_str: "df", shifts: "dict", unit_dict: "dict", use_prefix: "bool" = True) -> "str":
    head = _ah(perf_tbl_str.columns, shifts, unit_dict, use_prefix=use_prefix, use_tex=True)
    tbl = pd.DataFrame(data=perf_tbl_str.values, columns=head, index=perf_tbl_str.index.values, dtype=str)
    align = "|l" + "|Sr" * (len(perf_tbl_str.columns) // 2) + "|"
    return tbl.to_latex(escape=False, column_format=align, index_names=False)


def table_to_string(perf_tbl_str: "df", shifts: "dict", unit_dict: "dict", use_prefix: "bool" = True) -> "str":
    head = _ah(perf_tbl_str.columns, shifts, unit_dict, use_prefix=use_prefix, use_tex=False)
    tbl = pd.DataFrame(data=perf_tbl_str.values, columns=head, index=perf_tbl_str.index.values, dtype=str)
    return tbl.to_string(index=True, index_names=False)


def just_format_it(perf_tbl_fp: "df", unit_dict: "dict" = {}, shift_mod: "int?" = None, crap_limit_max: "dict" = {}, crap_limit_min: "dict" = {}, EB_limit: "dict" = {}, non_finite_fmt: "dict" = {}, use_tex: "bool" = False, use_prefix: "bool" = True) -> "str":
    dec = _dec(perf_tbl_fp, EB_limit=EB_limit)
    txt, shifts = _ft(dec, shift_mod=shift_mod, crap_limit_max=crap_limit_max, crap_limit_min=crap_limit_min, non_finite_fmt=non_finite_fmt)
    if use_tex:
        return _tl(txt, shifts, unit_dict, use_prefix=use_prefix)
    return _ts(txt, shifts, unit_dict, use_prefix=use_prefix)
