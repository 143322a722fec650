"""Specification of mlpaper.data_splitter.  Parsed by the analyser, never executed."""
import numpy as np
import pandas as pd

from mlpaper.data_splitter import rand_mask as _rm, rand_subset as _rs
from mlpaper.data_splitter import random_split_series as _rss, ordered_split_series as _oss, linear_split_series as _lss


def build_lag_df(df: "df", n_lags: "int", stride: "int" = 1, features: "" = None):
    sub = df if features is None else df[list(features)]
    D = {"L%d" % nn: sub.shift(stride * nn) for nn in range(1, n_lags)}
    D["L0"] = df
    out = pd.concat(D, axis=1, names=["lag"])
    return out.reorder_levels(list(range(1, len(out.columns.names))) + [0], axis=1)


def index_to_series(index: ""):
    return pd.Series(index=index, data=index)


def rand_subset(x: "list", frac: "float"):
    assert 0.0 <= frac and frac <= 1.0
    return np.random.choice(x, int(np.ceil(frac * len(x))), replace=False)


def rand_mask(n_samples: "int", frac: "float"):
    mask = np.zeros(n_samples, dtype=bool)
    mask[_rs(range(n_samples), frac)] = True
    return mask


def random_split_series(S: "series", frac: "float", assume_sorted: "bool" = False, assume_unique: "bool" = False):
    assert not S.isnull().any()
    if assume_unique:
        return pd.Series(index=S.index, data=_rm(len(S), frac))
    return S.isin(_rs(S.unique(), frac))


def ordered_split_series(S: "series", frac: "float", assume_sorted: "bool" = False, assume_unique: "bool" = False):
    assert not S.isnull().any()
    assert 0.0 <= frac and frac <= 1.0
    if assume_sorted and assume_unique:
        cases = S.values
    elif assume_unique:
        cases = np.sort(S.values)
    else:
        cases = np.unique(S.values)
    k = max(int(np.ceil(frac * len(cases))), 1)
    return S <= cases[k - 1]


def linear_split_series(S: "series", frac: "float", assume_sorted: "bool" = False, assume_unique: "bool" = False):
    assert not S.isnull().any()
    assert 0.0 <= frac and frac <= 1.0
    lo = S.values[0] if assume_sorted else np.min(S.values)
    hi = S.values[-1] if assume_sorted else np.max(S.values)
    assert lo <= hi
    cut = (1.0 - frac) * lo + frac * hi
    return S <= np.maximum(lo, np.minimum(cut, hi))


def split_df(df: "df", splits: "dict" = {None: ("random", 0.8)}, assume_unique: "" = (), assume_sorted: "" = ()):
    assert len(splits) >= 1 and len(df) >= 1
    assert None not in df
    train = pd.Series(index=df.index, data=True)
    test = pd.Series(index=df.index, data=True)
    lib = {"random": _rss, "ordered": _oss, "linear": _lss}
    for feature, how in splits.items():
        kind, frac = how
        f = lib[kind]
        S = pd.Series(index=df.index, data=df.index) if feature is None else df[feature]
        cur = f(S, frac, assume_sorted=feature in assume_sorted, assume_unique=feature in assume_unique)
        train &= cur
        test &= ~cur
    return df[train], df[test], df[~(train | test)]
