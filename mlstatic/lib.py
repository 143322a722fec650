"""Models of the library vocabulary the repository uses (numpy, pandas, scipy,
decimal, builtins): call signatures, defaults and identities.

A library call is normalised to a canonical term, so that positional/keyword
spelling, method/function spelling and the listed identities do not matter.
A call that is not modelled becomes an `ulib` term: its meaning is unknown and
any comparison that depends on it is inconclusive, never a violation.
"""
from fractions import Fraction

from .terms import *  # noqa
from .terms import _height, _sgninf, _intle
from . import terms as T

FULL = raw("slice", NONE, NONE, NONE)

# --------------------------------------------------------------------------
# Containers
# --------------------------------------------------------------------------


def tup(*xs):
    return raw("tuple", *xs)


def lst(*xs):
    return raw("list", *xs)


def distinct(a, b):
    """Keys that can never be equal."""
    if a is b:
        return False
    if a.op in ("num", "str", "bool", "none") and b.op in ("num", "str", "bool", "none"):
        return eq(a, b) is FALSE
    if a.op == b.op == "tuple" and len(a.args) == len(b.args):
        return any(distinct(x, y) for x, y in zip(a.args, b.args))
    if a.op == b.op == "lockey" and a.args[0] == b.args[0]:
        return distinct(a.args[1], b.args[1])
    return False


def _dget(d, k):
    """Lookup in a dict literal; returns (value or None, definitely absent?)."""
    for kk, v in reversed(d.args):
        if kk is k:
            return v, False
    return None, all(distinct(kk, k) for kk, _ in d.args)


@cons("dict")
def _dict(*items):
    out = {}
    for k, v in items:
        out[k] = v
    return raw("dict", *sorted(out.items(), key=lambda kv: kv[0].id))


@cons("dictget")
def dictget(d, k, default):
    if d.op == "dict":
        v, absent = _dget(d, k)
        if v is not None:
            return v
        if absent:
            return default
        if len(d.args) <= 6 or any(_callable(v) for _, v in d.args):
            out = default
            for kk, v in d.args:
                out = ite(eq(k, kk), v, out)
            return out
        if default is BOTTOM and all(v.op in ("num", "str") for _, v in d.args):
            default = NONE  # a missing key raises: no value to compare
    if d.op == "store":
        b, kk, v = d.args
        if kk is k:
            return v
        if distinct(kk, k):
            return dictget(b, k, default)
    if d.op == "ite":
        return ite(d.args[0], dictget(d.args[1], k, default), dictget(d.args[2], k, default))
    return raw("dictget", d, k, default)


def _callable(v):
    return v.op in ("func", "cls", "libv", "bm", "partial", "vec", "cached")


@cons("in")
def in_(k, c):
    if c.op in ("tuple", "list", "set"):
        return or_(*[eq(k, x) for x in c.args])
    if c.op == "dict":
        if len(c.args) <= 24:
            v, absent = _dget(c, k)
            if v is not None:
                return TRUE
            if absent:
                return FALSE
            if len(c.args) <= 6 and all(is_const(x) for x, _ in c.args):
                return or_(*[eq(k, x) for x, _ in c.args])
            if all(is_const(x) and v.op in ("num", "str") for x, v in c.args):
                return not_(T.is_(dictget(c, k, NONE), NONE))
    if c.op == "dkeys":
        return in_(k, c.args[0])
    if c.op == "str" and k.op == "str":
        return boolean(k.args[0] in c.args[0])
    if c.op == "str" and k.op == "attr" and k.args[1] == "kind":
        return or_(*[eq(k, string(x)) for x in dict.fromkeys(c.args[0])])  # one character
    if k.op == "str" and len(k.args[0]) == 1 and not k.args[0].isalnum() and c.op not in ("dict", "store", "dkeys"):
        return le(num(0), raw("meth", c, "find", (("sub", k),)))
    return raw("in", k, c)


def strip_idx(idx):
    if idx.op == "tuple":
        a = list(idx.args)
        while len(a) > 1 and a[-1] is FULL:
            a.pop()
        if len(a) == 1:
            return a[0]
        return tup(*a)
    return idx


@cons("slice")
def _slice(a, b, c):
    if c is num(1):
        c = NONE
    if a is num(0) and (c is NONE):
        a = NONE
    return raw("slice", a, b, c)


def canon_index(b, i):
    """Spell an index one way: slices relative to the end, single-element
    selections that keep the axis, reversed ranges."""
    parts = list(i.args) if i.op == "tuple" else [i]
    out, ax, keepax = [], 0, None
    for x in parts:
        if x is NONE:
            out.append(x)
            continue
        if x.op == "slice":
            lo, hi, st = x.args
            d = mk("dim", b, ax)
            if st is NONE:
                lo2, hi2 = _from_end(lo, d), _from_end(hi, d)
                if hi is d:
                    hi2 = NONE
                x = mk("slice", lo2, hi2, st)
                lo, hi, _ = x.args
        elif x.op == "getitem" and x.args[0].op == "range" and x.args[1].op == "slice":
            r = x.args[0]
            if r.args[0] is num(0) and r.args[2] is num(1) and r.args[1] is mk("dim", b, ax):
                x = x.args[1]
        elif x.op == "range" and x.args[0] is num(0) and x.args[2] is num(1) and len(parts) == 1:
            x = mk("slice", NONE, NONE if x.args[1] is mk("dim", b, ax) else x.args[1], NONE)
        out.append(x)
        ax += 1
    return raw("tuple", *out) if i.op == "tuple" else out[0]


def _from_end(x, d):
    """dim - c, written -c."""
    if x is NONE or x.op == "num" or not contains(x, lambda u: u is d):
        return x
    k = T.sub(x, d)
    return k if k.op == "num" and k.args[0] < 0 else x


REDUCERS = ("sum", "mean", "amin", "amax", "std", "nansum", "any", "prod", "median")


def by_pos(x, i):
    """Column i of a table, counted from the left."""
    k = intval(i)
    if x.op == "getitem" and x.args[1].op == "list" and 0 <= k < len(x.args[1].args):
        return mk("getitem", x.args[0], x.args[1].args[k])
    return raw("bypos", x, i)


@cons("getitem")
def getitem(b, i):
    if i.op == "tuple" and not i.args and b.op not in ("tuple", "list", "dict", "param", "str"):
        return b  # a zero-dimensional array as a scalar
    if b.op in ("tuple", "list"):
        n = intval(i)
        if n is not None and i.op == "num":
            if -len(b.args) <= n < len(b.args):
                return b.args[n]
            return BOTTOM
        if i.op == "slice":
            a, e, s = [None if x is NONE else intval(x) for x in i.args]
            if all(x is NONE or intval(x) is not None for x in i.args):
                return raw(b.op, *b.args[slice(a, e, s)])
        if b.op == "tuple" and i.op in ("lt", "le", "eq", "not", "and", "or", "intle", "inteq") and len(b.args) == 2:
            return ite(i, b.args[1], b.args[0])
        if ty(i) == "bool" and len(b.args) == 2:
            return ite(i, b.args[1], b.args[0])
    if b.op == "attr" and b.args[1] == "T" and b.args[0].op == "attr" and b.args[0].args[1] == "values" and i.op == "num" and (intval(i) or 0) >= 0:
        # a row of the transposed values: a column, by its position
        return mk("attr", by_pos(b.args[0].args[0], i), "values")
    if b.op == "attr" and b.args[1] == "values" and i.op == "tuple" and len(i.args) == 2 and i.args[0] is raw("slice", NONE, NONE, NONE) and i.args[1].op == "num" and ty(b.args[0]) == "frame":
        return mk("attr", by_pos(b.args[0], i.args[1]), "values")
    if b.op == "attr" and b.args[1] == "shape" and i.op == "slice" and i.args[0] in (NONE, num(0)) and i.args[2] is NONE and (intval(i.args[1]) or 0) > 0:
        return tup(*[mk("dim", b.args[0], j) for j in range(intval(i.args[1]))])
    if b.op == "meth" and b.args[1] == "as_tuple" and intval(i) in (0, 1, 2):
        return mk("attr", b, ("sign", "digits", "exponent")[intval(i)])
    if i.op == "list" and i.args and all(x.op == "num" for x in i.args) and ndim_of(b) == 1 and len(i.args) <= 4 and b.op not in ("list", "tuple"):
        return lst(*[getitem(b, x) for x in i.args])
    if b.op == "range" and i.op == "slice" and b.args[0] is Z and b.args[2] is num(1) and i.args[2] is NONE:
        lo, hi = i.args[:2]
        if hi is NONE and intval(lo) is not None and intval(lo) >= 0:
            return raw("range", lo, b.args[1], num(1))
        if lo is NONE and hi is num(1) and b.args[1].op == "dim" and b.args[1].args[0].op == "attr" and b.args[1].args[0].args[1] == "names":
            return lst(Z)  # an index has at least one level
    if i.op == "nonzero" and i.args[0].op in ("lt", "le", "not", "and", "or", "eq") and ndim_of(b) == 1:
        return getitem(b, i.args[0])
    if i.op == "concat" and i.args[0] is Z and len(i.args[1]) == 2 and i.args[1][0].op == "nonzero" and ndim_of(b) == 1:
        m = i.args[1][0].args[0]
        if m.op in ("lt", "le", "not", "and", "or", "eq") and i.args[1][1] is lst(mk("dim", m, 0)):
            return getitem(b, mk("concat", Z, (m, lst(TRUE))))
    if b.op == "dict":
        return dictget(b, i, BOTTOM)
    if b.op == "ite":
        return ite(b.args[0], getitem(b.args[1], i), getitem(b.args[2], i))
    if i.op == "ite" and ty(i) not in ("bool", "str") and (is_const(i.args[1]) or is_const(i.args[2])):
        return ite(i.args[0], getitem(b, i.args[1]), getitem(b, i.args[2]))
    if b.op == "bottom" or b is NONE:
        return BOTTOM
    if b.op == "attr" and b.args[1] == "shape":
        n = intval(i)
        if n is not None:
            return mk("dim", b.args[0], n)
    if b.op == "map" and i.op not in ("slice", "tuple") and ty(i) != "bool":
        it, var, body = b.args
        n = intval(i)
        if it.op == "irange" and it.args[2] is num(1):
            if n is None or n >= 0:
                return subst(body, {var: add(it.args[0], i)})
            return subst(body, {var: add(it.args[1], i)})
    if b.op == "mdict":
        it, var, kb, vb = b.args
        if kb is var:
            return subst(vb, {var: i})
        if kb.op == "getitem" and kb.args[1] is var and i.op == "getitem" and i.args[0] is kb.args[0] and kb.args[0].op == "getitem" and kb.args[0].args[0].op == "attr" and kb.args[0].args[0].args[1] == "levels":
            return subst(vb, {var: i.args[1]})  # the entries of a level are distinct
    if b.op == "idxname" and i.op != "slice":
        return getitem(b.args[0], i)
    if b.op == "range" and i is not NONE and i.op not in ("slice", "tuple", "list") and ty(i) != "bool" and (intval(i) is None or intval(i) >= 0):
        return add(b.args[0], mul(b.args[2], i))
    if b.op == "zip":
        return tup(*[getitem(x, i) for x in b.args])
    if b.op == "list" and i.op == "elem":
        pass
    if b.op == "store":
        bb, k, v = b.args
        if k is i:
            return v
        if distinct(k, i):
            return getitem(bb, i)
        if k.op == "lockey":
            r = _read_table(b, i)
            if r is not None:
                return r
    if b.op == "attr" and b.args[1] in ("loc", "at") and i.op == "tuple" and len(i.args) == 2:
        r, c = i.args
        df = b.args[0]
        if r is FULL:
            return getitem(df, c)
        rd = _read_cell(df, r, c)
        if rd is not None:
            return rd
        if r.op != "slice" and ty(r) != "bool" and (c.op == "tuple" or c.op == "str"):
            return getitem(getitem(df, c), r)
    if b.op == "getitem" and b.args[0].op == "attr" and b.args[0].args[1] == "loc" and is_pandas(b.args[0].args[0]):
        # df.loc[row][col] == df.loc[row, col]
        r = b.args[1]
        if r.op not in ("slice", "tuple", "list") and ty(r) != "bool" and (i.op == "str" or i.op == "tuple" and all(x.op not in ("slice", "list") for x in i.args)):
            return getitem(b.args[0], tup(r, i))
        if r.op == "tuple" and len(r.args) == 2 and r.args[0].op not in ("slice", "list") and r.args[1].op not in ("slice", "list", "tuple") and i.op == "str":
            return getitem(b.args[0], tup(r.args[0], tup(r.args[1], i)))
    if i.op == "tuple":
        i = strip_idx(i)
        if i.op == "tuple" and len(i.args) == 2 and i.args[0] is FULL and i.args[1] is NONE:
            return mk("kd", b, 1)
        if i is FULL and ty(b) not in ("list",):
            return b
        # df[(a, b)] == df[a][b]
        if b.op == "param" and b.args[1] == "df" and len(i.args) == 2 and all(x.op != "slice" for x in i.args):
            return getitem(getitem(b, i.args[0]), i.args[1])
    if i is FULL:
        return b
    if i.op in ("slice", "tuple", "range", "getitem"):
        j = canon_index(b, i)
        if j is not i:
            return getitem(b, j)
    if i.op == "tuple" and len(i.args) == 2 and i.args[0] is FULL and (ndim_of(b) == 2 or b.op in ("pcall", "getitem", "poly") and ndim_of(b) is None):
        x = i.args[1]
        if x.op in ("list", "tuple") and len(x.args) == 1 and intval(x.args[0]) is not None:
            return mk("kd", getitem(b, tup(FULL, x.args[0])), 1)
        if x.op == "slice" and x.args == (num(-1), NONE, NONE):
            return mk("kd", getitem(b, tup(FULL, num(-1))), 1)
        if x.op == "slice" and x.args == (NONE, num(1), NONE):
            return mk("kd", getitem(b, tup(FULL, num(0))), 1)
        if x.op == "slice" and x.args[2] is NONE and (intval(x.args[0]) or 0) > 0 and intval(x.args[1]) == intval(x.args[0]) + 1:
            return mk("kd", getitem(b, tup(FULL, x.args[0])), 1)
    if b.op == "lib" and b.args[0] == "numpy.eye" and ndim_of(i) == 1 and ty(i) != "bool" and i.op not in ("list", "tuple", "slice"):
        kw = dict(b.args[1])
        if set(kw) <= {"N", "dtype"} and kw.get("dtype") is string("bool"):
            return T.eq(mk("kd", i, 1), raw("range", Z, kw["N"], num(1)))
    if b.op == "kd" and b.args[1] == 1 and i.op == "tuple" and i.args == (FULL, num(0)):
        return b.args[0]
    return raw("getitem", b, i)


def _read_table(b, key):
    """tbl[colkey] where rows were stored cell by cell over the whole index."""
    if b.op != "store":
        return None
    bb, k, v = b.args
    if k.op == "lockey" and k.args[1].op == "tuple" and len(k.args[1].args) == 2:
        r, c = k.args[1].args
        if c is key:
            if r is FULL:
                return v
            es = [u for u in subterms(r) if u.op == "elem"]
            if len(es) == 1:
                e = es[0]
                return mk("map", e.args[0], e, v)
            return None
        if distinct(c, key):
            return _read_table(bb, key)
    return None


def _read_cell(b, r, c):
    if b.op != "store":
        return None
    bb, k, v = b.args
    if k.op == "lockey" and k.args[1].op == "tuple" and len(k.args[1].args) == 2:
        r2, c2 = k.args[1].args
        if r2 is r and c2 is c:
            return v
        if distinct(r2, r) or distinct(c2, c):
            return _read_cell(bb, r, c)
    return None


def _root(b):
    while b.op in ("store", "idxname"):
        b = b.args[0]
    return b


@cons("idxname")
def idxname(b, n):
    """Frame b with its row index named n."""
    if b.op == "store":
        return store(idxname(b.args[0], n), b.args[1], b.args[2])
    if b.op == "idxname":
        return raw("idxname", b.args[0], n)
    if b.op == "ite":
        return ite(b.args[0], idxname(b.args[1], n), idxname(b.args[2], n))
    return raw("idxname", b, n)


SPLIT_OPS = ("tuple", "list", "pcall", "ite", "getitem", "apply")


def _last_level(df):
    """Constant last column level of a freshly built DataFrame, or None."""
    if df.op == "lib" and df.args[0] == "pandas.DataFrame":
        cols = dict(df.args[1]).get("columns")
        if cols is not None and cols.op == "lib" and cols.args[0] == "pandas.MultiIndex.from_product":
            its = dict(cols.args[1]).get("iterables")
            if its is not None and its.op in ("list", "tuple") and len(its.args) == 2:
                lv = its.args[1]
                if lv.op in ("tuple", "list") and is_const(lv):
                    return lv.args
    return None


def _std_levels(df):
    """Column levels when the frame is a copy of another frame's layout."""
    return None


@cons("store")
def store(b, k, v):
    if b.op == "ite" and b.args[1].op == b.args[2].op == "dict":
        return ite(b.args[0], store(b.args[1], k, v), store(b.args[2], k, v))
    if b.op == "dict" and is_const(k):
        d = dict(b.args)
        d[k] = v
        return mk("dict", *d.items())
    if b.op == "list":
        n = intval(k)
        if n is not None and -len(b.args) <= n < len(b.args):
            a = list(b.args)
            a[n] = v
            return raw("list", *a)
    if k.op == "tuple" or k.op == "slice":
        k = strip_idx(k)
        if k is FULL and b.op != "list":
            if ndim_of(v) is not None and ndim_of(b) is not None and ndim_of(v) < ndim_of(b):
                # every row takes the value
                if b.op == "lib" and b.args[0] in ("numpy.empty", "numpy.zeros", "numpy.ones") and dict(b.args[1])["shape"].op != "attr":
                    return add(v, norm_lib("numpy.zeros", {"shape": dict(b.args[1])["shape"]}))
                return raw("store", b, k, v)
            return v
        if b.op == "lib" and b.args[0] == "numpy.zeros":
            # zeros whose first (last) entries stay, the others being given
            kw = dict(b.args[1])
            sh = kw.get("shape", NONE)
            ax = 1 if k.op == "tuple" and len(k.args) == 2 and k.args[0] is FULL else 0
            x = k.args[1] if ax == 1 else k
            if sh.op == "tuple" and len(sh.args) == ndim_of(v) and x in (raw("slice", num(1), NONE, NONE), raw("slice", NONE, num(-1), NONE)):
                if all(mk("dim", v, i) is (sub(d, num(1)) if i == ax else d) for i, d in enumerate(sh.args)) and kw.get("dtype", None) in (None, string("float"), mk("attr", v, string("dtype")), raw("attr", v, "dtype")):
                    z = norm_lib("numpy.zeros", dict(kw, shape=tup(*[num(1) if i == ax else d for i, d in enumerate(sh.args)])))
                    return mk("concat", num(ax), (z, v) if x.args[0] is num(1) else (v, z))
        if k.op == "tuple" and len(k.args) == 2 and k.args[0] is FULL and v.op == "kd" and v.args[1] == 1:
            x = k.args[1]
            if x.op == "slice" and x.args == (NONE, num(1), NONE):
                return store(b, tup(FULL, num(0)), v.args[0])
            if x.op == "slice" and x.args == (num(-1), NONE, NONE):
                return store(b, tup(FULL, num(-1)), v.args[0])
    if _isbin(k) and ndim_of(k) in (1, 2) and ndim_of(k) == ndim_of(b) and ndim_of(v) == 0:
        return mk("where", k, v, b)
    if _isbin(k) and ndim_of(k) == 1 and b.op == "astype" and b.args[1] is string("float") and ndim_of(b) in (1, 2, None):
        # rows selected by a mask take the same rows of an expression
        w = unmasked(v, k)
        if w is not None:
            return mk("where", k, w, b.args[0])
    if k.op == "lockey" and k.args[0] == "loc" and v.op in SPLIT_OPS and k.args[1].op == "tuple" and len(k.args[1].args) == 2:
        r, m = k.args[1].args
        lv = _last_level(_root(b)) or TABLE_STATS.get(_root(b))
        if lv is not None and (v.op not in ("tuple", "list") or len(lv) == len(v.args)) and m.op != "tuple" and r.op != "slice":
            for i, c in enumerate(lv):
                b = store(b, raw("lockey", "loc", tup(r, tup(m, c))), mk("getitem", v, num(i)))
            return b
    if k.op == "lockey" and k.args[0] == "loc" and b.op == "store" and k.args[1].args[0] is FULL:
        # a whole-column store hides earlier stores to the column
        col = k.args[1].args[1]
        root, ch = chain(b)
        if any(kk.op == "lockey" and kk.args[1].args[1] is col for kk, _ in ch):
            nb = root
            for kk, vv in ch:
                if not (kk.op == "lockey" and kk.args[1].args[1] is col):
                    nb = store(nb, kk, vv)
            return store(nb, k, v)
    if b.op == "store":
        bb, kk, vv = b.args
        if kk is k:
            return store(bb, k, v)
        if distinct(kk, k) and k.id < kk.id:
            return raw("store", store(bb, k, v), kk, vv)
    if v is TRUE and b.op == "lib" and b.args[0] == "numpy.zeros" and k.op == "tuple" and len(k.args) == 2 and ndim_of(k.args[1]) == 1:
        # one marked position per row
        kw = dict(b.args[1])
        y = k.args[1]
        n = mk("dim", y, 0)
        if kw.get("dtype") is string("bool") and set(kw) == {"shape", "dtype"} and kw["shape"].op == "tuple" and len(kw["shape"].args) == 2 and kw["shape"].args[0] is n and k.args[0] is raw("range", Z, n, num(1)):
            return T.eq(mk("kd", y, 1), raw("range", Z, kw["shape"].args[1], num(1)))
    if k.op == "slice" and k.args[2] is NONE and b.op == "lib" and b.args[0] in ("numpy.zeros", "numpy.ones", "numpy.empty") and ndim_of(b) == 1 and ndim_of(v) == 1:
        # all but the first or last position filled
        end = k.args[:2] == (NONE, num(-1))
        if end or k.args[:2] == (num(1), NONE):
            kw = dict(b.args[1])
            c = num(0 if b.args[0] == "numpy.zeros" else 1)
            if kw.get("dtype") is string("bool"):
                c = FALSE if c is num(0) else TRUE
            if b.args[0] != "numpy.empty" and (ty(v) != "bool" or c in (TRUE, FALSE)):
                return mk("concat", Z, (v, lst(c)) if end else (lst(c), v))
    # preallocated list filled by index over its whole range
    return raw("store", b, k, v)


def unmasked(v, k):
    """w with w[k] == v, for v computed elementwise from rows selected by k."""
    m = {}
    for c, mono in v.args if v.op == "poly" else ((1, ((v, 1),)),):
        for a, _e in mono:
            if a.op == "getitem" and a.args[1] is k:
                m[a] = a.args[0]
            elif ndim_of(a) != 0:
                return None
    return subst(v, m) if m else None


TABLE_STATS = {}
TABLE_INDEX = {}


def table_index(root):
    """Row index of a freshly built DataFrame (or of a loop-carried one)."""
    if root.op == "lib" and root.args[0] == "pandas.DataFrame":
        return dict(root.args[1]).get("index")
    return TABLE_INDEX.get(root)


def chain(t):
    """Store chain as (root, [(k, v) ...] oldest first)."""
    out = []
    while t.op == "store":
        out.append((t.args[1], t.args[2]))
        t = t.args[0]
    return t, out[::-1]


_old_ite = CONS["ite"]


@cons("ite")
def ite2(c, a, b):
    if c.op == "not":
        return ite2(c.args[0], b, a)
    if (a.op == "store" or b.op == "store") and a is not b and c.op not in ("bool",):
        ra, ca = chain(a)
        rb, cb = chain(b)
        if ra is rb:
            n = 0
            while n < len(ca) and n < len(cb) and ca[n] == cb[n]:
                n += 1
            base = ra
            for k, v in ca[:n]:
                base = store(base, k, v)
            ea, eb = ca[n:], cb[n:]
            keys = []
            for k, _ in ea + eb:
                if k not in keys:
                    keys.append(k)
            da, db = dict(ea), dict(eb)
            # only merge when every key is written at most once per side
            if len(da) == len(ea) and len(db) == len(eb):
                out = base
                for k in keys:
                    rd = lambda: _cell(base, k)
                    out = store(out, k, _old_ite(c, da[k] if k in da else rd(), db[k] if k in db else rd()))
                return out
    # ite(k in d, d[k], default) == d.get(k, default)
    if c.op == "in" and a.op == "getitem" and a.args[0] is c.args[1] and a.args[1] is c.args[0]:
        return dictget(c.args[1], c.args[0], b)
    if c.op == "not" and c.args[0].op == "in":
        pass
    # append on one side only
    return _old_ite(c, a, b)


T.ite = ite2
ite = ite2


def _cell(b, k):
    if k.op == "lockey" and k.args[1].op == "tuple" and k.args[1].args[0] is FULL:
        r = _read_table(b, k.args[1].args[1])
        if r is not None:
            return r
    while b.op == "store":
        if b.args[1] is k:
            return b.args[2]
        if not distinct(b.args[1], k):
            break
        b = b.args[0]
    if ty(k) == "int" and (b.op == "foldv" or ty(b) in ("arr1", "list")):
        return mk("getitem", b, k)
    return raw("cell", b, k)


@cons("cell")
def _mkcell(b, k):
    return _cell(b, k)


@cons("rngite")
def rngite(c, a, b):
    if a is b or c is TRUE:
        return a
    return b if c is FALSE else raw("rngite", c, a, b)


@cons("listcat")
def listcat(*xs):
    out = []
    xs = _flat2("listcat", xs)
    if any(x.op == "tuple" for x in xs):
        xs = [_front(x) for x in xs]
    for x in xs:
        if x.op in ("list", "tuple") and out and out[-1].op in ("list", "tuple"):
            out[-1] = raw(out[-1].op, *(out[-1].args + x.args))
        elif x.op in ("list", "tuple") and not x.args:
            continue
        else:
            out.append(x)
    if not out:
        return xs[0]
    if len(out) == 1:
        return out[0]
    return raw("listcat", *out)


def _front(x):
    """The first few items of something that a tuple can be added to, as a tuple."""
    if x.op == "getitem" and x.args[1].op == "slice" and x.args[1].args[0] in (NONE, num(0)) and x.args[1].args[2] is NONE:
        k = intval(x.args[1].args[1])
        if k is not None and 0 < k <= 8:
            return raw("tuple", *[mk("getitem", x.args[0], num(i)) for i in range(k)])
    return x


def _flat2(op, args):
    out = []
    for a in args:
        if a.op == op:
            out.extend(a.args)
        else:
            out.append(a)
    return out


@cons("listrep")
def listrep(x, n):
    k = intval(n)
    if k is not None and x.op in ("list", "tuple") and k * len(x.args) <= 32:
        return raw(x.op, *(x.args * max(k, 0)))
    return raw("listrep", x, n)


# --------------------------------------------------------------------------
# Strings
# --------------------------------------------------------------------------
@cons("strcat")
def strcat(*xs):
    out = []
    for x in _flat2("strcat", xs):
        if x.op == "str" and out and out[-1].op == "str":
            out[-1] = string(out[-1].args[0] + x.args[0])
        elif x.op == "str" and x.args[0] == "":
            continue
        else:
            out.append(x)
    if not out:
        return string("")
    if len(out) == 1:
        return out[0] if ty(out[0]) == "str" else raw("strcat", out[0])
    return raw("strcat", *out)


@cons("strjoin")
def strjoin(sep, a):
    if a.op in ("list", "tuple"):
        out = []
        for i, x in enumerate(a.args):
            if i:
                out.append(sep)
            out.append(x)
        return mk("strcat", *out) if out else string("")
    if a.op == "ite":
        return ite(a.args[0], strjoin(sep, a.args[1]), strjoin(sep, a.args[2]))
    if sep is string(""):
        if a.op == "listcat":
            return mk("strcat", *[strjoin(sep, x) for x in a.args])
        if a.op == "listrep":
            return mk("strrep", strjoin(sep, a.args[0]), a.args[1])
    return raw("strjoin", sep, a)


@cons("strrep")
def strrep(x, n):
    k = intval(n)
    if x.op == "str" and k is not None and 0 <= k * len(x.args[0]) <= 200:
        return string(x.args[0] * k)
    return raw("strrep", x, n)


@cons("tostr")
def tostr(x):
    if ty(x) == "str":
        return x
    if x.op == "num" and x.args[0].denominator == 1:
        return string(str(int(x.args[0])))
    if x.op == "nan":
        return string("nan")
    if x.op == "inf":
        return string("inf")
    if x is T.neg(INF):
        return string("-inf")
    if x.op == "ite":
        return ite(x.args[0], tostr(x.args[1]), tostr(x.args[2]))
    if x.op == "tofloat" and x.args[0].op != "num":
        return ite(mk("isnan", x.args[0]), string("nan"), raw("tostr", x))
    return raw("tostr", x)


@cons("fmt")
def fmt(spec, x):
    """format(x, spec) with a constant spec."""
    if spec in ("", "s"):
        return tostr(x)
    if x.op == "ite":
        return ite(x.args[0], fmt(spec, x.args[1]), fmt(spec, x.args[2]))
    if spec == "d" and x.op == "num" and x.args[0].denominator == 1:
        return string(str(int(x.args[0])))
    if spec == "d" and is_int(x):
        return tostr(x)
    return raw("fmt", spec, x)


def pct_format(f, arg):
    """`f % arg`."""
    if f.op == "ite":
        return ite(f.args[0], pct_format(f.args[1], arg), pct_format(f.args[2], arg))
    if f.op != "str":
        return raw("pctfmt", f, arg)
    args = list(arg.args) if arg.op == "tuple" else [arg]
    import re

    out, pos, ai = [], 0, 0
    s = f.args[0]
    for m in re.finditer(r"%(?:%|([-+ #0]*)(\d*)(?:\.(\d+))?([sdifeEgGrx]))", s):
        out.append(string(s[pos : m.start()]))
        pos = m.end()
        if m.group(0) == "%%":
            out.append(string("%"))
            continue
        if ai >= len(args):
            return raw("pctfmt", f, arg)
        flags, width, prec, conv = m.groups()
        spec = (flags or "") + (width or "") + ("." + prec if prec else "") + conv
        if spec == "i":
            spec = "d"
        if spec == "s":
            out.append(tostr(args[ai]))
        elif spec == "f":
            out.append(fmt("f", args[ai]))
        else:
            out.append(fmt(spec, args[ai]))
        ai += 1
    out.append(string(s[pos:]))
    if ai != len(args):
        return raw("pctfmt", f, arg)
    return mk("strcat", *out)


def str_format(f, args, kwargs):
    if f.op == "ite":
        return ite(f.args[0], str_format(f.args[1], args, kwargs), str_format(f.args[2], args, kwargs))
    if f.op == "str":
        import string as _s

        try:
            parts = list(_s.Formatter().parse(f.args[0]))
        except ValueError:
            parts = None
        if parts is not None:
            out, auto = [], 0
            for lit, field, spec, conv in parts:
                out.append(string(lit))
                if field is None:
                    continue
                if conv not in (None, "s") or "{" in (spec or ""):
                    break
                if field == "":
                    field, auto = str(auto), auto + 1
                if field.isdigit() and int(field) < len(args):
                    v = args[int(field)]
                elif field in kwargs:
                    v = kwargs[field]
                else:
                    break
                out.append(fmt(spec or "", v))
            else:
                return mk("strcat", *out)
    return raw("strfmt", f, tuple(args), tuple(sorted(kwargs.items())))


@cons("strfmt")
def _strfmt(f, args, kws):
    if f.op in ("str", "ite"):
        return str_format(f, args, dict(kws))
    return raw("strfmt", f, args, kws)


@cons("pctfmt")
def _pctfmt(f, arg):
    if f.op in ("str", "ite"):
        return pct_format(f, arg)
    return raw("pctfmt", f, arg)


# --------------------------------------------------------------------------
# Shapes
# --------------------------------------------------------------------------
@cons("dim")
def dim(x, ax):
    if x.op in ("tuple", "list", "set") and ax == 0:
        return num(len(x.args))
    if x.op == "dict" and ax == 0:
        return num(len(x.args))
    if x.op in ("map",) and ax == 0:
        return iter_len(x.args[0])
    if x.op == "mdict" and ax == 0:
        return iter_len(x.args[0])
    if x.op == "str" and ax == 0:
        return num(len(x.args[0]))
    if x.op == "range" and ax == 0:
        return iter_len(raw("irange", *x.args))
    if x.op in ("zip",) and ax == 0:
        return dim(x.args[0], 0)
    if x.op in ("dkeys", "ditems", "dvalues") and ax == 0:
        return dim(x.args[0], 0)
    if x.op == "listrep" and ax == 0:
        return mul(dim(x.args[0], 0), x.args[1])
    if x.op == "listcat" and ax == 0:
        s = num(0)
        for y in x.args:
            s = add(s, dim(y, 0))
        return s
    if x.op in ("astype", "sort", "isnan", "isinf", "not", "exp", "log", "abs", "cumsum", "argsort", "cummax"):
        return dim(x.args[0], ax)
    if x.op == "getitem" and x.args[1].op == "slice" and x.args[1].args[:2] == (NONE, NONE):
        return dim(x.args[0], ax)
    if x.op == "getitem" and x.args[1].op == "slice" and ax == 0 and x.args[1].args in ((num(1), NONE, NONE), (NONE, num(-1), NONE)):
        n = dim(x.args[0], 0)
        return add(n, num(-1)) if x.args[0].op == "concat" else raw("pred", n)
    if x.op == "getitem" and x.args[1].op in ("argsort",) and ax == 0:
        return dim(x.args[1].args[0], 0)
    if x.op == "getitem" and x.args[1].op == "getitem" and x.args[1].args[0].op == "argsort" and ax == 0:
        return dim(x.args[1], 0)
    if x.op == "idxname":
        return dim(x.args[0], ax)
    if x.op == "store":
        return dim(x.args[0], ax) if x.args[0].op != "dict" else raw("dim", x, ax)
    if x.op == "lib" and x.args[0] in ("numpy.zeros", "numpy.ones", "numpy.full", "numpy.empty"):
        sh = dict(x.args[1]).get("shape")
        if sh is not None:
            if sh.op in ("tuple", "list"):
                if ax < len(sh.args):
                    return sh.args[ax]
            elif ax == 0 and (is_int(sh) or sh.op in ("param", "num", "poly")):
                return sh
    if x.op == "lib" and x.args[0] == "numpy.eye":
        return dict(x.args[1])["N"]
    if x.op == "attr" and x.args[1] in ("values", "index") and ax == 0:
        return dim(x.args[0], ax)
    if x.op == "attr" and x.args[1] in ("values",):
        return dim(x.args[0], ax)
    if x.op == "poly":
        ats = []
        for _, m in x.args:
            for a, _e in m:
                if a.op not in ("nan", "inf", "num") and ndim_of(a) != 0 and a not in ats:
                    ats.append(a)
        if len(ats) == 1:
            return dim(ats[0], ax)
        d = bdim(ats, ax)
        if d is not None:
            return d
    if x.op in ("sum", "mean", "amin", "amax", "std", "nansum", "nanmean") and x.args[1].op == "num":
        n = ndim_of(x.args[0])
        if n is not None:
            red = int(x.args[1].args[0]) % n if n else 0
            return dim(x.args[0], ax if ax < red else ax + 1)
    if x.op in ("maximum", "minimum", "fmax", "fmin"):
        ats = [a for a in x.args if ndim_of(a) != 0]
        if len(ats) == 1:
            return dim(ats[0], ax)
        d = bdim(ats, ax)
        if d is not None:
            return d
    if x.op == "draw" and x.args[0] == "multinomial":
        kw = dict(x.args[1])
        if ax == 0 and is_int(kw.get("size", NONE)):
            return kw["size"]
        if ax == 1 and is_int(kw.get("size", NONE)):
            return dim(kw["pvals"], 0)
    if x.op in ("lt", "le", "eq"):
        ats = [a for a in x.args if a.op not in ("nan", "inf", "num") and ndim_of(a) != 0]
        if len(ats) == 1:
            return dim(ats[0], ax)
        d = bdim(ats, ax)
        if d is not None:
            return d
    if x.op == "getitem" and x.args[1].op == "tuple" and sum(1 for i in x.args[1].args if i is not FULL) == 1:
        k = 0
        for j, i in enumerate(x.args[1].args):
            if i is NONE or i.op == "slice" and i is not FULL or not (i is FULL or ndim_of(i) == 1 and ty(i) != "bool" and i.op not in ("str", "lt", "le", "eq", "not", "and", "or")):
                break
            if k == ax:
                if i is FULL:
                    return dim(x.args[0], j)
                return dim(i, 0)
            k += 1
    if x.op == "lib" and x.args[0] in ("numpy.argmin", "numpy.argmax") and intval(dict(x.args[1]).get("axis", NONE)) is not None:
        kw = dict(x.args[1])
        red = intval(kw["axis"])
        if red >= 0:
            return dim(kw["a"], ax if ax < red else ax + 1)
    if x.op == "dot" and ndim_of(x.args[0]) == ndim_of(x.args[1]) == 2:
        return dim(x.args[ax], ax)
    if x.op == "kd" and ax <= x.args[1]:
        return num(1) if ax == x.args[1] else dim(x.args[0], ax)
    if x.op == "getitem" and x.args[1] is NONE:
        return num(1) if ax == 0 else dim(x.args[0], ax - 1)
    if x.op == "ite":
        a, b = dim(x.args[1], ax), dim(x.args[2], ax)
        if a is b:
            return a
    return raw("dim", x, ax)


def bdim(ats, ax):
    """Dimension of the broadcast of operands."""
    if any(ndim_of(a) == 1 for a in ats):
        ats = [a for a in ats if not (a.op == "param" and a.args[1] == "arr01")]
    ns = [ndim_of(a) for a in ats]
    if not ns or None in ns:
        return None
    top = max(ns)
    ds = {dim(a, ax - (top - n)) for a, n in zip(ats, ns) if ax - (top - n) >= 0}
    if len(ds) > 1:
        ds.discard(num(1))
    return ds.pop() if len(ds) == 1 else None


def iter_len(it):
    if it.op == "irange":
        if it.args[2] is num(1):
            return T.sub(it.args[1], it.args[0])
        return raw("dim", raw("range", *it.args), 0)
    if it.op == "ikeys":
        return dim(it.args[0], 0)
    return raw("itlen", it)


@cons("size")
def size(x):
    if ndim_of(x) == 1:
        return dim(x, 0)
    if x.op in ("attr",) and x.args[1] == "values" and ndim_of(x.args[0]) == 1:
        return dim(x, 0)
    return raw("size", x)


@cons("ndim")
def ndim(x):
    if x.op in ("num", "inf", "nan", "bool"):
        return num(0)
    if x.op in ("mean", "sum", "amin", "amax", "std", "nansum", "nanmean") and x.args[1] is NONE:
        return num(0)
    if x.op == "getitem" and own_mask(x.args[1], x.args[0]):
        return num(1)
    return raw("ndim", x)


def own_mask(m, x):
    """m is a boolean array computed elementwise from x and constants."""
    if m.op in ("not", "and", "or"):
        return all(own_mask(a, x) for a in m.args)
    if m.op in ("isnan", "isinf"):
        return m.args[0] is x
    if m.op in ("lt", "le", "eq"):
        return x in m.args and all(a is x or a.op in ("num", "inf") for a in m.args)
    return False


@cons("kd")
def kd(x, ax):
    """keepdims: re-insert reduced axis `ax`."""
    if x.op in ("log", "exp"):
        return mk(x.op, kd(x.args[0], ax))
    if x.op == "poly":
        acc = num(0)
        for c, m in x.args:
            p = num(c)
            for a, e in m:
                scalar = ndim_of(a) == 0 or a.op in ("num", "inf", "nan", "dim")
                p = mul(p, T.power(a if scalar else kd(a, ax), e))
            acc = add(acc, p)
        return acc
    return raw("kd", x, ax)


FINFO = {k: num(v) for k, v in (("eps", Fraction(1, 2**52)), ("tiny", Fraction(1, 2**1022)), ("smallest_normal", Fraction(1, 2**1022)), ("max", Fraction(2**1024 - 2**971)), ("min", Fraction(-(2**1024 - 2**971))), ("resolution", Fraction(1, 10**15)))}


_old_fold = CONS["fold"]


def _INTLE(x):
    return mk("le", x, Z)


@cons("fold")
def fold2(it, var, inits, bodies, idx):
    r = _old_fold(it, var, inits, bodies, idx)
    if r.op == "fold" and r.args[0].op == "irange" and r.args[0].args[0] is Z and r.args[0].args[2] is num(1):
        it, var, inits, bodies, idx = r.args
        if it.args[1].op == "num" and it.args[1].args[0] <= 0:
            return inits[idx]
        if len(bodies) == 2 and idx == 0 and bodies[0].op == "store" and bodies[0].args[0] is raw("foldv", 0):
            # a companion that holds the entry just stored
            _, k, v = bodies[0].args
            if bodies[1] is v and k is add(var, num(1)) and inits[1] is mk("getitem", inits[0], Z):
                return mk("fold", it, var, inits[:1], (subst(bodies[0], {raw("foldv", 1): raw("getitem", raw("foldv", 0), var)}),), 0)
        if len(bodies) == 1 and bodies[0].op == "ite" and r.args[0].op == "irange":
            # a step left out is a step that stores what is there
            c, x, y = bodies[0].args
            f0 = raw("foldv", 0)
            for keep, other in ((x, y), (y, x)):
                if keep is f0 and other.op == "store" and other.args[0] is f0:
                    w = raw("getitem", f0, other.args[1])
                    r = mk("fold", it, var, inits, (raw("store", f0, other.args[1], mk("ite", c, *([w, other.args[2]] if keep is x else [other.args[2], w]))),), idx)
                    return r
        if any(contains(b, lambda u: u is _INTLE(var)) for b in bodies):
            b0 = [subst(b, {var: Z}) for b in bodies]
            if all(b is raw("foldv", i) or b.op == "store" and b.args[0] is raw("foldv", i) and b.args[2] is raw("getitem", b.args[0], b.args[1]) for i, b in enumerate(b0)):
                # nothing happens in the first round
                tmp = raw("tmpvar", var)
                nb = [subst(subst(subst(b, {_INTLE(var): FALSE}), {var: add(tmp, num(1))}), {tmp: var}) for b in bodies]
                return mk("fold", raw("irange", Z, sub(it.args[1], num(1)), num(1)), var, inits, tuple(nb), idx)
        if len(bodies) == 1 and bodies[0].op == "store" and bodies[0].args[0] is raw("foldv", 0):
            _, k, v = bodies[0].args
            d = to_poly(k)
            w = raw("getitem", raw("foldv", 0), k)
            if d.get(((var, Fraction(1)),)) == 1 and all(m in ((), ((var, Fraction(1)),)) for m in d) and contains(v, lambda u: u is w):
                # each place is written once, in its turn
                return mk("fold", it, var, inits, (raw("store", raw("foldv", 0), k, subst(v, {w: mk("getitem", inits[0], k)})),), idx)
    if r.op == "fold" and len(r.args[3]) == 1 and r.args[3][0].op == "meth" and r.args[3][0].args[1] == "replace":
        b = r.args[3][0]
        kw = dict(b.args[2])
        s = kw.get("old", NONE)
        if set(kw) == {"old", "new"} and kw["new"] is string("") and b.args[0] is raw("foldv", 0) and s.op == "getitem" and s.args[1] is r.args[1] and r.args[0] is raw("irange", Z, mk("dim", s.args[0], 0), num(1)) and ty(s.args[0]) == "str":
            # characters deleted one after the other
            return meth_call(r.args[2][0], "translate", [lib_call("builtins.str.maketrans", [string(""), string(""), s.args[0]], {})], {})
    return r


NT = {}


def nt_register(names):
    for i, k in enumerate(names):
        NT[k] = i if NT.get(k, i) == i else None


def nt_fields(t):
    """Field names of a collections.namedtuple(...) class term."""
    a = list(t.args[1])
    kw = dict(t.args[2]) if len(t.args) > 2 else {}
    if len(a) != 2 or kw:
        return None
    if a[1].op == "str":
        names = a[1].args[0].replace(",", " ").split()
    elif a[1].op in ("list", "tuple") and all(x.op == "str" for x in a[1].args):
        names = [x.args[0] for x in a[1].args]
    else:
        return None
    nt_register(names)
    return names


def nt_make(names, args, kwargs, defaults=None):
    if len(args) == 1 and args[0].op == "star" and not kwargs:
        return tup(*[mk("getitem", args[0].args[0], num(i)) for i in range(len(names))])
    if any(a.op == "star" for a in args) or len(args) > len(names) or not set(kwargs) <= set(names):
        return None
    d = dict(defaults or {})
    d.update(zip(names, args))
    d.update(kwargs)
    if not set(names) <= set(d):
        return None
    return tup(*[d[k] for k in names])


@cons("attr")
def attr(x, name):
    if NT.get(name) is not None and (x.op in ("tuple", "pcall", "getitem", "elem", "apply", "dictget") or x.op == "ite" and x.args[1].op == "tuple"):
        return mk("getitem", x, num(NT[name]))
    if name == "T" and x.op == "stack" and intval(x.args[0]) in (0, 1):
        return mk("stack", num(1 - intval(x.args[0])), x.args[1])
    if name == "T" and x.op == "list" and x.args and not any(ndim_of(y) in (0, 2) for y in x.args):
        return mk("stack", num(1), x.args)
    if name == "nlevels":
        return mk("dim", attr(x, "names"), 0)
    if name in ("values", "to_numpy", "array") and x.op in ("map", "list"):
        return x
    if name == "shape":
        if x.op in ("astype",):
            return attr(x.args[0], name)
        return raw("attr", x, "shape")
    if name == "ndim":
        return mk("ndim", x)
    if name == "size":
        return mk("size", x)
    if x.op in ("ulib", "lib") and x.args[0] == "numpy.finfo" and name in FINFO:
        return FINFO[name]
    if x.op == "obj":
        for k, v in x.args[1]:
            if k == name:
                return v
    if x.op == "lib" and x.args[0].startswith("scipy.stats.") and name in ("statistic", "pvalue"):
        return mk("getitem", x, num(0 if name == "statistic" else 1))
    if x.op == "ite":
        return ite(x.args[0], attr(x.args[1], name), attr(x.args[2], name))
    if x.op == "lib" and x.args[0] == "pandas.DataFrame" and name in ("index", "columns"):
        v = dict(x.args[1]).get(name)
        if v is not None:
            return v
    if x.op in ("store", "idxname") and name in ("index", "columns"):
        return attr(x.args[0], name)
    if x.op == "attr" and x.args[1] == "index" and name == "values":
        return raw("attr", x, name)
    return raw("attr", x, name)


# --------------------------------------------------------------------------
# Reductions and friends
# --------------------------------------------------------------------------
def _axis(x, axis):
    if axis is NONE:
        if ndim_of(x) == 1:
            return NONE
        return NONE
    n = intval(axis)
    if n is not None:
        d = ndim_of(x)
        if d is not None and n < 0:
            n += d
        if d == 1 and n == 0:
            return NONE
        return num(n)
    return axis


def _isbin(x):
    return x.op in ("lt", "le", "eq", "not", "and", "or", "isnan", "isinf")


def arrayed(x, known=None):
    """[f(v) for v in array] is f(array) when f works element by element."""
    if x.op != "map":
        return x
    return over_elements(x.args[0], x.args[1], x.args[2], known) or x


ELEMENTWISE = {"poly", "maximum", "minimum", "fmax", "fmin", "abs", "exp", "log", "lt", "le", "eq", "and", "or", "not", "isnan", "isinf", "ite"}


def over_elements(it, var, body, known=None):
    """The elementwise array expression of `body` over all positions, or None."""
    if it.op != "irange" or it.args[0] is not num(0) or it.args[2] is not num(1):
        return None
    m = {}

    def ok(t):
        if t is var:
            return False
        if t.op == "getitem" and t.args[1] is var:
            b = t.args[0]
            if not (ty(b) == "arr1" or ndim_of(b) == 1 and ty(b) is None and b.op not in ("list", "tuple", "map")):
                return False
            d = mk("dim", b, 0)
            if contains(b, lambda u: u is var) or (d if known is None else known(d)) is not it.args[1] and not (known is not None and b.op == "pcall"):
                return False
            m[t] = b
            return True
        if not contains(t, lambda u: u is var):
            return t.op == "bool" or ndim_of(t) == 0 or t.op in ("num", "inf", "nan")
        if t.op == "getitem" and t.args[1].op == "tuple" and ndim_of(t.args[0]) == len(t.args[1].args) and not contains(t.args[0], lambda u: u is var):
            # one entry per position: an index array per axis
            n0 = len(m)
            for x in t.args[1].args:
                if x is var:
                    m[x] = raw("range", *it.args)
                elif not (x.op == "num" or x.op == "getitem" and ok(x)):
                    return False
            return len(m) > n0 or any(x in m for x in t.args[1].args)
        return t.op in ELEMENTWISE and all(ok(k) for k in kids(t))

    if not ok(body) or not m:
        return None

    def go(t):
        if t in m and t is not var:
            return m[t]
        if t.op == "getitem" and t.args[1].op == "tuple" and any(x in m for x in t.args[1].args):
            return mk("getitem", t.args[0], tup(*[m.get(x, x) for x in t.args[1].args]))
        if not contains(t, lambda u: u is var):
            return t
        if t.op == "ite":
            return mk("where", go(t.args[0]), go(t.args[1]), go(t.args[2]))
        return T.rebuild(t, go)

    return go(body)


def deviation(x, axis):
    """u when x is the squared deviation of u from its mean along the axis."""
    if x.op != "poly":
        return None
    r = T.perfect_root(x)
    if r is None:
        return None
    for v in (r, T.neg(r)):
        for c, m in v.args if v.op == "poly" else ():
            if c == -1 and len(m) == 1 and m[0][1] == 1:
                a = m[0][0]
                b = a.args[0] if a.op == "kd" else a
                if b.op == "mean" and b.args[1] is axis and add(v, a) is b.args[0]:
                    return b.args[0]
    return None


def count(x, axis):
    if axis is NONE:
        return mk("size", x)
    n = intval(axis)
    return mk("dim", x, n) if n is not None and n >= 0 else None


def raw_exp(t):
    """A product with exp(u), or a total of exp(u), of data that no maximum
    was subtracted from: under- or overflows where its log is harmless."""
    if T.contains(t, lambda u: u.op in ("amax", "maximum", "reduce")):
        return False
    for m in T.to_poly(t):
        for a, e in m:
            while a.op == "kd":
                a = a.args[0]
            if a.op == "sum" or a.op == "getitem":
                a = a.args[0]
            if a.op == "exp" and T.contains(a, lambda u: u.op == "param"):
                return True
    return False


def shifted_exp(x, axis):
    """sum(exp(u - c)) with c constant along the axis."""
    if x.op != "exp" or x.args[0].op != "poly":
        return None
    n = None if axis is NONE else intval(axis)
    if axis is not NONE and n is None:
        return None
    keep_, out = {}, num(0)
    for m, c in T.to_poly(x.args[0]).items():
        if m and all(ndim_of(a) == 0 for a, _ in m):
            out = add(out, from_poly({m: c}))
        elif len(m) == 1 and m[0][1] == 1 and m[0][0].op == "kd" and m[0][0].args[1] == n and n is not None:
            out = add(out, mul(num(c), m[0][0].args[0]))
        else:
            keep_[m] = c
    if out is num(0) or not keep_:
        return None
    return mul(mk("exp", out), mk("sum", mk("exp", from_poly(keep_)), axis))


def reduction(op):
    def f(x, axis=NONE, *rest):
        axis = _axis(x, axis)
        if op in ("amin", "amax") and axis is NONE and x.op == "attr" and x.args[1] == "values" and ty(x.args[0]) == "series":
            x = x.args[0]
        if op in ("mean", "sum"):
            u = deviation(x, axis)
            if u is not None:
                v = T.power(mk("std", u, axis, Z), 2)
                if op == "mean":
                    return v
                n = count(u, axis)
                if n is not None:
                    return mul(n, v)
        if op == "sum":
            y = shifted_exp(x, axis)
            if y is not None:
                return y
            # pull scalar factors and distribute over single-term polynomials only
            if x.op == "poly" and len(x.args) == 1:
                c, m = x.args[0]
                out = [(a, e) for a, e in m if ndim_of(a) == 0]
                if c != 1 or out:
                    inn = from_poly({tuple((a, e) for a, e in m if ndim_of(a) != 0): Fraction(1)})
                    r = num(c)
                    for a, e in out:
                        r = mul(r, T.power(a, e))
                    if inn.op != "num":
                        return mul(r, raw("sum", inn, axis))
        if op in ("sum", "mean") and x.op == "poly" and len(x.args) > 1 and x.args[0][0] != 1:
            c = x.args[0][0]
            return mul(num(c), mk(op, mul(x, num(1 / c)), axis))
        if op == "mean":
            if x.op == "poly" and len(x.args) == 1:
                c, m = x.args[0]
                if c != 1:
                    return mul(num(c), mk("mean", mul(x, num(1 / c)), axis))
        if op in ("amin", "amax") and x.op in ("list", "tuple"):
            return mk("minimum" if op == "amin" else "maximum", *x.args)
        if x.op == "map":
            y = arrayed(x)
            if y is not x:
                return mk(op, y, axis, *rest)
        if op in ("amin", "amax") and x.op == "map":
            return mk("reduce", "min" if op == "amin" else "max", x)
        return raw(op, x, axis, *rest)

    return f


for _o in ("sum", "mean", "amin", "amax", "std", "nansum", "prod"):
    CONS[_o] = reduction(_o)


@cons("reduce0")
def _reduce0(kind, init, m):
    """Extremum of the items of m and an initial value (taken when m is empty)."""
    if m.op in ("list", "tuple"):
        return mk("maximum" if kind == "max" else "minimum", init, *m.args)
    if m.op in ("map", "fmap") and m.args[0].op == "irange":
        e = mk("intle", T.sub(m.args[0].args[1], m.args[0].args[0]))
        if e is TRUE:
            return init
    return raw("reduce0", kind, init, m)


@cons("reduce")
def _reduce(kind, m):
    if m.op in ("map", "fmap") and m.args[0].op == "irange" and kind in ("max", "min"):
        if mk("intle", T.sub(m.args[0].args[1], m.args[0].args[0])) is TRUE:
            return BOTTOM  # the extremum of nothing is an error
    if m.op in ("list", "tuple"):
        if kind == "max":
            return mk("maximum", *m.args)
        if kind == "min":
            return mk("minimum", *m.args)
        if kind == "sum":
            s = num(0)
            for a in m.args:
                s = add(s, a)
            return s
    if m.op == "map":
        y = arrayed(m)
        if y is not m:
            return mk({"max": "amax", "min": "amin", "sum": "sum"}[kind], y, NONE) if kind in ("max", "min", "sum") else raw("reduce", kind, m)
    if kind == "min" and m.op == "map":
        # min of negated = - max
        b = m.args[2]
        if b.op == "poly" and all(c < 0 for c, _ in b.args) and len(b.args) == 1:
            return T.neg(mk("reduce", "max", mk("map", m.args[0], m.args[1], T.neg(b))))
    return raw("reduce", kind, m)


@cons("floordiv")
def floordiv(a, b):
    if a.op == "num" and b.op == "num" and b.args[0] != 0:
        return num(a.args[0] // b.args[0])
    if b is num(1) and is_int(a):
        return a
    d = T.to_poly(b)
    if b.op == "num" and b.args[0] < 0 or (b.op == "poly" and b.args[0][0] < 0):
        return floordiv(T.neg(a), T.neg(b))
    return raw("floordiv", a, b)


def mod(a, b):
    if a.op == "num" and b.op == "num" and b.args[0] != 0:
        return num(a.args[0] % b.args[0])
    return T.sub(a, mul(b, floordiv(a, b)))


@cons("toint")
def toint(x):
    if is_int(x):
        return x
    if x.op == "num":
        return num(int(x.args[0]))
    if x.op == "bool":
        return num(int(x.args[0]))
    if x.op == "ceil":
        return raw("toint", x)
    if x.op == "floor" and x.args[0].op == "poly":
        # floor of a quotient of integers
        for a in sorted({a for _, m in x.args[0].args for a, e in m if e == -1 and is_int(a)}):
            y = mul(x.args[0], a)
            if is_int(y):
                return mk("floordiv", y, a)
    if x.op == "ite":
        return ite(x.args[0], toint(x.args[1]), toint(x.args[2]))
    return raw("toint", x)


@cons("tofloat")
def tofloat(x):
    if ty(x) == "bool" and x.op not in ("param",):
        return ite(x, num(1), num(0))
    if x.op in ("num", "inf", "nan") or ty(x) == "float":
        return x
    if x.op == "str":
        s = x.args[0].strip().lower()
        if s in ("nan",):
            return NAN
        if s in ("inf", "infinity", "+inf"):
            return INF
        if s in ("-inf", "-infinity"):
            return T.neg(INF)
    return raw("tofloat", x)


@cons("decimal")
def decimal_(x):
    if x.op == "num":
        return x
    if x.op in ("inf", "nan") or x is T.neg(INF):
        return x
    if x.op == "str":
        s = x.args[0].strip().lower()
        if s in ("inf", "infinity", "+inf", "+infinity"):
            return INF
        if s in ("-inf", "-infinity"):
            return T.neg(INF)
        if s == "nan":
            return NAN
        try:
            return num(Fraction(s))
        except (ValueError, ZeroDivisionError):
            pass
    if ty(x) == "dec":
        return x
    return raw("decimal", x)


TYPES = {
    "builtins.float": "float",
    "builtins.int": "int",
    "builtins.bool": "bool",
    "builtins.str": "str",
    "builtins.object": "object",
    "numpy.float64": "float",
    "numpy.float_": "float",
    "numpy.double": "float",
    "numpy.int64": "int",
    "numpy.int_": "int",
    "numpy.intp": "int",
    "numpy.bool_": "bool",
    "numpy.object_": "object",
}


def typename(t):
    if t.op == "libv" and t.args[0] in TYPES:
        return string(TYPES[t.args[0]])
    if t.op == "str":
        m = {"f8": "float", "float64": "float", "i8": "int", "int64": "int", "O": "object", "?": "bool"}
        return string(m.get(t.args[0], t.args[0]))
    return t


@cons("astype")
def astype(x, t):
    if x.op == "astype" and x.args[1] is t:
        return x
    if t is string("bool") and _isbin(x):
        return x
    if t is string("float") and x.op == "lib" and x.args[0] in ("numpy.zeros", "numpy.ones"):
        return x
    if t in (string("float"), string("int")) and x.op == "not" and x.args[0].op == "lib" and x.args[0].args[0] == "numpy.eye" and dict(x.args[0].args[1]).get("dtype") is string("bool"):
        kw = {k: v for k, v in x.args[0].args[1] if k != "dtype"}
        return T.sub(num(1), norm_lib("numpy.eye", kw))
    return raw("astype", x, t)


# --------------------------------------------------------------------------
# Signatures: canonical parameter lists and defaults of library callables
# --------------------------------------------------------------------------
N_, Z, F_, T_ = NONE, num(0), FALSE, TRUE

SIG = {
    "numpy.any": (["a", "axis"], {}),
    "numpy.all": (["a", "axis"], {}),
    "numpy.sum": (["a", "axis", "dtype", "out", "keepdims"], {}),
    "numpy.nansum": (["a", "axis", "dtype", "out", "keepdims"], {}),
    "numpy.nanmean": (["a", "axis", "dtype", "out", "keepdims"], {}),
    "numpy.nanmax": (["a", "axis"], {}),
    "numpy.nanmin": (["a", "axis"], {}),
    "numpy.prod": (["a", "axis"], {}),
    "numpy.mean": (["a", "axis", "dtype", "out", "keepdims"], {}),
    "numpy.median": (["a", "axis"], {}),
    "numpy.average": (["a", "axis", "weights"], {}),
    "numpy.std": (["a", "axis", "dtype", "out", "ddof", "keepdims"], {}),
    "numpy.var": (["a", "axis", "dtype", "out", "ddof", "keepdims"], {}),
    "numpy.nanstd": (["a", "axis", "dtype", "out", "ddof", "keepdims"], {}),
    "numpy.min": (["a", "axis", "out", "keepdims"], {}),
    "numpy.max": (["a", "axis", "out", "keepdims"], {}),
    "numpy.amin": (["a", "axis", "out", "keepdims"], {}),
    "numpy.amax": (["a", "axis", "out", "keepdims"], {}),
    "numpy.argmin": (["a", "axis"], {}),
    "numpy.take_along_axis": (["arr", "indices", "axis"], {}),
    "numpy.argmax": (["a", "axis"], {}),
    "numpy.argsort": (["a", "axis", "kind", "order"], {"axis": num(-1)}),
    "numpy.sort": (["a", "axis", "kind", "order"], {"axis": num(-1)}),
    "numpy.unique": (["ar", "return_index", "return_inverse", "return_counts", "axis"], {"return_index": F_, "return_inverse": F_, "return_counts": F_, "axis": N_}),
    "numpy.diff": (["a", "n", "axis"], {"n": num(1), "axis": num(-1)}),
    "numpy.cumsum": (["a", "axis"], {"axis": N_}),
    "numpy.cumprod": (["a", "axis"], {"axis": N_}),
    "numpy.clip": (["a", "a_min", "a_max", "out", "min", "max"], {}),
    "numpy.percentile": (["a", "q", "axis", "out", "overwrite_input", "method", "keepdims", "interpolation"], {"axis": N_, "out": N_, "overwrite_input": F_, "method": string("linear"), "keepdims": F_}),
    "numpy.quantile": (["a", "q", "axis", "out", "overwrite_input", "method", "keepdims", "interpolation"], {"axis": N_, "out": N_, "overwrite_input": F_, "method": string("linear"), "keepdims": F_}),
    "numpy.repeat": (["a", "repeats", "axis"], {"axis": N_}),
    "numpy.tile": (["A", "reps"], {}),
    "numpy.broadcast_to": (["array", "shape"], {}),
    "numpy.zeros": (["shape", "dtype", "order"], {"dtype": string("float")}),
    "numpy.ones": (["shape", "dtype", "order"], {"dtype": string("float")}),
    "numpy.empty": (["shape", "dtype", "order"], {"dtype": string("float")}),
    "numpy.full": (["shape", "fill_value", "dtype"], {"dtype": N_}),
    "numpy.zeros_like": (["a", "dtype"], {"dtype": N_}),
    "numpy.ones_like": (["a", "dtype"], {"dtype": N_}),
    "numpy.full_like": (["a", "fill_value", "dtype"], {"dtype": N_}),
    "numpy.eye": (["N", "M", "k", "dtype"], {"M": N_, "k": Z, "dtype": string("float")}),
    "numpy.identity": (["n", "dtype"], {"dtype": string("float")}),
    "numpy.arange": (["start", "stop", "step"], {}),
    "numpy.linspace": (["start", "stop", "num", "endpoint", "retstep", "dtype"], {"num": num(50), "endpoint": T_, "retstep": F_, "dtype": N_}),
    "numpy.searchsorted": (["a", "v", "side", "sorter"], {"side": string("left"), "sorter": N_}),
    "numpy.trapz": (["y", "x", "dx", "axis"], {"x": N_, "dx": num(1), "axis": num(-1)}),
    "numpy.roots": (["p"], {}),
    "numpy.nextafter": (["x1", "x2"], {}),
    "numpy.spacing": (["x"], {}),
    "numpy.linalg.norm": (["x", "ord", "axis", "keepdims"], {"ord": NONE, "axis": NONE, "keepdims": F_}),
    "numpy.isclose": (["a", "b", "rtol", "atol", "equal_nan"], {"rtol": num(1e-5), "atol": num(1e-8), "equal_nan": F_}),
    "numpy.allclose": (["a", "b", "rtol", "atol", "equal_nan"], {"rtol": num(1e-5), "atol": num(1e-8), "equal_nan": F_}),
    "numpy.concatenate": (["arrays", "axis"], {"axis": Z}),
    "numpy.stack": (["arrays", "axis"], {"axis": Z}),
    "numpy.where": (["condition", "x", "y"], {"x": N_, "y": N_}),
    "numpy.count_nonzero": (["a", "axis"], {"axis": N_}),
    "numpy.sign": (["x"], {}),
    "numpy.interp": (["x", "xp", "fp", "left", "right"], {}),
    "numpy.outer": (["a", "b"], {}),
    "numpy.interp1d": (["x"], {}),
    "scipy.special.logsumexp": (["a", "axis", "b", "keepdims", "return_sign"], {}),
    "scipy.stats.ttest_1samp": (["a", "popmean", "axis", "nan_policy", "alternative"], {"axis": Z, "nan_policy": string("propagate"), "alternative": string("two-sided")}),
    "scipy.stats.t.interval": (["confidence", "df", "loc", "scale"], {"loc": Z, "scale": num(1)}),
    "scipy.stats.t.ppf": (["q", "df", "loc", "scale"], {"loc": Z, "scale": num(1)}),
    "scipy.stats.t.isf": (["q", "df", "loc", "scale"], {"loc": Z, "scale": num(1)}),
    "scipy.stats.t.sf": (["x", "df", "loc", "scale"], {"loc": Z, "scale": num(1)}),
    "scipy.stats.t.cdf": (["x", "df", "loc", "scale"], {"loc": Z, "scale": num(1)}),
    "scipy.stats.sem": (["a", "axis", "ddof", "nan_policy"], {"axis": Z, "ddof": num(1), "nan_policy": string("propagate")}),
    "scipy.stats.norm.logpdf": (["x", "loc", "scale"], {"loc": Z, "scale": num(1)}),
    "scipy.stats.norm.pdf": (["x", "loc", "scale"], {"loc": Z, "scale": num(1)}),
    "scipy.stats.norm.logcdf": (["x", "loc", "scale"], {"loc": Z, "scale": num(1)}),
    "scipy.interpolate.interp1d": (["x", "y", "kind", "axis", "copy", "bounds_error", "fill_value", "assume_sorted"], {"kind": string("linear"), "axis": num(-1), "copy": T_, "bounds_error": N_, "assume_sorted": F_}),
    "pandas.DataFrame": (["data", "index", "columns", "dtype", "copy"], {"data": N_, "index": N_, "columns": N_, "dtype": N_, "copy": N_}),
    "pandas.Series": (["data", "index", "dtype", "name", "copy"], {"data": N_, "index": N_, "dtype": N_, "name": N_, "copy": N_}),
    "pandas.Index": (["data", "dtype", "copy", "name"], {}),
    "pandas.MultiIndex.from_product": (["iterables", "sortorder", "names"], {"sortorder": N_}),
    "pandas.MultiIndex.from_tuples": (["tuples", "sortorder", "names"], {"sortorder": N_}),
    "pandas.concat": (["objs", "axis", "join", "ignore_index", "keys", "levels", "names", "verify_integrity", "sort", "copy"], {"axis": Z, "join": string("outer"), "ignore_index": F_, "keys": N_, "levels": N_, "names": N_, "verify_integrity": F_, "sort": F_}),
    "pandas.unique": (["values"], {}),
    "joblib.Memory": (["location", "backend", "mmap_mode", "compress", "verbose"], {"backend": string("local"), "mmap_mode": N_, "compress": F_, "verbose": num(1)}),
    "numpy.nan_to_num": (["x", "copy", "nan", "posinf", "neginf"], {"copy": T_, "nan": Z, "posinf": N_, "neginf": N_}),
    "numpy.nanpercentile": (["a", "q", "axis", "out", "overwrite_input", "method", "keepdims", "interpolation"], {"axis": N_, "out": N_, "overwrite_input": F_, "method": string("linear"), "keepdims": F_}),
    "numpy.nanquantile": (["a", "q", "axis", "out", "overwrite_input", "method", "keepdims", "interpolation"], {"axis": N_, "out": N_, "overwrite_input": F_, "method": string("linear"), "keepdims": F_}),
    "numpy.nanmedian": (["a", "axis"], {"axis": N_}),
    "numpy.nanvar": (["a", "axis", "dtype", "out", "ddof", "keepdims"], {}),
    "numpy.nanargmin": (["a", "axis"], {"axis": N_}),
    "numpy.nanargmax": (["a", "axis"], {"axis": N_}),
    "numpy.nancumsum": (["a", "axis"], {"axis": N_}),
    "numpy.round": (["a", "decimals", "out"], {"decimals": Z, "out": N_}),
    "numpy.rint": (["x"], {}),
    "numpy.trunc": (["x"], {}),
    "numpy.fix": (["x"], {}),
    "numpy.roll": (["a", "shift", "axis"], {"axis": N_}),
    "scipy.stats.trim_mean": (["a", "proportiontocut", "axis"], {"axis": Z}),
    "scipy.stats.gmean": (["a", "axis"], {"axis": Z}),
    "scipy.stats.hmean": (["a", "axis"], {"axis": Z}),
    "scipy.stats.wilcoxon": (["x", "y"], {"y": N_}),
    "scipy.stats.norm.ppf": (["q", "loc", "scale"], {"loc": Z, "scale": num(1)}),
    "scipy.stats.norm.interval": (["confidence", "loc", "scale"], {"loc": Z, "scale": num(1)}),
    "scipy.stats.norm.cdf": (["x", "loc", "scale"], {"loc": Z, "scale": num(1)}),
    "scipy.stats.norm.sf": (["x", "loc", "scale"], {"loc": Z, "scale": num(1)}),
    "numpy.random.multinomial": (["n", "pvals", "size"], {"size": N_}),
    "numpy.random.choice": (["a", "size", "replace", "p"], {"size": N_, "replace": T_, "p": N_}),
    "numpy.random.randint": (["low", "high", "size", "dtype"], {"high": N_, "size": N_}),
    "numpy.random.permutation": (["x"], {}),
    "numpy.random.shuffle": (["x"], {}),
    "numpy.random.rand": (None, {}),
    "numpy.random.randn": (None, {}),
    "numpy.random.random": (["size"], {"size": N_}),
    "numpy.random.random_sample": (["size"], {"size": N_}),
    "numpy.random.uniform": (["low", "high", "size"], {"low": Z, "high": num(1), "size": N_}),
    "numpy.random.normal": (["loc", "scale", "size"], {"loc": Z, "scale": num(1), "size": N_}),
    "numpy.random.seed": (["seed"], {"seed": N_}),
    "numpy.random.poisson": (["lam", "size"], {"lam": num(1), "size": N_}),
    "numpy.random.exponential": (["scale", "size"], {"scale": num(1), "size": N_}),
    "numpy.random.standard_exponential": (["size"], {"size": N_}),
    "numpy.random.standard_normal": (["size"], {"size": N_}),
    "numpy.random.standard_t": (["df", "size"], {"size": N_}),
    "numpy.random.gamma": (["shape", "scale", "size"], {"scale": num(1), "size": N_}),
    "numpy.random.standard_gamma": (["shape", "size"], {"size": N_}),
    "numpy.random.beta": (["a", "b", "size"], {"size": N_}),
    "numpy.random.binomial": (["n", "p", "size"], {"size": N_}),
    "numpy.random.geometric": (["p", "size"], {"size": N_}),
    "numpy.random.dirichlet": (["alpha", "size"], {"size": N_}),
    "numpy.random.laplace": (["loc", "scale", "size"], {"loc": Z, "scale": num(1), "size": N_}),
    "numpy.random.triangular": (["left", "mode", "right", "size"], {"size": N_}),
    "numpy.random.random_integers": (["low", "high", "size"], {"high": N_, "size": N_}),
    "numpy.random.ranf": (["size"], {"size": N_}),
    "numpy.vectorize": (["pyfunc", "otypes", "doc", "excluded", "cache", "signature"], {"doc": N_, "cache": F_, "otypes": N_, "excluded": N_, "signature": N_}),
    "decimal.Decimal": (["value", "context"], {"value": Z, "context": N_}),
    "decimal.DecimalTuple": (["sign", "digits", "exponent"], {}),
    "decimal.localcontext": (["ctx"], {"ctx": N_}),
    "decimal.Context": (["prec", "rounding", "Emin", "Emax", "capitals", "clamp", "flags", "traps"], {}),
    "builtins.divmod": (["a", "b"], {}),
    "warnings.warn": (["message", "category", "stacklevel"], {}),
}

# methods with a function twin
METH_AS_FUNC = {
    "sum": "numpy.sum",
    "mean": "numpy.mean",
    "std": "numpy.std",
    "var": "numpy.var",
    "min": "numpy.min",
    "max": "numpy.max",
    "any": "numpy.any",
    "all": "numpy.all",
    "argmin": "numpy.argmin",
    "argmax": "numpy.argmax",
    "argsort": "numpy.argsort",
    "cumsum": "numpy.cumsum",
    "dot": "numpy.dot",
    "clip": "numpy.clip",
    "prod": "numpy.prod",
    "repeat": "numpy.repeat",
    "ravel": "numpy.ravel",
    "round": "numpy.round",
    "searchsorted": "numpy.searchsorted",
    "reshape": None,
}

METHSIG = {
    "quantize": (["exp", "rounding", "context"], {"rounding": NONE, "context": NONE}),
    "scaleb": (["other", "context"], {"context": NONE}),
    "shift": (["periods", "freq", "axis", "fill_value"], {"freq": NONE, "axis": num(0)}),
    "isin": (["values"], {}),
    "reorder_levels": (["order", "axis"], {"axis": num(0)}),
    "replace": (["old", "new", "count"], {"count": num(-1)}),
    "find": (["sub", "start", "end"], {"start": NONE, "end": NONE}),
    "translate": (["table"], {}),
    "set_names": (["names", "level", "inplace"], {"level": NONE, "inplace": FALSE}),
    "fit": (["X", "y", "sample_weight"], {}),
    "predict_log_proba": (["X"], {}),
    "predict_proba": (["X"], {}),
    "predict": (["X", "return_std", "return_cov"], {}),
    "to_string": (None, {"index": TRUE}),
    "to_latex": (None, {"index": TRUE}),
}

# vocabulary with a fixed, modelled meaning ("hard"): two different canonical
# terms over it denote different behaviours.
HARD_LIB = {
    "numpy.argmin",
    "numpy.argmax",
    "numpy.percentile",
    "numpy.nextafter",
    "numpy.spacing",
    "numpy.searchsorted",
    "numpy.trapz",
    "numpy.roots",
    "numpy.isclose",
    "numpy.allclose",
    "numpy.linspace",
    "numpy.eye",
    "numpy.zeros",
    "numpy.ones",
    "numpy.ones_like",
    "numpy.zeros_like",
    "numpy.diff",
    "numpy.nanmean",
    "numpy.nanmax",
    "numpy.nanmin",
    "numpy.median",
    "scipy.stats.ttest_1samp",
    "scipy.stats.t.interval",
    "scipy.stats.norm.logpdf",
    "scipy.stats.norm.pdf",
    "scipy.interpolate.interp1d",
    "pandas.DataFrame",
    "pandas.Series",
    "pandas.MultiIndex.from_product",
    "pandas.concat",
    "pandas.unique",
    "joblib.Memory",
    "decimal.DecimalTuple",
}


class BadCall(Exception):
    pass


def bind_sig(sig, args, kwargs):
    names, defaults = sig
    kw = {}
    if names is None:
        for i, a in enumerate(args):
            kw["_%d" % i] = a
        kw.update(kwargs)
    else:
        if len(args) > len(names):
            raise BadCall("too many arguments")
        for n, a in zip(names, args):
            kw[n] = a
        for k, v in kwargs.items():
            kw[k] = v
    for k, d in defaults.items():
        if kw.get(k) is d:
            del kw[k]
    if "interpolation" in kw:
        m = kw.pop("interpolation")
        if m is not string("linear"):
            kw["method"] = m
    if "dtype" in kw:
        kw["dtype"] = typename(kw["dtype"])
        if defaults.get("dtype") is kw["dtype"]:
            del kw["dtype"]
    return kw


UNARY = {
    "numpy.exp": "exp",
    "numpy.log": "log",
    "numpy.abs": "abs",
    "numpy.absolute": "abs",
    "numpy.fabs": "abs",
    "builtins.abs": "abs",
    "math.fabs": "abs",
    "math.exp": "exp",
    "math.log": "log",
    "numpy.isnan": "isnan",
    "math.isnan": "isnan",
    "pandas.isnull": "isnan",
    "pandas.isna": "isnan",
    "numpy.isinf": "isinf",
    "math.isinf": "isinf",
    "numpy.ndim": "ndim",
    "numpy.size": "size",
    "numpy.logical_not": "not",
}
IDENT = {
    "numpy.copy",
    "numpy.asarray",
    "numpy.array",
    "numpy.asanyarray",
    "numpy.ascontiguousarray",
    "copy.copy",
    "copy.deepcopy",
    "builtins.iter",
    "numpy.asfarray",
}
BINARY = {
    "numpy.add": add,
    "numpy.subtract": T.sub,
    "numpy.multiply": mul,
    "numpy.divide": T.div,
    "numpy.true_divide": T.div,
    "operator.add": add,
    "operator.sub": T.sub,
    "operator.mul": mul,
    "operator.truediv": T.div,
    "numpy.maximum": lambda a, b: mk("maximum", a, b),
    "numpy.minimum": lambda a, b: mk("minimum", a, b),
    "numpy.fmax": lambda a, b: mk("fmax", a, b),
    "numpy.fmin": lambda a, b: mk("fmin", a, b),
    "numpy.less": lt,
    "numpy.less_equal": le,
    "numpy.greater": lambda a, b: lt(b, a),
    "numpy.greater_equal": lambda a, b: le(b, a),
    "numpy.equal": eq,
    "numpy.not_equal": lambda a, b: not_(eq(a, b)),
    "numpy.logical_and": and_,
    "numpy.logical_or": or_,
    "numpy.power": T.power,
    "numpy.float_power": T.power,
    "operator.and_": and_,
    "operator.or_": or_,
    "numpy.floor_divide": floordiv,
    "numpy.mod": mod,
}


def lib_call(name, args, kwargs):
    """Canonical term of a pure library call (args already dereferenced)."""
    kwargs = {k: v for k, v in kwargs.items()}
    n = name
    n = {"numpy.absolute": "numpy.abs", "numpy.around": "numpy.round", "numpy.round_": "numpy.round"}.get(n, n)
    if n in UNARY and len(args) == 1 and not kwargs:
        return mk(UNARY[n], args[0])
    if n in ("numpy.isneginf", "numpy.isposinf") and len(args) == 1 and not kwargs:
        return mk("eq", args[0], INF if n == "numpy.isposinf" else neg(INF))
    if n in ("numpy.isfinite", "math.isfinite") and len(args) == 1:
        return isfinite(args[0])
    if n in ("pandas.notnull", "pandas.notna") and len(args) == 1:
        return not_(mk("isnan", args[0]))
    if n in ("numpy.sqrt", "math.sqrt") and len(args) == 1:
        return T.power(args[0], Fraction(1, 2))
    if len(args) == 1 and not kwargs:
        x = args[0]
        if n in ("numpy.log1p", "math.log1p"):
            return mk("log", add(num(1), x))
        if n in ("numpy.expm1", "math.expm1"):
            return T.sub(mk("exp", x), num(1))
        if n in ("numpy.log2", "math.log2"):
            return T.div(mk("log", x), mk("log", num(2)))
        if n in ("numpy.log10", "math.log10"):
            return T.div(mk("log", x), mk("log", num(10)))
        if n == "numpy.exp2":
            return mk("exp", mul(x, mk("log", num(2))))
        if n == "numpy.ptp":
            return T.sub(mk("amax", x, NONE), mk("amin", x, NONE))
        if n in ("numpy.transpose",) and ndim_of(x) == 2:
            return mk("attr", x, "T")
        if n in ("numpy.flipud",) or n == "numpy.flip" and ndim_of(x) == 1:
            return mk("getitem", x, raw("slice", NONE, NONE, num(-1)))
        if n == "numpy.ediff1d" and ndim_of(x) == 1:
            return norm_lib("numpy.diff", {"a": x})
        if n == "numpy.zeros_like" and ndim_of(x) == 1:
            return norm_lib("numpy.zeros", {"shape": mk("dim", x, 0)})
        if n == "numpy.ones_like" and ndim_of(x) == 1 and x.op != "ite":
            return norm_lib("numpy.ones", {"shape": mk("dim", x, 0)})
        if n == "numpy.atleast_1d" and ndim_of(x) in (1, 2):
            return x
        if n in ("numpy.hstack", "numpy.vstack", "numpy.column_stack", "numpy.r_", "numpy.c_") and x.op in ("list", "tuple"):
            xs = [raw("list", *y.args) if y.op == "tuple" else y for y in x.args]
            nd = {ndim_of(y) for y in xs}
            if n == "numpy.hstack" and nd == {2, None}:
                nd = {2}  # anything else is an error
            if n == "numpy.column_stack" and None in nd:
                return mk("cstack", tuple(xs))
            if nd == {1}:
                if n in ("numpy.hstack", "numpy.r_"):
                    return mk("concat", Z, tuple(xs))
                return mk("stack", Z if n == "numpy.vstack" else num(1), tuple(xs))
            if nd == {2}:
                return mk("concat", num(1) if n in ("numpy.hstack", "numpy.column_stack", "numpy.c_") else Z, tuple(xs))
    if n == "numpy.nonzero" and len(args) == 1 and not kwargs:
        return lib_call("numpy.where", args, {})
    if n == "numpy.flatnonzero" and len(args) == 1 and not kwargs and ndim_of(args[0]) == 1:
        return mk("getitem", lib_call("numpy.where", args, {}), Z)
    if n in ("numpy.inner", "numpy.vdot") and len(args) == 2 and not kwargs and all(ndim_of(x) == 1 for x in args):
        return mk("dot", *args)
    if n == "numpy.trapezoid":
        n = "numpy.trapz"
    if n in ("numpy.add.reduce", "numpy.maximum.reduce", "numpy.minimum.reduce", "numpy.logical_or.reduce", "numpy.logical_and.reduce") and ndim_of(args[0]) in (1, 2) and args[0].op not in ("list", "tuple", "map") and len(args) <= 2 and set(kwargs) <= {"axis", "keepdims"}:
        kw = dict(kwargs)
        kw.setdefault("axis", args[1] if len(args) > 1 else Z)
        return lib_call({"add": "numpy.sum", "maximum": "numpy.max", "minimum": "numpy.min", "logical_or": "numpy.any", "logical_and": "numpy.all"}[n.split(".")[1]], [args[0]], kw)
    if n == "numpy.logaddexp.reduce" and len(args) >= 1:
        kw = dict(kwargs)
        kw.setdefault("axis", args[1] if len(args) > 1 else Z)
        return lib_call("scipy.special.logsumexp", [args[0]], kw)
    if n == "numpy.logaddexp" and len(args) == 2:
        return mk("log", add(mk("exp", args[0]), mk("exp", args[1])))
    if n == "numpy.expand_dims" and len(args) + len(kwargs) == 2:
        k = intval(kwargs.get("axis", args[1] if len(args) > 1 else NONE))
        d = ndim_of(args[0])
        if k is not None and d is not None:
            k %= d + 1
            return mk("kd", args[0], 1) if k == 1 else mk("getitem", args[0], NONE) if k == 0 else raw("ulib", n, tuple(args), tuple(sorted(kwargs.items())))
    if n == "numpy.reshape" and len(args) == 2 and not kwargs:
        return meth_call(args[0], "reshape", [args[1]], {})
    if n == "numpy.append" and len(args) == 2 and not kwargs and (ndim_of(args[0]) == 1 or args[0].op == "list") and (ndim_of(args[1]) in (0, 1) or ty(args[1]) == "int" or is_const(args[1])):
        return mk("concat", Z, (args[0], args[1] if ndim_of(args[1]) == 1 else lst(args[1])))
    if n == "numpy.append" and len(args) == 2 and not kwargs and args[0].op in ("lt", "le", "not") and is_const(args[1]):
        return mk("concat", Z, (args[0], lst(args[1])))
    if n == "numpy.append" and len(args) == 2 and not kwargs and ndim_of(args[1]) == 1 and (ndim_of(args[0]) == 0 or args[0].op == "param" and ndim_of(args[0]) is None):
        return mk("concat", Z, (lst(args[0]), args[1]))
    if n == "numpy.insert" and len(args) == 3 and not kwargs and intval(args[1]) == 0 and ndim_of(args[0]) == 1 and ndim_of(args[2]) == 0:
        return mk("concat", Z, (lst(args[2]), args[0]))
    if n == "numpy.bincount" and len(args) == 1 and set(kwargs) == {"minlength"}:
        # class labels are below the number of classes
        y = args[0]
        if T._labels(y):
            return mk("sum", T.eq(mk("kd", y, 1), raw("range", Z, kwargs["minlength"], num(1))), Z)
    if n == "numpy.ravel" and len(args) == 1 and not kwargs and args[0].op == "kd" and ndim_of(args[0].args[0]) == 1:
        return args[0].args[0]
    if n == "numpy.square":
        return T.power(args[0], 2)
    if n == "numpy.negative":
        return T.neg(args[0])
    if n == "numpy.reciprocal":
        return T.power(args[0], -1)
    if n in IDENT and len(args) >= 1:
        dt = kwargs.get("dtype") or (args[1] if len(args) > 1 and n != "numpy.copy" else None)
        x = args[0]
        if n.startswith("numpy.") and n != "numpy.copy":
            x = arrayed(x)
            if x.op == "listrep" and x.args[0].op == "list" and len(x.args[0].args) == 1:
                x = norm_lib("numpy.repeat", {"a": x.args[0], "repeats": x.args[1], "axis": Z})
        if dt is not None and dt is not NONE:
            return mk("astype", x, typename(dt))
        return x
    if n in BINARY and len(args) == 2 and not kwargs:
        return BINARY[n](args[0], args[1])
    if n in ("numpy.logical_and.reduce", "numpy.logical_or.reduce", "numpy.maximum.reduce", "numpy.minimum.reduce", "numpy.add.reduce"):
        op = n.split(".")[1]
        if len(args) == 1 and not kwargs and args[0].op in ("map", "list", "tuple"):
            k = {"logical_and": "and", "logical_or": "or", "maximum": "max", "minimum": "min", "add": "sum"}[op]
            if args[0].op != "map":
                f = {"and": and_, "or": or_}.get(k)
                if f:
                    return f(*args[0].args)
            elif k in ("and", "or"):
                return mk("loopred", args[0].args[0], args[0].args[1], string(k), args[0].args[2])
    if n == "numpy.maximum.accumulate":
        ax = kwargs.get("axis", args[1] if len(args) > 1 else Z)
        return raw("cummax", args[0], _axis(args[0], ax))
    if n == "numpy.minimum.accumulate":
        ax = kwargs.get("axis", args[1] if len(args) > 1 else Z)
        return raw("cummin", args[0], _axis(args[0], ax))
    if n == "numpy.einsum" and len(args) == 3 and not kwargs and args[0].op == "str":
        spec = args[0].args[0].replace(" ", "")
        if spec in ("ij,jk->ik", "ij,jk"):
            return mk("dot", args[1], args[2])
        if spec in ("ij,ij->i", "nk,nk->n"):
            return lib_call("numpy.sum", [mul(args[1], args[2])], {"axis": num(1)})
        if spec in ("ij,ij->j", "nk,nk->k"):
            return lib_call("numpy.sum", [mul(args[1], args[2])], {"axis": Z})
        if spec in ("i,i->", "i,i", "n,n->", "ij,j->i", "ij,j", "i,ij->j"):
            return mk("dot", args[1], args[2])
    if n in ("numpy.dot", "numpy.matmul", "operator.matmul") and len(args) == 2:
        return mk("dot", *args)
    if n == "numpy.take" and len(args) == 2 and not kwargs and ndim_of(args[0]) == 1:
        return mk("getitem", *args)
    if n == "numpy.subtract.reduce" and len(args) == 1 and not kwargs and args[0].op in ("tuple", "list") and len(args[0].args) == 2:
        return sub(*args[0].args)
    if n == "numpy.shape":
        return mk("attr", args[0], "shape")
    if n == "builtins.len":
        return mk("dim", args[0], 0)
    if n == "builtins.int" and len(args) == 1:
        return mk("toint", args[0])
    if n == "builtins.float" and len(args) == 1:
        return mk("tofloat", args[0])
    if n in ("numpy.float64", "numpy.float_") and len(args) == 1:
        return mk("tofloat", args[0])
    if n in ("builtins.bool", "numpy.bool_") and len(args) == 1:
        return truth(args[0])
    if n == "builtins.str" and len(args) == 1:
        return mk("tostr", args[0])
    if n == "builtins.format":
        return str_format(string("{:%s}" % args[1].args[0]), [args[0]], {}) if len(args) > 1 and args[1].op == "str" else mk("tostr", args[0])
    if n in ("numpy.ceil",) and len(args) == 1:
        return raw("ceil", args[0])
    if n in ("math.ceil",) and len(args) == 1:
        return mk("toint", raw("ceil", args[0]))
    if n in ("numpy.floor",) and len(args) == 1:
        return raw("floor", args[0])
    if n in ("math.floor",) and len(args) == 1:
        return mk("toint", raw("floor", args[0]))
    if n == "math.copysign":
        return raw("ulib", n, tuple(args))
    if n == "builtins.range":
        a = list(args)
        lo, hi, st = (Z, a[0], num(1)) if len(a) == 1 else (a[0], a[1], a[2] if len(a) > 2 else num(1))
        return raw("range", lo, hi, st)
    if n == "numpy.arange" and 1 <= len(args) <= 3 and not kwargs:
        return lib_call("builtins.range", args, {})
    if n == "builtins.enumerate":
        s = kwargs.get("start", args[1] if len(args) > 1 else Z)
        return raw("enumerate", args[0], s)
    if n == "builtins.zip":
        if args and all(a.op in ("list", "tuple") for a in args):
            return lst(*[tup(*xs) for xs in zip(*[a.args for a in args])])
        return raw("zip", *args)
    if n == "builtins.reversed":
        return mk("getitem", args[0], raw("slice", NONE, NONE, num(-1)))
    if n == "itertools.product" and not kwargs:
        return raw("product", *args)
    if n in ("builtins.list", "builtins.tuple"):
        if not args:
            return lst() if n.endswith("list") else tup()
        return as_list(args[0], n)
    if n in ("builtins.set", "builtins.frozenset"):
        return raw("setof", args[0]) if args else raw("setof", lst())
    if n == "builtins.sorted" and len(args) == 1 and not kwargs:
        return raw("sorted", as_list(args[0], n))
    if n == "builtins.dict":
        if not args:
            return mk("dict", *[(string(k), v) for k, v in kwargs.items()])
        d = args[0]
        if d.op in ("list", "tuple") and all(x.op == "tuple" and len(x.args) == 2 for x in d.args):
            d = mk("dict", *[x.args for x in d.args])
        if d.op == "map" and d.args[2].op == "tuple" and len(d.args[2].args) == 2:
            d = mk("mdict", d.args[0], d.args[1], *d.args[2].args)
        for k, v in kwargs.items():
            d = mk("store", d, string(k), v)
        return d
    if n in ("builtins.any", "builtins.all") and len(args) == 1:
        return loop_bool(n[9:], args[0])
    if n in ("builtins.max", "builtins.min") and set(kwargs) == {"default"} and len(args) == 1:
        return mk("reduce0", n[9:], kwargs["default"], args[0])
    if n in ("builtins.max", "builtins.min") and not kwargs:
        k = n[9:]
        if len(args) == 1:
            a = args[0]
            if a.op in ("map", "fmap", "list", "tuple", "zip"):
                return mk("reduce", k, a)
            return mk("amax" if k == "max" else "amin", a, NONE)
        return mk("maximum" if k == "max" else "minimum", *args)
    if n == "builtins.sum" and len(args) == 1:
        return mk("reduce", "sum", args[0]) if args[0].op in ("map", "fmap", "list", "tuple") else mk("sum", args[0], NONE)
    if n == "builtins.divmod":
        return tup(floordiv(*args), mod(*args))
    if n == "builtins.pow" and len(args) == 2:
        return T.power(*args)
    if n == "builtins.round" and len(args) == 2 and not kwargs:
        return lib_call("numpy.round", args, kwargs)
    if n == "builtins.round" and len(args) == 1:
        return raw("round", args[0])
    if n in ("numpy.round", "numpy.rint", "numpy.around") and len(args) == 1:
        return raw("round", args[0])
    if n == "builtins.isinstance":
        return raw("isinst", args[0], args[1])
    if n == "builtins.hasattr":
        return raw("isinst", args[0], args[1])
    if n == "builtins.slice":
        a = list(args)
        return mk("slice", *((NONE, a[0], NONE) if len(a) == 1 else (a + [NONE])[:3]))
    if n == "decimal.DecimalTuple" and len(args) + len(kwargs) == 3 and all(k in ("sign", "digits", "exponent") for k in kwargs):
        return tup(*(list(args) + [kwargs[k] for k in ("sign", "digits", "exponent")[len(args):] if k in kwargs]))
    if n.startswith("numpy.") and n.endswith(".outer") and n.split(".")[1] in OUTER and len(args) == 2 and not kwargs and all(ndim_of(a) == 1 for a in args):
        return OUTER[n.split(".")[1]](mk("kd", args[0], 1), args[1])
    if n not in SIG:
        return raw("ulib", n, tuple(args), tuple(sorted(kwargs.items())))
    try:
        kw = bind_sig(SIG[n], args, kwargs)
    except BadCall:
        return raw("ulib", n, tuple(args), tuple(sorted(kwargs.items())))
    return norm_lib(n, kw)


@cons("apply")
def _apply(f, args, kw):
    """A curve function takes (y_true, y_score, sample_weight=None)."""
    if f.op == "param" and f.args[0] == "curve_f" or f.op == "getitem" and f.args[0].op == "param" and f.args[0].args[0] == "curve_dict":
        d = dict(kw)
        if len(args) == 2 and set(d) == {"sample_weight"}:
            args, kw = args + (d["sample_weight"],), ()
        if len(args) == 3 and not kw and args[2] is NONE:
            args = args[:2]
    return raw("apply", f, args, kw)


@cons("decfromtuple")
def _decfromtuple(sign, digits, expo):
    """An exponent 'F' is an infinity whatever the digits."""
    if expo.op == "ite" and string("F") in expo.args[1:]:
        return mk("ite", expo.args[0], mk("decfromtuple", sign, digits, expo.args[1]), mk("decfromtuple", sign, digits, expo.args[2]))
    if expo is string("F") and sign.op in ("num", "bool"):
        return T.neg(INF) if sign.args[0] else INF
    return raw("decfromtuple", sign, digits, expo)


@cons("pcall")
def _pcall(q, args):
    if q == "mlpaper.sciprint.decimal_1ek":
        d = dict(args)
        k, s = d.get("k"), d.get("signed")
        if set(d) == {"k", "signed"} and s.op == "bool":
            if k.op == "ite" and string("F") in k.args[1:]:
                return mk("ite", k.args[0], *[mk("pcall", q, (("k", x), ("signed", s))) for x in k.args[1:]])
            if k is string("F"):
                return T.neg(INF) if s is TRUE else INF
    return raw("pcall", q, args)


@cons("ulib")
def _ulib(n, args, kws, *more):
    # what was not known about the operands may be known by now
    if more or n.startswith(("numpy.random", "builtins.repr")) or not n.startswith("numpy."):
        return raw("ulib", n, args, kws, *more)
    try:
        return lib_call(n, list(args), dict(kws))
    except BadCall:
        return raw("ulib", n, args, kws)


@cons("lib")
def _lib(n, kws):
    return norm_lib(n, dict(kws))


def keep(t, kw, x):
    if kw.get("keepdims") is TRUE:
        ax = kw.get("axis", NONE)
        k = intval(ax)
        if k is not None and k < 0 and ndim_of(x) is not None:
            k += ndim_of(x)
        if k is not None:
            return mk("kd", t, k)
        return raw("kd", t, ax)
    return t


OUTER = {"subtract": T.sub, "add": add, "multiply": mul, "divide": T.div, "true_divide": T.div, "less": lambda a, b: T.lt(a, b), "equal": lambda a, b: T.eq(a, b), "maximum": lambda a, b: mk("maximum", a, b)}


def norm_lib(n, kw):
    if n == "pandas.DataFrame" and "index" in kw:
        i = kw["index"]
        dt = kw.get("data", NONE)
        if i is NONE or i.op in ("range", "irange") and i.args[0] is Z and i.args[2] is num(1) and dt.op == "stack" and dt.args[0] in (1, num(1)) and any(i.args[1] in (mk("size", a), mk("dim", a, 0)) for a in dt.args[1]):
            # rows numbered from 0 are the default
            return norm_lib(n, {k: v for k, v in kw.items() if k != "index"})
        base = name = None
        if i.op == "umeth" and i.args[1] in ("rename", "set_names"):
            v = list(i.args[2]) + [x for k, x in i.args[3] if k in ("name", "names")]
            if len(v) == 1:
                base, name = i.args[0], v[0]
        elif i.op == "lib" and i.args[0] == "pandas.Index":
            d = dict(i.args[1])
            if set(d) == {"data", "name"}:
                base, name = d["data"], d["name"]
        if base is not None and (base.op == "attr" or base.op == "getitem"):
            return mk("idxname", norm_lib(n, dict(kw, index=base)), name)
    if n == "numpy.roots" and kw.get("p", NONE).op == "tuple":
        kw = {"p": raw("list", *kw["p"].args)}
    if n == "numpy.ones" and set(kw) == {"shape"} and kw["shape"].op == "attr" and kw["shape"].args[1] == "shape":
        return norm_lib("numpy.full_like", {"a": kw["shape"].args[0], "fill_value": num(1)})
    if n == "numpy.zeros" and set(kw) == {"shape"} and kw["shape"].op == "attr" and kw["shape"].args[1] == "shape":
        return norm_lib("numpy.full_like", {"a": kw["shape"].args[0], "fill_value": num(0)})
    if "out" in kw and kw["out"] is not NONE:
        return raw("ulib", n, (), tuple(sorted(kw.items())))
    ok = lambda *ks: all(k in ks for k in kw)
    ax = kw.get("axis", NONE)
    if n == "numpy.linalg.norm" and ok("x", "axis", "keepdims") and "x" in kw:
        return T.power(keep(mk("sum", T.power(kw["x"], 2), ax), kw, kw["x"]), Fraction(1, 2))
    if n == "numpy.allclose" and set(kw) >= {"a", "b"}:
        return T.all_(norm_lib("numpy.isclose", kw))
    if n in ("numpy.ones_like", "numpy.zeros_like") and ok("a"):
        return raw("lib", "numpy.full_like", (("a", kw["a"]), ("fill_value", num(1 if n == "numpy.ones_like" else 0))))
    if n == "numpy.full_like" and ok("a", "fill_value") and ndim_of(kw["a"]) == 1 and ndim_of(kw["fill_value"]) == 0 and ty(kw["a"]) == "arr1":
        return mul(kw["fill_value"], norm_lib("numpy.ones", {"shape": mk("dim", kw["a"], 0)}))
    if n == "pandas.concat" and kw.get("objs", NONE).op == "list":
        kw = dict(kw, objs=raw("tuple", *kw["objs"].args))
    if n == "numpy.any" and ok("a", "axis"):
        return mk("any", kw["a"], ax)
    if n == "numpy.all" and ok("a", "axis"):
        return all_(kw["a"], ax)
    if n in ("numpy.sum", "numpy.nansum", "numpy.mean", "numpy.min", "numpy.max", "numpy.amin", "numpy.amax", "numpy.prod") and ok("a", "axis", "keepdims"):
        op = {"min": "amin", "max": "amax"}.get(n[6:], n[6:])
        return keep(mk(op, kw["a"], ax), kw, kw["a"])
    if n == "numpy.count_nonzero" and ok("a", "axis"):
        a = kw["a"]
        bools = ty(a) == "bool" or a.op in ("lt", "le", "eq", "not", "and", "or", "isnan", "isinf", "intle", "inteq", "in")
        return mk("sum", a if bools else not_(mk("eq", a, Z)), ax)
    if n == "numpy.average" and ok("a", "axis"):
        return mk("mean", kw["a"], ax)
    if n in ("numpy.std", "numpy.var") and ok("a", "axis", "ddof", "keepdims"):
        s = mk("std", kw["a"], ax, kw.get("ddof", Z))
        s = keep(s, kw, kw["a"])
        return s if n == "numpy.std" else T.power(s, 2)
    if n == "scipy.stats.sem" and ok("a", "ddof", "axis"):
        return T.div(mk("std", kw["a"], ax, kw.get("ddof", num(1))), T.power(mk("size", kw["a"]), Fraction(1, 2)))
    if n == "numpy.clip" and ok("a", "a_min", "a_max", "min", "max"):
        x = kw["a"]
        kw = {"a_min": kw.get("a_min", kw.get("min", NONE)), "a_max": kw.get("a_max", kw.get("max", NONE))}
        if kw["a_min"] is not NONE:
            x = mk("maximum", x, kw["a_min"])
        if kw["a_max"] is not NONE:
            x = mk("minimum", x, kw["a_max"])
        return x
    if n == "scipy.special.logsumexp" and ok("a", "axis", "keepdims"):
        s = mk("sum", mk("exp", kw["a"]), ax)
        return mk("log", keep(s, kw, kw["a"]))
    if n == "numpy.sort" and ok("a"):
        return mk("sort", kw["a"])
    if n == "numpy.unique" and ok("ar"):
        return raw("unique", kw["ar"])
    if n == "numpy.argsort" and ok("a", "kind"):
        k = kw.get("kind", NONE)
        if k in (string("mergesort"), string("stable")):
            k = string("stable")
        elif k is string("quicksort"):
            k = NONE
        return raw("argsort", kw["a"], k)
    if n == "numpy.argsort" and ok("a", "kind", "axis"):
        return raw("ulib", n, (), tuple(sorted(kw.items())))
    if n == "numpy.cumsum":
        return raw("cumsum", kw["a"], _axis(kw["a"], ax))
    if n == "numpy.where":
        if ok("condition"):
            return tup(mk("nonzero", kw["condition"])) if ndim_of(kw["condition"]) == 1 else raw("nonzero_t", kw["condition"])
        return mk("where", kw.get("condition"), kw.get("x", NONE), kw.get("y", NONE))
    if n == "numpy.take_along_axis" and set(kw) == {"arr", "indices", "axis"} and kw["indices"].op == "kd" and kw["indices"].args[1] == 1 and kw["axis"] in (num(1), num(-1)):
        i = kw["indices"].args[0]
        return mk("kd", mk("getitem", kw["arr"], tup(raw("range", Z, mk("dim", kw["arr"], 0), num(1)), i)), 1)
    if n == "numpy.full" and kw.get("fill_value") in (TRUE, FALSE) and kw.get("dtype", NONE) in (NONE, string("bool")) and set(kw) <= {"shape", "fill_value", "dtype"}:
        return norm_lib("numpy.ones" if kw["fill_value"] is TRUE else "numpy.zeros", {"shape": kw["shape"], "dtype": string("bool")})
    if n in ("numpy.argmin", "numpy.argmax") and kw["a"].op == "poly" and kw["a"].args[0][0] != 1:
        # the place of an extreme does not depend on a scale
        c = kw["a"].args[0][0]
        kw = dict(kw, a=mul(kw["a"], num(1 / abs(c))))
        if c < 0:
            n, kw = ("numpy.argmin" if n == "numpy.argmax" else "numpy.argmax"), dict(kw, a=T.neg(kw["a"]))
        return norm_lib(n, kw)
    if n in ("numpy.argmin", "numpy.argmax") and intval(ax) is not None and intval(ax) < 0 and ndim_of(kw["a"]) is not None:
        kw = dict(kw, axis=num(intval(ax) + ndim_of(kw["a"])))
    if n == "numpy.searchsorted" and kw.get("side") is string("right") and kw.get("sorter", NONE) is NONE and kw["a"].op == "concat" and kw["a"].args[0] is Z:
        first = kw["a"].args[1][0]
        if first.op == "list" and first.args[0] is T.neg(T.INF):
            # nothing lies below -inf
            rest = concat(Z, ((raw("list", *first.args[1:]),) if len(first.args) > 1 else ()) + kw["a"].args[1][1:])
            return add(num(1), norm_lib(n, dict(kw, a=rest)))
    if n == "numpy.identity":
        return norm_lib("numpy.eye", {"N": kw["n"]})
    if n == "numpy.eye" and kw.get("M") is kw.get("N"):
        kw = {k: v for k, v in kw.items() if k != "M"}
    if n == "numpy.trapz":
        a = kw.get("axis")
        if a is not None and (intval(a) == 1 or ndim_of(kw["y"]) == 1 and intval(a) == 0):
            kw = {k: v for k, v in kw.items() if k != "axis"}
        if set(kw) == {"x", "y"}:
            sy, sx = step(kw["y"], num(-1)), step(kw["x"], num(-1))
            if sy is not None and sx is not None and ndim_of(kw["y"]) == ndim_of(kw["x"]):
                area = mul(mul(num(Fraction(1, 2)), add(*sy)), T.sub(sx[1], sx[0]))
                return mk("sum", area, num(ndim_of(kw["y"]) - 1))
    if n == "numpy.diff" and ok("a", "axis", "n"):
        a = kw.get("axis")
        x = kw["a"]
        kw2 = dict(kw)
        if a is not None and (intval(a) == 1 or (ndim_of(x) == 1 and intval(a) == 0)):
            del kw2["axis"]
        if "n" not in kw2:
            r = step(x, kw2.get("axis", num(-1)))
            if r is not None:
                return T.sub(r[1], r[0])
        return raw("lib", n, tuple(sorted(kw2.items())))
    if n == "numpy.percentile" and "q" in kw:
        a = kw.get("axis")
        if a is not None and ndim_of(kw["a"]) == 1 and intval(a) == 0:
            pass
        if kw["q"].op in ("list", "tuple"):
            return raw("list", *[norm_lib(n, dict(kw, q=q)) for q in kw["q"].args])
    if n == "numpy.quantile" and "q" in kw:
        q = kw["q"]
        if q.op in ("list", "tuple"):
            q = raw(q.op, *[mul(num(100), x) for x in q.args])
        else:
            q = mul(num(100), q)
        return norm_lib("numpy.percentile", dict(kw, q=q))
    if n == "decimal.Decimal" and ok("value"):
        v = kw.get("value", Z)
        if v.op == "tuple" and len(v.args) == 3:
            return mk("decfromtuple", *v.args)
        return mk("decimal", v)
    if n == "pandas.DataFrame" and kw.get("data", NONE).op == "dict" and kw["data"].args and all(ndim_of(v) in (1, None) and not is_const(v) for _, v in kw["data"].args) and "index" in kw:
        ks = tup(*[k for k, _ in kw["data"].args])
        cols = kw.get("columns", ks)
        if cols.op in ("list", "tuple") and cols.args == ks.args:
            return norm_lib(n, dict(kw, data=mk("stack", num(1), tuple(v for _, v in kw["data"].args)), columns=cols))
    if n == "pandas.Series" and kw.get("copy") is not None and "data" in kw:
        kw = {k: v for k, v in kw.items() if k != "copy"}
        if set(kw) == {"data"}:
            return kw["data"]
    if n == "pandas.Series" and set(kw) == {"data"} and ty(kw["data"]) == "series":
        return kw["data"]
    if n == "numpy.full" and set(kw) == {"shape", "fill_value"} and ndim_of(kw["fill_value"]) == 0 and ty(kw["fill_value"]) != "bool" and kw["fill_value"].op != "nan":
        return mul(kw["fill_value"], norm_lib("numpy.ones", {"shape": kw["shape"]}))
    if n in ("numpy.ones", "numpy.zeros") and kw.get("shape") is not None and kw["shape"].op in ("tuple", "list"):
        sh = kw["shape"]
        kw = dict(kw, shape=sh.args[0] if len(sh.args) == 1 else raw("tuple", *sh.args))
    if n == "numpy.repeat" and kw.get("a") is not None and kw["a"].op in ("list", "tuple") and len(kw["a"].args) == 1 and ndim_of(kw["a"].args[0]) == 0 and kw.get("axis", Z) in (Z, NONE, num(-1)):
        return mul(kw["a"].args[0], norm_lib("numpy.ones", {"shape": kw["repeats"]}))
    if n == "numpy.repeat" and set(kw) == {"a", "repeats"} and ndim_of(kw["a"]) == 0:
        return mul(kw["a"], norm_lib("numpy.ones", {"shape": kw["repeats"]}))
    if n == "numpy.repeat" and kw.get("a") is not None and kw["a"].op == "getitem" and kw["a"].args[1] is NONE and ndim_of(kw["a"].args[0]) == 1:
        kw = dict(kw, a=lst(kw["a"].args[0]))
    if n == "numpy.repeat" and set(kw) == {"a", "repeats", "axis"} and kw["axis"] is Z and kw["a"].op in ("list", "tuple") and len(kw["a"].args) == 1 and ndim_of(kw["a"].args[0]) == 1 and kw["a"].args[0].op not in ("list", "tuple") and ty(kw["repeats"]) == "int":
        x = kw["a"].args[0]
        return add(x, raw("lib", "numpy.zeros", (("shape", tup(kw["repeats"], mk("dim", x, 0))),)))
    if n == "numpy.broadcast_to" and set(kw) == {"array", "shape"} and kw["shape"].op == "tuple" and len(kw["shape"].args) == 2 and ndim_of(kw["array"]) == 1:
        return add(kw["array"], raw("lib", "numpy.zeros", (("shape", kw["shape"]),)))
    if n == "numpy.tile" and set(kw) == {"A", "reps"}:
        a, r = kw["A"], kw["reps"]
        if ndim_of(a) == 0 and is_int(r):
            return mul(a, norm_lib("numpy.ones", {"shape": r}))
        if ndim_of(a) == 1 and r.op == "tuple" and len(r.args) == 2 and r.args[1] is num(1):
            return norm_lib("numpy.repeat", {"a": lst(a), "repeats": r.args[0], "axis": Z})
    if n == "numpy.average" and set(kw) <= {"a", "axis", "weights"} and "weights" in kw:
        w = kw["weights"]
        return T.div(mk("sum", mul(kw["a"], w), ax), mk("sum", w, ax))
    if n == "numpy.concatenate":
        a = kw.get("arrays")
        if a is not None and a.op in ("list", "tuple") and ok("arrays", "axis"):
            return mk("concat", kw.get("axis", Z), tuple(a.args))
    if n == "numpy.stack":
        a = kw.get("arrays")
        if a is not None and a.op == "map" and ok("arrays", "axis") and kw.get("axis") in (num(1), num(-1)) and a.args[0].op == "irange":
            it, var, body = a.args
            if body.op == "eq" and var in body.args and body.args[0] is not body.args[1]:
                y = body.args[0] if body.args[1] is var else body.args[1]
                if ndim_of(y) == 1 and not T.contains(y, lambda u: u is var):
                    return T.eq(mk("kd", y, 1), raw("range", *it.args))
        if a is not None and a.op in ("list", "tuple") and ok("arrays", "axis"):
            return mk("stack", kw.get("axis", Z), tuple(a.args))
    if n in ("scipy.stats.t.interval",) and ok("confidence", "df", "loc", "scale"):
        # (loc + scale * q_lo, loc + scale * q_hi) with q_hi = -q_lo = ppf((1+c)/2)
        c, df = kw["confidence"], kw["df"]
        loc, sc = kw.get("loc", Z), kw.get("scale", num(1))
        q = tq(mul(num(Fraction(1, 2)), add(num(1), c)), df)
        return tup(T.sub(loc, mul(sc, q)), add(loc, mul(sc, q)))
    if n == "scipy.stats.t.ppf" and ok("q", "df", "loc", "scale"):
        return add(kw.get("loc", Z), mul(kw.get("scale", num(1)), tq(kw["q"], kw["df"])))
    if n == "scipy.stats.t.isf" and ok("q", "df", "loc", "scale"):
        return add(kw.get("loc", Z), mul(kw.get("scale", num(1)), tq(T.sub(num(1), kw["q"]), kw["df"])))
    if n == "scipy.stats.norm.logpdf" and ok("x", "loc", "scale"):
        loc, sc = kw.get("loc", Z), kw.get("scale", num(1))
        z = T.div(T.sub(kw["x"], loc), sc)
        half = num(Fraction(1, 2))
        e = T.neg(add(mul(half, T.power(z, 2)), add(mk("log", sc), mul(half, mk("log", mul(num(2), raw("pi")))))))
        return e
    if n == "scipy.stats.norm.pdf" and ok("x", "loc", "scale"):
        return mk("exp", norm_lib("scipy.stats.norm.logpdf", kw))
    return raw("lib", n, tuple(sorted(kw.items())))


def step(x, axis):
    """(x without its last entry, x without its first entry) along the axis."""
    d, a = ndim_of(x), intval(axis)
    if d not in (1, 2) or a is None:
        return None
    a %= d
    idx = lambda s: s if a == 0 else tup(FULL, s)
    return getitem(x, idx(mk("slice", NONE, num(-1), NONE))), getitem(x, idx(mk("slice", num(1), NONE, NONE)))


def tq(q, df):
    """Student-t quantile; antisymmetric around 1/2."""
    d = T.to_poly(q)
    c0 = d.get((), Fraction(0))
    rest = {m: c for m, c in d.items() if m != ()}
    if rest and T.from_poly(rest).op in ("poly",) and T.from_poly(rest).args[0][0] < 0:
        return T.neg(raw("tq", T.sub(num(1), q), df))
    return raw("tq", q, df)


@cons("tq")
def _tq(q, df):
    return tq(q, df)


@cons("sort")
def _sort(x):
    if x.op in ("unique", "sort"):
        return x
    return raw("sort", x)


@cons("dot")
def dot(a, b):
    if ndim_of(b) == 1 and ndim_of(a) == 2:
        return mk("sum", mul(a, b), num(1))
    if ndim_of(a) == 1 and ndim_of(b) == 1:
        return mk("sum", mul(a, b), NONE)
    return raw("dot", a, b)


@cons("where")
def where(c, a, b):
    if c.op == "not":
        return where(c.args[0], b, a)
    if c.op == "kd":
        return where(c.args[0], a, b)
    if a is b:
        return a
    if c is TRUE or c is FALSE:
        return a if c is TRUE else b
    if b is Z and ndim_of(c) == 1 and ndim_of(a) == 2:
        return mul(c, a)  # columns left out count nothing
    if c.op in ("lt", "le"):
        # a selection by comparison is a maximum or minimum (NaNs aside)
        x, y = c.args
        if a is x and b is y:
            return mk("minimum", x, y)
        if a is y and b is x:
            return mk("maximum", x, y)
        if all(ndim_of(u) == 0 for u in (x, y, a, b)):
            return T.ite(c, a, b)  # nothing but scalars
    return raw("where", c, a, b)


@cons("concat")
def concat(axis, xs):
    out = []
    for x in xs:
        if x.op == "concat" and x.args[0] is axis:
            out.extend(x.args[1])
        else:
            out.append(x)
    out2 = []
    for x in out:
        if x.op == "tuple":
            x = raw("list", *x.args)
        if x.op == "lib" and x.args[0] in ("numpy.zeros", "numpy.ones") and len(out) > 1 and any(k == "dtype" and v.op == "attr" and v.args[1] == "dtype" for k, v in x.args[1]):
            x = raw("lib", x.args[0], tuple(kv for kv in x.args[1] if kv[0] != "dtype"))
        if axis is num(0):
            x = entries(x)
            if x.op == "list" and not x.args:
                continue
        if x.op == "list" and out2 and out2[-1].op == "list" and axis is num(0):
            out2[-1] = raw("list", *(out2[-1].args + x.args))
        else:
            out2.append(x)
    if len(out2) == 1:
        return out2[0]
    if not out2:
        return raw("list")
    if axis is num(1) and len(out2) == 2 and out2[0].op == "kd" and out2[0].args[1] == 1:
        # a new first column in front of the other columns
        rest = tup(FULL, raw("slice", num(1), NONE, NONE))
        m = {u: u.args[0] for u in T.subterms(out2[1]) if u.op == "getitem" and u.args[1] is rest}
        if m:
            b = subst(out2[1], m)
            if ndim_of(b) in (2, None) and mk("getitem", b, rest) is out2[1]:
                return mk("store", b, tup(FULL, Z), out2[0].args[0])
    return raw("concat", axis, tuple(out2))


@cons("cstack")
def cstack(xs):
    nd = {ndim_of(y) for y in xs}
    if nd == {1} or nd == {1, None}:
        return mk("stack", num(1), xs)
    return raw("cstack", xs)


@cons("nonzero")
def nonzero(x):
    if x.op == "not" and x.args[0].op == "eq":
        x = T.sub(*x.args[0].args)
    if x.op == "poly" and x.args[0][0] != 1:
        x = mul(x, num(1 / x.args[0][0]))
    if x.op == "concat" and x.args[0] is Z and len(x.args[1]) == 2 and x.args[1][1] is lst(TRUE) and ndim_of(x.args[1][0]) == 1:
        m = x.args[1][0]  # the position after the last one always counts
        return mk("concat", Z, (nonzero(m), lst(mk("dim", m, 0))))
    return raw("nonzero", x)


@cons("atl1")
def atl1(x):
    """One part of a joined row: a scalar stands for its one-entry list."""
    if x.op in ("list", "tuple"):
        return x
    if ndim_of(x) == 0 or is_const(x) or ty(x) in ("int", "float"):
        return lst(x)
    if x.op == "param" and x.args[1].rstrip("?") in ("float", "int") and x.args[1].endswith("?"):
        return raw("atl1", x)
    return x


@cons("stack")
def stack(axis, xs):
    if intval(axis) == -1 and all(ndim_of(x) == 1 for x in xs):
        axis = num(1)
    if intval(axis) == 0 and all(ndim_of(x) == 0 for x in xs):
        return raw("list", *xs)
    return raw("stack", axis, tuple(xs))


def entries(x):
    """A short one-dimensional array with known entries, as a list."""
    f = T._filled(x)
    if f is None and x.op == "poly" and len(x.args) == 1 and len(x.args[0][1]) == 1 and x.args[0][1][0][1] == 1:
        f = T._filled(x.args[0][1][0][0])
        f = f and (num(x.args[0][0] * f[0].args[0]), f[1])
    if f is not None:
        sh = f[1].args[0] if f[1].op in ("tuple", "list") and len(f[1].args) == 1 else f[1]
        n = intval(sh) if sh.op == "num" else None
        if n is not None and 0 <= n <= 8:
            return raw("list", *([f[0]] * n))
    if x.op == "getitem" and x.args[1].op == "slice" and ndim_of(x.args[0]) == 1:
        lo, hi, st = x.args[1].args
        if st is NONE and (lo, hi) == (num(-1), NONE):
            return raw("list", getitem(x.args[0], num(-1)))
        if st is NONE and (lo, hi) == (NONE, num(1)):
            return raw("list", getitem(x.args[0], num(0)))
    return x


def as_list(x, n="builtins.list"):
    if x.op in ("list", "tuple"):
        return raw("list" if n.endswith("list") else "tuple", *x.args) if n != "builtins.sorted" else x
    if ty(x) == "dict" or x.op in ("dict", "mdict"):
        if x.op == "dict":
            return raw("list", *[k for k, _ in x.args])
        return raw("dkeys", x)
    if x.op == "zip":
        i = raw("bound", 0, "int")
        xs = [as_list(y) for y in x.args]
        it = raw("irange", Z, mk("dim", xs[0], 0), num(1))
        h = 1 + max([_height(y) for y in xs] + [-1])
        v = T.bound(h, "int")
        return mk("map", it, v, tup(*[mk("getitem", y, v) for y in xs]))
    return x


def loop_bool(k, a):
    if a.op in ("list", "tuple"):
        xs = [truth(x) for x in a.args]
        return or_(*xs) if k == "any" else and_(*xs)
    if a.op == "map":
        it, v, b = a.args
        b = truth(b)
        return mk("anyloop", it, v, b) if k == "any" else not_(mk("anyloop", it, v, not_(b)))
    if a.op == "fmap":
        it, v, c, b = a.args
        b = truth(b)
        return mk("anyloop", it, v, and_(c, b)) if k == "any" else not_(mk("anyloop", it, v, and_(c, not_(b))))
    return mk("any", a, NONE) if k == "any" else all_(a)


@cons("truthy")
def truth(x):
    if ty(x) == "bool":
        return x
    if x.op in ("num", "str", "none", "inf"):
        return not_(not_(x))
    if x.op in ("list", "tuple", "dict"):
        return boolean(len(x.args) > 0)
    if ty(x) == "int" or x.op == "poly" and ndim_of(x) in (0, None) and not any(a.op in ("umeth", "opaque", "ulib") for _, m in x.args for a, _e in m):
        return not_(eq(x, num(0)))
    if ty(x) in ("list", "liststr", "listdec", "str", "dict"):
        return not_(eq(mk("dim", x, 0), num(0)))
    if x.op == "ite":
        return ite(x.args[0], truth(x.args[1]), truth(x.args[2]))
    if x.op == "param" and x.args[1] in ("arr1", "lab1", "arr2", "df", "series", "fn", "obj"):
        return raw("truthy", x)
    if x.op in ("any", "not", "and", "or", "in"):
        return x
    return raw("truthy", x)


def is_pandas(t):
    """A table or a column taken from one (not its bare values)."""
    while t.op in ("getitem", "store", "idxname") or t.op == "attr" and t.args[1] in ("loc", "iloc", "at", "T"):
        t = t.args[0]
    return t.op == "param" and t.args[1] in ("df", "series") or t.op == "lib" and t.args[0] in ("pandas.DataFrame", "pandas.Series")


def meth_call(recv, name, args, kwargs):
    """Canonical term of a pure method call (receiver/args dereferenced)."""
    if recv.op == "ite" and (name in ("format",) or recv.args[1].op in ("str",)):
        return ite(recv.args[0], meth_call(recv.args[1], name, args, kwargs), meth_call(recv.args[2], name, args, kwargs))
    if name == "format":
        return str_format(recv, args, kwargs)
    if name == "join" and ty(recv) == "str":
        return mk("strjoin", recv, args[0])
    if recv.op == "ulib" and recv.args[0] in ("scipy.stats.norm", "scipy.stats.t") and len(recv.args) == 3:
        # a frozen distribution: its parameters are those of the call
        names = {"scipy.stats.norm": ("loc", "scale"), "scipy.stats.t": ("df", "loc", "scale")}[recv.args[0]]
        kw = dict(zip(names, recv.args[1]), **dict(recv.args[2]))
        if recv.args[0] + "." + name in SIG and len(recv.args[1]) <= len(names) and not set(kw) & set(kwargs):
            return lib_call(recv.args[0] + "." + name, args, dict(kwargs, **kw))
    if name == "translate" and len(args) == 1 and args[0].op == "mdict" and not kwargs:
        it, var, kb, vb = args[0].args
        if vb is NONE and kb.op == "ulib" and kb.args[0] == "builtins.ord" and kb.args[1][0].op == "getitem" and kb.args[1][0].args[1] is var:
            s = kb.args[1][0].args[0]
            if it is raw("irange", Z, mk("dim", s, 0), num(1)):
                return meth_call(recv, name, [lib_call("builtins.str.maketrans", [string(""), string(""), s], {})], {})
    if name == "get" and len(args) in (1, 2) and not kwargs:
        return dictget(recv, args[0], args[1] if len(args) > 1 else NONE)
    if name in ("keys", "items", "values") and not args:
        if name == "keys":
            return raw("list", *[k for k, _ in recv.args]) if recv.op == "dict" else raw("dkeys", recv)
        if name == "items":
            return raw("list", *[tup(k, v) for k, v in recv.args]) if recv.op == "dict" else raw("ditems", recv)
        return raw("list", *[v for _, v in recv.args]) if recv.op == "dict" else raw("dvalues", recv)
    if name == "item" and not args and ndim_of(recv) == 1:
        return mk("getitem", recv, Z)
    if name in ("tolist", "to_list", "copy", "to_numpy", "item", "squeeze_") and not args:
        if name == "to_numpy":
            return mk("attr", recv, "values")
        return recv
    if name == "copy":
        return recv
    if name == "astype" and args:
        return mk("astype", recv, typename(args[0]))
    if name == "is_nan":
        return mk("isnan", recv)
    if name == "is_finite":
        return isfinite(recv)
    if name == "is_infinite":
        return mk("isinf", recv)
    if name == "is_zero":
        return eq(recv, num(0))
    if name in ("isnull", "isna") and not args:
        return mk("isnan", recv)
    if name in ("notnull", "notna") and not args:
        return not_(mk("isnan", recv))
    if name in ("copy_abs",):
        return mk("abs", recv)
    if name in ("logical_and",):
        pass
    if name == "reshape":
        a = list(args[0].args) if len(args) == 1 and args[0].op == "tuple" else list(args)
        if [intval(x) for x in a] == [-1, 1]:
            return mk("kd", recv, 1)
        if [intval(x) for x in a] == [1, -1] and ndim_of(recv) == 1:
            return mk("getitem", recv, NONE)
        return raw("ulib", "reshape", (recv,) + tuple(a))
    if name in METH_AS_FUNC and is_pandas(recv):
        kw = dict(kwargs)
        if name in ("std", "var"):
            kw.setdefault("ddof", num(1))
        elif name not in ("sum", "mean", "min", "max", "any", "all"):
            return raw("umeth", recv, name, tuple(args), tuple(sorted(kwargs.items())))
        if ndim_of(recv) == 2 and not args:
            kw.setdefault("axis", Z)
        f = {"numpy.sum": "numpy.nansum", "numpy.mean": "numpy.nanmean", "numpy.std": "numpy.nanstd", "numpy.var": "numpy.nanvar", "numpy.min": "numpy.nanmin", "numpy.max": "numpy.nanmax"}.get(METH_AS_FUNC[name], METH_AS_FUNC[name])
        return lib_call(f, [recv] + list(args), kw)
    if name in METH_AS_FUNC and METH_AS_FUNC[name] and ty(recv) not in ("str", "dec"):
        return lib_call(METH_AS_FUNC[name], [recv] + list(args), kwargs)
    if name == "unique" and not args:
        return raw("lib", "pandas.unique", (("values", recv),))
    if name == "as_integer_ratio":
        pass
    if name == "replace" and recv.op == "str" and all(a.op == "str" for a in args) and len(args) == 2:
        return string(recv.args[0].replace(args[0].args[0], args[1].args[0]))
    if name == "index" and len(args) == 1 and args[0].op == "str" and len(args[0].args[0]) == 1 and not args[0].args[0].isalnum():
        name = "find"  # a position found is the same; a missing character raises
    if name in METHSIG:
        try:
            kw = bind_sig(METHSIG[name], args, kwargs)
        except BadCall:
            return raw("umeth", recv, name, tuple(args), tuple(sorted(kwargs.items())))
        return raw("meth", recv, name, tuple(sorted(kw.items())))
    if name in PURE_METH:
        kw = {"_%d" % i: a for i, a in enumerate(args)}
        kw.update(kwargs)
        return raw("meth", recv, name, tuple(sorted(kw.items())))
    return raw("umeth", recv, name, tuple(args), tuple(sorted(kwargs.items())))


PURE_METH = {
    "as_tuple",
    "adjusted",
    "lower",
    "upper",
    "strip",
    "startswith",
    "endswith",
    "set_names",
    "to_string",
    "to_latex",
    "index",
    "count",
    "rjust",
    "ljust",
    "predict",
    "predict_proba",
    "predict_log_proba",
    "fit",
    "transpose",
    "maketrans",
    "append_",
    "normalize",
    "cache",
}


@cons("meth")
def _meth(recv, name, kws):
    return raw("meth", recv, name, kws)
