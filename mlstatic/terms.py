"""Hash-consed value-graph terms with normalising constructors.

Every value computed by the analysed source is represented by one Term.  Equal
terms are the same object (hash consing), so `is` decides equality of value
numbers.  The constructors below apply the algebraic identities the checker is
allowed to use (real-number arithmetic, lattice laws for min/max, boolean
algebra, exp/log laws, container laws).  No repository code is executed.
"""
from fractions import Fraction

_TAB = {}


class Term(object):
    __slots__ = ("op", "args", "id", "_kids", "_ty", "_hb")

    def __repr__(self):
        return show(self)

    def __lt__(self, other):
        return self.id < other.id

    def __hash__(self):
        return self.id


def raw(op, *args):
    key = (op, args)
    t = _TAB.get(key)
    if t is None:
        t = Term()
        t.op, t.args, t.id = op, args, len(_TAB)
        t._kids = None
        t._ty = 0
        t._hb = None
        _TAB[key] = t
    return t


def _collect(x, out):
    if isinstance(x, Term):
        out.append(x)
    elif isinstance(x, tuple):
        for y in x:
            _collect(y, out)


def kids(t):
    if t._kids is None:
        out = []
        _collect(t.args, out)
        t._kids = tuple(out)
    return t._kids


def subterms(t, seen=None):
    """All distinct subterms, children before parents not guaranteed."""
    seen = {} if seen is None else seen
    stack = [t]
    while stack:
        u = stack.pop()
        if u in seen:
            continue
        seen[u] = True
        stack.extend(kids(u))
    return seen


def contains(t, pred):
    return any(pred(u) for u in subterms(t))


CONS = {}


def cons(op):
    def deco(f):
        CONS[op] = f
        return f

    return deco


def mk(op, *args):
    f = CONS.get(op)
    return raw(op, *args) if f is None else f(*args)


def _mapargs(x, f):
    if isinstance(x, Term):
        return f(x)
    if isinstance(x, tuple):
        return tuple(_mapargs(y, f) for y in x)
    return x


LEAVES = {"num", "inf", "nan", "none", "bool", "str", "param", "func", "cls", "mod", "libv", "ref", "bound", "ell"}


def rebuild(t, f):
    """Rebuild t with children mapped by f, renormalising."""
    if t.op in LEAVES:
        return t
    if t.op == "poly":
        acc = num(0)
        for c, mono in t.args:
            p = num(c)
            for a, e in mono:
                p = mul(p, power(f(a), e))
            acc = add(acc, p)
        return acc
    return mk(t.op, *_mapargs(t.args, f))


def subst(t, mapping, memo=None):
    """Replace subterms by mapping (dict Term->Term), renormalising bottom-up."""
    memo = {} if memo is None else memo
    if not mapping:
        return t

    def go(u):
        if u in mapping:
            return mapping[u]
        r = memo.get(u)
        if r is None:
            if not kids(u):
                r = u
            else:
                r = rebuild(u, go)
            memo[u] = r
        return r

    import sys

    if sys.getrecursionlimit() < 20000:
        sys.setrecursionlimit(20000)
    return go(t)


# --------------------------------------------------------------------------
# Constants
# --------------------------------------------------------------------------
def num(x):
    if isinstance(x, float):
        x = Fraction(repr(x))
    return raw("num", Fraction(x))


INF = raw("inf")
NAN = raw("nan")
NONE = raw("none")
TRUE = raw("bool", True)
FALSE = raw("bool", False)
ELL = raw("ell")
BOTTOM = raw("bottom")


def string(s):
    return raw("str", s)


def boolean(b):
    return TRUE if b else FALSE


def is_num(t):
    return t.op == "num"


def numval(t):
    return t.args[0] if t.op == "num" else None


def is_const(t):
    if t.op in ("num", "inf", "nan", "none", "bool", "str", "ell"):
        return True
    if t.op in ("tuple", "list"):
        return all(is_const(k) for k in t.args)
    if t.op == "poly":
        return all(a.op == "inf" for _, m in t.args for a, _ in m)
    return False


def intval(t):
    if t.op == "num" and t.args[0].denominator == 1:
        return int(t.args[0])
    if t.op == "bool":
        return int(t.args[0])
    return None


# --------------------------------------------------------------------------
# Types / shapes (best effort; None = unknown)
# --------------------------------------------------------------------------
INT_LIB = {"int", "round_int"}
STR_METH = {"replace", "strip", "lower", "upper", "format", "join", "translate", "ljust", "rjust", "rstrip", "lstrip"}


# declared result types of boundary functions (filled from the specification's return annotations)
RETURN_TYPES = {}


def ty(t):
    if t._ty != 0:
        return t._ty
    t._ty = None
    r = _ty(t)
    t._ty = r
    return r


def _ty(t):
    op = t.op
    if op == "num":
        return "int" if t.args[0].denominator == 1 else "float"
    if op in ("inf", "nan"):
        return "float"
    if op == "none":
        return "none"
    if op in ("bool", "lt", "le", "eq", "not", "and", "or", "any", "anyloop", "intle", "inteq", "in", "is", "exc", "truthy", "isinst"):
        return "bool"
    if op in ("isnan", "isinf") or op == "lib" and t.args[0] == "numpy.isclose":
        return "bool"
    if op in ("str", "strcat", "strfmt", "strjoin", "strrep", "tostr", "fmt"):
        return "str"
    if op in ("list", "listcat", "listrep", "map", "fmap"):
        return "list"
    if op == "tuple":
        return "tuple"
    if op in ("dict", "mdict"):
        return "dict"
    if op == "param":
        return None if t.args[1].endswith("?") else "arr1" if t.args[1] == "lab1" else t.args[1] or None
    if op in ("dim", "size", "ndim", "ceilint", "toint", "floordiv", "mod_", "pred"):
        return "int"
    if op in ("elem", "bound"):
        return t.args[-1] if isinstance(t.args[-1], str) else None
    if op == "poly":
        if all(ty(a) in ("int", "bool") and e.denominator == 1 and e > 0 for _, m in t.args for a, e in m):
            if all(c.denominator == 1 for c, _ in t.args):
                return "int"
        return None
    if op == "ite":
        a, b = ty(t.args[1]), ty(t.args[2])
        if a == b:
            return a
        return None
    if op == "getitem":
        b = ty(t.args[0])
        if b == "str":
            return "str"
        if b == "listint":
            return "int"
        if b == "liststr":
            return "str"
        if b == "listdec":
            return "dec"
        return None
    if op in ("maximum", "minimum"):
        ts = set(ty(k) for k in t.args)
        return ts.pop() if len(ts) == 1 else None
    if op == "reduce" and t.args[0] in ("max", "min"):
        m = t.args[1]
        if m.op == "map" and ty(m.args[-1]) == "int":
            return "int"
        return None
    if op == "pcall":
        return RETURN_TYPES.get(t.args[0])
    if op in ("decround", "decimal", "decfromtuple"):
        return "dec"
    if op == "meth" and t.args[1] in STR_METH:
        return "str"
    if op == "meth" and t.args[1] in ("scaleb", "quantize"):
        return "dec"
    if op == "meth" and t.args[1] in ("adjusted", "find", "index", "count"):
        return "int"
    if op == "meth" and t.args[1] in ("is_nan", "is_finite", "is_zero", "is_infinite", "is_signed", "startswith", "endswith"):
        return "bool"
    if op == "attr" and t.args[1] == "exponent":
        return "int"
    if op == "lib" and t.args[0] in ("numpy.ceil", "numpy.floor"):
        return None
    return None


def ndim_of(t):
    if t.op == "param":
        return {"arr1": 1, "lab1": 1, "series": 1, "list": 1, "liststr": 1, "listdec": 1, "listint": 1, "arr2": 2, "df": 2, "int": 0, "float": 0, "bool": 0, "dec": 0, "str": 0, "arr01": Fraction(1, 2)}.get(t.args[1])
    if t.op in ("num", "inf", "nan", "bool"):
        return 0
    if t.op in ("map", "list", "tuple", "fmap", "listcat"):
        return 1
    if t.op == "poly":
        ds = [ndim_of(a) for _, m in t.args for a, _ in m]
        return None if None in ds else max(ds)
    if t.op in ("lt", "le", "eq", "isnan", "isinf", "not", "and", "or", "exp", "log", "abs", "maximum", "minimum"):
        ds = [ndim_of(a) for a in kids(t)]
        return None if (None in ds or not ds) else max(ds)
    if t.op in ("astype", "sort", "unique"):
        return ndim_of(kids(t)[0])
    if t.op == "lib" and t.args[0] == "numpy.eye":
        return 2
    if t.op == "lib" and t.args[0] == "numpy.isclose":
        ds = [ndim_of(dict(t.args[1])[k]) for k in ("a", "b") if k in dict(t.args[1])]
        return None if None in ds or not ds else max(ds)
    if t.op == "lib" and t.args[0] in ("numpy.median", "numpy.var", "numpy.nanmedian", "numpy.nanvar", "numpy.nanstd") and dict(t.args[1]).get("axis", NONE) is NONE:
        return 0
    if t.op == "lib" and t.args[0] in ("numpy.percentile", "numpy.quantile") and dict(t.args[1]).get("axis", NONE) is NONE and ndim_of(dict(t.args[1]).get("q", NONE)) == 0:
        return 0
    if t.op == "kd":
        n = ndim_of(t.args[0])
        return None if n is None else n + 1
    if t.op == "where":
        ds = [ndim_of(a) for a in t.args]
        return None if None in ds else max(ds)
    if t.op in ("dim", "size", "ndim", "sum", "mean", "amin", "amax", "std") and not (t.op in ("sum", "mean", "amin", "amax", "std") and len(t.args) > 1 and t.args[1] is not NONE):
        return 0
    if t.op == "argsort":
        return ndim_of(t.args[0])
    if t.op == "pcall":
        return {"arr1": 1, "arr2": 2}.get(RETURN_TYPES.get(t.args[0]))
    if t.op == "attr" and t.args[1] == "values":
        return ndim_of(t.args[0])
    if t.op == "lib" and t.args[0] in ("numpy.argmin", "numpy.argmax"):
        n = ndim_of(dict(t.args[1])["a"])
        return 0 if dict(t.args[1]).get("axis", NONE) is NONE else None if n is None else n - 1
    if t.op == "dot" and ndim_of(t.args[0]) == ndim_of(t.args[1]) == 2:
        return 2
    if t.op == "getitem":
        b, i = t.args[0], t.args[1]
        if i.op == "slice":
            return ndim_of(b)
        if i is NONE:
            n = ndim_of(b)
            return None if n is None else n + 1
        if i.op == "tuple" and ndim_of(b) is not None:
            n = ndim_of(b)
            adv = 0
            for x in i.args:
                if x is NONE:
                    n += 1
                elif x.op == "slice":
                    pass
                elif ty(x) == "int":
                    n -= 1
                elif ndim_of(x) == 1:
                    adv += 1
                else:
                    return None
            return n - max(0, adv - 1)
        if i.op not in ("tuple", "str", "param") and ndim_of(i) == 1:
            return ndim_of(b)
        if i.op != "tuple" and ty(i) == "int" and ty(b) in ("arr1", "arr2"):
            return ndim_of(b) - 1
    if t.op == "lib" and t.args[0] in ("numpy.zeros", "numpy.ones", "numpy.empty"):
        sh = dict(t.args[1]).get("shape")
        if sh is not None and sh.op == "tuple":
            return len(sh.args)
        if sh is not None and ty(sh) == "int":
            return 1
    if t.op == "lib" and t.args[0] == "numpy.diff":
        return ndim_of(dict(t.args[1])["a"])
    if t.op in ("sum", "mean", "amin", "amax", "std", "nansum", "nanmean") and len(t.args) > 1 and t.args[1].op == "num":
        n = ndim_of(t.args[0])
        return None if n is None or n == 0 else n - 1
    if t.op in ("fmax", "fmin"):
        ds = [ndim_of(a) for a in kids(t)]
        return None if None in ds else max(ds)
    if t.op == "store" and t.args[1].op != "lockey":
        return ndim_of(t.args[0])
    if t.op == "draw" and t.args[0] == "multinomial" and ty(dict(t.args[1]).get("size", NONE)) == "int":
        return 2
    if t.op == "cumsum":
        return ndim_of(t.args[0]) if t.args[1] is not NONE else 1
    if t.op in ("nonzero", "range", "listrep"):
        return 1
    if t.op == "ite":
        d = ndim_of(t.args[1])
        return d if d == ndim_of(t.args[2]) else None
    if t.op == "lib" and t.args[0] in ("numpy.linspace", "numpy.arange", "numpy.roots"):
        return 1
    if t.op == "lib" and t.args[0] == "numpy.full":
        sh = dict(t.args[1]).get("shape")
        if sh is not None and sh.op == "tuple":
            return len(sh.args)
        if sh is not None and ty(sh) == "int":
            return 1
    if t.op == "concat":
        ds = {ndim_of(x) for x in t.args[1]}
        return ds.pop() if len(ds) == 1 else None
    if t.op == "stack":
        ds = {ndim_of(x) for x in t.args[1]}
        d = ds.pop() if len(ds) == 1 else None
        return None if d is None else d + 1
    return None


def is_int(t):
    return ty(t) == "int"


# --------------------------------------------------------------------------
# Polynomials
# --------------------------------------------------------------------------
def to_poly(t):
    if t.op == "poly":
        return {m: c for c, m in t.args}
    if t.op == "num":
        return {(): t.args[0]} if t.args[0] != 0 else {}
    if t.op == "bool":
        return {(): Fraction(1)} if t.args[0] else {}
    if t.op == "astype" and t.args[1].op == "str" and t.args[1].args[0] == "float" and t.args[0].op not in BOOLISH:
        return to_poly(t.args[0])  # the numbers are the same
    return {((t, Fraction(1)),): Fraction(1)}


BOOLISH = {"lt", "le", "eq", "not", "and", "or", "isnan", "isinf", "any", "in", "is"}


def _monokey(m):
    return tuple((a.id, e) for a, e in m)


def from_poly(d):
    d = {m: c for m, c in d.items() if c != 0}
    if not d:
        return num(0)
    if len(d) == 1:
        (m, c), = d.items()
        if m == ():
            return num(c)
        if c == 1 and len(m) == 1 and m[0][1] == 1:
            return m[0][0]
    items = sorted(d.items(), key=lambda mc: _monokey(mc[0]))
    return raw("poly", *[(c, m) for m, c in items])


def _mono_mul(m1, m2):
    d = {}
    for a, e in m1 + m2:
        d[a] = d.get(a, 0) + e
    exps = [a for a in d if a.op == "exp" and d[a] != 0]
    coef_fix = None
    if len(exps) > 1 or (len(exps) == 1 and d[exps[0]] != 1):
        s = num(0)
        for a in exps:
            s = add(s, mul(num(d[a]), a.args[0]))
            del d[a]
        ee = mk("exp", s)
        if ee.op == "exp":
            d[ee] = d.get(ee, 0) + 1
        else:
            coef_fix = ee
    for a in [a for a, e in d.items() if a.op == "abs" and e != 0 and e % 2 == 0]:
        x = power(a.args[0], d.pop(a))
        coef_fix = x if coef_fix is None else mul(coef_fix, x)
    m = tuple(sorted(((a, e) for a, e in d.items() if e != 0), key=lambda ae: ae[0].id))
    return m, coef_fix


def _arith(a):
    """Operand of an arithmetic operation: int/float conversion is immaterial."""
    if a.op == "tofloat" and ty(a.args[0]) in ("int", "bool"):
        return a.args[0]
    return a


_ADD, _MUL = {}, {}


def add(a, b):
    k = (a, b)
    r = _ADD.get(k)
    if r is None:
        r = _ADD[k] = _add(a, b)
    return r


def mul(a, b):
    k = (a, b)
    r = _MUL.get(k)
    if r is None:
        r = _MUL[k] = _mul(a, b)
    return r


def _add(a, b):
    a, b = _arith(a), _arith(b)
    ta, tb = ty(a), ty(b)
    if ta == "str" or tb == "str":
        return mk("strcat", a, b)
    if ta in ("list", "tuple") or tb in ("list", "tuple"):
        return mk("listcat", a, b)
    if a.op == b.op == "getitem" and a.args[0].op == b.args[0].op == "range" and a.args[1].op == b.args[1].op == "slice" and a is not b:
        return mk("listcat", a, b)
    for x, y in ((a, b), (b, a)):
        if x.op == "nan" and y.op in ("num", "inf", "nan"):
            return NAN
        # inf absorbs finite constants
        if x.op == "inf" and y.op == "num":
            return INF
        if x.op == "poly" and len(x.args) == 1 and y.op == "num" and x.args[0][1] == ((INF, Fraction(1)),):
            return x
    d = to_poly(a)
    d = dict(d)
    for m, c in to_poly(b).items():
        d[m] = d.get(m, 0) + c
    return _postpoly(from_poly(d))


def neg(a):
    return mul(num(-1), a)


def sub(a, b):
    return add(a, neg(b))


def _mul(a, b):
    a, b = _arith(a), _arith(b)
    for x, y in ((a, b), (b, a)):
        if ty(x) == "str" and x.op != "num":
            return mk("strrep", x, y)
        if ty(x) in ("list", "tuple"):
            return mk("listrep", x, y)
    for x, y in ((a, b), (b, a)):
        if x.op == "nan" and y.op in ("num", "inf", "nan"):
            return NAN
        if x.op == "inf" and y.op == "num":
            if y.args[0] > 0:
                return INF
            if y.args[0] < 0:
                return raw("poly", (Fraction(-1), ((INF, Fraction(1)),)))
    pa, pb = to_poly(a), to_poly(b)
    if len(pa) * len(pb) > 80:
        # too large to expand: keep as opaque product atom
        fs = sorted([a, b])
        return raw("poly", (Fraction(1), tuple(_dedup(fs))))
    d = {}
    extra = []
    for m1, c1 in pa.items():
        for m2, c2 in pb.items():
            m, fix = _mono_mul(m1, m2)
            if fix is not None:
                extra.append(mul(from_poly({m: c1 * c2}), fix))
            else:
                d[m] = d.get(m, 0) + c1 * c2
    r = from_poly(d)
    for e in extra:
        r = add(r, e)
    return _postpoly(r)


def _dedup(fs):
    d = {}
    for f in fs:
        d[f] = d.get(f, Fraction(0)) + 1
    return sorted(d.items(), key=lambda ae: ae[0].id)


def _postpoly(t):
    """mean(e) recognition: sum(e)*count(e)^-1 -> mean(e)."""
    if t.op != "poly":
        return t
    r = _broadcast(t)
    if r is not None:
        return r
    if any(a.op == "std" for _, m in t.args for a, _e in m):
        r = _bessel(t)
        if r is not None:
            return r
    out = None
    for i, (c, m) in enumerate(t.args):
        # the smaller of two counts, over the number of items
        xs = [a for a, e in m if a.op in ("maximum", "minimum") and e == 1]
        ds = [a for a, e in m if a.op in ("dim", "size") and e == -1]
        if len(m) == 2 and len(xs) == 1 and len(ds) == 1 and any(y.op == "sum" and _count_of(y, ds[0]) for y in (_scaled_atom(x)[1] for x in xs[0].args)):
            q = power(ds[0], -1)
            new = mul(num(c), mk(xs[0].op, *[mul(x, q) for x in xs[0].args]))
            return add(new, from_poly({mm: cc for cc, mm in t.args if mm is not m}))
    for i, (c, m) in enumerate(t.args):
        sums = [(a, e) for a, e in m if a.op == "sum" and e == 1]
        dims = [(a, e) for a, e in m if a.op in ("dim", "size") and e == -1]
        hit = None
        for sa, _ in sums:
            for da, _ in dims:
                if _count_of(sa, da):
                    hit = (sa, da)
                    break
            if hit:
                break
        if hit:
            if out is None:
                out = [(num(cc), mm) for cc, mm in t.args]
            m2 = tuple((a, e) for a, e in m if a is not hit[0] and a is not hit[1])
            mt = mk("mean", hit[0].args[0], hit[0].args[1])
            out[i] = (mul(from_poly({m2: c}) if m2 else num(c), mt), None)
    if out is None:
        return t
    acc = num(0)
    for c, m in out:
        acc = add(acc, c if m is None else from_poly({m: c.args[0]}))
    return acc


def _filled(a):
    """(value, shape) of an array with one repeated entry."""
    if a.op == "lib" and a.args[0] in ("numpy.ones", "numpy.zeros"):
        kw = dict(a.args[1])
        if set(kw) == {"shape"}:
            return num(1 if a.args[0].endswith("ones") else 0), kw["shape"]
    return None


def _broadcast(t):
    """Leading new axes and arrays of ones are immaterial next to an operand
    that already has the full number of axes; zeros(s) + c is c * ones(s)."""
    atoms = {a for _, m in t.args for a, _e in m}
    news = [a for a in atoms if a.op == "getitem" and a.args[1] is NONE and ndim_of(a.args[0]) == 1]
    fills = [a for a in atoms if _filled(a) is not None]
    if not news and not fills:
        return None
    full = max([ndim_of(a) or 0 for a in atoms if a not in news and a not in fills] + [0])
    if news and full >= 2:
        return subst(t, {a: a.args[0] for a in news})
    if news and full <= 1 and not fills and all(ndim_of(a) is not None for a in atoms):
        # the row of a row-wise result
        return mk("getitem", subst(t, {a: a.args[0] for a in news}), NONE)
    for a in fills:
        v, sh = _filled(a)
        k = len(sh.args) if sh.op == "tuple" else 1
        others = [b for b in atoms if b is not a and ndim_of(b) != 0]
        if others and all(ndim_of(b) == k for b in others) and k > 0:
            # every element of the other operand meets one entry of the array
            if all(any(b in others for b, _e in m) or not any(b is a for b, _e in m) for _, m in t.args) or _common(t, others):
                return subst(t, {a: v})
        if v is num(0) and not others and len(t.args) == 2:
            rest = from_poly({m: c for c, m in t.args if m != ((a, 1),)})
            if not contains(rest, lambda u: u is a) and rest.op != "num" or rest.op == "num" and rest is not num(0):
                return mul(rest, raw("lib", "numpy.ones", (("shape", sh),)))
    return None


def _common(t, others):
    """Some monomial carries one of the other array operands."""
    return any(any(b in others for b, _e in m) for _, m in t.args)


def _bessel(t):
    """std(x, ddof=0)^e * (n - 1)^(-e/2) -> std(x, ddof=1)^e * n^(-e/2)."""
    for i, (c, m) in enumerate(t.args):
        for a, e in m:
            if a.op != "std" or a.args[2] is not num(0):
                continue
            n = mk("size", a.args[0]) if a.args[1] is NONE else mk("dim", a.args[0], intval(a.args[1])) if intval(a.args[1]) is not None and intval(a.args[1]) >= 0 else None
            if n is None:
                continue
            for b, g in m:
                if g != -Fraction(e) / 2 or b.op != "poly":
                    continue
                k = None
                if b is sub(n, num(1)):
                    k = Fraction(1)
                elif b is sub(num(1), n) and Fraction(g).denominator == 1:
                    k = Fraction(-1) ** int(g)
                if k is None:
                    continue
                rest = from_poly({tuple((x, y) for x, y in m if x is not a and x is not b): c * k})
                out = mul(rest, mul(power(mk("std", a.args[0], a.args[1], num(1)), e), power(n, g)))
                others = from_poly({mm: cc for j, (cc, mm) in enumerate(t.args) if j != i})
                return add(out, others)
    return None


def _count_of(s, d):
    e, axis = s.args[0], s.args[1]
    base = d.args[0]
    if not contains(e, lambda u: u is base):
        return False
    if d.op == "size":
        return axis is NONE
    ax = d.args[1]
    nd = ndim_of(base)
    if axis is NONE:
        return nd == 1 and ax == 0
    a = intval(axis)
    if a is None:
        return False
    if nd == 1:
        return True  # trailing-axis broadcasting of a vector
    return ax == a


def power(a, e):
    if a.op == "astype":
        a = from_poly(to_poly(a))
    if isinstance(e, Term):
        ev = numval(e)
        if ev is None:
            if a.op == "num" and a.args[0] == 1:
                return num(1)
            return raw("pow", a, e)
        e = ev
    a = _arith(a)
    e = Fraction(e)
    if e == 0:
        return num(1)
    if e == 1:
        return a
    if a.op == "nan":
        return NAN
    if a.op == "exp":
        return mk("exp", mul(num(e), a.args[0]))
    if a.op == "num":
        v = a.args[0]
        if e.denominator == 1:
            if v == 0 and e < 0:
                return raw("poly", (Fraction(1), ((a, e),)))
            return num(v ** int(e))
        r = _exact_root(v, e)
        if r is not None:
            return num(r)
        return raw("poly", (Fraction(1), ((a, e),)))
    if a.op == "poly":
        if len(a.args) == 1:
            c, m = a.args[0]
            out = num(1)
            if c != 1:
                if c < 0 and e.denominator != 1:
                    return raw("poly", (Fraction(1), ((a, e),)))
                out = power(num(c), e)
            for x, ex in m:
                if e.denominator == 2 and ex.denominator == 1 and ex % 2 == 0:
                    out = mul(out, power(mk("abs", x), ex * e))
                else:
                    out = mul(out, _atompow(x, ex * e))
            return out
        if e.denominator == 1 and 0 < e <= 4 and len(a.args) <= 6:
            out = a
            for _ in range(int(e) - 1):
                out = mul(out, a)
            return out
        if e.denominator == 2:
            r = perfect_root(a)
            if r is not None:
                return power(mk("abs", r), e * 2)
        if e.denominator == 2:
            g = _root_content(a)
            if g is not None:
                return mul(power(g, e), power(mul(a, power(g, -1)), e))
        # content normalisation: leading coefficient 1
        c0 = a.args[0][0]
        if c0 != 1 and (c0 > 0 or e.denominator == 1):
            inner = mul(a, num(1 / c0))
            return mul(power(num(c0), e), _atompow(inner, e))
        return _atompow(a, e)
    return _atompow(a, e)


def _atompow(x, e):
    if e == 1:
        return x
    if x.op == "abs" and e % 2 == 0:
        return power(x.args[0], e)
    if x.op == "poly" and len(x.args) > 1 and e.denominator == 1 and 0 < e <= 4:
        out = x
        for _ in range(int(e) - 1):
            out = mul(out, x)
        return out
    return from_poly({((x, e),): Fraction(1)})


def _exact_root(v, e):
    if v < 0:
        return None
    n = v ** abs(e.numerator)
    k = e.denominator

    def iroot(z):
        r = round(z ** (1.0 / k))
        for c in (r - 1, r, r + 1):
            if c >= 0 and c ** k == z:
                return c
        return None

    p, q = iroot(n.numerator), iroot(n.denominator)
    if p is None or q is None or p == 0:
        return Fraction(0) if v == 0 and e > 0 else None
    r = Fraction(p, q)
    return r if e > 0 else 1 / r


def div(a, b):
    return mul(a, power(b, -1))


@cons("exp")
def _exp(t):
    if t.op == "ite":
        return raw("exp", t)
    p = to_poly(t)
    out = num(1)
    rest = {}
    for m, c in p.items():
        if len(m) == 1 and m[0][1] == 1 and m[0][0].op == "log":
            out = mul(out, power(m[0][0].args[0], c))
        else:
            rest[m] = c
    r = from_poly(rest)
    if r is num(0):
        return out
    if len(rest) == len(p):
        return raw("exp", t)
    return mul(out, raw("exp", r))


@cons("log")
def _log(t):
    if t.op == "exp":
        return t.args[0]
    if t.op == "num" and t.args[0] == 1:
        return num(0)
    if t.op == "num" and t.args[0].denominator != 1 and t.args[0] > 0:
        return sub(_log(num(t.args[0].numerator)), _log(num(t.args[0].denominator)))
    if t.op == "poly" and len(t.args) == 1:
        c, m = t.args[0]
        if c > 0:
            out = num(0) if c == 1 else _log(num(c))
            for a, e in m:
                out = add(out, mul(num(e), mk("log", a)))
            return out
    if t.op == "poly":
        c0 = abs(t.args[0][0])
        if c0 != 1:
            return add(_log(num(c0)), raw("log", mul(t, num(1 / c0))))
    return raw("log", t)


def _root_content(t):
    """A factor all monomials share that is never negative, or None."""
    common = None
    for _, m in t.args:
        d = dict(m)
        if common is None:
            common = d
        else:
            common = {a: e for a, e in common.items() if d.get(a) == e}
        if not common:
            return None
    keep = tuple((a, e) for a, e in t.args[0][1] if a in common and (Fraction(e).denominator == 1 and e % 2 == 0 or nonneg(a)))
    return from_poly({keep: Fraction(1)}) if keep else None


def nonneg(t):
    """t is never negative (NaNs aside)."""
    if t.op == "num":
        return t.args[0] >= 0
    if t.op in ("abs", "exp", "std", "dim", "size", "ndim", "inf", "bool", "itlen") or ty(t) == "bool":
        return True
    if t.op in ("sum", "mean", "amin", "amax", "nansum", "nanmean", "cumsum", "sort", "unique", "kd", "tofloat", "astype"):
        return nonneg(t.args[0])
    if t.op == "maximum":
        return any(nonneg(a) for a in t.args)
    if t.op == "minimum":
        return all(nonneg(a) for a in t.args)
    if t.op == "ite":
        return nonneg(t.args[1]) and nonneg(t.args[2])
    if t.op == "getitem":
        return nonneg(t.args[0]) and t.args[0].op not in ("tuple", "list", "dict")
    if t.op == "reduce" and t.args[1].op == "map":
        return nonneg(t.args[1].args[2])
    if t.op == "poly":
        return all(c > 0 and all(e % 2 == 0 or Fraction(e).denominator == 2 or nonneg(a) for a, e in m) for c, m in t.args)
    return False


def perfect_root(t):
    """r with r*r == t for a polynomial of several terms, or None."""
    if t.op != "poly" or not 3 <= len(t.args) <= 10:
        return None
    d = to_poly(t)
    sq = []
    for m, c in d.items():
        if c > 0 and all(Fraction(e, 2).denominator == 1 for _, e in m):
            r = _exact_root(c, Fraction(1, 2))
            if r is not None:
                sq.append(from_poly({tuple((a, Fraction(e, 2)) for a, e in m): r}))
    if not 2 <= len(sq) <= 4:
        return None
    import itertools

    for signs in itertools.product((1, -1), repeat=len(sq) - 1):
        r = sq[0]
        for sg, x in zip(signs, sq[1:]):
            r = add(r, x if sg > 0 else neg(x))
        if mul(r, r) is t:
            return r
    return None


@cons("abs")
def _abs(t):
    if t.op == "num":
        return num(abs(t.args[0]))
    if t.op in ("abs", "exp") or nonneg(t):
        return t
    if t.op == "poly" and t.args[0][0] < 0:
        t = neg(t)
    if t.op == "inf":
        return t
    if t.op == "poly" and len(t.args) == 1:
        c, m = t.args[0]
        if c != 1 and c > 0:
            return mul(num(c), mk("abs", mul(t, num(1 / c))))
    return raw("abs", t)


# --------------------------------------------------------------------------
# min / max lattice
# --------------------------------------------------------------------------
ORDER_FACTS = set()


def le_known(a, b):
    if a is b:
        return True
    if a.op == "num" and b.op == "num":
        return a.args[0] <= b.args[0]
    if b is INF or a is neg(INF):
        return True
    if a.op == "amin" and b.op == "amax" and a.args == b.args:
        return True
    return (a, b) in ORDER_FACTS


def _flat(op, args):
    out = []
    for a in args:
        if a.op == op:
            out.extend(a.args)
        else:
            out.append(a)
    return out


def _scaled_atom(a):
    """(c, atom) when a is c * atom with a constant c."""
    if a.op == "poly" and len(a.args) == 1:
        c, m = a.args[0]
        if len(m) == 1 and m[0][1] == 1:
            return c, m[0][0]
    return Fraction(1), a


def _flat_scaled(op, args):
    dual = "minimum" if op == "maximum" else "maximum"
    out = []
    for a in args:
        c, x = _scaled_atom(a)
        if x.op == (op if c > 0 else dual):
            out.extend(_flat_scaled(op, [mul(num(c), y) for y in x.args]))
        elif x is not a and x.op in (op, dual):
            # c * maximum inside a minimum (or the reverse): push the factor in
            out.append(raw(x.op if c > 0 else ("minimum" if x.op == "maximum" else "maximum"), *sorted(mul(num(c), y) for y in x.args)))
        else:
            out.append(a)
    return out


def _lat_scale(args):
    """The factor to pull out of an extremum, or None."""
    best = None
    for a in args:
        for x in a.args if a.op in ("maximum", "minimum") else (a,):
            d = to_poly(x) if x.op in ("poly", "num") else {((x, Fraction(1)),): Fraction(1)}
            ms = [m for m in d if m != () and not any(y.op in ("inf", "nan") for y, _ in m)]
            if not ms:
                continue
            lead = min(ms, key=_monokey)
            k = (_monokey(lead), abs(d[lead]), d[lead] < 0)
            if best is None or k < best[0]:
                best = (k, d[lead])
    if best is None or best[1] == 1:
        return None
    return best[1]


def _lat(op, args):
    """op in maximum/minimum. Normal form: maximum of minimums (distributed),
    scaled so that the leading coefficient of the reference operand is 1."""
    args = _flat_scaled(op, args)
    k = _lat_scale(args)
    if k is not None:
        dual = op if k > 0 else ("minimum" if op == "maximum" else "maximum")
        return mul(num(k), mk(dual, *[mul(a, num(1 / k)) for a in args]))
    if any(a.op == "nan" for a in args):
        return NAN
    args = sorted(set(args))
    cs = [a for a in args if a.op == "num" and a.args[0].denominator == 1]
    if len(cs) == 1 and cs[0] is not num(0) and len(args) > 1 and all(ty(a) == "int" and a.op in ("poly", "toint", "dim", "size", "meth", "floordiv") for a in args if a is not cs[0]):
        # integers: the constant operand is 0
        return add(cs[0], mk(op, *[sub(a, cs[0]) for a in args]))
    if op == "minimum":
        # distribute over an inner maximum
        for i, a in enumerate(args):
            if a.op == "maximum":
                rest = args[:i] + args[i + 1 :]
                return mk("maximum", *[mk("minimum", x, *rest) for x in a.args])
    drop = set()
    for i, a in enumerate(args):
        for j, b in enumerate(args):
            if i == j or a in drop or b in drop:
                continue
            # a <= b known: minimum drops b, maximum drops a
            if le_known(a, b):
                drop.add(b if op == "minimum" else a)
    if op == "maximum":
        # absorption: max(a, min(a, b)) = a
        for a in args:
            for b in args:
                if a is b or a in drop or b in drop:
                    continue
                sa = set(a.args) if a.op == "minimum" else {a}
                sb = set(b.args) if b.op == "minimum" else {b}
                if sa < sb:
                    drop.add(b)
                elif all(any(le_known(x, y) for x in sa) for y in sb) and a is not b:
                    # min(sa) <= min(sb)
                    drop.add(a)
    args = [a for a in args if a not in drop]
    if len(args) == 1:
        return args[0]
    if len(args) == 2 and neg(args[0]) is args[1]:
        return mk("abs", args[0]) if op == "maximum" else neg(mk("abs", args[0]))
    return raw(op, *args)


@cons("maximum")
def _maximum(*args):
    return _lat("maximum", args)


@cons("minimum")
def _minimum(*args):
    return _lat("minimum", args)


@cons("fmax")
def _fmax(*args):
    return raw("fmax", *sorted(set(_flat("fmax", args)))) if len(set(args)) > 1 else args[0]


@cons("fmin")
def _fmin(*args):
    return raw("fmin", *sorted(set(_flat("fmin", args)))) if len(set(args)) > 1 else args[0]


# --------------------------------------------------------------------------
# Booleans
# --------------------------------------------------------------------------
@cons("not")
def not_(a):
    if a is TRUE:
        return FALSE
    if a is FALSE:
        return TRUE
    if a.op == "not":
        return a.args[0]
    if a.op == "and":
        return mk("or", *[not_(x) for x in a.args])
    if a.op == "or":
        return mk("and", *[not_(x) for x in a.args])
    if a.op == "num":
        return boolean(a.args[0] == 0)
    if a is NONE:
        return TRUE
    if a.op == "str":
        return boolean(a.args[0] == "")
    if a.op == "ite":
        return mk("ite", a.args[0], not_(a.args[1]), not_(a.args[2]))
    return raw("not", a)


def _boolop(op, args):
    unit, zero = (TRUE, FALSE) if op == "and" else (FALSE, TRUE)
    out = []
    for a in _flat(op, args):
        if a is unit:
            continue
        if a is zero:
            return zero
        if a.op == "num":
            a = boolean(a.args[0] != 0)
            if a is zero:
                return zero
            continue
        out.append(a)
    s = set(out)
    for a in out:
        if not_(a) in s:
            return zero
    # absorption / unit resolution
    dual = "or" if op == "and" else "and"
    out2 = []
    for a in s:
        if a.op == dual:
            ks = set(a.args)
            if ks & (s - {a}):
                continue  # absorbed
            bad = {k for k in ks if not_(k) in s}
            if bad:
                a2 = mk(dual, *sorted(ks - bad))
                out2.append(a2)
                continue
        out2.append(a)
    if set(out2) != s:
        return _boolop(op, tuple(out2))
    if not s:
        return unit
    if len(s) == 1:
        return s.pop()
    return raw(op, *sorted(s))


@cons("and")
def and_(*args):
    return _boolop("and", args)


@cons("or")
def or_(*args):
    return _boolop("or", args)


@cons("ite")
def ite(c, a, b):
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if c.op == "num":
        return a if c.args[0] != 0 else b
    if c is NONE:
        return b
    if a is b:
        return a
    if c.op == "not":
        return ite(c.args[0], b, a)
    if a.op == "bottom":
        return b if b.op == "bottom" else raw("ite", c, a, b)
    if ty(a) == "bool" and ty(b) == "bool":
        return or_(and_(c, a), and_(not_(c), b))
    if a.op == b.op and a.op in ("tuple", "list") and len(a.args) == len(b.args):
        return mk(a.op, *[ite(c, x, y) for x, y in zip(a.args, b.args)])
    if a.op == b.op == "dict" and [k for k, _ in a.args] == [k for k, _ in b.args]:
        return raw("dict", *[(k, ite(c, v, w)) for (k, v), (_, w) in zip(a.args, b.args)])
    if a.op == "ite" and a.args[0] is c:
        return ite(c, a.args[1], b)
    if b.op == "ite" and b.args[0] is c:
        return ite(c, a, b.args[2])
    for x, y, cc in ((a, b, c), (b, a, not_(c))):
        if y.op == "reduce" and y.args[0] in ("max", "min") and y.args[1].op in ("map", "fmap") and is_const(x):
            it = y.args[1].args[0]
            if it.op == "irange":
                n = sub(it.args[1], it.args[0])
                if cc in (_inteq(n), _intle(n)):
                    return mk("reduce0", y.args[0], x, y.args[1])
    return raw("ite", c, a, b)


# --------------------------------------------------------------------------
# Comparisons
# --------------------------------------------------------------------------
def _intlike(a, b):
    return (ty(a) == "int" and ty(b) == "int")


def _pred(d):
    """A bound on max(n - 1, 0) alone: (coefficient, n, constant)."""
    ms = [m for m in d if m != ()]
    if len(ms) == 1 and len(ms[0]) == 1 and ms[0][0][0].op == "pred" and ms[0][0][1] == 1 and abs(d[ms[0]]) == 1:
        return d[ms[0]], ms[0][0][0].args[0], d.get((), Fraction(0))
    return None


def _intle(p):
    """p <= 0 over integers, canonical orientation."""
    if p.op == "num":
        return boolean(p.args[0] <= 0)
    d = to_poly(p)
    q = _pred(d)
    if q is not None:
        s, n, c = q
        if s > 0:
            return FALSE if c > 0 else _intle(add(n, num(c - 1)))
        return TRUE if c <= 0 else not_(_intle(add(n, num(-c))))
    lead = min((m for m in d if m != ()), key=_monokey)
    if d[lead] < 0:
        q = sub(num(1), p)
        return not_(raw("intle", _intdiv(q)))
    return raw("intle", _intdiv(p))


def _intdiv(p):
    """Divide integer polynomial inequality p<=0 by gcd of nonconstant coefs."""
    from math import gcd, floor

    d = to_poly(p)
    g = 0
    for m, c in d.items():
        if m != ():
            g = gcd(g, int(c))
    if g > 1:
        c0 = d.get((), Fraction(0))
        d = {m: c / g for m, c in d.items() if m != ()}
        # sum*g + c0 <= 0  <=> sum <= floor(-c0/g)
        d[()] = -Fraction(floor(-c0 / g))
        return from_poly(d)
    return p


CONS["intle"] = lambda p: _intle(p)


@cons("inteq")
def _inteq(p):
    if p.op == "num":
        return boolean(p.args[0] == 0)
    d = to_poly(p)
    q = _pred(d)
    if q is not None:
        s, n, c = q
        v = -s * c
        return FALSE if v < 0 else _intle(add(n, num(-1))) if v == 0 else _inteq(add(n, num(-v - 1)))
    lead = min((m for m in d if m != ()), key=_monokey)
    if d[lead] < 0:
        p = neg(p)
    return raw("inteq", p)


def _scaled(a, b):
    """Both sides of an order relation over a common positive factor."""
    if a.op != "poly" and b.op != "poly":
        return a, b
    da, db = to_poly(a), to_poly(b)
    cs = [abs(c) for c in list(da.values()) + list(db.values())]
    if not cs or () in da or () in db or any(u is INF for d in (da, db) for m in d for u, _ in m):
        return a, b
    from math import gcd, lcm

    f = Fraction(gcd(*[c.numerator for c in cs]), lcm(*[c.denominator for c in cs]))
    if f == 1:
        return a, b
    return from_poly({m: c / f for m, c in da.items()}), from_poly({m: c / f for m, c in db.items()})


@cons("lt")
def lt(a, b):
    if a.op == "nan" or b.op == "nan":
        return FALSE
    if _intlike(a, b):
        return _intle(add(sub(a, b), num(1)))
    if a.op == "num" and b.op == "num":
        return boolean(a.args[0] < b.args[0])
    if a is b:
        return FALSE
    r = _infcmp(a, b)
    if r is not None:
        return boolean(r < 0)
    if _sgninf(a) > 0 or _sgninf(b) < 0:
        return FALSE  # nothing lies beyond an infinity
    a, b = _scaled(a, b)
    if count_true(b) and a.op == "num" and 0 <= a.args[0] < 1:
        return mk("any", b.args[0], NONE)
    if count_true(a) and b.op == "num" and 0 < b.args[0] <= 1:
        return not_(mk("any", a.args[0], NONE))
    if _labels(b) and ty(a) == "int":
        return le(add(a, num(1)), b)
    r = _extremum_order("lt", a, b)
    return raw("lt", a, b) if r is None else r


def _labels(t):
    """An array of class labels: its entries are whole numbers."""
    while t.op == "astype":
        t = t.args[0]
    return t.op == "param" and t.args[1] == "lab1"


def _extremum_order(op, a, b):
    """Order of the extremum of an array and a scalar, as a statement on the
    elements.  (The extremum propagates NaN; of nothing it is an error.)"""
    if b.op in ("amin", "amax") and b.args[1] is NONE and ndim_of(a) == 0 and ndim_of(b.args[0]) not in (0, None):
        x = b.args[0]
        if b.op == "amin":
            return not_(mk("any", not_(mk(op, a, x)), NONE))
        return and_(mk("any", mk(op, a, x), NONE), not_(mk("any", isnan(x), NONE)))
    if a.op in ("amin", "amax") and a.args[1] is NONE and ndim_of(b) == 0 and ndim_of(a.args[0]) not in (0, None):
        x = a.args[0]
        if a.op == "amax":
            return not_(mk("any", not_(mk(op, x, b)), NONE))
        return and_(mk("any", mk(op, x, b), NONE), not_(mk("any", isnan(x), NONE)))
    return None


def _sgninf(t):
    if t is INF:
        return 1
    if t.op == "poly" and len(t.args) == 1 and t.args[0][1] == ((INF, Fraction(1)),):
        return 1 if t.args[0][0] > 0 else -1
    return 0


def _infcmp(a, b):
    sa, sb = _sgninf(a), _sgninf(b)
    if (sa or a.op == "num") and (sb or b.op == "num"):
        if sa != sb:
            return -1 if sa < sb else 1
        if sa:
            return 0
    if sa and ty(b) == "int":
        return sa
    if sb and ty(a) == "int":
        return -sb
    return None


@cons("le")
def le(a, b):
    if a.op == "nan" or b.op == "nan":
        return FALSE
    if _intlike(a, b):
        return _intle(sub(a, b))
    if a.op == "num" and b.op == "num":
        return boolean(a.args[0] <= b.args[0])
    r = _infcmp(a, b)
    if r is not None:
        return boolean(r <= 0)
    a, b = _scaled(a, b)
    if count_true(b) and a.op == "num" and 0 < a.args[0] <= 1:
        return mk("any", b.args[0], NONE)
    if count_true(a) and b.op == "num" and 0 <= b.args[0] < 1:
        return not_(mk("any", a.args[0], NONE))
    if _labels(a) and ty(b) == "int":
        return lt(a, add(b, num(1)))
    r = _extremum_order("le", a, b)
    return raw("le", a, b) if r is None else r


IMMKIND = {"num": "n", "bool": "n", "str": "s", "none": "0", "tuple": "t"}


@cons("eq")
def eq(a, b):
    if a.op == "nan" or b.op == "nan":
        return FALSE
    if a is b and (is_const(a) or ty(a) in ("int", "str", "bool", "none") or a.op == "attr" and a.args[1] in ("shape", "columns", "index", "dtype", "names")):
        return TRUE
    if _intlike(a, b):
        return _inteq(sub(a, b))
    if a.op in IMMKIND and b.op in IMMKIND and a.op not in ("tuple",) and b.op not in ("tuple",):
        if IMMKIND[a.op] != IMMKIND[b.op]:
            return FALSE
        if a.op in ("num", "bool") and b.op in ("num", "bool"):
            return boolean(Fraction(a.args[0]) == Fraction(b.args[0]))
        return boolean(a is b)
    for x, y in ((a, b), (b, a)):
        if ty(x) == "bool" and y.op == "bool":
            return x if y is TRUE else not_(x)
    if a.op == b.op and a.op in ("tuple", "list"):
        if len(a.args) != len(b.args):
            return FALSE
        return and_(*[eq(x, y) for x, y in zip(a.args, b.args)])
    for x, y in ((a, b), (b, a)):
        if x.op == "attr" and x.args[1] == "shape" and y.op == "tuple":
            return and_(eq(mk("ndim", x.args[0]), num(len(y.args))), *[eq(mk("dim", x.args[0], i), d) for i, d in enumerate(y.args)])
    r = _infcmp(a, b)
    if r is not None:
        return boolean(r == 0)
    if a is b and (ndim_of(a) is not None or ty(a) == "float") and ty(a) not in ("list", "liststr", "listdec", "listint", "df", "series", "dec"):
        return not_(isnan(a))
    if a is num(0) or b is num(0):
        x = b if a is num(0) else a
        if count_true(x):
            return not_(mk("any", x.args[0], NONE))
    a, b = (a, b) if a.id <= b.id else (b, a)
    return raw("eq", a, b)


def count_true(x):
    """x counts the true entries of a boolean array."""
    return x.op == "sum" and x.args[1] is NONE and ty(x.args[0]) == "bool" and x.args[0].op != "param"


NUMERIC = {"poly", "num", "argsort", "range", "sort", "cumsum", "cummax", "maximum", "minimum", "fmax", "fmin", "abs", "exp", "log", "sum", "mean", "std", "amin", "amax", "ceil", "floor", "floordiv", "toint", "tofloat", "unique", "nonzero"}


def _never_none(t):
    while t.op == "getitem":
        t = t.args[0]
    return t.op in NUMERIC


@cons("is")
def is_(a, b):
    """identity test (used with None / constants)."""
    if a is b and is_const(a):
        return TRUE
    a, b = (a, b) if a.id <= b.id else (b, a)
    for x, y in ((a, b), (b, a)):
        if x is NONE:
            if y.op in ("num", "str", "bool", "tuple", "list", "dict", "poly", "map", "func", "strcat", "inf", "nan", "libv", "lib", "getitem_tuple", "dim", "pcall") or _never_none(y) or ty(y) in (
                "int",
                "bool",
                "str",
                "float",
                "arr1",
                "arr2",
                "list",
                "dict",
                "dec",
                "df",
                "series",
            ):
                return FALSE
            if y.op == "ite":
                return ite(y.args[0], is_(y.args[1], NONE), is_(y.args[2], NONE))
    return raw("is", a, b)


@cons("isnan")
def isnan(t):
    if t.op == "nan":
        return TRUE
    if t.op in ("num", "inf") or is_const(t):
        return FALSE
    if ty(t) in ("int", "bool"):
        return FALSE
    if t.op == "poly" and len(t.args) == 1 and len(t.args[0][1]) == 1 and t.args[0][1][0][1] == 1:
        return isnan(t.args[0][1][0][0])  # scalar multiple
    if t.op == "poly":
        # adding finite constants does not change NaN-ness
        d = to_poly(t)
        if () in d:
            d = dict(d)
            del d[()]
            return isnan(from_poly(d))
        c0 = t.args[0][0]
        if c0 < 0:
            return isnan(neg(t))
    if t.op in ("amin", "amax", "mean_") and t.args[1] is NONE:
        return mk("any", isnan(t.args[0]), NONE)
    if t.op == "sum" and ty(t.args[0]) == "bool":
        return FALSE
    if t.op == "getitem":
        # x[~isnan(x)], x[isfinite(x)] hold no NaN
        m = t.args[1]
        if not_(isnan(t.args[0])) in (m.args if m.op == "and" else (m,)):
            return FALSE
    if t.op == "abs":
        return isnan(t.args[0])
    if t.op in ("maximum", "minimum"):
        return or_(*[isnan(a) for a in t.args])
    if t.op == "ite":
        return ite(t.args[0], isnan(t.args[1]), isnan(t.args[2]))
    return raw("isnan", t)


@cons("isinf")
def isinf(t):
    if t.op == "inf" or _sgninf(t):
        return TRUE
    if t.op in ("num", "nan") or ty(t) in ("int", "bool"):
        return FALSE
    if t.op == "ite":
        return ite(t.args[0], isinf(t.args[1]), isinf(t.args[2]))
    return raw("isinf", t)


def isfinite(t):
    return and_(not_(isnan(t)), not_(isinf(t)))


@cons("any")
def any_(e, axis=NONE):
    if e is TRUE:
        return raw("any", e, axis)
    if e is FALSE:
        return FALSE
    if axis is NONE:
        if e.op == "attr" and e.args[1] == "values":
            return any_(e.args[0], axis)
        if e.op == "or":
            return or_(*[any_(x, axis) for x in e.args])
        if e.op == "any" and e.args[1] is NONE:
            return e
        if e.op == "bool":
            return e
        if e.op in ("intle", "inteq", "anyloop", "is", "in"):
            return e
        if e.op == "list" or e.op == "tuple":
            return or_(*e.args)
        if e.op in ("isnan", "isinf") and e.args[0].op in ("list", "tuple"):
            return or_(*[any_(mk(e.op, x), axis) for x in e.args[0].args])
        if e.op == "map":
            return mk("anyloop", *e.args)
        if (e.op in ("lt", "le", "eq", "isnan", "isinf", "not", "and") or e.op == "lib" and e.args[0] == "numpy.isclose") and ndim_of(e) == 0:
            return e
    return raw("any", e, axis)


def all_(e, axis=NONE):
    if e.op in ("list", "tuple"):
        return and_(*e.args)
    if e.op == "map":
        return not_(mk("anyloop", e.args[0], e.args[1], not_(e.args[2])))
    return not_(any_(not_(e), axis))


# --------------------------------------------------------------------------
# Binders.  A binder node carries its bound variable explicitly; the variable's
# height is canonical (1 + the greatest height used inside the body).
# --------------------------------------------------------------------------
def bound(h, t=""):
    return raw("bound", h, t)


BINDERS = {"map", "fmap", "anyloop", "mdict", "loopred", "argbest", "first", "last", "flatmap", "fold"}


def _height(t):
    """Greatest height of a binder inside t (free variables do not count)."""
    if t._hb is None:
        h = -1
        if t.op in BINDERS and t.args[1].op == "bound":
            h = t.args[1].args[0]
        for k in kids(t):
            h = max(h, _height(k))
        t._hb = h
    return t._hb


_NTMP = [0]


def _canon_binder(var, bodies):
    """Rename var to its canonical height in bodies."""
    h = 1 + max([_height(b) for b in bodies] + [-1])
    v = bound(h, var.args[-1] if var.op in ("bound", "elem") else "")
    if v is var:
        return var, list(bodies)
    memo = {}
    return v, [subst(b, {var: v}, memo) for b in bodies]


def _binder(op):
    def f(it, var, *bodies):
        var, bodies = _canon_binder(var, bodies)
        return _binder_simpl(op, it, var, bodies)

    return f


def _binder_simpl(op, it, var, bodies):
    if op == "anyloop":
        b = bodies[0]
        if b is FALSE:
            return FALSE
        if b.op == "or":
            return or_(*[mk("anyloop", it, var, x) for x in b.args])
        if not contains(b, lambda u: u is var) and it.op == "irange":
            return and_(not_(_intle(sub(it.args[1], it.args[0]))), b)
        from . import lib

        e = lib.over_elements(it, var, b)
        if e is not None:
            return mk("any", e, NONE)
    if op == "fmap" and bodies[0] is TRUE:
        return mk("map", it, var, bodies[1])
    if op == "map" and it.op == "irange" and it.args[0] is num(0) and it.args[2] is num(1):
        b = bodies[0]
        if b is var:
            return raw("range", *it.args)
        # map(range(len(s)), s[i]) is s
        if b.op == "getitem" and b.args[1] is var and it.args[1] is mk("dim", b.args[0], 0):
            if not contains(b.args[0], lambda u: u is var):
                return b.args[0]
    if op == "map" and it.op == "irange" and bodies[0] is var:
        return raw("range", *it.args)
    return raw(op, it, var, *bodies)


for _op in ("map", "fmap", "anyloop", "mdict", "loopred", "argbest", "first", "last", "flatmap"):
    CONS[_op] = _binder(_op)


@cons("fold")
def _fold(it, var, inits, bodies, idx):
    # only the slots the result is computed from, in order of first use
    keep = [idx]
    for i in keep:
        for u in subterms(bodies[i]):
            if u.op == "foldv" and u.args[0] not in keep and u.args[0] < len(bodies):
                keep.append(u.args[0])
    if any(contains(b, lambda u: u.op == "fold") for b in bodies):
        keep = None  # an inner loop has slots of its own
    if keep is not None and keep != list(range(len(bodies))):
        m = {raw("foldv", i): raw("foldv", j) for j, i in enumerate(keep)}
        bodies = [subst(bodies[i], m) for i in keep]
        inits = [inits[i] for i in keep]
        idx = 0
    if it.op == "irange" and it.args[2] is num(1):
        lo, hi = it.args[0], it.args[1]
        if lo is not num(0):
            tmp = raw("tmpvar", var)
            bodies = [subst(subst(b, {var: add(tmp, lo)}), {tmp: var}) for b in bodies]
            lo, hi = num(0), sub(hi, lo)
        if hi.op == "pred":
            hi = sub(hi.args[0], num(1))
        it = raw("irange", lo, hi, num(1))
    var, bodies = _canon_binder(var, bodies)
    return raw("fold", it, var, tuple(inits), tuple(bodies), idx)


# --------------------------------------------------------------------------
# Display
# --------------------------------------------------------------------------
def _fnum(c):
    if c.denominator == 1:
        return str(c.numerator)
    f = float(c)
    return repr(f) if Fraction(repr(f)) == c else "%d/%d" % (c.numerator, c.denominator)


def show(t, depth=7):
    if depth <= 0:
        return ".."
    s = lambda x: show(x, depth - 1)
    op = t.op
    if op == "num":
        return _fnum(t.args[0])
    if op == "str":
        return repr(t.args[0])
    if op == "bool":
        return str(t.args[0])
    if op in ("inf", "nan"):
        return op
    if op == "none":
        return "None"
    if op == "param":
        return str(t.args[0])
    if op == "poly":
        out = []
        for c, m in t.args:
            fs = []
            for a, e in m:
                x = s(a)
                if a.op == "poly":
                    x = "(%s)" % x
                fs.append(x if e == 1 else "%s^%s" % (x, _fnum(e) if e.denominator == 1 else "(%s)" % e))
            if c != 1 or not fs:
                fs.insert(0, _fnum(c))
            out.append("*".join(fs))
        return " + ".join(out)
    if op == "lt":
        return "(%s < %s)" % (s(t.args[0]), s(t.args[1]))
    if op == "le":
        return "(%s <= %s)" % (s(t.args[0]), s(t.args[1]))
    if op == "eq":
        return "(%s == %s)" % (s(t.args[0]), s(t.args[1]))
    if op == "intle":
        return "(%s <= 0)" % s(t.args[0])
    if op == "inteq":
        return "(%s == 0)" % s(t.args[0])
    if op == "not":
        return "not %s" % s(t.args[0])
    if op in ("and", "or"):
        return "(" + (" %s " % op).join(s(a) for a in t.args) + ")"
    if op == "ite":
        return "if(%s; %s; %s)" % (s(t.args[0]), s(t.args[1]), s(t.args[2]))
    if op == "getitem":
        return "%s[%s]" % (s(t.args[0]), s(t.args[1]))
    if op == "tuple":
        return "(%s)" % ", ".join(s(a) for a in t.args)
    if op == "list":
        return "[%s]" % ", ".join(s(a) for a in t.args)
    if op == "attr":
        return "%s.%s" % (s(t.args[0]), t.args[1])
    if op == "slice":
        return ":".join("" if a is NONE else s(a) for a in t.args[:2]) + ("" if t.args[2] is NONE else ":" + s(t.args[2]))
    if op == "libv":
        return t.args[0]
    if op == "func":
        return getattr(t.args[0], "qual", "fn")

    def sa(x):
        if isinstance(x, Term):
            return s(x)
        if isinstance(x, tuple):
            if len(x) == 2 and isinstance(x[0], str) and isinstance(x[1], Term):
                return "%s=%s" % (x[0], s(x[1]))
            return ", ".join(sa(y) for y in x)
        return str(x)

    if op == "lib":
        return "%s(%s)" % (t.args[0].replace("numpy.", "np."), sa(t.args[1]))
    if op == "pcall":
        return "%s(%s)" % (t.args[0], sa(t.args[1]))
    if op == "meth":
        return "%s.%s(%s)" % (s(t.args[0]), t.args[1], sa(t.args[2:]))
    return "%s(%s)" % (op, ", ".join(sa(a) for a in t.args))
