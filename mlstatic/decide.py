"""Deciding equality of two value graphs (implementation vs specification).

Equality is decided on normal forms with case analysis over the gates (the
conditions of `ite` nodes and boolean connectives).  Cases the specification
rejects, and cases ruled out by the theory of the atoms (integer intervals,
mutually exclusive constants, order trichotomy with NaN), are skipped.  The
answer is EQUAL, DIFF (with the innermost differing pairs) or GAVE_UP.
"""
import time
from fractions import Fraction

from . import terms as T
from . import lib as L
from .terms import raw, mk, num, TRUE, FALSE, NONE, NAN, INF, BOTTOM, ty, kids, subst, contains, subterms, is_const, to_poly, from_poly

ATOM_OPS = {"lt", "le", "eq", "intle", "inteq", "is", "isnan", "isinf", "any", "anyloop", "in", "truthy", "exc", "isinst", "opaquecond"}
POINTWISE = {"ite", "and", "or", "not", "poly", "maximum", "minimum", "fmax", "fmin", "tuple", "list", "abs", "exp", "log"}

MAX_CASES = 3000
MAX_SECONDS = 40.0  # of processor time per comparison
TOTAL_SECONDS = 300.0  # per process; later comparisons get LATE_SECONDS
LATE_SECONDS = 4.0


class GaveUp(Exception):
    pass


def split_const(p):
    """(p without constant term, constant)."""
    d = dict(to_poly(p))
    c = d.pop((), Fraction(0))
    return from_poly(d), c


def nonneg(t):
    if t.op in ("dim", "size", "ndim", "len"):
        return True
    if t.op == "poly":
        return all(c > 0 and all(nonneg(a) and e > 0 for a, e in m) for c, m in t.args if m != ())
    return False


class Facts(object):
    """A consistent set of assumed literals."""

    def __init__(self):
        self.lit = {}  # atom -> bool
        self.iv = {}  # integer term -> [lo, hi]
        self.eqc = {}  # term -> constant
        self.nan = set()
        self.notnan = set()
        self.sub = {}
        self.total = False  # nothing is NaN unless said so
        self.order = False  # reduce maximum/minimum of ordered operands, NaNs aside
        self.ordered = False  # some order literal is assumed
        self.bad = False
        self.rej = None  # rejection conditions, simplified so far
        self.gated = ()  # literals that contain a conditional value

    def copy(self):
        f = Facts()
        f.lit, f.eqc, f.nan, f.notnan, f.sub, f.bad = dict(self.lit), dict(self.eqc), set(self.nan), set(self.notnan), dict(self.sub), self.bad
        f.iv = {k: list(v) for k, v in self.iv.items()}
        f.order, f.ordered, f.total = self.order, self.ordered, self.total
        f.rej = self.rej
        f.gated = self.gated
        return f

    def close(self):
        """Carry every literal over to the terms its operands were equated with."""
        for _ in range(2):
            if not self.sub or self.bad:
                return
            for a, v in list(self.lit.items()):
                m = {k: w for k, w in self.sub.items() if k is not a}
                b = subst(a, m)
                if b is a:
                    continue
                if b is TRUE or b is FALSE:
                    if (b is TRUE) != v and a.op not in ("inteq", "eq", "is"):
                        self.bad = True
                    continue
                self.assume(b, v)

    def interval(self, p):
        d = self.iv.get(p)
        if d is None:
            return [Fraction(0) if nonneg(p) else None, None]
        return d

    def narrow(self, p, lo=None, hi=None):
        d = list(self.interval(p))
        if lo is not None and (d[0] is None or lo > d[0]):
            d[0] = lo
        if hi is not None and (d[1] is None or hi < d[1]):
            d[1] = hi
        for i, step in ((0, 1), (1, -1)):
            while d[i] is not None and self.lit:
                q = mk("inteq", T.sub(p, num(d[i])))
                if q.op == "inteq" and self.lit.get(q) is False:
                    d[i] += step
                else:
                    break
        if d[0] is not None and d[1] is not None and d[0] > d[1]:
            self.bad = True
        self.iv[p] = d
        if d[0] is not None and d[0] == d[1] and p.op != "poly":
            self.sub[p] = num(d[0])

    def assume(self, a, val):
        if a.op == "not":
            return self.assume(a.args[0], not val)
        if a is TRUE or a is FALSE:
            if (a is TRUE) != val:
                self.bad = True
            return
        if a.op == "and" and val or a.op == "or" and not val:
            for x in a.args:
                self.assume(x, val)
            return
        if a.op in ("and", "or"):
            return  # a clause: checked by evaluation (see Comparer.pruned)
        d = self.decide(a)
        if d is not None:
            if d != val:
                self.bad = True
            return
        self.lit[a] = val
        op = a.op
        if op in ("lt", "le", "intle"):
            self.ordered = True
        if op in ("lt", "le", "eq", "intle", "inteq") and contains(a, lambda u: u.op == "ite"):
            self.gated = self.gated + (a,)
        for g in self.gated:
            m = {}
            for u in subterms(g):
                if u.op == "ite" and contains(u.args[0], lambda w: w is a):
                    c = simp(u.args[0], self)
                    if c is TRUE or c is FALSE:
                        m[u] = u.args[1] if c is TRUE else u.args[2]
            if m and g in self.lit:
                b, v = subst(g, m), self.lit[g]
                if b is not g:
                    self.gated = tuple(x for x in self.gated if x is not g)
                    self.assume(b, v)
        if op == "intle":
            p, c = split_const(a.args[0])
            if val:
                self.narrow(p, hi=-c)
            else:
                self.narrow(p, lo=1 - c)
        elif op == "inteq":
            p, c = split_const(a.args[0])
            if val:
                self.narrow(p, lo=-c, hi=-c)
                pp = to_poly(a.args[0])
                # x - y == 0: replace the younger by the older
                if len(pp) == 2 and () not in pp:
                    (m1, c1), (m2, c2) = sorted(pp.items(), key=lambda mc: T._monokey(mc[0]))
                    if c1 == -c2 and len(m1) == len(m2) == 1 and m1[0][1] == m2[0][1] == 1:
                        x, y = sorted([m1[0][0], m2[0][0]])
                        if not contains(x, lambda u: u is y):
                            self.sub[y] = x
            else:
                iv = self.interval(p)
                if iv[0] is not None and iv[0] == -c:
                    self.narrow(p, lo=iv[0] + 1)
                if iv[1] is not None and iv[1] == -c:
                    self.narrow(p, hi=iv[1] - 1)
        elif op == "eq" and val:
            x, y = a.args
            for u, v in ((x, y), (y, x)):
                if is_const(v) and v.op in ("str", "num", "bool", "inf") and not is_const(u):
                    self.eqc[u] = v
                    if v.op == "str" or u.op in ("param", "getitem", "dictget", "elem", "skolem"):
                        if ty(u) in ("str", "int", None, "") and v.op in ("str", "num"):
                            self.sub[u] = v
            self.known((x, y))
            if x.op == y.op == "attr" and x.args[1] == y.args[1] == "shape":
                u, v = sorted((x.args[0], y.args[0]))
                for i in range(3):
                    self.sub[raw("dim", v, i)] = mk("dim", u, i)
                self.sub[raw("size", v)] = mk("size", u)
        elif op == "is" and val:
            x, y = a.args
            for u, v in ((x, y), (y, x)):
                if v is NONE and not is_const(u):
                    self.sub[u] = NONE
        elif op == "is":
            for u, v in (a.args, a.args[::-1]):
                if v is NONE and u.op == "param" and u.args[1].endswith("?"):
                    self.sub[u] = raw("param", u.args[0], u.args[1][:-1])
        elif op == "isnan":
            if val:
                self.nan.add(a.args[0])
            else:
                self.notnan.add(a.args[0])
                self.unordered()
        elif op in ("lt", "le") and val:
            self.known(a.args)

    def known(self, xs):
        """Terms that compare true are not NaN, nor is what they are made of."""
        for x in xs:
            self.notnan.add(x)
            if x.op == "poly":
                self.notnan |= {u for _, m in x.args for u, e in m if e > 0}
        self.unordered()

    def unordered(self):
        for c, k in self.lit.items():
            # neither below nor above: one of the two is a NaN
            if c.op == "le" and not k and self.lit.get(raw("lt", c.args[1], c.args[0])) is False and self.fin(c.args[0]) and self.fin(c.args[1]):
                self.bad = True

    def decide(self, a):
        v = self.lit.get(a)
        if v is not None:
            return v
        op = a.op
        if op == "not":
            d = self.decide(a.args[0])
            return None if d is None else not d
        if op == "intle":
            p, c = split_const(a.args[0])
            lo, hi = self.interval(p)
            if hi is not None and hi <= -c:
                return True
            if lo is not None and lo > -c:
                return False
        elif op == "inteq":
            p, c = split_const(a.args[0])
            lo, hi = self.interval(p)
            if lo is not None and lo == hi == -c:
                return True
            if lo is not None and lo > -c or hi is not None and hi < -c:
                return False
            for q in (raw("inteq", a.args[0]), mk("inteq", T.neg(a.args[0]))):
                if q in self.lit:
                    return self.lit[q]
        elif op in ("lt", "le", "eq"):
            x, y = a.args
            if self.isnan(x) or self.isnan(y):
                return False
            if op == "eq":
                for u, v in ((x, y), (y, x)):
                    if is_const(v) and u in self.eqc:
                        return self.eqc[u] is v
                for u, v in ((x, y), (y, x)):
                    if v is INF:
                        i = self.lit.get(raw("isinf", u))
                        if i is False or i is True and self.lit.get(raw("le", num(0), u)) is True:
                            return i
                        if self.lit.get(raw("lt", u, INF)) is False and self.fin(u):
                            return True  # nothing lies above inf
                L_, G_ = self.cmpinfo(x, y)
                if L_ == "lt" or L_ == "gt":
                    return False
                if L_ == "eq":
                    return True
            else:
                if op == "lt" and (x is INF or y is T.neg(INF)):
                    return False
                if op == "le" and (y is INF and self.fin(x) or x is T.neg(INF) and self.fin(y)):
                    return True
                r, _ = self.cmpinfo(x, y)
                if r is None and y is INF and op == "lt" and self.fin(x) and self.lit.get(T.eq(INF, x)) is False:
                    return True
                if r == "lt":
                    return True
                if r == "gt":
                    return False
                if r == "eq":
                    return op == "le"
                if r == "le" and op == "le":
                    return True
                if r == "ge" and op == "lt":
                    return False
        elif op == "any":
            # an array has its own extremum among its elements
            c = a.args[0]
            n = c.op == "not"
            if n:
                c = c.args[0]
            if c.op in ("lt", "le"):
                u, v = c.args
                if n and c.op == "lt" and (u.op == "amax" and u.args[0] is v or v.op == "amin" and v.args[0] is u):
                    return True
                if not n and c.op == "le":
                    for e, w in ((u, v), (v, u)):
                        if e.op in ("amin", "amax") and e.args[0] is w and (self.total or self.lit.get(mk("any", mk("isnan", w), NONE)) is False):
                            return True
        elif op == "isnan":
            if a.args[0] in self.nan:
                return True
            if a.args[0] in self.notnan:
                return False
            if self.lit.get(raw("isinf", a.args[0])) is True:
                return False
            if self.isnan(a.args[0]):
                return True
        elif op == "isinf":
            x = a.args[0]
            if x in self.nan:
                return False
            e = self.lit.get(T.eq(x, INF))
            if e is True:
                return True
            if e is False and self.lit.get(raw("le", num(0), x)) is True:
                return False
        elif op == "is":
            x, y = a.args
            for u, v in ((x, y), (y, x)):
                if v is NONE and self.lit.get(raw("truthy", u)) is True:
                    return False
        elif op == "truthy":
            for u in (raw("is", *sorted((a.args[0], NONE))),):
                if self.lit.get(u) is True:
                    return False
        elif op == "anyloop":
            # emptiness
            it = a.args[0]
            if it.op == "irange":
                e = mk("intle", T.sub(it.args[1], it.args[0]))
                if e is TRUE or (e.op != "bool" and self.decide(e) is True):
                    return False
        return None

    def isnan(self, x):
        if x in self.nan:
            return True
        if x.op == "poly":
            return any(a in self.nan and e > 0 for _, m in x.args for a, e in m)
        if x.op in ("abs", "exp", "log", "maximum", "minimum"):
            return any(self.isnan(k) for k in x.args if isinstance(k, T.Term))
        return False

    def cmpinfo(self, x, y):
        for u, v, flip in ((x, y, False), (y, x, True)):
            lt = self.lit.get(raw("lt", u, v))
            le = self.lit.get(raw("le", u, v))
            r = None
            if lt is True:
                r = "lt"
            elif le is True:
                r = "le"
                if self.lit.get(raw("lt", v, u)) is True:
                    r = None
                if self.lit.get(raw("le", v, u)) is True or lt is False:
                    r = "eq"
                elif self.lit.get(raw("eq", *sorted((u, v)))) is False:
                    r = "lt"
            elif (lt is False or le is False) and self.fin(u) and self.fin(v):
                r = "gt" if le is False else "ge"
            if r is not None:
                if flip:
                    r = {"lt": "gt", "le": "ge", "gt": "lt", "ge": "le", "eq": "eq"}[r]
                return r, None
        for q in (raw("eq", x, y), raw("eq", y, x)):
            if self.lit.get(q) is True:
                return "eq", None
        if self.ordered and x.op not in ("tuple", "str", "list") and y.op not in ("tuple", "str", "list"):
            return self.implied(x, y), None
        return None, None

    def implied(self, x, y):
        """Order of x and y from an assumed order of a positive multiple of
        their difference (x <= y from 0 <= y - x)."""
        d = None
        for c, k in self.lit.items():
            if c.op not in ("lt", "le") or not (k or self.fin(c.args[0]) and self.fin(c.args[1])):
                continue
            u, v = c.args
            if not (u.op == "poly" or v.op == "poly" or x.op == "poly" or y.op == "poly"):
                continue
            if d is None:
                d = T.sub(y, x)
            e = T.sub(v, u)
            strict = (c.op == "lt") == k
            if not k:
                e = T.neg(e)
            if pos_scaled(d, e):
                return "lt" if strict else "le"
            if pos_scaled(d, T.neg(e)):
                return "gt" if strict else "ge"
        return None

    def fin(self, x):
        """x is known not to be NaN."""
        if self.total and x not in self.nan:
            return True
        return x in self.notnan or x.op in ("num", "inf") or ty(x) in ("int", "bool", "dec")


def atoms_in(t, memo={}):
    """Boolean atoms anywhere inside t (as a tuple)."""
    r = memo.get(t)
    if r is None:
        r = tuple(u for u in subterms(t) if u.op in ATOM_OPS)
        memo[t] = r
    return r


def extrema_in(t, memo={}):
    r = memo.get(t)
    if r is None:
        r = tuple(u for u in subterms(t) if u.op in ("maximum", "minimum") and len(u.args) == 2 or u.op == "abs")
        memo[t] = r
    return r


def eval_bool(c, F):
    if c is TRUE or c is FALSE:
        return c is TRUE
    if c.op == "not":
        k = eval_bool(c.args[0], F)
        return None if k is None else not k
    if c.op in ("and", "or"):
        ks = [eval_bool(x, F) for x in c.args]
        stop = c.op == "or"
        if stop in ks:
            return stop
        return None if None in ks else not stop
    return F.decide(c)


def preds_in(t, memo={}):
    r = memo.get(t)
    if r is None:
        r = memo[t] = tuple(u for u in subterms(t) if u.op == "pred" or u.op == "lib" and u.args[0] in ("numpy.nanmin", "numpy.nanmax"))
    return r


def lookups_in(t, memo={}):
    r = memo.get(t)
    if r is None:
        r = memo[t] = tuple(u for u in subterms(t) if u.op == "dictget")
    return r


def not_nan(x, F):
    return F.fin(x) or F.fin(T.neg(x)) or any(v and a.op in ("lt", "le") and (x in a.args or T.neg(x) in a.args) for a, v in F.lit.items())


def known_le(lo, hi, F):
    """An assumed order literal says lo <= hi."""
    d = T.sub(hi, lo)
    for c, k in F.lit.items():
        if c.op in ("lt", "le") and (k or F.order or F.fin(c.args[0]) and F.fin(c.args[1])):
            e = T.sub(c.args[1], c.args[0])
            if pos_scaled(d, e if k else T.neg(e)):
                return True
    for u, v in ((lo, hi), (T.neg(hi), T.neg(lo))):
        if u.op in ("amin", "amax") or v.op in ("amin", "amax"):
            if eval_bool(mk("le", u, v), F) or eval_bool(mk("lt", u, v), F):
                return True
            if (F.order or not_nan(u, F) and not_nan(v, F)) and (eval_bool(mk("lt", v, u), F) is False or eval_bool(mk("le", v, u), F) is False):
                return True
    return False


def dominated(x, F):
    """maximum(a, b) or minimum(a, b) when the order of a and b is known."""
    a, b = x.args
    if T._intlike(a, b):
        for u, v in ((a, b), (b, a)):
            c = mk("intle", T.sub(u, v))
            k = True if c is TRUE else False if c is FALSE else F.decide(c)
            if k is True:
                return v if x.op == "maximum" else u
        return x
    for u, v in ((a, b), (b, a)):
        for op in ("lt", "le"):
            k = F.lit.get(raw(op, u, v))
            if k is not None:
                lo, hi = (u, v) if k else (v, u)
                keep, gone = (hi, lo) if x.op == "maximum" else (lo, hi)
                # a NaN that is kept is the extremum
                if k or F.order or F.fin(gone):
                    return keep
    for u, v in ((a, b), (b, a)):
        # an operand that is itself an extremum
        if v.op == ("minimum" if x.op == "maximum" else "maximum") and all(F.order or not_nan(z, F) for z in v.args):
            for w in v.args:
                lo, hi = (w, u) if x.op == "maximum" else (u, w)
                if known_le(lo, hi, F):
                    return u
    for u, v, w in ((a, b, 1), (b, a, 1), (T.neg(a), T.neg(b), -1), (T.neg(b), T.neg(a), -1)):
        if u.op in ("amin", "amax") or v.op in ("amin", "amax"):
            for op in ("lt", "le"):
                k = eval_bool(mk(op, u, v), F)
                if k is not None:
                    lo, hi = (u, v) if k else (v, u)
                    keep, gone = (hi, lo) if (x.op == "maximum") == (w > 0) else (lo, hi)
                    if k or F.order or F.fin(gone):
                        return keep if w > 0 else T.neg(keep)
    d = T.sub(b, a)
    for c, k in F.lit.items():
        if c.op in ("lt", "le") and (k or F.order or F.fin(c.args[0]) and F.fin(c.args[1])):
            e = T.sub(c.args[1], c.args[0])
            if not k:
                e = T.neg(e)
            if pos_scaled(d, e):
                return b if x.op == "maximum" else a
            if pos_scaled(d, T.neg(e)):
                return a if x.op == "maximum" else b
    return x


def signed_abs(x, F):
    """abs(u) when the sign of u is known."""
    u = x.args[0]
    for a, v in F.lit.items():
        if a.op not in ("lt", "le") or not (v or F.order or F.fin(a.args[0]) and F.fin(a.args[1])):
            continue
        d = T.sub(a.args[1], a.args[0])
        if not v:
            d = T.neg(d)
        if pos_scaled(u, d):
            return u
        if pos_scaled(u, T.neg(d)):
            return T.neg(u)
    return x


EW = {"poly", "maximum", "minimum", "fmax", "fmin", "abs", "exp", "log", "where", "lt", "le", "eq", "and", "or", "not", "isnan", "isinf", "sqrt"}


def pick_where(a, b):
    """An elementwise condition of a `where` node to split on: each element of
    the array is in one of the two cases.  Only when the condition occurs at
    elementwise positions of both terms and nowhere else."""
    for t in (a, b):
        for u in ew_nodes(t):
            if u.op == "where":
                c = first_atom(u.args[0])
                if c is None or c.op not in ("lt", "le", "eq", "isnan", "isinf"):
                    continue
                if all(ew_only(x, c) for x in (a, b)):
                    yield c


def ew_nodes(t):
    seen, stack, out = set(), [t], []
    while stack:
        u = stack.pop()
        if u in seen:
            continue
        seen.add(u)
        out.append(u)
        if u.op in EW:
            stack.extend(kids(u))
    return out


def ew_only(t, c):
    ops = set(k for k in subterms(c) if k.op not in ("num", "inf", "nan", "none", "bool", "str"))
    for u in ew_nodes(t):
        if u.op in EW or u is c:
            continue
        for w in atoms_in(u):
            if w is c or (w.op in ("lt", "le", "eq", "isnan", "isinf") and any(k in ops for k in kids(w))):
                return False
    return True


def simp(t, F):
    for _ in range(6):
        m = {}
        for a in atoms_in(t):
            d = F.decide(a)
            if d is not None:
                m[a] = TRUE if d else FALSE
        for k, v in F.lit.items():
            if k.op not in ATOM_OPS and ty(k) == "bool":
                m[k] = TRUE if v else FALSE
        for k, v in F.sub.items():
            if k not in m:
                m[k] = v
        for k in lookups_in(t):
            d = F.lit.get(raw("in", k.args[1], k.args[0]))
            if d is not None:
                m[k] = mk("getitem", k.args[0], k.args[1]) if d else k.args[2]
        for k in preds_in(t):
            if k.op == "pred":
                if F.decide(mk("intle", k.args[0])) is False:
                    m[k] = T.sub(k.args[0], num(1))
            elif len(k.args[1]) == 1 and F.lit.get(mk("any", mk("isnan", k.args[1][0][1]), NONE)) is False:
                m[k] = mk("amin" if k.args[0].endswith("min") else "amax", k.args[1][0][1], NONE)
        if F.ordered:
            for x in extrema_in(t):
                y = signed_abs(x, F) if x.op == "abs" else dominated(x, F)
                if y is not x:
                    m.setdefault(x, y)
        u = subst(t, m) if m else t
        if u is t:
            return t
        t = u
    return t


def pick(t, under=False):
    """A gate atom to split on: outermost ite condition's first atom."""
    seen = set()
    stack = [t]
    order = []
    while stack:
        u = stack.pop(0)
        if u in seen:
            continue
        seen.add(u)
        if u.op == "ite":
            a = first_atom(u.args[0])
            if a is not None:
                return a
        if u.op in T.BINDERS:
            # only the iterator is outside the binder
            stack.append(u.args[0])
            continue
        stack.extend(kids(u))
    return None


def first_atom(c):
    if c.op == "not":
        return first_atom(c.args[0])
    if c.op in ("and", "or"):
        for x in c.args:
            a = first_atom(x)
            if a is not None:
                return a
        return None
    if c.op == "ite":
        return first_atom(c.args[0])
    if c.op == "bool":
        return None
    return c


def gate_atoms(c, out=None):
    out = [] if out is None else out
    if c.op in ("and", "or", "not"):
        for x in c.args:
            gate_atoms(x, out)
    elif c.op != "bool" and c not in out:
        out.append(c)
    return out


class Diff(object):
    def __init__(self, impl, spec, case):
        self.impl, self.spec, self.case = impl, spec, case

    def __repr__(self):
        return "impl %s\n   spec %s\n   when %s" % (T.show(self.impl, 5)[:400], T.show(self.spec, 5)[:400], self.case_str()[:500])

    def case_str(self):
        return " and ".join(("" if v else "not ") + T.show(a, 4) for a, v in self.case.items()) or "always"


class Comparer(object):
    def __init__(self, spec_rejects=(), impl_rejects=()):
        self.rej = list(spec_rejects) + list(impl_rejects)
        self.cases = 0
        self.obligations = 0
        self.nsk = 0
        self.t0 = time.process_time()
        self.limit = MAX_SECONDS if self.t0 < TOTAL_SECONDS else LATE_SECONDS

    def compare(self, a, b, total=False):
        """List of Diff (empty = equal).  total: NaNs aside."""
        F = Facts()
        F.total = F.order = total
        for r in self.rej:
            lits = r.args if r.op == "or" else (r,)
            for l in lits:
                if first_atom(l) is l or (l.op == "not"):
                    F.assume(l, False)
                    if F.bad:
                        raise GaveUp("contradictory preconditions")
        F.close()
        if F.bad:
            raise GaveUp("contradictory preconditions")
        return self.eq(a, b, F)

    def pruned(self, F):
        if F.bad:
            return True
        left = []
        for r in self.rej if F.rej is None else F.rej:
            r = simp(r, F)
            if r is TRUE:
                return True
            if r is not FALSE:
                left.append(r)
        F.rej = left
        return False

    def split(self, atom, a, b, F):
        # a gate inside the atom first: deciding it later would change the atom
        while True:
            inner = pick(atom)
            if inner is None or inner is atom or not self.fresh(inner, F):
                break
            atom = inner
        out = []
        for val in (True, False):
            G = F.copy()
            G.assume(atom, val)
            if self.pruned(G):
                continue
            self.cases += 1
            if self.cases > MAX_CASES:
                raise GaveUp("too many cases")
            d = self.eq(a, b, G)
            out.extend(d)
            if len(out) > 4:
                break
        return out

    def eq(self, a, b, F):
        a, b = simp(a, F), simp(b, F)
        self.obligations += 1
        if self.obligations % 50 == 0 and time.process_time() - self.t0 > self.limit:
            raise GaveUp("time limit")
        if a is b:
            return []
        if a.op == "bottom" and b.op != "bottom" and False:
            return []
        if b.op == "bottom":
            return []  # the specification gives no value here
        if ty(a) == "bool" and ty(b) == "bool":
            return self.booleq(a, b, F)
        if a.op == "ite" or b.op == "ite":
            at = first_atom(a.args[0]) if a.op == "ite" else first_atom(b.args[0])
            if at is not None and self.fresh(at, F):
                return self.split(at, a, b, F)
        if (a.op == "map") != (b.op == "map"):
            known = lambda d: simp(d, F)
            u, v = L.arrayed(a, known), L.arrayed(b, known)
            if (u is not a or v is not b) and self.eq(u, v, F) == []:
                return []
        sub = self.descend(a, b, F)
        if sub == []:
            return []
        at = pick(a) or pick(b)
        if at is not None and self.fresh(at, F):
            return self.split(at, a, b, F)
        for at in pick_where(a, b):
            if self.fresh(at, F):
                G = F.copy()
                G.order = True
                return self.split(at, a, b, G)
        if quotient_equal(a, b):
            return []
        if sub is not None:
            return sub
        if self.arith_equal(a, b):
            return []
        m = {u: T.mul(u.args[0], u.args[1]) for x in (a, b) for u in subterms(x) if u.op == "where" and u.args[2] is num(0)}
        if m and self.eq(subst(a, m), subst(b, m), F) == []:
            return []  # a masked value is a product with the mask
        return [Diff(a, b, dict(F.lit))]

    def fresh(self, at, F):
        return F.decide(at) is None

    def booleq(self, a, b, F):
        """Boolean equivalence by case analysis on the atoms."""
        if a.op == b.op and a.op in ATOM_OPS:
            sub = self.descend(a, b, F)
            if sub == []:
                return []
        else:
            sub = None
        # atoms that are equal one level down are identified first
        la, lb = gate_atoms(a), gate_atoms(b)
        m = {}
        if not (a.op in ATOM_OPS and b.op in ATOM_OPS):
            free_b = [y for y in lb if y not in la]
            for x in la:
                if x in lb:
                    continue
                for y in free_b:
                    if x.op == y.op and x.op in ("any", "anyloop", "isnan", "isinf", "in", "eq", "lt", "le", "exc", "truthy", "is"):
                        if self.descend(x, y, F) == []:
                            m[x] = y
                            break
        if m:
            return self.booleq(subst(a, m), b, F) if subst(a, m) is not b else []
        bad = self.table(a, b, F)
        if bad is None:
            return []
        if sub:
            return sub
        if a.op == b.op and a.op in ("and", "or"):
            sub = self.descend(a, b, F)
            if sub:
                return sub
        if a.op == b.op == "not":
            return self.booleq(a.args[0], b.args[0], F) or [Diff(a, b, bad)]
        return [Diff(a, b, bad)]

    def table(self, a, b, F):
        """None if a and b agree in every consistent case, else the case."""
        a, b = simp(a, F), simp(b, F)
        if a is b:
            return None
        at = first_atom(a) if a.op != "bool" else None
        if at is None or not self.fresh(at, F):
            at = first_atom(b) if b.op != "bool" else None
        if at is None or not self.fresh(at, F):
            return dict(F.lit)
        for val in (True, False):
            G = F.copy()
            G.assume(at, val)
            if self.pruned(G):
                continue
            self.cases += 1
            if self.cases > MAX_CASES:
                raise GaveUp("too many cases")
            r = self.table(a, b, G)
            if r is not None:
                return r
        return None

    def arith_equal(self, a, b):
        if a.op == b.op and a.op in ("lt", "le"):
            pa, pb = T.sub(a.args[0], a.args[1]), T.sub(b.args[0], b.args[1])
            return pos_scaled(pa, pb)
        if a.op == b.op == "eq":
            pa, pb = T.sub(a.args[0], a.args[1]), T.sub(b.args[0], b.args[1])
            return pos_scaled(pa, pb) or pos_scaled(pa, T.neg(pb))
        return False

    def skolem(self, tyname):
        self.nsk += 1
        return raw("skolem", self.nsk, tyname)

    def seq(self, xs, ys, F):
        if len(xs) != len(ys):
            return None
        out = []
        for x, y in zip(xs, ys):
            if isinstance(x, T.Term) and isinstance(y, T.Term):
                out.extend(self.eq(x, y, F))
            elif isinstance(x, tuple) and isinstance(y, tuple):
                r = self.seq(x, y, F)
                if r is None:
                    return None
                out.extend(r)
            elif x != y:
                return None
        return out

    def descend(self, a, b, F):
        """Differences of the parts when a and b have the same outer shape;
        None when the shapes do not match."""
        op = a.op
        if op != b.op:
            return None
        if op in T.BINDERS:
            if op == "fold":
                if len(a.args[3]) != len(b.args[3]) or a.args[4] != b.args[4]:
                    return None
            elif len(a.args) != len(b.args):
                return None
            sk = self.skolem(a.args[1].args[-1])
            out = self.eq(a.args[0], b.args[0], F)
            ma, mb = {}, {}
            oa = [T._mapargs(x, lambda u: subst(u, {a.args[1]: sk}, ma)) for x in a.args[2:]]
            ob = [T._mapargs(x, lambda u: subst(u, {b.args[1]: sk}, mb)) for x in b.args[2:]]
            r = self.seq(oa, ob, F)
            return None if r is None else out + r
        if op == "store":
            ra, ca = L.chain(a)
            rb, cb = L.chain(b)
            if len(set(k for k, _ in ca)) == len(ca) and set(k for k, _ in ca) == set(k for k, _ in cb) and len(ca) == len(cb):
                out = self.eq(ra, rb, F)
                db = dict(cb)
                for k, v in ca:
                    out.extend(self.eq(v, db[k], F))
                return out
            return self.seq(a.args, b.args, F)
        if op == "dict":
            da, db = dict(a.args), dict(b.args)
            if set(da) == set(db):
                out = []
                for k in da:
                    out.extend(self.eq(da[k], db[k], F))
                return out
            return None
        if op == "poly":
            return self.poly(a, b, F)
        if op in ("maximum", "minimum", "fmax", "fmin", "and", "or", "set"):
            sa, sb = [x for x in a.args if x not in b.args], [x for x in b.args if x not in a.args]
            if len(sa) == len(sb) == 1:
                return self.eq(sa[0], sb[0], F)
            if len(sa) == len(sb) and len(sa) <= 3:
                # match greedily
                rest = list(sb)
                bad = []
                for x in sa:
                    hit = None
                    for y in rest:
                        if self.eq(x, y, F) == []:
                            hit = y
                            break
                    if hit is None:
                        bad.append(x)
                    else:
                        rest.remove(hit)
                if not bad:
                    return []
                if len(bad) == 1:
                    return self.eq(bad[0], rest[0], F)
            return None
        if op in ("lt", "le", "eq") and self.arith_equal(a, b):
            return []
        if op in ("intle", "inteq", "num", "str", "param", "bool", "skolem", "func", "libv", "elem", "rng", "draw"):
            if op == "draw" and a.args[0] == b.args[0]:
                return self.kws(a.args[1], b.args[1], F, a.args[2], b.args[2])
            return None
        if op in ("lib", "pcall") and a.args[0] == b.args[0]:
            return self.kws(a.args[1], b.args[1], F)
        if op == "meth" and a.args[1] == b.args[1]:
            r = self.eq(a.args[0], b.args[0], F)
            k = self.kws(a.args[2], b.args[2], F) if len(a.args) > 2 and isinstance(a.args[2], tuple) else self.seq(a.args[2:], b.args[2:], F)
            return None if k is None else r + k
        if op in ("lib", "pcall", "meth"):
            return None
        return self.seq(a.args, b.args, F)

    def kws(self, ka, kb, F, ra=None, rb=None):
        try:
            da, db = dict(ka), dict(kb)
        except (TypeError, ValueError):
            return self.seq(ka, kb, F)
        if set(da) != set(db):
            return None
        out = []
        for k in sorted(da, key=str):
            x, y = da[k], db[k]
            if isinstance(x, T.Term) and isinstance(y, T.Term):
                out.extend(self.eq(x, y, F))
            elif x != y:
                return None
        if ra is not rb:
            return None
        return out

    def poly(self, a, b, F):
        """Match monomials with equal coefficient; recurse into one differing atom."""
        pa, pb = to_poly(a), to_poly(b)
        da = {m: c for m, c in pa.items() if pb.get(m) != c}
        db = {m: c for m, c in pb.items() if pa.get(m) != c}
        if not da and not db:
            return []
        aa = sorted({x for m in da for x, _ in m} - {x for m in pb for x, _ in m})
        ab = sorted({x for m in db for x, _ in m} - {x for m in pa for x, _ in m})
        if len(aa) == len(ab) and 1 <= len(aa) <= 4:
            import itertools

            for perm in itertools.permutations(ab):
                if subst(a, dict(zip(aa, perm))) is b:
                    out = []
                    for x, y in zip(aa, perm):
                        out.extend(self.eq(x, y, F))
                    if out == [] or len(aa) == 1:
                        return out
        return None


def pos_scaled(p, q):
    """p == k*q for a positive constant k."""
    if p is q:
        return True
    dp, dq = to_poly(p), to_poly(q)
    if not dp or set(dp) != set(dq):
        return False
    m0 = next(iter(dp))
    k = dp[m0] / dq[m0]
    return k > 0 and all(dp[m] == k * dq[m] for m in dp)


class TooBig(Exception):
    pass


def _pmul(p, q):
    if len(p) * len(q) > 400:
        raise TooBig()
    out = {}
    for m1, c1 in p.items():
        for m2, c2 in q.items():
            d = dict(m1)
            for a, e in m2:
                d[a] = d.get(a, 0) + e
            m = tuple(sorted(((a, e) for a, e in d.items() if e != 0), key=lambda ae: ae[0].id))
            out[m] = out.get(m, 0) + c1 * c2
            if out[m] == 0:
                del out[m]
    return out


def _padd(p, q):
    out = dict(p)
    for m, c in q.items():
        out[m] = out.get(m, 0) + c
        if out[m] == 0:
            del out[m]
    return out


ONE = {(): 1}


def frac(t, depth=0):
    """t as a quotient of two expanded polynomials over its atoms."""
    if depth > 6:
        raise TooBig()
    N, D = {}, ONE
    for m, c in to_poly(t).items():
        n, d = {(): c}, ONE
        for a, e in m:
            if a.op == "mean":
                k = _count(a)
                if k is not None:
                    s = raw("sum", a.args[0], a.args[1])
                    fn, fd = {((s, 1),): 1}, {((k, 1),): 1}
                else:
                    fn, fd = {((a, 1),): 1}, ONE
            elif a.op == "poly":
                fn, fd = frac(a, depth + 1)
            else:
                fn, fd = {((a, 1),): 1}, ONE
            if e == int(e) and abs(e) <= 4:
                if e < 0:
                    fn, fd = fd, fn
                for _ in range(abs(int(e))):
                    n, d = _pmul(n, fn), _pmul(d, fd)
            else:
                n = _pmul(n, {((a, e),): 1})
        if d == D:
            N = _padd(N, n)
        else:
            N = _padd(_pmul(N, d), _pmul(n, D))
            D = _pmul(D, d)
    return N, D


def _count(a):
    from . import lib

    try:
        k = lib.count(a.args[0], a.args[1])
    except Exception:
        return None
    return k if k is not None and k.op in ("dim", "size") else None


def quotient_equal(a, b):
    """a and b are the same quotient of polynomials (logarithms of products
    count as sums of logarithms)."""
    if not any(x.op in ("poly", "log", "mean", "sum") for x in (a, b)):
        return False
    try:
        na, da = frac(a)
        nb, db = frac(b)
        if _pmul(na, db) == _pmul(nb, da):
            return True
        d = to_poly(T.sub(a, b))
        if not d or not all(len(m) == 1 and m[0][1] == 1 and m[0][0].op == "log" and c == int(c) and abs(c) <= 3 or m == () for m, c in d.items()):
            return False
        if () in d:
            return False
        up, dn = ONE, ONE
        for m, c in d.items():
            n, q = frac(m[0][0].args[0])
            if c < 0:
                n, q = q, n
            for _ in range(abs(int(c))):
                up, dn = _pmul(up, n), _pmul(dn, q)
        return up == dn
    except TooBig:
        return False


# --------------------------------------------------------------------------
# Loops run a fixed number of times
# --------------------------------------------------------------------------
def loop_ranges(t):
    out = []
    for u in subterms(t):
        if u.op in ("fold", "last", "argbest", "first") and u.args[0].op == "irange" and u.args[0].args[2] is T.num(1):
            it = u.args[0]
            if it not in out and not contains(it, lambda v: v.op in ("bound", "foldv")):
                out.append(it)
    return out


def expand(t, it, n, memo):
    """t with the loops over it (n iterations) run."""
    if not contains(t, lambda u: u is it):
        return t
    r = memo.get(t)
    if r is not None:
        return r
    elems = [T.add(it.args[0], T.num(i)) for i in range(n)]
    if t.op == "fold" and t.args[0] is it and not any(contains(b, lambda u: u.op == "fold") for b in t.args[3]):
        cur = [expand(x, it, n, memo) for x in t.args[2]]
        for e in elems:
            m = {t.args[1]: e}
            m.update((T.raw("foldv", j), c) for j, c in enumerate(cur))
            mm = {}
            cur = [subst(b, m, mm) for b in t.args[3]]
        r = cur[t.args[4]]
    elif t.op == "last" and t.args[0] is it:
        r = expand(subst(t.args[2], {t.args[1]: elems[-1]}), it, n, memo)
    elif t.op == "argbest" and t.args[0] is it:
        kind = t.args[2].args[0]
        k, v = [expand(x, it, n, memo) for x in t.args[6].args]
        for e in elems:
            g, ke, ve = [expand(subst(x, {t.args[1]: e}), it, n, memo) for x in t.args[3:6]]
            c = {"min": T.lt(ke, k), "min=": T.le(ke, k), "max": T.lt(k, ke), "max=": T.le(k, ke)}[kind]
            c = T.and_(g, c)
            k, v = T.ite(c, ke, k), T.ite(c, ve, v)
        r = v
    elif t.op == "first" and t.args[0] is it:
        r = BOTTOM
        for e in reversed(elems):
            r = T.ite(expand(subst(t.args[2], {t.args[1]: e}), it, n, memo), expand(subst(t.args[3], {t.args[1]: e}), it, n, memo), r)
    elif t.op == "anyloop" and t.args[0] is it:
        r = T.or_(*[expand(subst(t.args[2], {t.args[1]: e}), it, n, memo) for e in elems])
    else:
        r = T.rebuild(t, lambda u: expand(u, it, n, memo))
    memo[t] = r
    return r
