"""Obligations: compare the value graph of a repository function with the
value graph of its specification, and classify what was found.

HOLDS      the two graphs are equal in every case the specification admits.
VIOLATED   they differ in a construct whose meaning is fully modelled.
UNDECIDED  they differ, but the difference involves a construct the analysis
           does not model (never reported as a violation).
"""
import ast
import os
import sys

from . import decide as D
from . import terms as T
from . import lib as L  # noqa: F401
from . import instances as I
from .interp import Program, analyse
from .terms import raw, mk, num, TRUE, FALSE, NONE, ty, kids, subterms, contains

HOLDS, VIOLATED, UNDECIDED = "holds", "violated", "undecided"

MODS = ["boot_util", "util", "mlpaper", "perf_curves", "classification", "regression", "data_splitter", "sciprint"]

# helpers that are always expanded (their callers' values are compared instead)
ALWAYS_INLINE = {
    "mlpaper.data_splitter.index_to_series",
    "mlpaper.mlpaper._boot_EB_and_test",
    "mlpaper.sciprint.decimal_to_dot",
    "mlpaper.sciprint.decimal_all_finite",
    "mlpaper.sciprint.all_same",
}
SPEC_ONLY = {"valid", "_curve_of", "header", "noise_log_prob", "noise_pred"}

SOFT = {
    "ulib", "umeth", "opaque", "fold", "foldv", "last", "first", "src", "excobj", "pctfmt", "setof", "dictmerge", "star",
    "loopred", "isinst", "cell", "filled", "setattr", "itlen", "lv", "ref", "bm", "partial", "flatmap", "hole", "vec", "cstack", "atl1",
    "opaquecond", "getattr", "cached", "dictget?", "ctxobj", "bottom", "mut",
}

# Words a difference may use beyond the vocabulary of the required value and still
# be called wrong rather than undecided.  Ways of assembling a value (maps, masked
# stores, concatenations, tables of strings) are left out: an unknown assembly is
# more often another way to write the same value.
BASE = {
    "num", "inf", "nan", "none", "bool", "str", "param", "poly", "ite", "and", "or", "not", "lt", "le", "eq", "intle", "inteq",
    "tuple", "list", "slice", "getitem", "dim", "size", "ndim", "maximum", "minimum", "fmax", "fmin", "abs", "isnan", "isinf", "any", "is",
    "in", "elem", "bound", "skolem", "irange", "dict", "exp", "log", "sum", "mean", "std", "amin", "amax", "toint", "tofloat",
    "tostr", "ceil", "floor", "floordiv", "pi", "range", "nansum", "nanmean", "argsort", "sort",
    "pred", "astype", "func", "libv", "rng", "rngl", "ell", "truthy",
    "decimal", "decround", "attr:index", "attr:columns", "attr:values", "attr:shape",
    "lib:numpy.percentile", "lib:numpy.var", "lib:numpy.median",
    "pow",
    "median", "var", "prod", "nanstd", "argmin", "argmax", "quantile", "round",
    "lib:numpy.argmin", "lib:numpy.argmax", "lib:numpy.sign",
    "meth:predict", "meth:predict_proba", "meth:predict_log_proba", "draw",
    "draw:poisson", "draw:exponential", "draw:dirichlet", "draw:gamma", "draw:standard_gamma", "draw:standard_exponential", "draw:beta", "draw:normal", "draw:standard_normal", "draw:randn", "draw:laplace", "draw:standard_t", "draw:geometric",
    "lib:numpy.round", "lib:numpy.around", "lib:numpy.rint", "lib:numpy.isclose", "lib:numpy.allclose", "lib:numpy.nan_to_num", "lib:numpy.trunc",
    "lib:scipy.stats.norm.interval", "lib:scipy.stats.norm.ppf", "lib:scipy.stats.norm.cdf", "lib:scipy.stats.norm.sf", "lib:scipy.stats.norm.isf",
    "lib:scipy.stats.t.interval", "lib:scipy.stats.t.ppf", "lib:scipy.stats.t.cdf", "lib:scipy.stats.t.sf", "lib:scipy.stats.t.isf",
}


# routines documented to take NaN where an order comparison is made
NAN_MATTERS = {"mlpaper.clip_EB", "mlpaper.get_mean_and_EB", "util.clip_chk"}


def order_in(d):
    return any(u.op in ("lt", "le", "maximum", "minimum", "abs") for t in (d.impl, d.spec) for u in subterms(t)) or any(a.op in ("lt", "le") for a in d.case)


class Anchor(Exception):
    """A public function the property is anchored to no longer exists."""


def vocab(t):
    out = set()
    for u in subterms(t):
        out.add(word(u))
    return out


def word(u):
    n = u.op
    if n in ("lib", "ulib", "pcall"):
        return n + ":" + str(u.args[0])
    if n in ("meth", "attr", "umeth"):
        return n + ":" + str(u.args[1])
    if n == "draw":
        return "draw:" + str(u.args[0])
    return n


class Outcome(object):
    def __init__(self, status, rule, function, detail="", where=None, witness="", stats=None):
        self.status, self.rule, self.function, self.detail, self.where, self.witness = status, rule, function, detail, where, witness
        self.stats = stats or {}

    def __repr__(self):
        return "%s %s %s %s" % (self.status, self.rule, self.function, self.detail)


def types_of(f):
    a = f.node.args
    r = {}
    for x in list(getattr(a, "posonlyargs", [])) + a.args + a.kwonlyargs:
        if x.annotation is not None:
            r[x.arg] = ast.literal_eval(x.annotation)
    return r


class Project(object):
    def __init__(self, root="/repo", spec=None, edit=None):
        sys.setrecursionlimit(60000)
        here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
        self.root = root
        self.prog = Program({"mlpaper": os.path.join(root, "mlpaper"), "spec": spec or os.path.join(here, "spec")})
        self.prog.edit = edit
        self.specs = {}
        for m in MODS:
            if self.prog.find("mlpaper." + m) is None:
                raise Anchor("module mlpaper/%s.py is missing" % m)
            self.prog.env("spec." + m)
            for k, f in self.prog.module("spec." + m).funcs.items():
                q = "mlpaper.%s.%s" % (m, k)
                self.specs[q] = f
                if f.node.returns is not None:
                    T.RETURN_TYPES[q] = ast.literal_eval(f.node.returns)
        self.impls = {}
        for q in self.specs:
            fo = self.impl(q)
            if fo is not None:
                self.prog.canon[fo.qual] = q
        self.boundary = frozenset(q for q in self.specs if q.rsplit(".", 1)[1] not in SPEC_ONLY and q not in ALWAYS_INLINE and self.impl(q) is not None)
        self.cache = {}
        self.stats = {"functions": set(), "nodes": 0, "terms": 0, "cases": 0, "obligations": 0, "call_sites": 0}

    # ------------------------------------------------------------------
    def impl(self, q):
        if q not in self.impls:
            m, k = q.rsplit(".", 1)
            self.impls[q] = self.prog.func(m, k)
        return self.impls[q]

    def need(self, q):
        fo = self.impl(q)
        if fo is None:
            raise Anchor("%s no longer exists" % q)
        return fo

    def alias(self, fo, sf):
        """Parameter correspondence {impl name: spec name} and notes."""
        sp, ip = list(sf.pos) + list(sf.kwonly), list(fo.pos) + list(fo.kwonly)
        m = {}
        for i, p in enumerate(ip):
            if p in sp:
                m[p] = p
            elif i < len(sp) and sp[i] not in ip:
                m[p] = sp[i]
        return m

    def value(self, q, side, inline, drop=frozenset(), fixed=None):
        key = (q, side, inline, drop, tuple(sorted((fixed or {}).items())))
        if key in self.cache:
            return self.cache[key]
        sf = self.specs[q]
        types = types_of(sf)
        b = frozenset() if inline else self.boundary - {q} - drop
        over = dict(fixed or {})
        if side == "impl":
            fo = self.impl(q)
            m = self.alias(fo, sf)
            o2 = {}
            for p in list(fo.pos) + list(fo.kwonly):
                if p in m:
                    s = m[p]
                    o2[p] = over.get(s, raw("param", s, types.get(s, "")))
                elif p in fo.defaults:
                    o2[p] = fo.defaults[p]
            r = analyse(self.prog, fo, types, b, overrides=o2)
            self.stats["functions"].add(fo.qual)
            self.stats["nodes"] += r.ctx.n_nodes
            self.stats["call_sites"] += len(r.ctx.calls)
        else:
            r = analyse(self.prog, sf, types, b, overrides=over)
        self.cache[key] = r
        return r

    # ------------------------------------------------------------------
    def equal(self, q, project=None, assume=(), fixed=None, name=None):
        """Obligation: implementation value == specification value."""
        rule = "same-value" if name is None else name
        sf = self.specs[q]
        fo = self.impl(q)
        if fo is None:
            # a helper that is gone: its callers are compared inline
            return Outcome(HOLDS, rule, q, "helper no longer exists; its callers are compared expanded")
        best = None
        for inline in (False, True):
            try:
                ri, rs = self.value(q, "impl", inline, fixed=fixed), self.value(q, "spec", inline, fixed=fixed)
                out = self.compare(rule, q, ri, rs, project, assume)
            except D.GaveUp as e:
                out = Outcome(UNDECIDED, rule, q, "gave up: %s" % e)
            except RecursionError:
                out = Outcome(UNDECIDED, rule, q, "gave up: term too deep")
            if out.status == HOLDS:
                return out
            if best is None or (best.status == UNDECIDED and out.status == VIOLATED and not best.stats.get("samecalls")):
                best = out
            if out.status == UNDECIDED:
                # the expanded graph contains something unmodelled
                if best.status == VIOLATED and inline and self.boundary_diff(best):
                    best = out
        if best.status == UNDECIDED and fixed is None:
            for inst in I.TABLE.get(q[len("mlpaper.") :], ()):
                try:
                    o = self.equal(q, project, assume, fixed=inst, name=name)
                except (D.GaveUp, RecursionError):
                    continue
                if o.status == VIOLATED:
                    o.detail = "on the instance %s: %s" % (", ".join("%s=%s" % (k, T.show(v, 4)) for k, v in inst.items()), o.detail)
                    return o
        if best.status == UNDECIDED and fixed is None and project is None:
            return self.expanded(q, best, assume, rule)
        return best

    def expanded(self, q, best, assume, rule):
        """Undecided because of loop summaries: compare again with the loops
        both sides have in common run a fixed number of times."""
        for inline in (False, True):
            try:
                ri, rs = self.value(q, "impl", inline), self.value(q, "spec", inline)
                its = [it for it in D.loop_ranges(ri.value) if it in D.loop_ranges(rs.value)]
                for it in its[:2]:
                    for n in (2, 3):
                        a = T.eq(T.sub(it.args[1], it.args[0]), num(n))
                        if a is FALSE:
                            continue
                        memo = {}
                        o = self.compare(rule, q, ri, rs, lambda v: D.expand(v, it, n, memo), tuple(assume) + (a,))
                        if o.status == VIOLATED:
                            o.detail = "with %d iterations of a loop: %s" % (n, o.detail)
                            return o
            except (D.GaveUp, RecursionError):
                continue
        return best

    def boundary_diff(self, out):
        """Does the difference hinge on calls across function boundaries?"""
        return out.stats.get("pcalls", False)

    def compare(self, rule, q, ri, rs, project=None, assume=()):
        iv, sv = ri.value, rs.value
        if project is not None:
            iv, sv = project(iv), project(sv)
        rej_s = [r.cond() for r in rs.rejects]
        rej_i = [r.cond() for r in ri.rejects]
        c = D.Comparer(rej_s + [T.not_(a) for a in assume], [])
        d = c.compare(iv, sv)
        self.stats["cases"] += c.cases
        self.stats["obligations"] += c.obligations
        self.stats["terms"] += len(subterms(iv))
        st = {"cases": c.cases, "terms": len(subterms(iv))}
        if not d:
            return Outcome(HOLDS, rule, q, "value graphs equal (%d gate cases)" % c.cases, stats=st)
        hard = [x for x in d if is_hard(x, iv, sv)]
        if hard and q[len("mlpaper.") :] not in NAN_MATTERS and any(order_in(x) for x in hard):
            # the same up to the treatment of NaN in an order comparison?
            try:
                d2 = D.Comparer(c.rej, []).compare(iv, sv, total=True)
            except D.GaveUp:
                d2 = d
            if not any(is_hard(x, iv, sv) for x in d2):
                return Outcome(UNDECIDED, rule, q, "differs at most where an order comparison meets NaN: " + describe(hard[0]), self.locate(ri, hard[0].impl), repr(hard[0]), st)
        if hard:
            x = hard[0]
            st["pcalls"] = pcalls(x.impl) != pcalls(x.spec) and pcalls(iv) != pcalls(sv)
            return Outcome(VIOLATED, rule, q, describe(x), self.locate(ri, x.impl), repr(x), st)
        x = d[0]
        if all(only_rng(y.impl, y.spec) for y in d):
            v = self.same_draws(d, iv, sv, c)
            if v is True:
                return Outcome(HOLDS, rule, q, "value graphs equal up to the order of independent random draws (%d gate cases)" % c.cases, stats=st)
            if v is False:
                return Outcome(VIOLATED, rule, q, "uses a different random sample where the same one is required" + when(x), self.locate(ri, x.impl), repr(x), st)
        # the same functions are called: expanding the calls cannot explain it
        st["samecalls"] = bool(pcalls(sv)) and pcalls(iv) == pcalls(sv) and all(only_rng(y.impl, y.spec) or pcalls(y.impl) == pcalls(y.spec) for y in d)
        return Outcome(UNDECIDED, rule, q, "difference involves an unmodelled construct: " + describe(x), self.locate(ri, x.impl), repr(x), st)

    def same_draws(self, d, iv, sv, c):
        """Do the graphs agree after renaming random draws one-to-one?
        True: yes; False: two draws take the place of one (or the reverse);
        None: cannot tell."""
        pairs = set()
        for y in d:
            if not rng_pairs(y.impl, y.spec, pairs):
                return None
        if any(u.op != "rng" for p in pairs for u in p):
            return None
        m = dict(pairs)
        own = {u for u in subterms(iv) if u.op == "rng" and u not in m and any(u in kids(w) for w in subterms(iv))}
        full = set(pairs) | {(u, u) for u in own}
        if len({a for a, _ in full}) != len(full) or len({b for _, b in full}) != len(full):
            return False
        try:
            d2 = D.Comparer(c.rej, []).compare(T.subst(iv, m), sv)
        except D.GaveUp:
            return None
        return True if not d2 else None

    def locate(self, r, t):
        loc = r.ctx.loc
        if t in loc:
            return loc[t]
        seen = [t]
        i = 0
        while i < len(seen) and i < 400:
            u = seen[i]
            i += 1
            if u in loc and u.op not in ("param", "num", "str", "none", "bool"):
                return loc[u]
            seen.extend(kids(u))
        return (r.fo.module.path, r.fo.node.lineno, r.fo.name)

    # ------------------------------------------------------------------
    def accepts(self, q):
        """Obligation: no input the specification admits is turned away."""
        out = []
        if self.impl(q) is None:
            return out
        res = None
        for inline in (False, True):
            try:
                ri, rs = self.value(q, "impl", inline), self.value(q, "spec", inline)
                res = self.accept1(q, ri, rs)
            except (D.GaveUp, RecursionError) as e:
                res = [Outcome(UNDECIDED, "accepts", q, "gave up: %s" % e)]
            if all(o.status == HOLDS for o in res):
                break
        return res

    def accept1(self, q, ri, rs):
        srej = [r.cond() for r in rs.rejects]
        sset = {}
        for r in srej:
            sset.update((x, True) for x in (r.args if r.op == "or" else (r,)))
        F0 = D.Facts()
        for l in sset:
            F0.assume(l, False)
        F0.close()
        if F0.bad:
            raise D.GaveUp("contradictory preconditions")
        out = []
        gates = []
        for u in subterms(rs.value):
            if u.op == "ite":
                for a in D.gate_atoms(u.args[0]):
                    if a not in gates and not contains(a, lambda v: v.op == "bound"):
                        gates.append(a)
        n = 0
        for rj in ri.rejects:
            r = rj.cond()
            for l in r.args if r.op == "or" else (r,):
                n += 1
                if l in sset:
                    continue
                case = self.newly_rejects(l, F0, srej, gates)
                if case is None and rj.exc == "FloatingPointError" and D.simp(l, F0) is not FALSE and contains(l, predicted_zero):
                    case = {}  # a model may predict a probability of zero
                if case is not None:
                    out.append(Outcome(VIOLATED, "accepts", q, "rejects (%s) admissible input: %s" % (rj.exc, T.show(l, 5)[:300]), rj.where, "case: " + " and ".join(("" if v else "not ") + T.show(a, 4) for a, v in list(case.items())[:8])[:500]))
        if not out:
            out.append(Outcome(HOLDS, "accepts", q, "%d rejection conditions" % n))
        return out

    def newly_rejects(self, l, F0, srej, gates):
        l = D.simp(l, F0)
        if l is FALSE:
            return None
        atoms = D.gate_atoms(l)
        pure = [a for a in atoms if simple_atom(a)]
        budget = [150]

        def search(t, F, todo):
            budget[0] -= 1
            if budget[0] < 0:
                return None
            t = D.simp(t, F)
            if t is FALSE or F.bad:
                return None
            if any(D.simp(r, F) is TRUE for r in srej):
                return None
            if t is TRUE:
                return F.lit
            for i, a in enumerate(todo):
                if F.decide(a) is not None:
                    continue
                for v in (True, False):
                    G = F.copy()
                    G.assume(a, v)
                    if G.bad:
                        continue
                    c = search(t, G, todo[i + 1 :])
                    if c is not None:
                        return c
                return None
            return None

        return search(l, F0, pure + [g for g in gates if g not in pure][:6])

    # ------------------------------------------------------------------
    def defaults(self, q, ignore=()):
        """Obligation: documented default values."""
        out = []
        sf, fo = self.specs[q], self.impl(q)
        if fo is None:
            return out
        inv = {v: k for k, v in self.alias(fo, sf).items()}
        for p, dv in sf.defaults.items():
            if p in ignore:
                continue
            ip = inv.get(p)
            rule = "default of parameter %s" % p
            if ip is None:
                if fo.kwarg:
                    out.append(Outcome(UNDECIDED, rule, q, "parameter is taken through **%s" % fo.kwarg))
                else:
                    out.append(Outcome(VIOLATED, rule, q, "parameter %s no longer exists" % p, (fo.module.path, fo.node.lineno, fo.name), p))
                continue
            if ip not in fo.defaults:
                out.append(Outcome(VIOLATED, rule, q, "parameter %s lost its default %s" % (p, T.show(dv, 4)), (fo.module.path, fo.node.lineno, fo.name), p))
                continue
            iv = fo.defaults[ip]
            if iv is dv or T.mk("eq", iv, dv) is TRUE:
                out.append(Outcome(HOLDS, rule, q))
                continue
            if dv.op == "func" and iv.op == "func":
                same = dv.args[0].qual == iv.args[0].qual
                out.append(Outcome(HOLDS if same else VIOLATED, rule, q, "" if same else "default is %s" % iv.args[0].qual, (fo.module.path, fo.node.lineno, fo.name), p))
                continue
            if const_like(iv) and const_like(dv):
                out.append(Outcome(VIOLATED, rule, q, "default of %s is %s, documented %s" % (p, T.show(iv, 4), T.show(dv, 4)), (fo.module.path, fo.node.lineno, fo.name), p))
            elif iv is NONE or const_like(iv):
                # a sentinel resolved in the body: compare the call without the argument
                out.append(self.sentinel(q, p, iv, dv, rule))
            else:
                out.append(Outcome(UNDECIDED, rule, q, "default %s not understood" % T.show(iv, 4)))
        return out

    def sentinel(self, q, p, iv, dv, rule):
        for inline in (False, True):
            try:
                sf, fo = self.specs[q], self.impl(q)
                inv = {v: k for k, v in self.alias(fo, sf).items()}
                types = types_of(sf)
                b = frozenset() if inline else self.boundary - {q}
                ri = analyse(self.prog, fo, types, b, overrides={inv[p]: iv})
                rs = analyse(self.prog, sf, types, b, overrides={p: dv})
                out = self.compare(rule, q, ri, rs)
            except (D.GaveUp, RecursionError) as e:
                out = Outcome(UNDECIDED, rule, q, str(e))
            if out.status == HOLDS:
                return out
        return out


def predicted_zero(u):
    return u.op in ("eq", "inteq") and num(0) in u.args and any(x.op in ("meth", "umeth") and str(x.args[1]).startswith("predict") for x in u.args if x is not num(0))


def simple_atom(a):
    """A comparison between parameters, their sizes and constants."""
    if a.op not in ("lt", "le", "eq", "intle", "inteq", "in", "is", "truthy", "param"):
        return False
    for u in subterms(a):
        if u.op == "param":
            if u.args[1] in ("arr1", "lab1", "arr2", "arr", "df", "series", "list", "listdec", "liststr", "") and a.op in ("lt", "le", "eq"):
                if not any(v.op in ("dim", "size", "ndim", "attr") and u in kids(v) for v in subterms(a)):
                    return False
            continue
        if u.op in ("num", "str", "none", "inf", "bool", "tuple", "list", "poly", "dim", "size") or u is a:
            continue
        if u.op == "attr" and u.args[1] in ("dtype", "kind", "name"):
            continue
        return False
    return True


def pcalls(t):
    return {u.args[0] for u in subterms(t) if u.op == "pcall"}


def const_like(t):
    if t.op in ("num", "str", "bool", "inf", "nan", "none", "func", "libv"):
        return True
    if t.op in ("tuple", "list"):
        return all(const_like(a) for a in t.args)
    if t.op == "dict":
        return all(const_like(k) and const_like(v) for k, v in t.args)
    if t.op == "poly":
        return all(const_like(a) for _, m in t.args for a, _e in m)
    return False


def describe(d):
    return "computes %s where %s is required%s" % (T.show(d.impl, 5)[:300], T.show(d.spec, 5)[:300], when(d))


def when(d):
    c = d.case_str()
    return "" if c == "always" else " (when %s)" % c[:300]


# --------------------------------------------------------------------------
# Hardness of a difference
# --------------------------------------------------------------------------
def soft_terms(t):
    return [u for u in subterms(t) if u.op in SOFT]


def is_hard(d, iv, sv):
    a, b = d.impl, d.spec
    if a.op == "bottom" or b.op == "bottom":
        return False
    if alters(a, b):
        return True
    insp = subterms(sv)
    binsp = subterms(b)
    if any(u not in insp and u not in binsp for u in soft_terms(a)):
        return False
    if (a is L.FULL or b is L.FULL) and any(u not in insp for u in soft_terms(iv)):
        # whole columns against cells of a table built in a way not modelled
        return False
    if only_rng(a, b) or tieless(a) is tieless(b) or a.op == "astype" and a.args[1].op == "str" and a.args[1].args[0] == "float" and a.args[0] is b:
        return False
    while a.op == "tofloat" and b.op != "tofloat":
        a = a.args[0]
    va = vocab(a)
    if "lib:numpy.roll" in va and not va & {"store", "where", "concat", "ite", "stack"}:
        return True  # values wrap around and nothing removes them
    if all(u.args[0].op in ("sum", "mean", "std", "amax", "amin") for u in subterms(a) if u.op == "kd"):
        va.discard("kd")  # a reduction that keeps its axis
    vs = vocab(sv) | vocab(b)
    if vs & FILLED:
        va -= FILLED
    if always_nan(a) and not contains(sv, lambda u: u.op == "nan"):
        return True
    if va <= vs | BASE:
        return True
    # same operands, different (modelled) operation
    ka, kb = set(kids(a)), set(kids(b))
    if ka and ka == kb and a.op not in SOFT:
        return True
    if ka and ka <= binsp.keys() | {k for k in ka if const_like(k)} and word(a).startswith(("lib:numpy.", "lib:scipy.stats.", "meth:")):
        # a modelled library operation applied to parts of the required value
        return True
    return False


FILLED = {"lib:numpy.ones", "lib:numpy.zeros", "lib:numpy.full"}


def always_nan(a):
    """Arithmetic with a NaN operand."""
    if a.op == "poly":
        return any(any(b.op == "nan" for b, _ in m) for _, m in a.args)
    return a.op == "nan"


# operations that are not the identity: f(v) is never a way to write v
ALTERING = {
    "sort_index", "sort_values", "drop_duplicates", "dropna", "drop", "bfill", "ffill", "fillna", "head", "tail", "sample", "interpolate", "nlargest", "nsmallest",
    "title", "upper", "lower", "capitalize", "swapcase", "strip", "lstrip", "rstrip", "replace", "zfill", "ljust", "rjust", "center", "T", "transpose", "round", "clip", "abs",
    "cumsum", "cummax", "rank", "shift", "diff", "pct_change", "quantize", "normalize", "to_integral_value", "conjugate", "rolling", "expanding", "repr", "round_", "mask", "where", "tofloat32",
}


def alters(a, b):
    """a is f(b) for an operation f that changes some values."""
    while a.op == "tostr" and b.op != "tostr":
        a = a.args[0]
    if a.op in ("umeth", "meth") and a.args[1] in ALTERING:
        return a.args[0] is b
    if a.op == "sorted" and b.op in ("attr", "param") and (a.args[0] is b or tuple(kids(a.args[0])) == (b,)):
        # the labels or values of a table need not be in order
        return b.op == "attr" and b.args[1] in ("index", "columns", "values") and not contains(b, lambda u: u.op in ("sorted", "sort", "unique") or u.op == "attr" and u.args[1] == "levels")
    while a.op == b.op == "attr" and a.args[1] == b.args[1] == "values":
        a, b = a.args[0], b.args[0]
    if a.op == "bypos" and b.op == "getitem" and b.args[1].op in ("str", "tuple"):
        # the column in some position is not the column of some name
        return contains(a.args[0], lambda u: u.op == "param") and not contains(a.args[0], lambda u: u.op in ("umeth", "ulib", "opaque", "list"))
    if a.op == "attr" and a.args[1] == "T":
        return a.args[0] is b and T.ndim_of(b) == 2
    if a.op == "ulib" and a.args[0] == "builtins.repr":
        x = a.args[1][0] if a.args[1] else None
        return x is b or x is not None and x.op == "tofloat" and x.args[0] is b
    return False


def tieless(t):
    """t with every sorting permutation replaced by one that ignores the order
    of tied keys."""
    m = {}
    for u in subterms(t):
        if u.op == "argsort":
            k = u.args[0]
            if k.op == "poly" and all(c < 0 for c, _ in k.args):
                m[u] = mk("getitem", raw("argsort", T.neg(k), NONE), raw("slice", NONE, NONE, num(-1)))
            else:
                m[u] = raw("argsort", k, NONE)
    return T.subst(t, m) if m else t


def only_rng(a, b):
    """The two differ only in which position of the random stream is used."""
    if not contains(a, lambda u: u.op in ("rng", "rngl", "rngs", "rngite", "draw")):
        return False
    z = raw("rng", 0)
    return _norng(a, z) is _norng(b, z)


def rng_pairs(a, b, out):
    """Collect (impl draw, spec draw) by walking the two terms in parallel."""
    if a is b:
        return True
    if a.op in ("rng", "rngl", "rngs", "rngite", "rnga") or b.op in ("rng", "rngl", "rngs", "rngite", "rnga"):
        out.add((a, b))
        return True
    ka, kb = kids(a), kids(b)
    if a.op != b.op or len(ka) != len(kb):
        return False
    return all(rng_pairs(x, y, out) for x, y in zip(ka, kb))


def _norng(t, z):
    m = {u: z for u in subterms(t) if u.op in ("rng", "rngl", "rngs", "rngite")}
    return T.subst(t, m) if m else t
