"""Property-specific rules on top of the value graphs (see oblig.py)."""
import ast

from . import decide as D
from . import lib as L
from . import terms as T
from .interp import analyse
from .oblig import HOLDS, VIOLATED, UNDECIDED, Outcome, Anchor, SPEC_ONLY, types_of, simple_atom, const_like, MODS
from .terms import TRUE, FALSE, num, raw, subterms, ty

PRED_OPS = {"param", "num", "inf", "none", "str", "bool", "any", "isnan", "isinf", "not", "and", "or", "lt", "le", "eq", "intle", "inteq", "poly", "dim", "size", "ndim"}
SILENT_LIBS = ("warnings.", "logging.")


def here(fo):
    return (fo.module.path, fo.node.lineno, fo.name)


# ---------------------------------------------------------------------------
# guards: bad inputs must be rejected
# ---------------------------------------------------------------------------
def guard_table(P):
    out = []
    for k in P.prog.module("spec.guards").funcs:
        m, f, tag = k.split("__", 2) if not k.split("__")[1] == "" else _priv(k)
        out.append(("mlpaper.%s.%s" % (m, f), tag, k))
    return out


def _priv(k):
    # <module>__<_private>__<tag> splits as module, '', ... only when the name starts with '__'
    m, rest = k.split("__", 1)
    f, tag = rest.rsplit("__", 1)
    return m, f, tag


def parse_guard(k):
    m, rest = k.split("__", 1)
    f, tag = rest.rsplit("__", 1)
    return "mlpaper.%s.%s" % (m, f), tag


def guards(P, only=None, tags=None):
    P.prog.env("spec.guards")
    out = []
    for k, gf in P.prog.module("spec.guards").funcs.items():
        q, tag = parse_guard(k)
        if q not in P.specs:
            raise Anchor("guard for unknown routine " + q)
        if only is not None and q not in only or tags is not None and tag not in tags:
            continue
        if P.impl(q) is None:
            continue
        try:
            out.append(guard(P, q, tag, gf))
        except Exception as e:
            out.append(Outcome(UNDECIDED, "rejects bad input (%s)" % tag, q, "analyser error %s: %s" % (type(e).__name__, str(e)[:200])))
    return out


def guard(P, q, tag, gf):
    rule = "rejects bad input (%s)" % tag
    try:
        ri = P.value(q, "impl", True)
    except (D.GaveUp, RecursionError) as e:
        return Outcome(UNDECIDED, rule, q, str(e))
    sf = P.specs[q]
    types = types_of(sf)
    rg = analyse(P.prog, gf, types)
    F = D.Facts()
    bad = []
    # the guard's own assertions say what is bad; those of code it calls to
    # compute the witness hold of the witness
    own = [r for r in rg.rejects if r.where[2] == gf.name]
    at = one_position(own, ri.rejects)
    for r in rg.rejects:
        c = at(r)
        if r not in own:
            F.assume(c, False)
            continue
        if c.op == "or":
            bad.append(c)
            continue
        F.assume(c, True)
    F.close()
    if F.bad:
        return Outcome(UNDECIDED, rule, q, "guard is contradictory")
    if rg.value.op in ("list", "tuple"):
        # the witness: further facts about the bad input that may be assumed
        for w in T.kids(rg.value):
            F.assume(D.simp(T.mk("truthy", w), F), True)
        F.close()
        if F.bad:
            return Outcome(UNDECIDED, rule, q, "witness is contradictory")
    P.stats["obligations"] += 1
    rej = [at(r) for r in ri.rejects]
    known = set(bad)
    # the bad input differs from a valid one in the guard's first parameter
    first = gf.node.args.args[0].arg
    subj = {u for c in [at(r) for r in own] for u in subterms(c) if u.op == "param" and u.args[0] == first}
    if own and own[0].loops:
        subj = {u for u in subterms(at(own[0])) if u.op == "param" and u.args[0].startswith("@cell")}
    if not subj:
        raise Anchor("guard %s does not mention %s" % (gf.name, first))
    byvalue = any(touches(at(r), subj) for r in own)
    if any(r in known for r in rej):
        return Outcome(HOLDS, rule, q)
    budget = [400]
    mode = all(u.args[1] == "str" for u in subj)  # a named choice

    def search(rs, F):
        """None: rejected in every case; ('open', t): unknown; ('passes', F)."""
        budget[0] -= 1
        if budget[0] < 0:
            return ("open", None)
        cur, loose = [], []
        for r in rs:
            s = D.simp(r, F)
            if s is TRUE or s in known:
                return None
            if s is not FALSE and s not in cur:
                # a condition that in this case no longer depends on what is bad
                (cur if not mode or depends(s) else loose).append(s)
        if F.bad or any(D.simp(r, F) is TRUE for r in free):
            return None
        if not cur:
            new = {u for a in F.lit if a not in F0.lit for u in subterms(a) if u.op == "param" and touches(a, {u})}
            near = [s for s in [D.simp(r, F) for r in free] + loose if s is not FALSE and touches(s, new)]
            if falsify(near, F, [60]):
                return ("passes", F)
            return ("open", near[0])
        opn = None
        for r in cur:
            for a in D.gate_atoms(r):
                if F.decide(a) is None and (predicate(a) or slack(a, F)):
                    for v in (False, True):
                        G = F.copy()
                        G.assume(a, v)
                        if G.bad:
                            continue
                        res = search(cur + loose, G)
                        if res is not None and res[0] == "passes":
                            return res
                        if res is not None:
                            opn = res
                    return opn
        return ("open", cur[0])

    # the call is rejected outright in every case?
    for r in rej:
        if D.simp(r, F) is TRUE:
            return Outcome(HOLDS, rule, q, "rejected by: " + T.show(r, 4)[:120])
    if ri.ctx.notes:
        return Outcome(UNDECIDED, rule, q, "unmodelled statement: %s" % (ri.ctx.notes[0],))
    # conditions that do not depend on what makes the input bad are met by some
    # such input if they are met by any input at all
    depends = lambda r: touches(r, subj) if byvalue else bool(subj & subterms(r).keys())
    dep = [r for r in rej if depends(r)]
    free = [r for r in rej if r not in dep]
    F0 = F
    res = search(dep, F)
    if res is None:
        return Outcome(HOLDS, rule, q)
    if res[0] == "passes":
        what = T.show(at(own[0]), 5)[:200]
        if own[0].loops and any(u.op in ("anyloop", "elem") for r in dep for u in subterms(r)):
            return Outcome(UNDECIDED, rule, q, "a check ranges over something else than the table's labels")
        return Outcome(VIOLATED, rule, q, "an input with %s is not rejected" % what, here(P.impl(q)), "case: " + " and ".join(("" if v else "not ") + T.show(a, 4) for a, v in list(res[1].lit.items())[:8])[:500])
    return Outcome(UNDECIDED, rule, q, "cannot tell whether this check rejects it: %s" % (T.show(res[1], 4)[:200] if res[1] is not None else "too many cases"))


def one_position(own, rejects):
    """Conditions of rejects at one arbitrary position of the guard's loops, with
    the cells, limits and labels found there named."""
    els = {el for r in own for _, el in r.loops}
    if not els:
        return lambda r: r.cond()
    names = {}
    memo = {}
    ref = [u for r in own + rejects for c in r.conds + (r.test,) for u in subterms(c) if u.op == "param" and u.args[0] == "ref_method"]

    def at(r):
        if r in memo:
            return memo[r]
        c = T.and_(*(r.conds + (r.test,)))
        for it, el in reversed(r.loops):
            if el in els or not any(u is el for u in subterms(c)):
                continue
            # the position of the reference among the table's methods
            lab = [u for u in subterms(c) if u.op == "getitem" and u.args[1] is el and levels(u.args[0])]
            other = any(u is not el and el in T.kids(u) and u not in lab for u in subterms(c))
            if len(lab) == 1 and not other and ref:
                c = T.subst(c, {lab[0]: ref[0]})
            else:
                c = T.mk("anyloop", it, el, c)
        m = {}
        for u in subterms(c):
            # NaNs of a part of a table and of its values are the same
            if u.op in ("isnan", "isinf") and u.args[0].op == "getitem" and L.is_pandas(u.args[0]) and any(e in els for e in subterms(u)):
                m[u] = T.mk(u.op, T.mk("attr", u.args[0], "values"))
        if m:
            c = T.subst(c, m)
        m = {}
        for u in subterms(c):
            if u.op == "attr" and u.args[1] == "values" and any(e in els for e in subterms(u)):
                m[u] = names.setdefault(u, raw("param", "@cell%d" % len(names), "arr%d" % (L.ndim_of(u) or 1)))
            elif u.op == "getitem" and u.args[0].op == "dictget" and u.args[1].op == "num" and any(e in els for e in subterms(u)):
                m[u] = names.setdefault(u, raw("param", "@limit%d" % len(names), "float"))
        c = T.subst(c, m)
        m = {}
        for u in subterms(c):
            if u.op == "getitem" and u.args[1] in els and levels(u.args[0]):
                m[u] = names.setdefault(u, raw("param", "@label%d" % len(names), ""))
        c = T.subst(c, m)
        memo[r] = c
        return c

    return at


def levels(t):
    return t.op == "getitem" and t.args[0].op == "attr" and t.args[0].args[1] == "levels"


def falsify(rs, F, budget):
    """Some further assumptions about the parameters make every r false."""
    budget[0] -= 1
    cur = []
    for r in rs:
        s = D.simp(r, F)
        if s is TRUE:
            return False
        if s is not FALSE:
            cur.append(s)
    if F.bad or budget[0] < 0:
        return False
    if not cur:
        return True
    for a in D.gate_atoms(cur[0]):
        if F.decide(a) is None and predicate(a):
            for v in (False, True):
                G = F.copy()
                G.assume(a, v)
                if not G.bad and falsify(cur, G, budget):
                    return True
            return False
    return False


SHAPE_OPS = ("dim", "size", "ndim", "len")
SAME_SHAPE = {"poly", "maximum", "minimum", "fmax", "fmin", "abs", "exp", "log", "where", "lt", "le", "eq", "not", "isnan", "isinf", "cumsum", "cummax", "argsort", "sort", "astype", "tofloat", "toint",
              "mean", "sum", "amin", "amax", "std", "concat", "stack", "kd", "tuple", "list", "slice", "num", "none", "inf", "unique", "ite", "bool"}


def touches(t, subj, memo=None):
    """t depends on the elements of a subject parameter, not only on its shape
    or type."""
    memo = {} if memo is None else memo
    r = memo.get(t)
    if r is None:
        if t in subj:
            r = True
        elif t.op in SHAPE_OPS or t.op == "attr" and t.args[1] in ("shape", "dtype", "kind", "ndim", "columns", "index"):
            r = shape_touches(t.args[0], subj, memo)
        else:
            r = any(touches(k, subj, memo) for k in T.kids(t))
        memo[t] = r
    return r


def shape_touches(t, subj, memo):
    """The shape of t depends on the elements of a subject parameter."""
    if t.op in ("param", "meth", "apply", "cached"):
        return False  # predictions have the shape of their input
    if t.op == "ite":
        return shape_touches(t.args[1], subj, memo) or shape_touches(t.args[2], subj, memo)
    if t.op in SAME_SHAPE or t.op == "attr" and t.args[1] in ("values", "shape", "dtype", "index"):
        return any(shape_touches(k, subj, memo) for k in T.kids(t))
    if t.op == "lib" and t.args[0] in ("numpy.percentile", "numpy.zeros", "numpy.ones", "numpy.diff"):
        return any(shape_touches(k, subj, memo) for k in T.kids(t))
    if t.op == "getitem" and all(u.op in ("num", "none", "slice", "tuple", "ell", "argsort") or u.op == "poly" and not touches(u, subj, memo) for u in ([t.args[1]] + list(T.kids(t.args[1])) if t.args[1].op == "tuple" else [t.args[1]])):
        return shape_touches(t.args[0], subj, memo)
    return touches(t, subj, memo)


def looser(a):
    """np.isclose with wider tolerances than the usual ones: may well hold of
    values that are not close in the usual sense."""
    if a.op != "lib" or a.args[0] not in ("numpy.isclose", "numpy.allclose"):
        return False
    kw = dict(a.args[1])
    r, t = kw.get("rtol", num(1e-5)), kw.get("atol", num(1e-8))
    if r.op != "num" or t.op != "num" or not all(kw[k].op in ("param", "num") for k in ("a", "b")):
        return False
    u, v = num(1e-5).args[0], num(1e-8).args[0]
    return r.args[0] >= u and t.args[0] >= v and (r.args[0] > u or t.args[0] > v)


def threshold(a):
    """(e, k) for: some element of e is below the number k."""
    if a.op != "any" or a.args[1] is not T.NONE:
        return None
    b = a.args[0]
    if b.op == "not" and b.args[0].op == "le":
        x, y = b.args[0].args
    elif b.op == "lt":
        y, x = b.args
    else:
        return None
    d = T.to_poly(T.sub(y, x))
    k = d.pop((), 0)
    return (T.from_poly(d), -k) if d else None


def slack(a, F):
    """Asks for a smaller excess than the one assumed: the bad element may stay
    within it."""
    w = threshold(a)
    if w is None:
        return False
    for b, v in F.lit.items():
        u = threshold(b) if v else None
        if u is not None and u[0] is w[0] and w[1] < u[1]:
            return True
    return False


def predicate(a):
    if simple_atom(a) or looser(a):
        return True
    return all(u.op in PRED_OPS or u.op == "getitem" and u.args[0].op == "param" and L.own_mask(u.args[1], u.args[0]) for u in subterms(a))


# ---------------------------------------------------------------------------
# purity
# ---------------------------------------------------------------------------
ALLOWED_MUTATION = {("mlpaper.util.cummax_strict", "x"): "copy=False asks for in-place operation"}


def purity(P, q):
    fo = P.impl(q)
    rule = "arguments unchanged"
    if fo is None:
        return Outcome(HOLDS, rule, q, "no longer exists")
    try:
        r = P.value(q, "impl", True)
    except (D.GaveUp, RecursionError) as e:
        return Outcome(UNDECIDED, rule, q, str(e))
    P.stats["obligations"] += len(r.params)
    inv = P.alias(fo, P.specs[q])
    for p, c in r.mutated.items():
        if (q, inv.get(p, p)) in ALLOWED_MUTATION and q.endswith("cummax_strict"):
            if not always_copied(P, q, p):
                return Outcome(VIOLATED, rule, q, "argument %s is overwritten although copy is requested" % p, P.locate(r, c), T.show(c, 5)[:300])
            continue
        return Outcome(VIOLATED, rule, q, "argument %s of the caller is modified" % p, mutation_site(P, r, c), T.show(c, 5)[:300])
    for kind, detail, where in r.ctx.effects:
        if kind in ("store-unknown", "inplace-unknown", "setattr-unknown", "dynamic"):
            return Outcome(UNDECIDED, rule, q, "%s %s at %s" % (kind, detail, where), where)
    return Outcome(HOLDS, rule, q, "%d parameters, %d effects" % (len(r.params), len(r.ctx.effects)))


def mutation_site(P, r, c):
    for u in subterms(c):
        if u.op in ("store", "setattr", "opaque", "listcat", "idxname") and u in r.ctx.loc:
            return r.ctx.loc[u]
    return P.locate(r, c)


def always_copied(P, q, p):
    fo = P.impl(q)
    inv = {v: k for k, v in P.alias(fo, P.specs[q]).items()}
    types = types_of(P.specs[q])
    r = analyse(P.prog, fo, types, frozenset(), overrides={inv.get("copy", "copy"): TRUE})
    return p not in r.mutated


# ---------------------------------------------------------------------------
# global state and randomness
# ---------------------------------------------------------------------------
MAY_DRAW = {
    "boot_util.boot_weights", "util.epsilon_noise", "data_splitter.rand_subset", "data_splitter.rand_mask", "data_splitter.random_split_series", "data_splitter.split_df",
    "mlpaper.boot_test", "mlpaper.boot_EB", "mlpaper._boot_EB_and_test", "mlpaper.get_mean_and_EB", "mlpaper.get_test", "mlpaper.get_mean_EB_test", "mlpaper.loss_summary_table",
    "classification.curve_boot", "classification.curve_summary_table", "classification.summary_table", "classification.just_benchmark", "regression.just_benchmark",
}
FOREIGN = ("numpy.random.default_rng", "numpy.random.RandomState", "numpy.random.Generator", "numpy.random.PCG64", "numpy.random.SeedSequence", "numpy.random.MT19937", "numpy.random.Philox")


def state(P, q):
    out = []
    fo = P.impl(q)
    if fo is None:
        return out
    try:
        r = P.value(q, "impl", True)
    except (D.GaveUp, RecursionError) as e:
        return [Outcome(UNDECIDED, "global state", q, str(e))]
    short = q[len("mlpaper.") :]
    P.stats["obligations"] += 2
    for kind, detail, where in r.ctx.effects:
        if kind in ("draw", "draws"):
            if foreign(detail):
                out.append(Outcome(VIOLATED, "one random source", q, "randomness from %s instead of numpy's global generator" % detail, where, detail))
            elif short not in MAY_DRAW:
                out.append(Outcome(VIOLATED, "no randomness needed", q, "draws from %s" % detail, where, detail))
        elif kind == "global-state":
            out.append(Outcome(VIOLATED, "global state", q, "changes %s" % detail, where, detail))
        elif kind in ("global-write", "global-mutation"):
            out.append(Outcome(VIOLATED, "global state", q, "modifies the module variable %s" % detail, where, detail))
        elif kind == "dynamic":
            out.append(Outcome(UNDECIDED, "global state", q, "dynamic code: %s" % detail, where))
    if not out:
        out.append(Outcome(HOLDS, "global state", q, "%d effects" % len(r.ctx.effects)))
    return dedup(out)


def log_space(P, q):
    """Log probabilities are never formed as the log of an exponential."""
    rule = "stays in log space"
    if P.impl(q) is None:
        return []
    r = P.value(q, "impl", True)
    P.stats["obligations"] += 1
    for kind, detail, where in r.ctx.effects:
        if kind == "log-of-exp":
            return [Outcome(VIOLATED, rule, q, "takes the log of %s, which is zero or infinite for extreme but valid input" % detail, where, detail)]
    return [Outcome(HOLDS, rule, q)]


def draw_conditions(r):
    out = []
    for i, (kind, detail, where) in enumerate(r.ctx.effects):
        if kind in ("draw", "draws") and i in r.ctx.when:
            pc, loops = r.ctx.when[i]
            out.append((T.and_(*pc) if pc else TRUE, loops, detail, where))
    return out


def needless(P, q):
    """A draw on a path on which the specified result involves no draw."""
    rule = "no randomness needed"
    if P.impl(q) is None:
        return []
    ri, rs = P.value(q, "impl", True), P.value(q, "spec", True)
    want = [c for c, _, _, _ in draw_conditions(rs)]
    if not want or TRUE in want:
        return []
    known = {a for c in want for a in D.gate_atoms(c)}
    P.stats["obligations"] += 1
    for c, loops, detail, where in draw_conditions(ri):
        if any(c is w for w in want):
            continue
        if not all(predicate(a) or a in known for a in D.gate_atoms(c)):
            continue
        F = D.Facts()
        for r in rs.rejects + ri.rejects:
            F.assume(r.cond(), False)
        F.assume(c, True)
        F.close()
        if not F.bad and falsify(list(want), F, [200]):
            return [Outcome(VIOLATED, rule, q, "draws from %s although this case needs no randomness" % detail, where, T.show(c, 4)[:300])]
    return [Outcome(HOLDS, rule, q)]


def foreign(name):
    return name.startswith("random.") or name.startswith("secrets.") or name in ("os.urandom",) or any(name.startswith(f) for f in FOREIGN)


def module_state(P):
    """Effects of importing the package."""
    out = []
    for m in MODS:
        P.prog.env("mlpaper." + m)
        mod = P.prog.module("mlpaper." + m)
        for kind, detail, where in getattr(mod, "effects", []) or []:
            if kind in ("draw", "draws"):
                out.append(Outcome(VIOLATED, "import is silent", "mlpaper." + m, "importing the module draws from %s" % detail, where, detail))
            elif kind == "global-state":
                out.append(Outcome(VIOLATED, "import is silent", "mlpaper." + m, "importing the module changes %s" % detail, where, detail))
        P.stats["obligations"] += 1
    out.append(Outcome(HOLDS, "import is silent", "mlpaper", "%d modules" % len(MODS)))
    return [o for o in out if o.status != HOLDS] or out


def dedup(out):
    seen, res = set(), []
    for o in out:
        k = (o.status, o.rule, o.function, o.detail)
        if k not in seen:
            seen.add(k)
            res.append(o)
    return res


# ---------------------------------------------------------------------------
# no leak from test to training
# ---------------------------------------------------------------------------
def params_in(t):
    return {u.args[0] for u in subterms(t) if u.op == "param"}


def content_params(t):
    """Parameters whose contents (not just dimensions) the term depends on."""
    out = set()
    seen = set()
    stack = [t]
    while stack:
        u = stack.pop()
        if u in seen:
            continue
        seen.add(u)
        if u.op == "param":
            out.add(u.args[0])
        if u.op in ("dim", "ndim", "size"):
            continue
        if u.op == "ikeys":
            # the name of an entry, not the entry
            out |= {"keys of " + x.args[0] for x in subterms(u) if x.op == "param"}
            continue
        stack.extend(T.kids(u))
    return out


READS = {"score", "decision_function", "transform", "staged_predict", "get", "items", "keys", "values", "pop", "copy", "kneighbors", "format", "__getitem__"}


def leaves(t):
    """Values a conditional may take."""
    if t.op != "ite":
        return [t]
    return leaves(t.args[1]) + leaves(t.args[2])


def fitted(t):
    return any(u.op == "mut" and u.args[1] == "fit" for u in subterms(t))


def leak(P, q):
    """Arguments of fit depend on the training data only, those of predict on the test inputs only."""
    fo = P.need(q)
    rule = "fit sees training data only"
    try:
        r = P.value(q, "impl", True)
    except (D.GaveUp, RecursionError) as e:
        return [Outcome(UNDECIDED, rule, q, str(e))]
    inv = P.alias(fo, P.specs[q])
    out = []
    nfit = npred = nother = 0
    for name, kw, pc, loops, where in r.ctx.calls:
        if name == ".fit":
            nfit += 1
            deps = set()
            for v in kw.values():
                deps |= {inv.get(p, p) for p in params_in(v)}
            bad = deps & {"X_test", "y_test"}
            if bad:
                out.append(Outcome(VIOLATED, rule, q, "fit receives %s" % ", ".join(sorted(bad)), where, T.show(list(kw.values())[0], 4)[:200]))
        elif name.startswith(".predict"):
            npred += 1
            deps = {inv.get(p, p) for p in params_in(kw["X"])}
            bad = deps & {"y_test", "y_train", "X_train"}
            if "y_test" in deps:
                out.append(Outcome(VIOLATED, "predict sees test inputs only", q, "predict receives %s" % ", ".join(sorted(bad)), where, T.show(kw["X"], 4)[:200]))
            states = leaves(kw["st"])
            if len(states) > 1 and any(fitted(x) for x in states) and not all(fitted(x) for x in states):
                out.append(Outcome(VIOLATED, "every prediction comes from a fitted method", q, "a path reaches predict without fitting the method on the training data of this call", where, T.show(kw["st"], 3)[:200]))
        elif name.endswith("()") and name[1:-2] not in READS:
            s = kw["st"]
            while s.op in ("mut", "getitem", "dictget"):
                s = s.args[0]
            if s.op != "param" or inv.get(s.args[0], s.args[0]) not in ("methods", "method_obj") or kw["st"] is s and s.args[1] == "dict":
                continue
            nother += 1
            bad = {inv.get(p, p) for v in kw["args"] for p in params_in(v)} & {"X_test", "y_test"}
            if bad:
                out.append(Outcome(VIOLATED, rule, q, "the method's %s is given %s" % (name[1:-2], ", ".join(sorted(bad))), where, " ".join(T.show(v, 4) for v in kw["args"])[:200]))
    P.stats["obligations"] += nfit + npred + nother
    if nfit == 0 or npred == 0:
        out.append(Outcome(UNDECIDED, rule, q, "no fit or predict call found"))
    return out or [Outcome(HOLDS, rule, q, "%d fit and %d predict call sites" % (nfit, npred))]


def fallback(P, q):
    """Only a method that cannot report deviations gets unit deviations: an
    error of any other kind while predicting is not turned into a prediction."""
    rule = "only a missing return_std falls back"
    P.need(q)
    try:
        r = P.value(q, "impl", True)
    except (D.GaveUp, RecursionError) as e:
        return [Outcome(UNDECIDED, rule, q, str(e))]
    out = []
    n = 0
    for name, rec, pc, loops, where in r.ctx.calls:
        if name == ".try" and any(u.op in ("meth", "umeth") and u.args[1] == "predict" for u in subterms(rec["guarded"])):
            n += 1
            wide = rec["exc"] - {"TypeError"}
            if wide and not rec["reraise"]:
                out.append(Outcome(VIOLATED, rule, q, "%s while predicting is replaced by a prediction with unit deviation" % ("any error" if "any" in wide else ", ".join(sorted(wide))), where, ""))
    P.stats["obligations"] += 1
    return out or [Outcome(HOLDS, rule, q, "%d guarded predictions" % n)]


def cache_key(P, q):
    """The cached worker's result depends on nothing but its arguments."""
    fo = P.need(q)
    rule = "cache key is complete"
    try:
        r = P.value(q, "impl", True)
    except (D.GaveUp, RecursionError) as e:
        return [Outcome(UNDECIDED, rule, q, str(e))]
    out = []
    n = 0
    for name, rec, pc, loops, where in r.ctx.calls:
        if name != ".cached":
            continue
        n += 1
        key = set()
        for a in rec["args"]:
            key |= content_params(a)
        dep = content_params(rec["value"])
        miss = dep - key
        if miss:
            out.append(Outcome(VIOLATED, rule, q, "cached result depends on %s, which is not part of the cache key" % ", ".join(sorted(miss)), where, T.show(rec["value"], 4)[:200]))
        ign = rec["options"].get("ignore")
        if ign is not None and ign.op in ("list", "tuple") and rec["func"].op == "func":
            wf = rec["func"].args[0]
            names = {a.args[0] for a in ign.args if a.op == "str"}
            used = names & {x.id for x in ast.walk(wf.node) if isinstance(x, ast.Name)}
            used -= {"verbose"}
            if used:
                out.append(Outcome(VIOLATED, rule, q, "argument %s is left out of the cache key" % ", ".join(sorted(used)), where, ""))
    P.stats["obligations"] += n
    if n == 0:
        out.append(Outcome(UNDECIDED, rule, q, "no cached call found"))
    return out or [Outcome(HOLDS, rule, q, "%d cached call sites" % n)]


# ---------------------------------------------------------------------------
# drivers: classes compared through a fixed client
# ---------------------------------------------------------------------------
def uses(t):
    """Parameters whose contents the value is computed from, by operations that
    are modelled."""
    out, seen, stack = set(), set(), [t]
    while stack:
        u = stack.pop()
        if u in seen:
            continue
        seen.add(u)
        if u.op == "param":
            out.add(u.args[0])
        if u.op in ("dim", "ndim", "size", "opaque", "ulib", "umeth", "attr", "bm", "obj") or u.op == "lib" and u.args[0] in ("numpy.full_like", "numpy.zeros_like", "numpy.ones_like"):
            continue
        if u.op == "poly" and any(c == 0 for c, _ in u.args):
            continue
        stack.extend(T.kids(u))
    return out


def driver(P, name):
    """Compare spec.drivers.<name>_impl with spec.drivers.<name>_spec."""
    P.prog.env("spec.drivers")
    fs = P.prog.module("spec.drivers").funcs
    rule = "same behaviour of the class"
    fi, fs_ = fs[name + "_impl"], fs[name + "_spec"]
    try:
        ri = analyse(P.prog, fi, types_of(fi))
        rs = analyse(P.prog, fs_, types_of(fs_))
        o = P.compare(rule, "spec.drivers." + name, ri, rs)
        if o.status == UNDECIDED:
            extra = sorted(uses(ri.value) - uses(rs.value))
            if extra:
                return Outcome(VIOLATED, rule, "spec.drivers." + name, "the prediction depends on the contents of %s" % extra[0], o.where, o.detail)
        if o.status == HOLDS:
            acc = P.accept1("spec.drivers." + name, ri, rs)
            for a in acc:
                if a.status != HOLDS:
                    return a
        return o
    except (D.GaveUp, RecursionError) as e:
        return Outcome(UNDECIDED, rule, name, str(e))


def driver_purity(P, names):
    out = []
    P.prog.env("spec.drivers")
    fs = P.prog.module("spec.drivers").funcs
    for name in names:
        f = fs[name + "_impl"]
        rule = "arguments unchanged"
        try:
            r = analyse(P.prog, f, types_of(f))
        except (D.GaveUp, RecursionError) as e:
            out.append(Outcome(UNDECIDED, rule, name, str(e)))
            continue
        P.stats["obligations"] += len(r.params)
        bad = [p for p in r.mutated]
        if bad:
            out.append(Outcome(VIOLATED, rule, "JustNoise (%s)" % name, "argument %s of the caller is modified" % bad[0], mutation_site(P, r, r.mutated[bad[0]]), T.show(r.mutated[bad[0]], 4)[:200]))
        else:
            out.append(Outcome(HOLDS, rule, name))
    return out


def driver_method(P, mod, cls):
    P.prog.env(mod)
    e = P.prog.env(mod).get(cls)
    if e is None:
        raise Anchor("%s.%s no longer exists" % (mod, cls))
    return Outcome(HOLDS, "class exists", "%s.%s" % (mod, cls))


def quiet_methods(P):
    """With the t or Bernstein interval no random number is consumed."""
    out = []
    for f, par in (("get_mean_and_EB", "method"), ("get_test", "method"), ("get_mean_EB_test", "method"), ("loss_summary_table", "method_EB")):
        q = "mlpaper.mlpaper." + f
        if P.impl(q) is None:
            continue
        for m in ("t", "bernstein"):
            rule = "no randomness with %s=%s" % (par, m)
            try:
                r = P.value(q, "impl", True, fixed={par: T.string(m)})
            except (D.GaveUp, RecursionError) as e:
                out.append(Outcome(UNDECIDED, rule, q, str(e)))
                continue
            P.stats["obligations"] += 1
            d = [e for e in r.ctx.effects if e[0] in ("draw", "draws")]
            if d:
                out.append(Outcome(VIOLATED, rule, q, "draws from %s" % d[0][1], d[0][2], d[0][1]))
            else:
                out.append(Outcome(HOLDS, rule, q))
    return out


# ---------------------------------------------------------------------------
# module-level tables
# ---------------------------------------------------------------------------
def constant(P, short):
    """Module-level table or constant has its documented value."""
    m, n = short.split(".")
    mod = "mlpaper." + m
    rule = "documented table"
    q = mod + "." + n
    want = P.prog.env("spec.tables")[m + "__" + n]
    if P.prog.find(mod) is None or n not in P.prog.env(mod):
        return Outcome(UNDECIDED, rule, q, "no longer exists")
    got = P.prog.env(mod)[n]
    P.stats["obligations"] += 1
    w, g = canon(P, want), canon(P, got)
    if w is g or T.mk("eq", w, g) is TRUE:
        return Outcome(HOLDS, rule, q)
    where = (P.prog.module(mod).path, line_of(P.prog.module(mod).tree, n), n)
    if w.op == "dict" and g.op == "dict":
        dw, dg = dict(w.args), dict(g.args)
        for k in dw:
            if k not in dg:
                return Outcome(VIOLATED, rule, q, "entry %s is missing" % T.show(k, 3), where, T.show(k, 3))
            if dw[k] is not dg[k]:
                if plain(dg[k]) and plain(dw[k]):
                    return Outcome(VIOLATED, rule, q, "entry %s is %s, documented %s" % (T.show(k, 3), T.show(dg[k], 4), T.show(dw[k], 4)), where, T.show(k, 3))
                return Outcome(UNDECIDED, rule, q, "entry %s not understood" % T.show(k, 3), where)
        return Outcome(HOLDS, rule, q, "further entries: %d" % (len(dg) - len(dw)))
    if plain(g) and plain(w) or g.op == w.op == "vec":
        return Outcome(VIOLATED, rule, q, "is %s, documented %s" % (T.show(g, 5), T.show(w, 5)), where, n)
    return Outcome(UNDECIDED, rule, q, "not understood: %s" % T.show(g, 4), where)


def plain(t):
    return const_like(t) or t.op == "fn" or t.op in ("tuple", "list") and all(plain(a) for a in t.args)


def canon(P, t):
    m = {}
    for u in subterms(t):
        if u.op == "func":
            m[u] = raw("fn", P.prog.canon.get(u.args[0].qual, u.args[0].qual))
    if not m:
        return t
    return _subst_args(t, m)


def _subst_args(t, m):
    if t in m:
        return m[t]
    return raw(t.op, *T._mapargs(t.args, lambda u: _subst_args(u, m)))


def line_of(tree, name):
    for n in tree.body:
        if isinstance(n, (ast.Assign, ast.AnnAssign)):
            for t in n.targets if isinstance(n, ast.Assign) else [n.target]:
                if isinstance(t, ast.Name) and t.id == name:
                    return n.lineno
    return 0
