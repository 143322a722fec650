"""Abstract interpreter: Python syntax tree -> gated value graph.

Each function is read from its syntax tree and turned into one term per result
(gated-SSA style: joins become `ite` gates, loops become binders).  Library
calls are terms, never executed; repository code is never imported or run.
"""
import ast
import os

from .lib import *  # noqa
from .lib import FULL, tup, lst, as_list, truth, lib_call, meth_call, typename, loop_bool, getitem, store, dictget
from . import terms as T
from . import lib as L
from .terms import num, string, raw, mk, NONE, TRUE, FALSE, INF, NAN, BOTTOM, ty, intval, subst, contains, is_const

MAXDEPTH = 40


class FuncObj(object):
    def __init__(self, node, module, qual, cls=None):
        self.node, self.module, self.qual, self.cls = node, module, qual, cls
        self.closure = None
        self.def_frame = None
        self.defaults = {}
        self.is_lambda = isinstance(node, ast.Lambda)
        a = node.args
        self.pos = [x.arg for x in a.posonlyargs + a.args]
        self.kwonly = [x.arg for x in a.kwonlyargs]
        self.vararg = a.vararg.arg if a.vararg else None
        self.kwarg = a.kwarg.arg if a.kwarg else None
        self.decorators = []

    @property
    def name(self):
        return getattr(self.node, "name", "<lambda>")

    def __repr__(self):
        return "<fn %s>" % self.qual


class ClassObj(object):
    def __init__(self, name, module, qual, methods, attrs):
        self.name, self.module, self.qual, self.methods, self.attrs = name, module, qual, methods, attrs
        self.record, self.fields = None, []

    def __repr__(self):
        return "<class %s>" % self.qual


class Module(object):
    def __init__(self, name, path, tree):
        self.name, self.path, self.tree = name, path, tree
        self.env = None
        self.funcs = {}
        self.classes = {}
        self.busy = False


class State(object):
    __slots__ = ("env", "heap", "pc", "rng", "dead", "dctx", "views", "links")

    def __init__(self):
        self.env, self.heap, self.pc = {}, {}, ()
        self.rng = raw("rng", 0)
        self.dead = False
        self.dctx = None
        self.views = {}
        self.links = {}

    def copy(self):
        s = State()
        s.env, s.heap, s.pc = dict(self.env), dict(self.heap), self.pc
        s.rng, s.dead, s.dctx, s.views = self.rng, self.dead, self.dctx, dict(self.views)
        s.links = dict(self.links)
        return s

    def take(self, o):
        self.env, self.heap, self.pc, self.rng, self.dead, self.dctx, self.views = o.env, o.heap, o.pc, o.rng, o.dead, o.dctx, o.views
        self.links = o.links


class Frame(object):
    def __init__(self, module, func, parent=None):
        self.module, self.func, self.parent = module, func, parent
        self.returns = []
        self.loop = None
        self.globals = set()
        self.closure_env = None


class LoopCtl(object):
    def __init__(self):
        self.conts, self.breaks = [], []


class Reject(object):
    __slots__ = ("conds", "test", "loops", "exc", "where", "msg")

    def __init__(self, conds, test, loops, exc, where):
        self.conds, self.test, self.loops, self.exc, self.where = conds, test, loops, exc, where

    def cond(self):
        """Condition under which the call is rejected (loops closed by anyloop)."""
        c = T.and_(*(self.conds + (self.test,)))
        for it, el in reversed(self.loops):
            if contains(c, lambda u: u is el):
                c = mk("anyloop", it, el, c)
        return c


class Ctx(object):
    """Results and configuration of one analysis."""

    def __init__(self, boundary=frozenset()):
        self.boundary = boundary
        self.rejects = []
        self.when = {}  # index of an effect -> path condition and loops around it
        self.loc = {}
        self.effects = []  # (kind, detail, where)
        self.notes = []
        self.calls = []  # (callee qual, bound args, conds, loops, where)
        self.loops = []
        self.stack = []
        self.uid = 0
        self.nref = 0
        self.n_nodes = 0
        self.divide = ""  # the floating-point error mode in force

    def fresh(self):
        self.uid += 1
        return self.uid


class Program(object):
    def __init__(self, roots):
        """roots: {package or module prefix: directory}"""
        self.roots = roots
        self.modules = {}
        self.edit = None  # (module, function that edits its syntax tree)
        self.canon = {}  # qualified name of the definition -> specified name

    def module(self, name):
        if name in self.modules:
            return self.modules[name]
        path = self.find(name)
        if path is None:
            return None
        with open(path) as f:
            src = f.read()
        tree = ast.parse(src, path)
        if self.edit is not None and self.edit[0] == name:
            self.edit[1](tree)
        m = Module(name, path, tree)
        self.modules[name] = m
        return m

    def find(self, name):
        for prefix, d in self.roots.items():
            if name == prefix:
                p = os.path.join(d, "__init__.py")
                if os.path.exists(p):
                    return p
                p = d + ".py"
                return p if os.path.exists(p) else None
            if name.startswith(prefix + "."):
                p = os.path.join(d, *name[len(prefix) + 1 :].split(".")) + ".py"
                if os.path.exists(p):
                    return p
        return None

    def env(self, name):
        m = self.module(name)
        if m is None:
            return None
        if m.env is None:
            if m.busy:
                return {}
            m.busy = True
            ip = Interp(self, Ctx())
            fr = Frame(m, None)
            st = State()
            st.env["__name__"] = string(name)
            ip.frame = fr
            m.env = st.env  # visible while executing (functions resolve lazily)
            for stmt in m.tree.body:
                try:
                    ip.exec_block([stmt], st)
                except Exception as e:  # a statement the analyser cannot execute defines unknown values
                    ip.frame = fr
                    for x in ast.walk(stmt):
                        if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store):
                            st.env[x.id] = raw("opaque", "module statement", "%s: %s" % (type(e).__name__, e), ())
            m.env = {k: ip.deep(v, st) for k, v in st.env.items()}
            m.effects = ip.ctx.effects
            m.busy = False
        return m.env

    def func(self, modname, fname):
        env = self.env(modname)
        if env is None:
            return None
        if "." in fname:
            c, m = fname.split(".")
            t = env.get(c)
            if t is not None and t.op == "cls" and m in t.args[0].methods:
                return t.args[0].methods[m]
            return None
        t = env.get(fname)
        if t is not None and t.op == "func":
            return t.args[0]
        return None


IMM_OPS = {"num", "str", "bool", "none", "tuple", "func", "cls", "libv", "mod", "partial", "vec", "cached", "cacher", "ref", "inf", "nan", "bm", "ell", "bottom", "slice", "ctxobj"}
SCALAR_TY = {"int", "bool", "str", "float", "dec", "none"}

BUILTINS = set(dir(__builtins__) if not isinstance(__builtins__, dict) else __builtins__.keys())

LIBCONST = {
    "numpy.inf": INF,
    "numpy.Inf": INF,
    "numpy.infty": INF,
    "numpy.nan": NAN,
    "numpy.NaN": NAN,
    "numpy.newaxis": NONE,
    "math.inf": INF,
    "math.nan": NAN,
    "numpy.pi": raw("pi"),
    "math.pi": raw("pi"),
    "sys.version_info": tup(num(3), num(12), num(3)),
    "numpy.PINF": INF,
    "numpy.NINF": T.neg(INF),
}

MUTATORS = {"append", "extend", "insert", "update", "pop", "setdefault", "sort", "fill", "remove", "clear", "add", "discard", "reverse", "popitem", "partial_fit", "put", "resize", "setflags", "itemset", "byteswap"}
# may hand back the memory of their first argument
MAY_VIEW = {"numpy." + f for f in ("asarray", "asanyarray", "ascontiguousarray", "asfortranarray", "atleast_1d", "atleast_2d", "ravel", "squeeze", "reshape", "transpose", "swapaxes", "require", "expand_dims", "asfarray")}
GLOBAL_EFFECT = {"numpy.random.seed", "numpy.seterr", "numpy.random.set_state", "decimal.setcontext", "random.seed", "warnings.simplefilter", "warnings.filterwarnings", "numpy.set_printoptions", "pandas.set_option", "numpy.seterrcall", "os.putenv", "os.chdir"}


class Opaque(Exception):
    pass


def own_loop(body):
    """Nodes of a loop body outside nested loops and functions."""
    todo = list(body)
    while todo:
        x = todo.pop()
        yield x
        if not isinstance(x, (ast.For, ast.While, ast.FunctionDef, ast.Lambda, ast.ClassDef)):
            todo.extend(ast.iter_child_nodes(x))


class Interp(object):
    def __init__(self, prog, ctx):
        self.prog, self.ctx = prog, ctx
        self.frame = None
        self.loops = []  # enclosing (it, elem)

    # ------------------------------------------------------------------ util
    def where(self, node):
        m = self.frame.module
        f = self.frame.func
        return (m.path, getattr(node, "lineno", 0), f.name if f is not None else "<module>")

    @staticmethod
    def vec_option(k, v):
        """Options of numpy.vectorize in a canonical form."""
        if k == "excluded" and v.op in ("tuple", "list", "set"):
            return raw("set", *sorted(set(v.args)))
        if k == "otypes":
            if v.op == "str":
                v = tup(*[string(c) for c in v.args[0]])
            if v.op in ("tuple", "list"):
                fl = {"d", "float", "float64", "f8"}
                return tup(*[raw("libv", "builtins.float") if (a.op == "str" and a.args[0] in fl) or (a.op == "libv" and a.args[0] in ("numpy.float64", "numpy.double", "numpy.float_")) else a for a in v.args])
        if k == "signature" and v.op == "str":
            names, out = {}, ""
            tok = ""
            for c in v.args[0] + " ":
                if c.isalnum() or c == "_":
                    tok += c
                    continue
                if tok:
                    out += tok if tok.isdigit() else names.setdefault(tok, "d%d" % len(names))
                    tok = ""
                out += "" if c == " " else c
            return string(out)
        return v

    def opaque(self, reason, node, *ks):
        self.ctx.notes.append((reason, self.where(node)))
        try:
            src = ast.unparse(node)
        except Exception:
            src = ""
        return raw("opaque", reason, src, tuple(ks))

    def deep(self, t, st):
        if t.op == "ref":
            return self.deep(st.heap.get(t.args[0], BOTTOM), st)
        if not contains(t, lambda u: u.op == "ref"):
            return t
        refs = [u for u in T.subterms(t) if u.op == "ref"]
        return subst(t, {r: self.deep(st.heap.get(r.args[0], BOTTOM), st) for r in refs})

    def shallow(self, t, st):
        while t.op == "ref":
            t = st.heap.get(t.args[0], BOTTOM)
        return t

    def alloc(self, t, st):
        self.ctx.nref += 1
        r = raw("ref", self.ctx.nref)
        st.heap[self.ctx.nref] = t
        return r

    def bindable(self, v, st):
        if v.op in IMM_OPS or ty(v) in SCALAR_TY:
            return v
        return self.alloc(v, st)

    def reject(self, st, test, exc, node):
        if test is FALSE:
            return
        self.ctx.rejects.append(Reject(st.pc, test, tuple(self.loops), exc, self.where(node)))

    def effect(self, kind, detail, node, st=None):
        if st is not None:
            self.ctx.when[len(self.ctx.effects)] = (st.pc, tuple(self.loops))
        self.ctx.effects.append((kind, detail, self.where(node)))

    def balanced(self, node):
        """The call is one half of `old = np.seterr(..); try: .. finally:
        np.seterr(**old)`."""
        mod = self.frame.module
        tree = getattr(mod, "tree", None)
        if tree is None:
            return False
        if not hasattr(mod, "pairs"):
            mod.pairs = set()
            for x in ast.walk(tree):
                for field in ("body", "orelse", "finalbody"):
                    b = getattr(x, field, None)
                    if not isinstance(b, list):
                        continue
                    for s, t in zip(b, b[1:]):
                        if not (isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name) and isinstance(s.value, ast.Call) and isinstance(t, ast.Try)):
                            continue
                        nm, fn = s.targets[0].id, ast.unparse(s.value.func)
                        for e in t.finalbody:
                            c = e.value if isinstance(e, ast.Expr) else None
                            if isinstance(c, ast.Call) and ast.unparse(c) == "%s(**%s)" % (fn, nm):
                                mod.pairs.add((s.value.lineno, s.value.col_offset))
                                mod.pairs.add((c.lineno, c.col_offset))
        return (node.lineno, node.col_offset) in mod.pairs

    # ------------------------------------------------------------ statements
    def exec_block(self, body, st):
        for s in body:
            if st.dead:
                return
            self.exec(s, st)

    def exec(self, n, st):
        self.ctx.n_nodes += 1
        m = getattr(self, "s_" + type(n).__name__, None)
        if m is None:
            self.havoc([n], st, "unsupported statement " + type(n).__name__)
            return
        m(n, st)

    def s_Expr(self, n, st):
        if isinstance(n.value, ast.Constant):
            return
        self.ev(n.value, st)

    def s_Pass(self, n, st):
        pass

    def s_Global(self, n, st):
        self.frame.globals |= set(n.names)

    def s_Nonlocal(self, n, st):
        self.frame.globals |= set(n.names)

    def s_Import(self, n, st):
        for a in n.names:
            if self.prog.find(a.name) is not None:
                if a.asname:
                    st.env[a.asname] = raw("mod", a.name)
                else:
                    st.env[a.name.split(".")[0]] = raw("mod", a.name.split(".")[0])
            elif a.asname:
                st.env[a.asname] = raw("libv", a.name)
            else:
                st.env[a.name.split(".")[0]] = raw("libv", a.name.split(".")[0])

    def s_ImportFrom(self, n, st):
        modname = n.module or ""
        if n.level:
            base = self.frame.module.name.split(".")[: -n.level]
            modname = ".".join(base + ([n.module] if n.module else []))
        if modname == "__future__":
            return
        for a in n.names:
            nm = a.asname or a.name
            if self.prog.find(modname) is not None:
                sub_ = modname + "." + a.name
                if self.prog.find(sub_) is not None and self.prog.find(modname).endswith("__init__.py"):
                    st.env[nm] = raw("mod", sub_)
                    continue
                env = self.prog.env(modname)
                if a.name == "*":
                    for k, v in env.items():
                        if not k.startswith("_"):
                            st.env[k] = v
                else:
                    st.env[nm] = env[a.name] if a.name in env else self.fallback(modname, a.name) or self.opaque("missing import " + a.name, n)
            else:
                st.env[nm] = self.libname(modname + "." + a.name)

    def fallback(self, modname, name):
        """A specification refers to a repository function that no longer
        exists: use the specification's own version."""
        if not self.frame.module.name.startswith("spec.") or not modname.startswith("mlpaper."):
            return None
        sm = "spec." + modname.split(".", 1)[1]
        return raw("latespec", sm, name) if self.prog.find(sm) else None

    def resolve(self, v):
        if v is not None and v.op == "latespec":
            return (self.prog.env(v.args[0]) or {}).get(v.args[1]) or raw("opaque", "missing " + v.args[1], "", ())
        return v

    def libname(self, full):
        if full.startswith("builtins."):
            return raw("libv", full)
        if full in LIBCONST:
            return LIBCONST[full]
        if full.startswith("decimal.ROUND_"):
            return string(full.split(".")[1])
        return raw("libv", full)

    def s_FunctionDef(self, n, st):
        f = FuncObj(n, self.frame.module, self.qual(n.name))
        self.set_defaults(f, st)
        f.def_frame = self.frame
        if self.frame.func is not None:
            f.closure = dict(st.env)
            f.closure_heap = dict(st.heap)
        t = raw("func", f)
        for d in reversed(n.decorator_list):
            dv = self.ev(d, st)
            f.decorators.append(dv)
            t = self.call_value(dv, [t], {}, st, d)
        if t.op == "func" and t.args[0] is not f and not t.args[0].is_lambda:
            t = raw("func", self.wrapper(n, f, t))
        if self.frame.func is None:
            self.frame.module.funcs[n.name] = f
        st.env[n.name] = t

    def wrapper(self, n, f, t):
        """What a decorator put in the place of f, under f's own name: with the
        signature of f where the replacement just passes its arguments on."""
        g = t.args[0]
        s = f if g.vararg or g.kwarg else g
        if s.vararg or s.kwarg:
            return g
        call = ast.Call(
            func=ast.Name(id="<decorated>", ctx=ast.Load()),
            args=[ast.Name(id=p, ctx=ast.Load()) for p in s.pos],
            keywords=[ast.keyword(arg=p, value=ast.Name(id=p, ctx=ast.Load())) for p in s.kwonly],
        )
        node = ast.FunctionDef(name=n.name, args=s.node.args, body=[ast.Return(value=call)], decorator_list=[], returns=None, type_comment=None)
        node.type_params = []
        w = FuncObj(ast.fix_missing_locations(ast.copy_location(node, n)), self.frame.module, self.qual(n.name))
        w.defaults = dict(s.defaults)
        w.def_frame = self.frame
        w.closure, w.closure_heap = {"<decorated>": t}, {}
        return w

    def qual(self, name):
        base = self.frame.module.name
        if self.frame.func is not None:
            return self.frame.func.qual + ".<locals>." + name
        return base + "." + name

    def set_defaults(self, f, st):
        a = f.node.args
        pos = f.pos
        for nm, d in zip(pos[len(pos) - len(a.defaults) :], a.defaults):
            f.defaults[nm] = self.deep(self.ev(d, st), st)
        for nm, d in zip(f.kwonly, a.kw_defaults):
            if d is not None:
                f.defaults[nm] = self.deep(self.ev(d, st), st)

    def s_ClassDef(self, n, st):
        methods, attrs, fields = {}, {}, []
        for s in n.body:
            if isinstance(s, ast.AnnAssign) and isinstance(s.target, ast.Name):
                fields.append(s.target.id)
                if s.value is not None:
                    attrs[s.target.id] = self.deep(self.ev(s.value, st), st)
            elif isinstance(s, ast.FunctionDef):
                f = FuncObj(s, self.frame.module, self.qual(n.name) + "." + s.name, cls=n.name)
                self.set_defaults(f, st)
                f.static = any(isinstance(d, ast.Name) and d.id == "staticmethod" for d in s.decorator_list)
                f.prop = any(isinstance(d, ast.Name) and d.id == "property" for d in s.decorator_list)
                f.clsm = any(isinstance(d, ast.Name) and d.id == "classmethod" for d in s.decorator_list)
                methods[s.name] = f
            elif isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name):
                attrs[s.targets[0].id] = self.deep(self.ev(s.value, st), st)
        for b in n.bases:
            bv = self.ev(b, st)
            if bv.op == "cls":
                for k, v in bv.args[0].methods.items():
                    methods.setdefault(k, v)
                for k, v in bv.args[0].attrs.items():
                    attrs.setdefault(k, v)
        c = ClassObj(n.name, self.frame.module, self.qual(n.name), methods, attrs)
        c.fields = fields
        if fields and any(ast.unparse(d).split("(")[0].split(".")[-1] == "dataclass" for d in n.decorator_list):
            c.record = "object"
        for b in n.bases:
            if ast.unparse(b).split(".")[-1] == "NamedTuple" and fields:
                c.record = "tuple"
                L.nt_register(fields)
            else:
                bv = self.ev(b, st)
                if bv.op == "ulib" and bv.args[0] == "collections.namedtuple" and "__new__" not in methods and "__init__" not in methods:
                    names = L.nt_fields(bv)
                    if names:
                        c.record, c.fields = "tuple", names
        self.frame.module.classes[n.name] = c
        st.env[n.name] = raw("cls", c)

    def s_Assign(self, n, st):
        v = self.ev(n.value, st)
        for i, t in enumerate(n.targets):
            self.assign(t, v, st, n.value)
            if i == 0 and len(n.targets) > 1 and isinstance(t, ast.Name):
                v = st.env.get(t.id, v)

    def s_AnnAssign(self, n, st):
        if n.value is not None:
            self.assign(n.target, self.ev(n.value, st), st, n.value)

    def assign(self, t, v, st, src=None):
        if isinstance(t, ast.Name):
            if t.id in self.frame.globals:
                self.effect("global-write", t.id, t)
                return
            b = self.bindable(v, st)
            if b is not v and src is not None:
                base = self.view_base(src, st)
                if base is not None:
                    st.views[b] = base
            st.env[t.id] = b
            d = self.shallow(b, st)
            self.ctx.loc.setdefault(d, self.where(t))
        elif isinstance(t, (ast.Tuple, ast.List)):
            vs = self.unpack(v, len(t.elts), st, t)
            bases = [None] * len(vs)
            if isinstance(src, (ast.Tuple, ast.List)) and len(src.elts) == len(vs):
                bases = [self.view_base(e, st) for e in src.elts]
            for x, y, b in zip(t.elts, vs, bases):
                self.assign(x, y, st)
                if b is not None and isinstance(x, ast.Name) and x.id in st.env and st.env[x.id].op == "ref" and st.env[x.id] is not y:
                    st.views[st.env[x.id]] = b
        elif isinstance(t, ast.Starred):
            self.assign(t.value, v, st)
        elif isinstance(t, ast.Subscript):
            base = self.ev(t.value, st)
            idx = self.deep(self.ev(t.slice, st), st)
            self.store(t, base, idx, v, st)
        elif isinstance(t, ast.Attribute):
            base = self.ev(t.value, st)
            self.setattr(t, base, t.attr, v, st)
        else:
            self.ctx.notes.append(("assign target", self.where(t)))

    def copying_index(self, i, st):
        """Indexing with an array, a mask or a list copies."""
        if isinstance(i, ast.Tuple):
            return any(self.copying_index(x, st) for x in i.elts)
        if isinstance(i, (ast.List, ast.Compare, ast.ListComp, ast.Call)):
            return True
        if isinstance(i, ast.UnaryOp) and isinstance(i.op, ast.Invert):
            return True
        if isinstance(i, ast.BinOp) and isinstance(i.op, (ast.BitAnd, ast.BitOr)):
            return True
        if isinstance(i, ast.Name):
            b = self.lookup_local(i.id, st)
            if b is None:
                return False
            v = self.deep(b, st)
            return v.op in ("list", "map", "nonzero", "argsort", "concat", "range", "not", "and", "or", "lt", "le", "eq", "isnan", "isinf", "sort", "unique") and v.op != "str" or T.ndim_of(v) == 1
        return False

    def view_base(self, src, st):
        """Reference whose memory `src` may be a view of."""
        while True:
            if isinstance(src, ast.Subscript):
                if self.copying_index(src.slice, st):
                    return None
                src = src.value
            elif isinstance(src, ast.Attribute) and src.attr in ("values", "T", "flat", "loc", "iloc"):
                src = src.value
            elif isinstance(src, ast.Call) and isinstance(src.func, ast.Attribute) and src.func.attr == "astype" and any(k.arg == "copy" and isinstance(k.value, ast.Constant) and k.value.value is False for k in src.keywords):
                src = src.func.value
            elif isinstance(src, ast.Call) and isinstance(src.func, ast.Attribute) and src.func.attr in ("ravel", "reshape", "view", "asarray", "transpose", "squeeze", "to_numpy"):
                if src.func.attr == "asarray" and src.args:
                    src = src.args[0]
                else:
                    src = src.func.value
            else:
                break
        if isinstance(src, ast.Name):
            b = self.lookup_local(src.id, st)
            if b is not None and b.op == "ref":
                return b
        return None

    def unpack(self, v, k, st, node):
        s = self.shallow(v, st)
        stars = [i for i, e in enumerate(getattr(node, "elts", [])) if isinstance(e, ast.Starred)]
        if s.op in ("tuple", "list"):
            if not stars and len(s.args) == k:
                return list(s.args)
            if stars and len(s.args) >= k - 1:
                i = stars[0]
                j = len(s.args) - (k - 1 - i)
                return list(s.args[:i]) + [lst(*s.args[i:j])] + list(s.args[j:])
        s = self.deep(s, st)
        if stars:
            return [self.opaque("star unpack", node, s)] * k
        if s.op == "ite" and all(x.op in ("tuple", "list") and len(x.args) == k for x in s.args[1:]):
            return [T.ite(s.args[0], x, y) for x, y in zip(s.args[1].args, s.args[2].args)]
        if s.op == "attr" and s.args[1] == "shape":
            self.reject(st, T.not_(T.eq(mk("ndim", s.args[0]), num(k))), "ValueError", node)
        return [mk("getitem", s, num(i)) for i in range(k)]

    def s_AugAssign(self, n, st):
        op = type(n.op).__name__
        if isinstance(n.target, ast.Name):
            cur = self.ev(ast.Name(id=n.target.id, ctx=ast.Load(), lineno=n.lineno, col_offset=0), st)
            rhs = self.deep(self.ev(n.value, st), st)
            c = self.deep(cur, st)
            v = self.binop(op, c, rhs, n)
            self.ctx.loc.setdefault(v, self.where(n))
            if cur.op == "ref" and ty(c) not in SCALAR_TY and c.op != "tuple":
                self.write_ref(cur, v, st, n)
            else:
                self.assign(n.target, v, st)
            return
        if isinstance(n.target, ast.Subscript):
            base = self.ev(n.target.value, st)
            idx = self.deep(self.ev(n.target.slice, st), st)
            cur = self.deep(self.load_item(base, idx, st, n.target), st)
            rhs = self.deep(self.ev(n.value, st), st)
            self.store(n.target, base, idx, self.binop(op, cur, rhs, n), st)
            return
        if isinstance(n.target, ast.Attribute):
            base = self.ev(n.target.value, st)
            cur = self.deep(self.load_attr(base, n.target.attr, st, n), st)
            rhs = self.deep(self.ev(n.value, st), st)
            self.setattr(n.target, base, n.target.attr, self.binop(op, cur, rhs, n), st)

    def link(self, st, ref, pairs):
        """`ref` is the same object as `target` whenever `cond` holds."""
        ls = tuple((c, t) for c, t in pairs if t.op == "ref" and t is not ref and c is not FALSE)
        if ref.op == "ref" and ls:
            st.links[ref] = ls

    def write_linked(self, ref, v, st, seen):
        seen.add(ref)
        todo = list(st.links.get(ref, ()))
        todo += [(c, r) for r, ls in st.links.items() for c, t in ls if t is ref]
        for c, t in todo:
            if t not in seen and t.args[0] in st.heap:
                new = T.ite(c, v, self.deep(t, st))
                self.ctx.loc.setdefault(new, self.ctx.loc.get(v))
                st.heap[t.args[0]] = new
                self.write_linked(t, new, st, seen)

    def write_ref(self, ref, v, st, node):
        st.heap[ref.args[0]] = v
        if st.links:
            self.write_linked(ref, v, st, set())
        b = st.views.get(ref)
        seen = set()
        while b is not None and b not in seen:
            seen.add(b)
            st.heap[b.args[0]] = raw("opaque", "store through a view", "", (self.deep(b, st),))
            b = st.views.get(b)

    def store(self, node, base, idx, v, st):
        v = self.deep(v, st)
        b = base
        cont = self.shallow(b, st)
        if cont.op == "attr" and cont.args[1] in ("loc", "at", "iloc", "iat"):
            # df.loc[...] = v : base is the frame
            kind = "iloc" if cont.args[1] in ("iloc", "iat") else "loc"
            owner = self.ev(node.value.value, st) if isinstance(node, ast.Subscript) and isinstance(node.value, ast.Attribute) else None
            key = idx
            if key.op != "tuple":
                key = tup(key, FULL)
            if owner is not None and owner.op == "ref":
                c = self.deep(owner, st)
                new = mk("store", c, raw("lockey", kind, key), v) if kind == "loc" else mk("store", c, raw("lockey", "iloc", key), v)
                self.ctx.loc.setdefault(new, self.where(node))
                self.write_ref(owner, new, st, node)
                return
            self.effect("store-unknown", "", node)
            return
        if base.op == "ref":
            c = self.deep(base, st)
            if is_frame(c):
                idx = raw("lockey", "loc", tup(FULL, idx))
            new = mk("store", c, idx, v)
            self.ctx.loc.setdefault(new, self.where(node))
            self.write_ref(base, new, st, node)
            return
        # store into something that is not a tracked local object
        root = node
        while isinstance(root, (ast.Subscript, ast.Attribute)):
            root = root.value
        if isinstance(root, ast.Name) and self.lookup_local(root.id, st) is None:
            self.effect("global-mutation", root.id, node)
        elif isinstance(root, ast.Name):
            # element of a tracked container: a[i][j] = v
            b = self.lookup_local(root.id, st)
            if b is not None and b.op == "ref":
                c = self.deep(b, st)
                self.write_ref(b, raw("opaque", "nested store", "", (c, self.deep(base, st), idx, v)), st, node)

    def dec_context(self, s):
        """Precision and rounding of a private decimal context."""
        if s.op == "decctx":
            return s.args
        if s.op == "lib" and s.args[0] == "decimal.Context":
            d = dict(s.args[1])
            return d.get("prec", num(28)), d.get("rounding", string("ROUND_HALF_EVEN"))
        return None

    def setattr(self, node, base, name, v, st):
        v = self.deep(v, st)
        s = self.shallow(base, st)
        if s.op == "obj" and base.op == "ref":
            d = dict(s.args[1])
            d[name] = v
            st.heap[base.args[0]] = raw("obj", s.args[0], tuple(sorted(d.items())))
            return
        if s.op == "ctxobj":
            prec, rnd = st.dctx or (num(28), string("ROUND_HALF_EVEN"))
            if name == "prec":
                prec = v
            elif name == "rounding":
                rnd = v
            if st.dctx is None:
                self.effect("global-state", "decimal context " + name, node)
            st.dctx = (prec, rnd)
            return
        own = self.dec_context(s)
        if own is not None and base.op == "ref" and name in ("prec", "rounding"):
            st.heap[base.args[0]] = raw("decctx", v if name == "prec" else own[0], v if name == "rounding" else own[1])
            return
        if name == "name" and isinstance(node.value, ast.Attribute) and node.value.attr == "index":
            owner = self.ev(node.value.value, st)
            if owner.op == "ref":
                st.heap[owner.args[0]] = mk("idxname", self.deep(owner, st), v)
                return
        if name == "names" and isinstance(node.value, ast.Attribute) and node.value.attr == "index":
            owner = self.ev(node.value.value, st)
            if owner.op == "ref" and v.op in ("list", "tuple") and len(v.args) == 1:
                st.heap[owner.args[0]] = mk("idxname", self.deep(owner, st), v.args[0])
                return
        if base.op == "ref":
            self.write_ref(base, raw("setattr", self.deep(base, st), name, v), st, node)
            return
        if s.op in ("libv", "mod"):
            self.effect("global-state", "%s.%s" % (s.args[0], name), node)
            return
        root = node.value
        while isinstance(root, (ast.Subscript, ast.Attribute)):
            root = root.value
        b = self.lookup_local(root.id, st) if isinstance(root, ast.Name) else None
        if b is not None and b.op == "ref":
            new = raw("setattr", self.deep(b, st), ast.unparse(node)[len(root.id) + 1 :], v)
            self.ctx.loc.setdefault(new, self.where(node))
            self.write_ref(b, new, st, node)
            return
        self.effect("setattr-unknown", name, node)
        d = self.deep(s, st)
        if d.op in ("getitem", "dictget") and d.args[0].op == "param":
            st.heap[("m", d)] = raw("mut", st.heap.get(("m", d), d), "attribute " + name, (("value", v),))

    def s_Delete(self, n, st):
        for t in n.targets:
            if isinstance(t, ast.Name):
                st.env.pop(t.id, None)
            elif isinstance(t, ast.Subscript):
                base = self.ev(t.value, st)
                if base.op == "ref":
                    self.write_ref(base, raw("opaque", "del", "", (self.deep(base, st), self.deep(self.ev(t.slice, st), st))), st, n)

    def s_Return(self, n, st):
        v = NONE if n.value is None else self.ev(n.value, st)
        self.frame.returns.append((st.pc, v, st.copy()))
        st.dead = True

    def s_Raise(self, n, st):
        exc = "Exception"
        if n.exc is not None:
            e = n.exc.func if isinstance(n.exc, ast.Call) else n.exc
            exc = e.id if isinstance(e, ast.Name) else getattr(e, "attr", "Exception")
        self.reject(st, TRUE, exc, n)
        st.dead = True

    def s_Assert(self, n, st):
        c = self.ev_bool(n.test, st)
        self.reject(st, T.not_(c), "AssertionError", n)
        if c is FALSE:
            st.dead = True

    def s_If(self, n, st):
        c = self.ev_bool(n.test, st)
        if c is TRUE:
            return self.exec_block(n.body, st)
        if c is FALSE:
            return self.exec_block(n.orelse, st)
        a, b = st.copy(), st.copy()
        a.pc = st.pc + (c,)
        b.pc = st.pc + (T.not_(c),)
        self.exec_block(n.body, a)
        self.exec_block(n.orelse, b)
        self.join(st, c, a, b)

    def join(self, st, c, a, b):
        """Join the two arms a (when c) and b into st."""
        if a.dead and b.dead:
            st.take(a)
            st.dead = True
            return
        if a.dead:
            st.take(b)
            return
        if b.dead:
            st.take(a)
            return
        out = self.merge(c, a, b, st.pc)
        st.take(out)

    def merge(self, c, a, b, pc):
        out = a.copy()
        # conditions learnt inside an arm (early exits) that hold on both arms
        ea = [x for x in a.pc[len(pc) :] if x is not c]
        eb = [x for x in b.pc[len(pc) :] if x is not T.not_(c)]
        out.pc = pc
        if ea or eb:
            r = T.or_(T.and_(c, *ea), T.and_(T.not_(c), *eb))
            if r is not TRUE:
                out.pc = pc + (r,)
        heap = dict(b.heap)
        for k, v in a.heap.items():
            if k in b.heap and b.heap[k] is not v:
                w = b.heap[k]
                heap[k] = T.ite(c, self.deep(v, a), self.deep(w, b))
            elif isinstance(k, tuple) and k[0] == "m" and k not in b.heap:
                # the method object was altered on one arm only
                heap[k] = T.ite(c, self.deep(v, a), k[1])
            else:
                heap[k] = v
        for k, w in b.heap.items():
            if isinstance(k, tuple) and k[0] == "m" and k not in a.heap:
                heap[k] = T.ite(c, k[1], self.deep(w, b))
        out.heap = heap
        env = dict(b.env)
        fresh = []
        for k, v in a.env.items():
            w = b.env.get(k)
            if w is None or w is v:
                env[k] = v
            else:
                x, y = self.deep(v, a), self.deep(w, b)
                env[k] = self.bindable(T.ite(c, x, y), out)
                if v.op == "ref" or w.op == "ref":
                    fresh.append((env[k], ((c, v), (T.not_(c), w))))
        out.env = env
        out.rng = a.rng if a.rng is b.rng else mk("rngite", c, a.rng, b.rng)
        out.views = dict(b.views)
        out.views.update(a.views)
        out.links = dict(b.links)
        out.links.update(a.links)
        for r, pairs in fresh:
            self.link(out, r, pairs)
        out.dead = False
        return out

    def s_With(self, n, st):
        if len(n.items) == 1:
            b = self.spliced(n.items[0].context_expr, n.items[0].optional_vars, n.body, st)
            if b is not None:
                return self.exec_block(b, st)
        saved, divide = st.dctx, self.ctx.divide
        isdec = False
        for item in n.items:
            v = self.ev(item.context_expr, st)
            c = self.shallow(v, st)
            if c.op == "lib" and c.args[0] == "decimal.localcontext" or (c.op == "declocal"):
                base = st.dctx or (num(28), string("ROUND_HALF_EVEN"))
                if c.op == "declocal":
                    base = c.args
                st.dctx = base
                isdec = True
                if item.optional_vars is not None:
                    self.assign(item.optional_vars, raw("ctxobj"), st)
            elif c.op == "ctxm":
                if c.args[0] == "numpy.errstate" and c.args[1]:
                    self.ctx.divide = c.args[1]
                if item.optional_vars is not None:
                    self.assign(item.optional_vars, c, st)
            else:
                if item.optional_vars is not None:
                    self.assign(item.optional_vars, self.opaque("with", n, self.deep(c, st)), st)
        self.exec_block(n.body, st)
        self.ctx.divide = divide
        if isdec:
            st.dctx = saved

    def s_Try(self, n, st):
        if not n.handlers:
            self.exec_block(n.body, st)
            self.exec_block(n.finalbody, st)
            return
        a = st.copy()
        self.exec_block(n.body[:-1], a)
        if a.dead:
            st.take(a)
            return
        b = a.copy()
        last = n.body[-1]
        nrej = len(self.ctx.rejects)
        probe = a.copy()
        a0 = a.copy()
        rets = len(self.frame.returns)
        # value of the guarded statement
        if isinstance(last, (ast.Assign, ast.Return, ast.Expr, ast.AugAssign, ast.AnnAssign)) and last.value is not None:
            n2 = len(self.ctx.rejects)
            e2 = len(self.ctx.effects)
            guarded = self.deep(self.ev(last.value, probe), probe)
            del self.ctx.rejects[n2:]
            del self.ctx.effects[e2:]
        else:
            guarded = raw("src", ast.unparse(last))
        exc = set()
        for h in n.handlers:
            t = h.type
            for x in t.elts if isinstance(t, ast.Tuple) else [t]:
                exc.add("any" if x is None else (x.id if isinstance(x, ast.Name) else getattr(x, "attr", "?")))
        self.ctx.calls.append((".try", {"guarded": guarded, "exc": frozenset(exc), "reraise": any(isinstance(x, ast.Raise) for h in n.handlers for x in ast.walk(h))}, st.pc, tuple(self.loops), self.where(n)))
        c = self.exc_cond(guarded, exc, last)
        if len(n.handlers) != 1:
            c = raw("exc", guarded)
        a.pc = a.pc + (T.not_(c),)
        b.pc = b.pc + (c,)
        # the guarded statement may not reject outside the handler
        self.exec(last, a)
        for r in self.ctx.rejects[nrej:]:
            pass
        if not a.dead:
            self.exec_block(n.orelse, a)
        h = n.handlers[0]
        if h.name:
            b.env[h.name] = raw("excobj", guarded)
        self.exec_block(h.body, b)
        self.join(st, T.not_(c), a, b)
        if n.finalbody and not st.dead:
            self.exec_block(n.finalbody, st)

    def exc_cond(self, guarded, exc, node):
        if exc <= {"KeyError", "LookupError", "IndexError"}:
            g = guarded
            v = node.value if hasattr(node, "value") else None
            if isinstance(v, ast.Subscript):
                if g.op == "getitem":
                    return T.not_(mk("in", g.args[1], g.args[0]))
                if g.op == "dictget":
                    return T.not_(mk("in", g.args[1], g.args[0]))
        return raw("exc", guarded)

    def s_Continue(self, n, st):
        self.frame.loop.conts.append(st.copy())
        st.dead = True

    def s_Break(self, n, st):
        self.frame.loop.breaks.append(st.copy())
        st.dead = True

    def havoc(self, nodes, st, reason):
        """Forget everything the given statements may change."""
        self.ctx.notes.append((reason, self.where(nodes[0])))
        names = set()
        for n in nodes:
            for x in ast.walk(n):
                if isinstance(x, ast.Name) and isinstance(x.ctx, (ast.Store, ast.Del)):
                    names.add(x.id)
                elif isinstance(x, (ast.Subscript, ast.Attribute)) and isinstance(x.ctx, ast.Store):
                    y = x
                    while isinstance(y, (ast.Subscript, ast.Attribute)):
                        y = y.value
                    if isinstance(y, ast.Name):
                        names.add(y.id)
                elif isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr in MUTATORS and isinstance(x.func.value, ast.Name):
                    names.add(x.func.value.id)
                elif isinstance(x, ast.Return):
                    self.frame.returns.append((st.pc + (raw("opaque", "cond", reason, ()),), raw("opaque", reason, ast.unparse(x), ()), st.copy()))
        for nm in sorted(names):
            cur = st.env.get(nm)
            op = raw("opaque", reason, ast.unparse(nodes[0]), (string(nm),) + ((self.deep(cur, st),) if cur is not None else ()))
            if cur is not None and cur.op == "ref":
                st.heap[cur.args[0]] = op
            else:
                st.env[nm] = self.alloc(op, st)

    # ---------------------------------------------------------------- loops
    def iter_spec(self, v, st, node):
        """('lit', [values]) or ('gen', [(it, elem-maker), ...]) description.

        Generic form: list of levels; each level is (it, tyname); a function
        from the tuple of elements to (guard, value)."""
        s = v if v.op != "ref" else self.shallow(v, st)
        if s.op in ("tuple", "list"):
            if len(s.args) <= 40:
                return ("lit", list(s.args))
        s = self.deep(s, st)
        if s.op == "dict":
            return ("lit", [k for k, _ in s.args])
        if s.op == "str":
            return ("lit", [string(c) for c in s.args[0]])
        if s.op == "range":
            a = [intval(x) for x in s.args]
            if all(x is not None for x in a) and a[2] != 0:
                r = range(*a)
                if len(r) <= 12:
                    return ("lit", [num(i) for i in r])
            return ("gen", [(raw("irange", *s.args), "int")], lambda es: (TRUE, es[0]))
        if s.op in ("dkeys",) or (ty(s) == "dict" and s.op != "mdict"):
            d = s.args[0] if s.op == "dkeys" else s
            if d.op == "mdict" or d.op == "dict":
                return self.iter_spec(d if d.op == "dict" else d, st, node)
            return ("gen", [(raw("ikeys", d), "")], lambda es: (TRUE, es[0]))
        if s.op == "mdict":
            it, var, kb, vb = s.args
            return ("gen", [(it, var.args[-1])], lambda es: (TRUE, subst(kb, {var: es[0]})))
        if s.op in ("ditems", "dvalues"):
            d = s.args[0]
            if d.op == "mdict":
                it, var, kb, vb = d.args
                f = (lambda e: tup(subst(kb, {var: e}), subst(vb, {var: e}))) if s.op == "ditems" else (lambda e: subst(vb, {var: e}))
                return ("gen", [(it, var.args[-1])], lambda es: (TRUE, f(es[0])))
            f = (lambda e: tup(e, mk("getitem", d, e))) if s.op == "ditems" else (lambda e: mk("getitem", d, e))
            return ("gen", [(raw("ikeys", d), "")], lambda es: (TRUE, f(es[0])))
        if s.op == "enumerate":
            inner, start = s.args
            sp = self.iter_spec(inner, st, node)
            if sp[0] == "lit":
                return ("lit", [tup(T.add(start, num(i)), x) for i, x in enumerate(sp[1])])
            if len(sp[1]) == 1:
                it = sp[1][0][0]
                if it.op == "irange" and it.args[2] is num(1):
                    lo = it.args[0]
                    return ("gen", sp[1], lambda es: (sp[2](es)[0], tup(T.add(start, T.sub(es[0], lo)), sp[2](es)[1])))
                return ("gen", sp[1], lambda es: (sp[2](es)[0], tup(T.add(start, raw("pos", es[0])), sp[2](es)[1])))
        if s.op == "zip":
            sps = [self.iter_spec(x, st, node) for x in s.args]
            if all(x[0] == "lit" for x in sps):
                return ("lit", [tup(*xs) for xs in zip(*[x[1] for x in sps])])
            gens = [x for x in sps if x[0] == "gen"]
            its = [x[1][0][0] for x in gens]
            if all(len(x[1]) == 1 for x in gens) and len(gens) == len(sps):
                if all(i is its[0] for i in its):
                    return ("gen", gens[0][1], lambda es: (T.and_(*[g[2](es)[0] for g in gens]), tup(*[g[2](es)[1] for g in gens])))
                # all are index ranges: use the first one, positions aligned
                if all(i.op == "irange" and i.args[2] is num(1) for i in its):
                    base = its[0]

                    def val(es):
                        xs = []
                        for g, i in zip(gens, its):
                            e = T.add(T.sub(es[0], base.args[0]), i.args[0])
                            xs.append(g[2]((e,))[1])
                        return TRUE, tup(*xs)

                    return ("gen", gens[0][1], val)
        if s.op == "lib" and s.args[0] == "pandas.MultiIndex.from_product":
            its = dict(s.args[1])["iterables"]
            if its.op in ("list", "tuple"):
                s = raw("product", *its.args)
        if s.op == "product":
            sps = [self.iter_spec(x, st, node) for x in s.args]
            if all(x[0] == "gen" for x in sps):
                lv = [l for x in sps for l in x[1]]

                def pval(es):
                    out, gs, i = [], [], 0
                    for x in sps:
                        k = len(x[1])
                        g, v2 = x[2](es[i : i + k])
                        out.append(v2)
                        gs.append(g)
                        i += k
                    return T.and_(*gs), tup(*out)

                return ("gen", lv, pval)
            if all(x[0] == "lit" for x in sps):
                import itertools

                return ("lit", [tup(*xs) for xs in itertools.product(*[x[1] for x in sps])])
            # mixed: expand literals under the generic ones
        if s.op == "map":
            it, var, body = s.args
            return ("gen", [(it, var.args[-1])], lambda es: (TRUE, subst(body, {var: es[0]})))
        if s.op == "fmap":
            it, var, cond, body = s.args
            return ("gen", [(it, var.args[-1])], lambda es: (subst(cond, {var: es[0]}), subst(body, {var: es[0]})))
        if s.op == "getitem" and s.args[1].op == "slice" and s.args[1].args[2] is num(-1) and s.args[1].args[:2] == (NONE, NONE):
            pass
        if s.op == "iterator":
            return self.iter_spec(s.args[0], st, node)
        n = mk("dim", s, 0)
        if intval(n) is not None and intval(n) <= 12:
            return ("lit", [mk("getitem", s, num(i)) for i in range(intval(n))])
        return ("gen", [(raw("irange", num(0), n, num(1)), "int")], lambda es: (TRUE, mk("getitem", s, es[0])))

    def new_elem(self, it, tyname):
        k = sum(1 for i, _ in self.loops if i is it)
        return raw("elem", it, k, tyname or "")

    def s_For(self, n, st):
        if not n.orelse and not any(isinstance(x, (ast.Break, ast.Continue)) for x in own_loop(n.body)):
            b = self.spliced(n.iter, n.target, n.body, st)
            if b is not None:
                return self.exec_block(b, st)
        self.for_over(n, self.ev(n.iter, st), st)

    def spliced(self, call, target, body, st):
        """Statements equivalent to running the generator function that call
        invokes, with body in place of each yield; None if call is not such a
        call."""
        if not isinstance(call, ast.Call) or not isinstance(call.func, (ast.Name, ast.Attribute)):
            return None
        if isinstance(call.func, ast.Name):
            f = self.lookup_local(call.func.id, st)
            if f is None:
                f = self.ev(call.func, st)
        else:
            f = self.ev(call.func, st)
        f = self.shallow(f, st) if f is not None else None
        if f is None or f.op != "func":
            return None
        fo = f.args[0]
        if fo.is_lambda or fo.module is not self.frame.module or fo in self.ctx.stack or fo.vararg or fo.kwarg:
            return None
        if fo.def_frame is not None and fo.def_frame.func is not None and fo.def_frame is not self.frame:
            return None
        nodes = list(ast.walk(fo.node))
        ys = [x for x in nodes if isinstance(x, (ast.Yield, ast.YieldFrom, ast.Await))]
        if not ys or any(not isinstance(x, ast.Yield) for x in ys):
            return None
        if any(isinstance(x, (ast.Return, ast.Global, ast.Nonlocal, ast.Lambda)) or isinstance(x, (ast.FunctionDef, ast.ClassDef)) and x is not fo.node for x in nodes):
            return None
        if sum(isinstance(x, ast.Expr) and isinstance(x.value, ast.Yield) for x in nodes) != len(ys):
            return None
        if any(isinstance(a, ast.Starred) for a in call.args) or any(k.arg is None for k in call.keywords):
            return None
        given = dict(zip(fo.pos, call.args))
        if len(call.args) > len(fo.pos):
            return None
        for k in call.keywords:
            given[k.arg] = k.value
        params = fo.pos + fo.kwonly
        if not set(given) <= set(params):
            return None
        self.nsplice = getattr(self, "nsplice", 0) + 1
        tag = "_g%d_" % self.nsplice
        local = set(params) | {x.id for x in nodes if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)}

        class Rename(ast.NodeTransformer):
            def visit_Name(self, x):
                return ast.copy_location(ast.Name(id=tag + x.id, ctx=x.ctx), x) if x.id in local else x

            def visit_Expr(self, x):
                if isinstance(x.value, ast.Yield):
                    out = []
                    if target is not None:
                        v = x.value.value
                        v = self.visit(v) if v is not None else ast.copy_location(ast.Constant(value=None), x)
                        out.append(ast.copy_location(ast.Assign(targets=[target], value=v), x))
                    return out + list(body)
                return self.generic_visit(x)

        out = []
        for nm in params:
            if nm in given:
                a = ast.Assign(targets=[ast.Name(id=tag + nm, ctx=ast.Store())], value=given[nm])
                out.append(ast.fix_missing_locations(ast.copy_location(a, call)))
            elif nm in fo.defaults:
                st.env[tag + nm] = fo.defaults[nm]
            else:
                return None
        import copy

        for x in fo.node.body:
            r = Rename().visit(copy.deepcopy(x))
            out += [ast.fix_missing_locations(y) for y in (r if isinstance(r, list) else [r])]
        return out

    def for_over(self, n, v, st, depth=0):
        d = self.deep(v, st) if v.op in ("ref", "ite", "listcat") and depth < 3 else NONE
        arms = None
        if d.op == "ite" and all(x.op in ("list", "tuple", "listcat", "ite") for x in d.args[1:]):
            arms = d.args
        elif d.op == "listcat":
            for i, x in enumerate(d.args):
                if x.op == "ite" and all(y.op in ("list", "tuple") for y in x.args[1:]):
                    arms = (x.args[0],) + tuple(mk("listcat", *(d.args[:i] + (y,) + d.args[i + 1 :])) for y in x.args[1:])
                    break
        if arms is not None:
            # what is iterated over depends on a condition: one case each
            c = arms[0]
            a, b = st.copy(), st.copy()
            a.pc = st.pc + (c,)
            b.pc = st.pc + (T.not_(c),)
            self.for_over(n, arms[1], a, depth + 1)
            self.for_over(n, arms[2], b, depth + 1)
            return self.join(st, c, a, b)
        spec = self.iter_spec(v, st, n)
        if spec[0] == "lit":
            return self.unrolled(n, spec[1], st)
        self.gen_loop(n, spec, st)

    def unrolled(self, n, vals, st):
        ctl = LoopCtl()
        saved, self.frame.loop = self.frame.loop, ctl
        base = len(st.pc)
        pc0 = st.pc
        for x in vals:
            if st.dead:
                break
            ctl.conts = []
            self.assign(n.target, x, st)
            pc1 = st.pc
            self.exec_block(n.body, st)
            for c in reversed(ctl.conts):
                cond = T.and_(*c.pc[len(pc1) :])
                if st.dead:
                    st.take(c)
                else:
                    out = self.merge(cond, c, st, pc1)
                    st.take(out)
                st.dead = False
        if n.orelse and not st.dead:
            self.exec_block(n.orelse, st)
        for b in reversed(ctl.breaks):
            cond = T.and_(*b.pc[base:])
            if st.dead:
                st.take(b)
                st.dead = False
            else:
                out = self.merge(cond, b, st, pc0)
                st.take(out)
        self.frame.loop = saved

    def gen_loop(self, n, spec, st):
        levels, valf = spec[1], spec[2]
        self.loop_levels(levels, (), valf, n, st)

    def loop_levels(self, levels, es, valf, n, st):
        it, tyname = levels[0]
        el = self.new_elem(it, tyname)
        last = len(levels) == 1

        def body(s):
            if not last:
                self.loop_levels(levels[1:], es + (el,), valf, n, s)
                return
            g, v = valf(es + (el,))
            if g is FALSE:
                return
            if g is not TRUE:
                s2 = s.copy()
                s2.pc = s.pc + (g,)
                s3 = s.copy()
                s3.pc = s.pc + (T.not_(g),)
                self.assign(n.target, v, s2)
                self.exec_block(n.body, s2)
                self.join(s, g, s2, s3)
            else:
                self.assign(n.target, v, s)
                self.exec_block(n.body, s)

        self.summarise(it, el, body, n, st, orelse=n.orelse if last else [])

    def summarise(self, it, el, body, n, st, orelse=()):
        """Run the body once on symbolic loop-carried values; close the loop."""
        self.ctx.loops.append((it, self.where(n)))
        mod_names, mod_refs = {}, {}
        rng_changed = False
        uid = self.ctx.fresh()
        for attempt in range(8):
            s = st.copy()
            lv = {}
            start = {}
            for nm in mod_names:
                init = self.deep(st.env[nm], st)
                v = raw("lv", uid, nm, ty(init) or self.lvty(init))
                lv[("n", nm)] = (v, init)
                s.env[nm] = self.bindable(v, s)
            for r in mod_refs:
                init = self.deep(st.heap[r], st)
                v = raw("lv", uid, str(r), ty(init) or self.lvty(init))
                rt = L._root(init)
                stats = L._last_level(rt) or L.TABLE_STATS.get(rt)
                if stats is not None:
                    L.TABLE_STATS[v] = stats
                rows = L.table_index(rt)
                if rows is not None:
                    L.TABLE_INDEX[v] = rows
                lv[("r", r)] = (v, init)
                s.heap[r] = v
            env0, heap0 = dict(s.env), dict(s.heap)
            s.rng = raw("rngl", frozenset([(i.id, e.id) for i, e in self.loops] + [(it.id, el.id)]), 0)
            rng_in = s.rng
            marks = (len(self.ctx.rejects), len(self.ctx.effects), len(self.ctx.calls), len(self.ctx.loops), len(self.frame.returns), len(self.ctx.notes))
            ctl = LoopCtl()
            saved, self.frame.loop = self.frame.loop, ctl
            self.loops.append((it, el))
            pc1 = s.pc
            body(s)
            self.loops.pop()
            self.frame.loop = saved
            ends = ctl.conts
            for c in reversed(ends):
                cond = T.and_(*c.pc[len(pc1) :])
                if s.dead:
                    s.take(c)
                else:
                    s.take(self.merge(cond, c, s, pc1))
                s.dead = False
            new = False
            allends = ([] if s.dead else [s]) + ctl.breaks
            for e in allends:
                for nm in st.env:
                    if nm in mod_names:
                        continue
                    a, b = env0[nm], e.env.get(nm)
                    if b is not None and b is not a and self.deep(b, e) is not self.deep(a, st):
                        mod_names[nm] = True
                        new = True
                for r in st.heap:
                    if r in mod_refs or r not in e.heap:
                        continue
                    if e.heap[r] is not heap0[r] and self.deep(e.heap[r], e) is not self.deep(heap0[r], st):
                        mod_refs[r] = True
                        new = True
            if not new:
                break
            del self.ctx.rejects[marks[0] :], self.ctx.effects[marks[1] :], self.ctx.calls[marks[2] :], self.ctx.loops[marks[3] :], self.frame.returns[marks[4] :], self.ctx.notes[marks[5] :]
        # early exits
        rets = self.frame.returns[marks[4] :]
        del self.frame.returns[marks[4] :]
        lvset = {v for v, _ in lv.values()}
        has_lv = lambda t: contains(t, lambda u: u in lvset)
        out = st
        pc0 = st.pc
        exit_cond = FALSE
        for pc, v, rst in rets:
            c = T.and_(*pc[len(pc1) :])
            val = self.deep(v, rst)
            if has_lv(c) or has_lv(val):
                c2 = raw("opaque", "early return of a loop-carried value", ast.unparse(n)[:200], (c,))
                self.frame.returns.append((pc0 + (c2,), raw("opaque", "loop return", "", (val,)), st.copy()))
                exit_cond = T.or_(exit_cond, c2)
                continue
            ac = mk("anyloop", it, el, c)
            fv = val
            if contains(val, lambda u: u is el):
                fv = mk("first", it, el, c, val)
            self.frame.returns.append((pc0 + (ac,), fv, st.copy()))
            exit_cond = T.or_(exit_cond, ac)
        if s.dead and not ctl.breaks:
            # body always leaves: after the loop only when it is empty
            out.pc = pc0 + ((T.not_(exit_cond),) if exit_cond is not FALSE else ())
            if s.dead and not rets:
                pass
            return
        # break handling
        if ctl.breaks:
            bc = T.or_(*[T.and_(*b.pc[len(pc1) :]) for b in ctl.breaks])
            ok = not has_lv(bc)
            # the state of non-breaking iterations must be unchanged
            changed = False
            if not s.dead:
                for key, (v, init) in lv.items():
                    f = self.deep(s.env[key[1]], s) if key[0] == "n" else self.deep(s.heap[key[1]], s)
                    if f is not v:
                        changed = True
            fin = {}
            if ok and not changed and len(ctl.breaks) == 1:
                b = ctl.breaks[0]
                ac = mk("anyloop", it, el, bc)
                for key, (v, init) in lv.items():
                    f = self.deep(b.env[key[1]], b) if key[0] == "n" else self.deep(b.heap[key[1]], b)
                    if f is v:
                        fin[key] = init
                    elif has_lv(f):
                        fin[key] = self.opaque("loop break", n, f)
                    else:
                        fv = mk("first", it, el, bc, f) if contains(f, lambda u: u is el) else f
                        fin[key] = T.ite(ac, fv, init)
                tgt = []
                for x in ast.walk(n.target) if hasattr(n, "target") else []:
                    if isinstance(x, ast.Name):
                        tgt.append(x.id)
                for nm in b.env:
                    if nm not in st.env:
                        f = self.deep(b.env[nm], b)
                        if not has_lv(f):
                            st.env[nm] = self.bindable(mk("first", it, el, bc, f), st)
                if orelse:
                    e1 = st.copy()
                    e1.pc = st.pc + (ac,)
                    e2 = st.copy()
                    e2.pc = st.pc + (T.not_(ac),)
                    for key, f in fin.items():
                        self.put(key, f, e1)
                    self.exec_block(orelse, e2)
                    self.join(st, ac, e1, e2)
                else:
                    for key, f in fin.items():
                        self.put(key, f, st)
                if exit_cond is not FALSE:
                    st.pc = st.pc + (T.not_(exit_cond),)
                return
            # in general: the loop goes on without effect once it has been left
            done = raw("lv", uid, "<left>", "bool")
            lvset.add(done)
            finals = {done: (None, FALSE, T.or_(done, bc))}
            for key, (v, init) in lv.items():
                at = lambda e: self.deep(e.env[key[1]], e) if key[0] == "n" else self.deep(e.heap[key[1]], e)
                f = v if s.dead else at(s)
                for b in reversed(ctl.breaks):
                    f = T.ite(T.and_(*b.pc[len(pc1) :]), at(b), f)
                finals[v] = (key, init, T.ite(done, v, f))
            res = self.close(it, el, finals, n)
            for v, (key, init, f) in finals.items():
                if key is not None:
                    self.put(key, res[v], st)
                    self.ctx.loc.setdefault(res[v], self.where(n))
            for b in ctl.breaks:
                for nm in b.env:
                    if nm not in st.env:
                        st.env[nm] = self.alloc(self.opaque("loop with break", n), st)
            if orelse:
                e1, e2 = st.copy(), st.copy()
                e1.pc = st.pc + (res[done],)
                e2.pc = st.pc + (T.not_(res[done]),)
                self.exec_block(orelse, e2)
                self.join(st, res[done], e1, e2)
            if exit_cond is not FALSE:
                st.pc = st.pc + (T.not_(exit_cond),)
            return
        finals = {}
        for key, (v, init) in lv.items():
            f = self.deep(s.env[key[1]], s) if key[0] == "n" else self.deep(s.heap[key[1]], s)
            finals[v] = (key, init, f)
        res = self.close(it, el, finals, n)
        for v, (key, init, f) in finals.items():
            self.put(key, res[v], st)
            self.ctx.loc.setdefault(res[v], self.where(n))
        # names created in the loop
        for nm in s.env:
            if nm not in st.env:
                f = self.deep(s.env[nm], s)
                if f.op in ("func", "cls", "libv", "mod", "partial", "cached", "vec"):
                    st.env[nm] = f
                elif has_lv(f):
                    st.env[nm] = self.alloc(raw("opaque", "loop temporary", nm, (f,)), st)
                else:
                    st.env[nm] = self.bindable(mk("last", it, el, f, BOTTOM), st)
        for k in s.heap:
            if k not in st.heap and isinstance(k, tuple) and not contains(k[1], lambda u: u is el):
                st.heap[k] = s.heap[k]
        for k, v in s.views.items():
            st.views.setdefault(k, v)
        for k, v in s.links.items():
            st.links.setdefault(k, v)
        if s.rng is not rng_in:
            st.rng = raw("rnga", st.rng, it)
        if exit_cond is not FALSE:
            st.pc = st.pc + (T.not_(exit_cond),)
        if orelse:
            self.exec_block(orelse, st)

    def lvty(self, t):
        if is_frame(t):
            return "df_"
        return ""

    def put(self, key, f, st):
        if key[0] == "n":
            st.env[key[1]] = self.bindable(f, st)
        else:
            self.write_ref(raw("ref", key[1]), f, st, None)

    def close(self, it, el, finals, n):
        """Closed forms of loop-carried values. finals: lv -> (key, init, f)."""
        res = {}
        lvs = set(finals)
        anylv = lambda t, allowed=(): contains(t, lambda u: u in lvs and u not in allowed)
        pending = dict(finals)
        # running best: best value + companions updated under the same test
        for v, (key, init, f) in list(pending.items()):
            b = self.best_form(v, f, lvs)
            if b is None:
                continue
            kind, guard, e = b
            comp = []
            fg = self.gated(f, v) if f.op == "ite" else None
            for w, (k2, i2, f2) in pending.items():
                if w is v or fg is None:
                    continue
                g2 = self.gated(f2, w) if f2.op == "ite" else None
                if g2 is not None and g2[0] is fg[0] and not anylv(g2[1]):
                    comp.append((w, i2, g2[1]))
            if anylv(e) or anylv(guard):
                continue
            strict = kind in ("min", "max")
            base = kind.rstrip("=")
            seq = mk("map", it, el, e) if guard is TRUE else mk("fmap", it, el, guard, e)
            if not comp:
                agg = mk("reduce", base, seq)
                res[v] = self.withinit(base, init, agg)
                del pending[v]
                continue
            res[v] = self.withinit(base, init, mk("reduce", base, seq))
            del pending[v]
            for w, i2, e2 in comp:
                res[w] = mk("argbest", it, el, string(kind), guard, e, e2, tup(init, i2))
                del pending[w]
        # companions first: slots that do not depend on other loop-carried values
        for v, (key, init, f) in list(pending.items()):
            r = self.close_one(it, el, v, init, f, lvs)
            if r is not None:
                res[v] = r
                del pending[v]
        if pending:
            # general fold over the remaining slots (soft vocabulary)
            order = list(pending)
            for v in order:  # grows: slots the remaining ones are computed from
                order.extend(w for w in finals if w not in order and contains(finals[v][2], lambda u: u is w))
            slotv = {v: raw("foldv", i) for i, v in enumerate(order)}
            bodies, inits = [], []
            tmp = raw("tmpvar", el)
            for v in order:
                key, init, f = finals[v]
                bodies.append(subst(f, dict(slotv)))
                inits.append(init)
            for i, v in enumerate(pending):
                res[v] = mk("fold", it, el, tuple(inits), tuple(bodies), i)
        # references to other slots' final values inside results
        for v in res:
            if contains(res[v], lambda u: u in lvs):
                res[v] = raw("opaque", "loop-carried", "", (res[v],))
        return res

    def withinit(self, kind, init, agg):
        if kind == "max":
            if init is T.neg(INF):
                return agg
            if agg.op == "reduce":
                return mk("reduce0", kind, init, agg.args[1])
            return mk("maximum", init, agg)
        if init is INF:
            return agg
        if agg.op == "reduce":
            return mk("reduce0", kind, init, agg.args[1])
        return mk("minimum", init, agg)

    def gated(self, f, v):
        """f == ite(cond, e, v) up to nesting: returns (cond, e) or None."""
        leaves = []

        def go(t, c):
            if t.op == "ite":
                go(t.args[1], T.and_(c, t.args[0]))
                go(t.args[2], T.and_(c, T.not_(t.args[0])))
            elif t is not v:
                leaves.append((c, t))

        go(f, TRUE)
        if not leaves or any(t is not leaves[0][1] for _, t in leaves):
            return None
        c = T.or_(*[c for c, _ in leaves])
        return (c, leaves[0][1]) if c is not TRUE else None

    def best_form(self, v, f, lvs):
        """f == v improved by e: returns (kind, guard, e)."""
        if f.op in ("maximum", "minimum") and v in f.args:
            rest = [a for a in f.args if a is not v]
            return (("max" if f.op == "maximum" else "min") + "=", TRUE, mk(f.op, *rest))
        if f.op != "ite":
            return None
        g = self.gated(f, v)
        if g is None:
            return None
        c, e = g
        if contains(e, lambda u: u is v):
            return None
        parts = list(c.args) if c.op == "and" else [c]
        tests = {
            T.lt(e, v): "min",
            T.lt(v, e): "max",
            T.le(e, v): "min=",
            T.le(v, e): "max=",
            T.not_(T.le(v, e)): "min",
            T.not_(T.le(e, v)): "max",
        }
        for p in parts:
            if p in tests:
                rest = [q for q in parts if q is not p]
                g = T.and_(*rest) if rest else TRUE
                if contains(g, lambda u: u in lvs):
                    return None
                return (tests[p], g, e)
        return None

    def close_one(self, it, el, v, init, f, lvs):
        others = lvs - {v}
        hasl = lambda t: contains(t, lambda u: u in lvs)
        if not hasl(f):
            if not contains(f, lambda u: u is el) and False:
                return f
            return mk("last", it, el, f, init)
        if contains(f, lambda u: u in others):
            return None
        # store chain on v
        root, ch = L.chain(f)
        if root is v and ch:
            okc = True
            for k, x in ch:
                for u in T.subterms(x):
                    if u in lvs:
                        okc = False
            vals_ok = okc
            if not vals_ok:
                # reads of v's own cells with the same key are per-iteration values
                def clean(t):
                    return subst(t, {c: raw("cell", init, c.args[1]) for c in T.subterms(t) if c.op == "cell" and c.args[0] is v})

                ch2 = [(k, clean(x)) for k, x in ch]
                if all(not hasl(k) and not hasl(x) for k, x in ch2):
                    ch = ch2
                    vals_ok = True
            if vals_ok and all(not hasl(k) for k, _ in ch):
                return self.close_store(it, el, init, ch)
            return None
        # append
        if f.op == "listcat" and f.args[0] is v:
            tail = f.args[1:]
            if len(tail) == 1 and tail[0].op == "list" and len(tail[0].args) == 1 and not hasl(tail[0]):
                m = mk("map", it, el, tail[0].args[0])
                return m if (init.op == "list" and not init.args) else mk("listcat", init, m)
        if f.op == "ite":
            c, a, b = f.args
            if not hasl(c):
                if b is v and a.op == "listcat" and a.args[0] is v:
                    tail = a.args[1:]
                    if len(tail) == 1 and tail[0].op == "list" and len(tail[0].args) == 1 and not hasl(tail[0]):
                        m = mk("fmap", it, el, c, tail[0].args[0])
                        return m if (init.op == "list" and not init.args) else mk("listcat", init, m)
                if a is v and b.op == "listcat" and b.args[0] is v:
                    tail = b.args[1:]
                    if len(tail) == 1 and tail[0].op == "list" and len(tail[0].args) == 1 and not hasl(tail[0]):
                        m = mk("fmap", it, el, T.not_(c), tail[0].args[0])
                        return m if (init.op == "list" and not init.args) else mk("listcat", init, m)
                # append of differing values on both arms
                if a.op == b.op == "listcat" and a.args[0] is v and b.args[0] is v and len(a.args) == len(b.args) == 2:
                    x, y = a.args[1], b.args[1]
                    if x.op == y.op == "list" and len(x.args) == len(y.args) == 1 and not hasl(x) and not hasl(y):
                        m = mk("map", it, el, T.ite(c, x.args[0], y.args[0]))
                        return m if (init.op == "list" and not init.args) else mk("listcat", init, m)
        # conjunction / disjunction
        if f.op == "and" and v in f.args:
            e = T.and_(*[a for a in f.args if a is not v])
            if not hasl(e):
                return T.and_(init, T.not_(mk("anyloop", it, el, T.not_(e))))
        if f.op == "or" and v in f.args:
            e = T.or_(*[a for a in f.args if a is not v])
            if not hasl(e):
                return T.or_(init, mk("anyloop", it, el, e))
        # sum
        if f.op == "poly" or ty(v) in ("int", "float", None, ""):
            e = T.sub(f, v) if ty(f) not in ("list", "str", "tuple") and f.op != "listcat" else None
            if e is not None and not hasl(e):
                return T.add(init, mk("reduce", "sum", mk("map", it, el, e)))
        if f.op == "strcat" and f.args[0] is v:
            e = mk("strcat", *f.args[1:])
            if not hasl(e):
                return mk("strcat", init, mk("strjoin", string(""), mk("map", it, el, e)))
        return None

    def close_store(self, it, el, init, ch):
        # list preallocated to the loop range and filled by index
        if len(ch) == 1 and ch[0][0] is el and it.op == "irange" and it.args[0] is num(0) and it.args[2] is num(1):
            if init.op == "listrep" or (init.op == "list"):
                if mk("dim", init, 0) is it.args[1]:
                    return mk("map", it, el, ch[0][1])
        if len(ch) == 1 and it.op == "irange" and it.args[0] is num(0) and it.args[2] is num(1) and init.op in ("lib", "poly"):
            r = self.fill(it, el, init, *ch[0])
            if r is not None:
                return r
        if init.op == "dict" and not init.args and len(ch) == 1 and contains(ch[0][0], lambda u: u is el):
            k, x = ch[0]
            others = [u for u in T.subterms(k) if u.op == "elem" and u is not el]
            if not others:
                return mk("mdict", it, el, k, x)
        out = init
        rows = L.table_index(L._root(init))
        for k, x in ch:
            if rows is not None and self.whole_column(k, it, el, rows):
                k, x = raw("lockey", k.args[0], tup(FULL, k.args[1].args[1])), mk("map", it, el, x)
            out = mk("store", out, k, x)
        return out

    def fill(self, it, el, init, k, x):
        """An array filled position by position over its first axis."""
        if k is el and mk("dim", init, 0) is it.args[1] and T.ndim_of(init) == 1:
            dt = dict(init.args[1]).get("dtype", NONE) if init.op == "lib" else NONE
            if dt is NONE or dt is T.string("float") or dt is T.string("bool") and ty(x) == "bool":
                r = L.arrayed(mk("map", it, el, x))
                return r if r.op != "map" else None
        if k.op == "tuple" and len(k.args) == 2 and any(y is el for y in k.args) and not contains(x, lambda u: u is el):
            ks = []
            for y in k.args:
                if y is el:
                    ks.append(raw("range", *it.args))
                elif y.op == "getitem" and y.args[1] is el and not contains(y.args[0], lambda u: u is el) and mk("dim", y.args[0], 0) is it.args[1] and T.ndim_of(y.args[0]) == 1:
                    ks.append(y.args[0])
                else:
                    return None
            return mk("store", init, tup(*ks), x)
        return None

    def whole_column(self, k, it, el, rows):
        """Cells of one column, stored for every row of the table in turn."""
        if k.op != "lockey" or k.args[0] not in ("loc", "at") or k.args[1].op != "tuple" or len(k.args[1].args) != 2:
            return False
        r, c = k.args[1].args
        if contains(c, lambda u: u is el):
            return False
        if rows.op == "range":
            return r is el and it is raw("irange", *rows.args)
        return r is mk("getitem", rows, el) and it.op == "irange" and it.args == (num(0), mk("dim", rows, 0), num(1))

    def s_While(self, n, st):
        # while i < hi: ...; i += 1   ->  for i in range(i, hi)
        t = n.test
        if isinstance(t, ast.Compare) and len(t.ops) == 1 and isinstance(t.left, ast.Name) and n.body and not n.orelse:
            last = n.body[-1]
            nm = t.left.id
            if (
                isinstance(last, ast.AugAssign)
                and isinstance(last.op, ast.Add)
                and isinstance(last.target, ast.Name)
                and last.target.id == nm
                and isinstance(last.value, ast.Constant)
                and last.value.value == 1
                and isinstance(t.ops[0], (ast.Lt, ast.LtE))
                and not any(isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store) and x.id == nm for b in n.body[:-1] for x in ast.walk(b))
                and not any(isinstance(x, ast.Continue) for b in n.body for x in ast.walk(b))
            ):
                lo = self.deep(self.ev(t.left, st), st)
                hi = self.deep(self.ev(t.comparators[0], st), st)
                if isinstance(t.ops[0], ast.LtE):
                    hi = T.add(hi, num(1))
                f = ast.For(target=ast.Name(id=nm, ctx=ast.Store(), lineno=n.lineno, col_offset=0), iter=None, body=n.body[:-1] or [ast.Pass()], orelse=[])
                ast.copy_location(f, n)
                st.env.pop(nm, None)
                spec = self.iter_spec(raw("range", lo, hi, num(1)), st, n)
                if spec[0] == "lit":
                    self.unrolled(f, spec[1], st)
                else:
                    self.gen_loop(f, spec, st)
                st.env[nm] = hi
                return
        self.havoc([n], st, "while loop")

    # ----------------------------------------------------------- expressions
    def ev(self, n, st):
        self.ctx.n_nodes += 1
        m = getattr(self, "e_" + type(n).__name__, None)
        if m is None:
            return self.opaque("unsupported expression " + type(n).__name__, n)
        v = m(n, st)
        if v.op not in ("ref", "num", "str", "bool", "none", "libv", "mod", "param", "func"):
            self.ctx.loc.setdefault(v, self.where(n))
        return v

    def evd(self, n, st):
        return self.deep(self.ev(n, st), st)

    def ev_bool(self, n, st):
        if isinstance(n, ast.BoolOp):
            return self.bool_op(n, st)
        if isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
            return T.not_(self.ev_bool(n.operand, st))
        return truth(self.evd(n, st))

    def bool_op(self, n, st):
        isand = isinstance(n.op, ast.And)
        acc = TRUE if isand else FALSE
        pc = st.pc
        for x in n.values:
            c = self.ev_bool(x, st)
            acc = T.and_(acc, c) if isand else T.or_(acc, c)
            st.pc = pc + ((acc if isand else T.not_(acc)),)
        st.pc = pc
        return acc

    def e_Constant(self, n, st):
        v = n.value
        if v is None:
            return NONE
        if v is True or v is False:
            return T.boolean(v)
        if isinstance(v, (int, float)):
            if isinstance(v, float) and v != v:
                return NAN
            if isinstance(v, float) and v in (float("inf"), float("-inf")):
                return INF if v > 0 else T.neg(INF)
            return num(v)
        if isinstance(v, str):
            return string(v)
        if v is Ellipsis:
            return T.ELL
        return self.opaque("constant", n)

    def lookup_local(self, name, st):
        if name in st.env:
            return st.env[name]
        return None

    def e_Name(self, n, st):
        nm = n.id
        if nm in st.env and nm not in self.frame.globals:
            return st.env[nm]
        ce = self.frame.closure_env
        if ce is not None and nm in ce:
            return ce[nm]
        env = self.frame.module.env if self.frame.func is not None else None
        if self.frame.func is not None:
            env = self.prog.env(self.frame.module.name)
            if nm in env:
                return self.resolve(env[nm])
        if nm in BUILTINS:
            return raw("libv", "builtins." + nm)
        return self.opaque("unbound name " + nm, n)

    def e_Tuple(self, n, st):
        return self.seq("tuple", n.elts, st)

    def e_List(self, n, st):
        return self.seq("list", n.elts, st)

    def e_Set(self, n, st):
        t = self.seq("list", n.elts, st)
        return raw("set", *sorted(set(self.deep(x, st) for x in t.args))) if t.op == "list" else raw("setof", t)

    def seq(self, op, elts, st):
        parts, cur = [], []
        for e in elts:
            if isinstance(e, ast.Starred):
                v = self.shallow(self.ev(e.value, st), st)
                if v.op in ("tuple", "list"):
                    cur.extend(v.args)
                else:
                    if cur:
                        parts.append(raw("list", *cur))
                        cur = []
                    parts.append(as_list(self.deep(v, st)))
            else:
                cur.append(self.ev(e, st))
        if not parts:
            return raw(op, *cur)
        if cur:
            parts.append(raw("list", *cur))
        return mk("listcat", *parts)

    def e_Dict(self, n, st):
        items = []
        d = None
        for k, v in zip(n.keys, n.values):
            if k is None:
                x = self.evd(v, st)
                if x.op == "dict" and d is None:
                    items.extend(x.args)
                elif d is None and not items:
                    d = x
                else:
                    base = d if d is not None else mk("dict", *items)
                    d = raw("dictmerge", base, x)
            else:
                kk, vv = self.evd(k, st), self.ev(v, st)
                if d is None:
                    items.append((kk, vv))
                else:
                    d = mk("store", d, kk, vv)
        if d is None:
            if all(is_const(k) or k.op in ("tuple", "num", "str") for k, _ in items):
                return mk("dict", *items)
            d = mk("dict")
            for k, v in items:
                d = mk("store", d, k, v)
        return d

    def e_IfExp(self, n, st):
        c = self.ev_bool(n.test, st)
        if c is TRUE:
            return self.ev(n.body, st)
        if c is FALSE:
            return self.ev(n.orelse, st)
        a, b = st.copy(), st.copy()
        a.pc = st.pc + (c,)
        b.pc = st.pc + (T.not_(c),)
        x = self.ev(n.body, a)
        y = self.ev(n.orelse, b)
        pc = st.pc
        if x is y:
            v = x
            out = self.merge(c, a, b, pc)
            st.take(out)
            return v
        rx, ry = x, y
        x, y = self.deep(x, a), self.deep(y, b)
        st.take(self.merge(c, a, b, pc))
        v = T.ite(c, x, y)
        if (rx.op == "ref" or ry.op == "ref") and v.op == "ite":
            r = self.bindable(v, st)
            self.link(st, r, ((c, rx), (T.not_(c), ry)))
            return r
        return v

    def e_BoolOp(self, n, st):
        r0 = self.ev(n.values[0], st)
        isand = isinstance(n.op, ast.And)
        acc = self.deep(r0, st)
        for x in n.values[1:]:
            pc = st.pc
            t = truth(acc)
            st.pc = pc + ((t if isand else T.not_(t)),)
            rv = self.ev(x, st)
            v = self.deep(rv, st)
            st.pc = pc
            if len(n.values) == 2 and (r0.op == "ref" or rv.op == "ref") and not (ty(acc) == "bool" and ty(v) == "bool") and isinstance(n.values[0], ast.Name):
                w = T.ite(t, v, acc) if isand else T.ite(t, acc, v)
                r = self.bindable(w, st)
                if r is not w:
                    self.link(st, r, ((t, rv), (T.not_(t), r0)) if isand else ((t, r0), (T.not_(t), rv)))
                return r
            if ty(acc) == "bool" and ty(v) == "bool":
                acc = T.and_(acc, v) if isand else T.or_(acc, v)
            else:
                acc = T.ite(t, v, acc) if isand else T.ite(t, acc, v)
        return acc

    def e_UnaryOp(self, n, st):
        v = self.evd(n.operand, st)
        if isinstance(n.op, ast.Not):
            return T.not_(truth(v))
        if isinstance(n.op, ast.USub):
            return T.neg(v)
        if isinstance(n.op, ast.UAdd):
            if st.dctx is not None or ty(v) == "dec":
                prec, rnd = st.dctx or (num(28), string("ROUND_HALF_EVEN"))
                return mk("decround", v, prec, rnd)
            return v
        if isinstance(n.op, ast.Invert):
            return T.not_(v)
        return self.opaque("unary", n, v)

    def e_BinOp(self, n, st):
        a = self.evd(n.left, st)
        b = self.evd(n.right, st)
        return self.binop(type(n.op).__name__, a, b, n)

    def binop(self, op, a, b, n):
        if op == "Mod":
            if ty(a) == "str" or a.op == "str" or (a.op == "ite" and ty(a.args[1]) == "str"):
                return L.pct_format(a, b)
            return L.mod(a, b)
        for x, y, left in ((a, b, True), (b, a, False)):
            if x.op == "ite" and ty(x.args[1]) in ("str", "list", "tuple") and op in ("Add",):
                f = (lambda p: self.binop(op, p, y, n)) if left else (lambda p: self.binop(op, y, p, n))
                return T.ite(x.args[0], f(x.args[1]), f(x.args[2]))
        if op == "Add":
            return T.add(a, b)
        if op == "Sub":
            return T.sub(a, b)
        if op == "Mult":
            return T.mul(a, b)
        if op == "Div":
            return T.div(a, b)
        if op == "FloorDiv":
            return L.floordiv(a, b)
        if op == "Pow":
            return T.power(a, b)
        if op == "MatMult":
            return mk("dot", a, b)
        if op == "BitAnd":
            return T.and_(a, b)
        if op == "BitOr":
            return T.or_(a, b)
        if op == "BitXor":
            return raw("xor", *sorted([a, b]))
        return self.opaque("binary operator " + op, n, a, b)

    def e_Compare(self, n, st):
        left = self.evd(n.left, st)
        out = []
        for op, r in zip(n.ops, n.comparators):
            right = self.evd(r, st)
            out.append(self.cmp(type(op).__name__, left, right))
            left = right
        return T.and_(*out) if len(out) > 1 else out[0]

    def cmp(self, op, a, b):
        if op == "Lt":
            return T.lt(a, b)
        if op == "LtE":
            return T.le(a, b)
        if op == "Gt":
            return T.lt(b, a)
        if op == "GtE":
            return T.le(b, a)
        if op == "Eq":
            return mk("eq", a, b)
        if op == "NotEq":
            return T.not_(mk("eq", a, b))
        if op == "Is":
            return T.is_(a, b)
        if op == "IsNot":
            return T.not_(T.is_(a, b))
        if op == "In":
            return mk("in", a, b)
        if op == "NotIn":
            return T.not_(mk("in", a, b))
        raise AssertionError(op)

    def e_Slice(self, n, st):
        g = lambda x: NONE if x is None else self.evd(x, st)
        return mk("slice", g(n.lower), g(n.upper), g(n.step))

    def e_Index(self, n, st):
        return self.ev(n.value, st)

    def e_Subscript(self, n, st):
        base = self.ev(n.value, st)
        idx = self.evd(n.slice, st)
        return self.load_item(base, idx, st, n)

    def load_item(self, base, idx, st, n):
        s = self.shallow(base, st)
        if s.op in ("tuple", "list", "dict"):
            v = mk("getitem", s, idx)
            if v.op == "ref":
                return v
            return self.deep(v, st)
        s = self.deep(s, st)
        if s.op == "libv" and s.args[0] in ("numpy.r_", "numpy.c_"):
            parts = list(idx.args) if idx.op == "tuple" else [idx]
            if s.args[0] == "numpy.c_":
                return mk("stack" if {T.ndim_of(p) for p in parts} == {1} else "concat", num(1), tuple(parts))
            if len(parts) == 1 and parts[0].op == "slice":
                return self.opaque("r_ slice", n, idx)
            return mk("concat", num(0), tuple(mk("atl1", p) for p in parts))
        if s.op in ("libv", "cls", "func"):
            return raw("opaque", "subscript", ast.unparse(n), ())
        return mk("getitem", s, idx)

    def e_Attribute(self, n, st):
        base = self.ev(n.value, st)
        return self.load_attr(base, n.attr, st, n)

    def load_attr(self, base, name, st, n):
        s = self.shallow(base, st)
        if s.op == "mod":
            full = s.args[0] + "." + name
            if self.prog.find(full) is not None:
                return raw("mod", full)
            env = self.prog.env(s.args[0]) or {}
            return env[name] if name in env else self.resolve(self.fallback(s.args[0], name)) or self.opaque("missing attribute " + full, n)
        if s.op == "libv":
            return self.libname(s.args[0] + "." + name)
        if s.op == "obj":
            for k, v in s.args[1]:
                if k == name:
                    return v
            c = s.args[0]
            if isinstance(c, ClassObj):
                if name in c.methods:
                    f = c.methods[name]
                    if getattr(f, "prop", False):
                        return self.call_func(f, [base], {}, st, n)
                    return raw("bm", raw("cls", c) if getattr(f, "clsm", False) else base, f)
                if name in c.attrs:
                    return c.attrs[name]
        if s.op == "cls":
            c = s.args[0]
            if name in c.methods:
                f = c.methods[name]
                return raw("bm", s, f) if getattr(f, "clsm", False) else raw("func", f)
            if name in c.attrs:
                return c.attrs[name]
        return mk("attr", self.deep(s, st), name)

    def e_JoinedStr(self, n, st):
        out = []
        for v in n.values:
            if isinstance(v, ast.Constant):
                out.append(string(v.value))
            else:
                x = self.evd(v.value, st)
                spec = ""
                if v.format_spec is not None:
                    sp = self.evd(v.format_spec, st)
                    if sp.op != "str":
                        return self.opaque("f-string", n, x, sp)
                    spec = sp.args[0]
                out.append(L.fmt(spec, x))
        return mk("strcat", *out) if out else string("")

    def e_FormattedValue(self, n, st):
        return self.e_JoinedStr(ast.JoinedStr(values=[n]), st)

    def e_Lambda(self, n, st):
        f = FuncObj(n, self.frame.module, self.qual("<lambda>"))
        self.set_defaults(f, st)
        f.def_frame = self.frame
        f.closure = dict(st.env)
        f.closure_heap = dict(st.heap)
        return raw("func", f)

    def e_NamedExpr(self, n, st):
        v = self.ev(n.value, st)
        self.assign(n.target, v, st)
        return st.env.get(n.target.id, v)

    def e_Starred(self, n, st):
        return raw("star", self.evd(n.value, st))

    def e_ListComp(self, n, st):
        return self.comp(n, st, "list")

    def e_GeneratorExp(self, n, st):
        return self.comp(n, st, "list")

    def e_SetComp(self, n, st):
        return raw("setof", self.comp(n, st, "list"))

    def e_DictComp(self, n, st):
        return self.comp(n, st, "dict")

    def comp(self, n, st, kind):
        env0 = dict(st.env)
        r = self.comp_level(n, 0, st, kind)
        for k in list(st.env):
            if k not in env0:
                del st.env[k]
        for k, v in env0.items():
            st.env[k] = v
        return r

    def comp_level(self, n, i, st, kind):
        """Value of the comprehension from generator i on."""
        g = n.generators[i]
        v = self.ev(g.iter, st)
        spec = self.iter_spec(v, st, n)
        last = i + 1 == len(n.generators)

        def leaf(s):
            if kind == "dict":
                return tup(self.evd(n.key, s), self.evd(n.value, s))
            return self.ev(n.elt, s)

        if spec[0] == "lit":
            parts, keep = [], True
            for x in spec[1]:
                self.assign(g.target, x, st)
                c = TRUE
                pc = st.pc
                for t in g.ifs:
                    c = T.and_(c, self.ev_bool(t, st))
                if c is FALSE:
                    continue
                st.pc = pc + (c,) if c is not TRUE else pc
                y = leaf(st) if last else self.comp_level(n, i + 1, st, kind)
                st.pc = pc
                if last:
                    if c is TRUE:
                        parts.append(y if kind == "dict" else raw("list", y))
                    else:
                        keep = False
                        parts.append((c, y))
                else:
                    parts.append(y)
            if not keep:
                return raw("opaque", "filtered literal comprehension", ast.unparse(n), tuple(self.deep(p if isinstance(p, T.Term) else tup(*p), st) for p in parts))
            if kind == "dict" and last:
                if all(is_const(p.args[0]) for p in parts):
                    return mk("dict", *[p.args for p in parts])
                d = mk("dict")
                for p in parts:
                    d = mk("store", d, *p.args)
                return d
            if kind == "dict":
                d = mk("dict")
                for p in parts:
                    d = raw("dictmerge", d, p) if d.args else p
                return d
            return mk("listcat", *parts) if parts else lst()
        levels, valf = spec[1], spec[2]
        els = []
        for it, tyname in levels:
            el = self.new_elem(it, tyname)
            els.append((it, el))
            self.loops.append((it, el))
        guard, val = valf(tuple(e for _, e in els))
        self.assign(g.target, val, st)
        pc = st.pc
        rng0 = st.rng
        st.rng = raw("rngl", frozenset([(a.id, b.id) for a, b in self.loops]), 0)
        rin = st.rng
        c = guard
        st.pc = pc + ((c,) if c is not TRUE else ())
        for t in g.ifs:
            c = T.and_(c, self.ev_bool(t, st))
            st.pc = pc + (c,)
        y = leaf(st) if last else self.comp_level(n, i + 1, st, kind)
        y = self.deep(y, st)
        st.pc = pc
        for _ in els:
            self.loops.pop()
        st.rng = rng0 if st.rng is rin else raw("rnga", rng0, levels[0][0])
        if not last or len(levels) > 1:
            if kind == "dict" and last and c is TRUE:
                # nested levels: keyed store
                return raw("opaque", "product dict comprehension", ast.unparse(n), (y,))
            inner = y if not last else raw("list", y)
            for it, el in reversed(els):
                inner = mk("flatmap", it, el, c, inner)
                c = TRUE
            return inner
        it, el = els[0]
        if kind == "dict":
            k, x = y.args
            if c is not TRUE:
                return raw("opaque", "filtered dict comprehension", ast.unparse(n), (mk("fmap", it, el, c, y),))
            return mk("mdict", it, el, k, x)
        if c is TRUE:
            return mk("map", it, el, y)
        return mk("fmap", it, el, c, y)

    # ------------------------------------------------------------------ calls
    def e_Call(self, n, st):
        # str.join etc. on constants are handled by meth_call
        if isinstance(n.func, ast.Attribute):
            r = self.method_node(n, st)
            if r is not None:
                return r
        f = self.ev(n.func, st)
        args, kwargs = self.call_args(n, st, f)
        return self.call_value(f, args, kwargs, st, n)

    def call_args(self, n, st, f=None):
        args = []
        for a in n.args:
            if isinstance(a, ast.Starred):
                v = self.shallow(self.ev(a.value, st), st)
                if v.op in ("tuple", "list"):
                    args.extend(v.args)
                    continue
                v = self.deep(v, st)
                k = self.remaining(f, len(args), n)
                if k is not None:
                    args.extend(mk("getitem", v, num(i)) for i in range(k))
                else:
                    args.append(raw("star", v))
            else:
                args.append(self.ev(a, st))
        kwargs = {}
        for k in n.keywords:
            v = self.ev(k.value, st)
            if k.arg is None:
                s = self.shallow(v, st)
                if s.op == "dict" and all(a.op == "str" for a, _ in s.args):
                    for a, b in s.args:
                        kwargs[a.args[0]] = b
                else:
                    kwargs["**"] = self.deep(v, st)
            else:
                kwargs[k.arg] = v
        return args, kwargs

    def remaining(self, f, used, n):
        """How many positional parameters are left for a starred argument."""
        if f is None:
            return None
        fo = None
        extra = 0
        if f.op == "func":
            fo = f.args[0]
        elif f.op == "vec" and f.args[0].op == "func":
            fo = f.args[0].args[0]
        elif f.op == "bm":
            fo, extra = f.args[1], 1
        if fo is None or fo.vararg:
            return None
        named = {k.arg for k in n.keywords}
        k = len([p for p in fo.pos if p not in named]) - used - extra
        stars = sum(isinstance(a, ast.Starred) for a in n.args)
        plain_after = 0
        return k if stars == 1 and k >= 0 and isinstance(n.args[-1], ast.Starred) else None

    def method_node(self, n, st):
        """Method calls: receiver.name(args). Returns None to fall back."""
        name = n.func.attr
        base = self.ev(n.func.value, st)
        s = self.shallow(base, st)
        if s.op in ("libv", "mod", "cls"):
            f = self.load_attr(base, name, st, n.func)
            args, kwargs = self.call_args(n, st, f)
            return self.call_value(f, args, kwargs, st, n)
        if s.op == "obj":
            f = self.load_attr(base, name, st, n.func)
            if f.op == "bm" or f.op in ("func", "libv", "partial"):
                args, kwargs = self.call_args(n, st, f)
                return self.call_value(f, args, kwargs, st, n)
        args, kwargs = self.call_args(n, st)
        return self.call_method(base, name, args, kwargs, st, n)

    def call_method(self, base, name, args, kwargs, st, n):
        s = self.shallow(base, st)
        if s.op == "ite" and name in ("items", "keys", "values", "get", "format"):
            pass
        dargs = [self.deep(a, st) for a in args]
        dkw = {k: self.deep(v, st) for k, v in kwargs.items()}
        if (dargs or dkw) and name != "fit" and not name.startswith("predict"):
            self.ctx.calls.append(("." + name + "()", {"recv": base, "st": s, "args": dargs + list(dkw.values())}, st.pc, tuple(self.loops), self.where(n)))
        if s.op == "lib" and s.args[0] == "joblib.Memory" and name == "cache":
            if dargs and dargs[0] is not NONE:
                return raw("cached", dargs[0], s, tuple(sorted(dkw.items())))
            if "func" in dkw:
                return raw("cached", dkw["func"], s, tuple(sorted((k, v) for k, v in dkw.items() if k != "func")))
            return raw("cacher", s, tuple(sorted(dkw.items())))
        if s.op == "ctxobj":
            prec, rnd = st.dctx or (num(28), string("ROUND_HALF_EVEN"))
            if name in ("create_decimal", "plus", "create_decimal_from_float") and dargs:
                return mk("decround", mk("decimal", dargs[0]), prec, rnd)
            if name == "copy":
                return raw("decctx", prec, rnd)
        own = self.dec_context(s)
        if own is not None:
            if name in ("create_decimal", "plus", "create_decimal_from_float") and dargs:
                return mk("decround", mk("decimal", dargs[0]), *own)
            if name == "copy":
                return raw("decctx", *own)
        if name in MUTATORS and base.op == "ref":
            r = self.mutate(base, s, name, args, dargs, dkw, st, n)
            if r is not None:
                return r
        if name in MUTATORS and base.op != "ref" and isinstance(n.func, ast.Attribute):
            root = n.func.value
            while isinstance(root, (ast.Subscript, ast.Attribute)):
                root = root.value
            if isinstance(root, ast.Name) and self.lookup_local(root.id, st) is None and name != "add" and s.op in ("dict", "list", "set"):
                self.effect("global-mutation", root.id, n)
            elif isinstance(root, ast.Name):
                b = self.lookup_local(root.id, st)
                if b is not None and b.op == "ref" and b is not base:
                    c = self.deep(b, st)
                    self.write_ref(b, raw("opaque", "nested mutation", ast.unparse(n), (c, self.deep(base, st)) + tuple(dargs)), st, n)
                    return self.opaque("nested mutator", n)
        d = self.deep(s, st)
        if name == "fit":
            ident = d
            cur = st.heap.get(("m", ident), ident)
            kw = L.bind_sig(L.METHSIG["fit"], dargs, dkw)
            new = raw("mut", cur, "fit", tuple(sorted(kw.items())))
            st.heap[("m", ident)] = new
            self.ctx.calls.append((".fit", kw, st.pc, tuple(self.loops), self.where(n)))
            return base if base.op == "ref" else d
        cur = st.heap.get(("m", d))
        if cur is not None:
            d = cur
        if name.startswith("predict"):
            self.ctx.calls.append(("." + name, {"X": dargs[0] if dargs else NONE, "st": d}, st.pc, tuple(self.loops), self.where(n)))
        if dkw.get("inplace") is TRUE:
            dkw.pop("inplace")
            if name == "set_names" and isinstance(n.func, ast.Attribute) and isinstance(n.func.value, ast.Attribute) and n.func.value.attr == "index":
                owner = self.ev(n.func.value.value, st)
                if owner.op == "ref":
                    c = self.deep(owner, st)
                    st.heap[owner.args[0]] = mk("idxname", c, (dargs + [NONE])[0])
                    return NONE
            if base.op == "ref":
                self.write_ref(base, L.meth_call(d, name, dargs, dkw), st, n)
                return NONE
            self.effect("inplace-unknown", name, n)
            return NONE
        if name == "rename_axis" and len(dargs) == 1 and not dkw:
            return mk("idxname", d, dargs[0])
        if name in ("apply", "map", "applymap") and dargs and dargs[0].op in ("func", "libv", "partial"):
            it = raw("irange", num(0), mk("dim", d, 0), num(1))
            el = self.new_elem(it, "int")
            self.loops.append((it, el))
            b = self.deep(self.call_value(args[0], [mk("getitem", d, el)], {}, st, n), st)
            self.loops.pop()
            return mk("map", it, el, b)
        if d.op == "param" and d.args[1] == "fn":
            pass
        return L.meth_call(d, name, dargs, dkw)

    def mutate(self, base, s, name, args, dargs, dkw, st, n):
        rid = base.args[0]
        c = self.deep(s, st)
        if name == "append" and len(args) == 1 and (ty(c) == "list" or c.op in ("range", "lv", "listcat", "param", "opaque", "fmap", "map", "ite")):
            new = mk("listcat", c, lst(args[0])) if c.op != "ite" else T.ite(c.args[0], mk("listcat", c.args[1], lst(args[0])), mk("listcat", c.args[2], lst(args[0])))
        elif name == "extend":
            new = mk("listcat", c, as_list(dargs[0]))
        elif name == "update" and (ty(c) == "dict" or c.op in ("lv", "store")):
            new = c
            for d in dargs:
                if d.op == "dict":
                    for k, v in d.args:
                        new = mk("store", new, k, v)
                else:
                    new = raw("dictmerge", new, d)
            for k, v in dkw.items():
                new = mk("store", new, string(k), v)
        elif name == "update":
            return None
        elif name == "sort" and not dargs and not dkw:
            new = mk("sort", c)
        elif name == "add" and c.op in ("setof", "set", "lv"):
            new = raw("setadd", c, dargs[0])
        elif name == "add":
            return None  # arithmetic method
        elif name == "fill":
            new = raw("filled", c, dargs[0])
        elif name == "pop" and c.op == "dict" and dargs and L._dget(c, dargs[0])[0] is not None:
            v = L._dget(c, dargs[0])[0]
            self.write_ref(base, mk("dict", *[(k, x) for k, x in c.args if k is not dargs[0]]), st, n)
            return v
        elif name == "reverse" and not dargs:
            new = mk("getitem", c, raw("slice", NONE, NONE, num(-1)))
        else:
            self.write_ref(base, raw("opaque", "mutator " + name, ast.unparse(n), (c,) + tuple(dargs)), st, n)
            return self.opaque("mutator " + name, n, c, *dargs)
        self.write_ref(base, new, st, n)
        self.ctx.loc.setdefault(new, self.where(n))
        return NONE

    def call_value(self, f, args, kwargs, st, n):
        f = self.shallow(f, st)
        if f.op == "ite":
            c = f.args[0]
            a, b = st.copy(), st.copy()
            a.pc = st.pc + (c,)
            b.pc = st.pc + (T.not_(c),)
            x = self.call_value(f.args[1], args, kwargs, a, n)
            y = self.call_value(f.args[2], args, kwargs, b, n)
            x, y = self.deep(x, a), self.deep(y, b)
            pc = st.pc
            if f.args[1].op == "bottom" or f.args[2].op == "bottom":
                st.take(b if f.args[1].op == "bottom" else a)
                st.pc = pc
                return T.ite(c, x, y)
            st.take(self.merge(c, a, b, pc))
            return T.ite(c, x, y)
        if f.op == "bottom":
            return BOTTOM
        if f.op == "func":
            return self.call_func(f.args[0], args, kwargs, st, n)
        if f.op == "bm":
            fo = f.args[1]
            a = list(args) if getattr(fo, "static", False) else [f.args[0]] + list(args)
            return self.call_func(fo, a, kwargs, st, n)
        if f.op == "cached":
            v = self.call_value(f.args[0], args, kwargs, st, n)
            rec = {"args": tuple(self.deep(a, st) for a in args) + tuple(self.deep(a, st) for a in kwargs.values()), "value": self.deep(v, st), "func": f.args[0], "options": dict(f.args[2])}
            self.ctx.calls.append((".cached", rec, st.pc, tuple(self.loops), self.where(n)))
            return v
        if f.op == "ctxm" and f.args[0] == "numpy.errstate" and f.args[1] != "raise" and len(args) == 1 and self.shallow(args[0], st).op == "func":
            return args[0]  # used as a decorator
        if f.op == "libv" and f.args[0] == "contextlib.contextmanager" and len(args) == 1:
            return args[0]
        if f.op == "cacher" and len(args) == 1:
            return raw("cached", self.deep(args[0], st), f.args[0], f.args[1])
        if f.op == "partial":
            kw = dict(f.args[2])
            kw.update(kwargs)
            return self.call_value(f.args[0], list(f.args[1]) + list(args), kw, st, n)
        if f.op == "vec":
            dargs = [self.deep(a, st) for a in args]
            dkw = {k: self.deep(v, st) for k, v in kwargs.items()}
            inner = f.args[0]
            if inner.op == "func":
                try:
                    b = self.bind(inner.args[0], dargs, dkw)
                    return raw("vcall", inner.args[0].qual, dict(f.args[1]).get("signature", NONE), tuple(sorted(b.items())))
                except Opaque:
                    pass
            return raw("vcall", "?", f, tuple(dargs), tuple(sorted(dkw.items())))
        if f.op == "cls":
            return self.instantiate(f.args[0], args, kwargs, st, n)
        if f.op == "libv":
            return self.call_lib(f.args[0], args, kwargs, st, n)
        dargs = [self.deep(a, st) for a in args]
        dkw = {k: self.deep(v, st) for k, v in kwargs.items()}
        fd = self.deep(f, st)
        if fd.op == "attr":
            return self.call_method(fd.args[0], fd.args[1], args, kwargs, st, n)
        if fd.op == "ulib" and fd.args[0] == "collections.namedtuple":
            names = L.nt_fields(fd)
            v = L.nt_make(names, dargs, dkw) if names else None
            if v is not None:
                return v
        t = mk("apply", fd, tuple(dargs), tuple(sorted(dkw.items())))
        return t

    def instantiate(self, c, args, kwargs, st, n):
        if c.record == "tuple":
            v = L.nt_make(c.fields, [self.deep(a, st) for a in args], {k: self.deep(a, st) for k, a in kwargs.items()}, c.attrs)
            if v is not None:
                return v
        r = self.alloc(raw("obj", c, ()), st)
        init = c.methods.get("__init__")
        if c.record == "object" and init is None and len(args) <= len(c.fields) and not any(a.op == "star" for a in args) and set(kwargs) <= set(c.fields):
            d = dict(zip(c.fields, args), **kwargs)
            d = {k: d.get(k, c.attrs.get(k)) for k in c.fields}
            if None not in d.values():
                st.heap[r.args[0]] = raw("obj", c, tuple(sorted(d.items())))
                return r
        if init is not None:
            self.call_func(init, [r] + list(args), kwargs, st, n)
        return r

    def bind(self, fo, args, kwargs):
        if any(a.op == "star" for a in args) or "**" in kwargs:
            raise Opaque("star")
        b = {}
        pos = fo.pos
        if len(args) > len(pos):
            if fo.vararg is None:
                raise Opaque("arity")
            b[fo.vararg] = tup(*args[len(pos) :])
        elif fo.vararg:
            b[fo.vararg] = tup()
        for p, a in zip(pos, args):
            b[p] = a
        extra = {}
        for k, v in kwargs.items():
            if k in pos or k in fo.kwonly:
                if k in b:
                    raise Opaque("duplicate")
                b[k] = v
            elif fo.kwarg:
                extra[k] = v
            else:
                raise Opaque("unexpected keyword " + k)
        if fo.kwarg:
            b[fo.kwarg] = mk("dict", *[(string(k), v) for k, v in extra.items()])
        for p in pos + fo.kwonly:
            if p not in b:
                if p in fo.defaults:
                    b[p] = fo.defaults[p]
                else:
                    raise Opaque("missing " + p)
        return b

    def call_func(self, fo, args, kwargs, st, n):
        try:
            b = self.bind(fo, args, kwargs)
        except Opaque as e:
            return self.opaque("call binding %s: %s" % (fo.qual, e), n, *[self.deep(a, st) for a in args])
        db = None
        self.ctx.calls.append((fo.qual, {k: self.deep(v, st) for k, v in b.items()}, st.pc, tuple(self.loops), self.where(n)))
        q = self.prog.canon.get(fo.qual, fo.qual)
        if q in self.ctx.boundary and self.ctx.stack:
            db = {k: self.deep(v, st) for k, v in b.items()}
            if self.draws(fo):
                db["<rng>"] = st.rng
                self.advance(st, n)
                self.effect("draws", fo.qual, n, st)
            if q == "mlpaper.util.remove_chars" and db.get("del_chars", NONE).op == "str":
                # a set of characters
                db["del_chars"] = string("".join(sorted(set(db["del_chars"].args[0]))))
            return mk("pcall", q, tuple(sorted(db.items())))
        if fo in self.ctx.stack or len(self.ctx.stack) > MAXDEPTH:
            return self.opaque("recursion " + fo.qual, n, *[self.deep(v, st) for v in b.values()])
        if any(isinstance(x, (ast.Yield, ast.YieldFrom, ast.Await)) for x in ast.walk(fo.node)):
            return self.opaque("generator function", n, *[self.deep(v, st) for v in b.values()])
        return self.run(fo, b, st)

    def run(self, fo, b, st):
        """Inline fo with bound arguments b in state st."""
        fr = Frame(fo.module, fo, self.frame)
        if fo.closure is not None:
            same = self.frame is fo.def_frame
            fr.closure_env = dict(fo.closure)
            p = self.frame
            if same:
                fr.closure_env.update(st.env)
            for k, v in fo.closure_heap.items():
                st.heap.setdefault(k, v)
            if fo.def_frame is not None and fo.def_frame.closure_env:
                for k, v in fo.def_frame.closure_env.items():
                    fr.closure_env.setdefault(k, v)
        saved_env, saved_frame = st.env, self.frame
        st.env = {}
        for k, v in b.items():
            st.env[k] = self.bindable(v, st)
        self.frame = fr
        self.ctx.stack.append(fo)
        pc0 = st.pc
        base = len(pc0)
        saved_loop_ctl = None
        if fo.is_lambda:
            v = self.ev(fo.node.body, st)
            fr.returns.append((st.pc, v, st.copy()))
            st.dead = True
        else:
            self.exec_block(fo.node.body, st)
            if not st.dead:
                fr.returns.append((st.pc, NONE, st.copy()))
        self.ctx.stack.pop()
        self.frame = saved_frame
        rets = fr.returns
        if not rets:
            st.env = saved_env
            st.dead = True
            return BOTTOM
        if len(rets) == 1:
            pc, v, s = rets[0]
            s.env = saved_env
            st.take(s)
            st.dead = False
            # keep conditions (the other exits reject)
            st.pc = pc0
            return v
        # several exits: gate
        pc, v, s = rets[-1]
        val = self.deep(v, s)
        s.env = {}
        for pc2, v2, s2 in reversed(rets[:-1]):
            c = T.and_(*pc2[base:])
            x = self.deep(v2, s2)
            s2.env = {}
            s = self.merge(c, s2, s, pc0)
            val = T.ite(c, x, val)
        s.env = saved_env
        s.pc = pc0
        st.take(s)
        st.dead = False
        return val

    def advance(self, st, n):
        r = st.rng
        if r.op in ("rng", "rngl"):
            st.rng = raw(r.op, *(r.args[:-1] + (r.args[-1] + 1,)))
        else:
            st.rng = raw("rngs", r)

    _draw_memo = {}

    def draws(self, fo, seen=None):
        """Does the function (transitively) use numpy's global generator?"""
        seen = set() if seen is None else seen
        if fo in seen:
            return False
        seen.add(fo)
        memo = self.prog.__dict__.setdefault("draw_memo", {})
        if fo in memo:
            return memo[fo]
        r = False
        env = self.prog.env(fo.module.name)
        for x in ast.walk(fo.node):
            if isinstance(x, ast.Attribute) and x.attr == "random":
                r = True
            if isinstance(x, ast.Name) and x.id in env and env[x.id].op == "libv" and env[x.id].args[0].startswith("numpy.random"):
                r = True
            t = None
            if isinstance(x, ast.Name):
                t = env.get(x.id)
            elif isinstance(x, ast.Attribute) and isinstance(x.value, ast.Name):
                m = env.get(x.value.id)
                if m is not None and m.op == "mod":
                    t = (self.prog.env(m.args[0]) or {}).get(x.attr)
            if t is not None and t.op == "func" and self.draws(t.args[0], seen):
                r = True
            if t is not None and t.op == "dict":
                for _, v in t.args:
                    if v.op == "func" and self.draws(v.args[0], seen):
                        r = True
        memo[fo] = r
        return r

    # library calls with control effects
    def call_lib(self, name, args, kwargs, st, n):
        raw_args = args
        if name == "collections.OrderedDict":
            name = "builtins.dict"
        if name in ("builtins.map", "builtins.filter") and args:
            f = self.shallow(args[0], st)
            its = [self.deep(a, st) for a in args[1:]]
            v = its[0] if len(its) == 1 else raw("zip", *its)
            spec = self.iter_spec(v, st, n)
            star = len(its) > 1
            ap = lambda x: self.deep(self.call_value(f, list(x.args) if star else [x], {}, st, n), st)
            if name == "builtins.map":
                if spec[0] == "lit":
                    return lst(*[ap(x) for x in spec[1]])
                if len(spec[1]) == 1:
                    it, tn = spec[1][0]
                    el = self.new_elem(it, tn)
                    self.loops.append((it, el))
                    g, x = spec[2]((el,))
                    y = ap(x)
                    self.loops.pop()
                    return mk("map", it, el, y) if g is TRUE else mk("fmap", it, el, g, y)
            elif spec[0] == "gen" and len(spec[1]) == 1:
                it, tn = spec[1][0]
                el = self.new_elem(it, tn)
                self.loops.append((it, el))
                g, x = spec[2]((el,))
                y = truth(ap(x)) if f.op != "none" else truth(x)
                self.loops.pop()
                return mk("fmap", it, el, T.and_(g, y), x)
            return self.opaque(name, n, *its)
        if name == "functools.partial":
            return raw("partial", self.deep(args[0], st), tuple(args[1:]), tuple(sorted(kwargs.items())))
        if name == "functools.wraps":
            return raw("libv", "identity")
        if name == "identity":
            return args[0]
        if name == "functools.reduce" and len(args) >= 2:
            f = self.shallow(args[0], st)
            spec = self.iter_spec(args[1], st, n)
            if spec[0] == "gen" and len(spec[1]) == 1:
                it, tn = spec[1][0]
                el = self.new_elem(it, tn)
                g, x = spec[2]((el,))
                acc = raw("lv", self.ctx.fresh(), "acc", "")
                y = self.deep(self.call_value(f, [acc, x], {}, st, n), st)
                init = self.deep(args[2], st) if len(args) > 2 else None
                if init is not None:
                    r = self.close(it, el, {acc: (("n", "acc"), init, y)}, n)
                    return r[acc]
            if spec[0] == "lit":
                acc = args[2] if len(args) > 2 else spec[1][0]
                for x in spec[1] if len(args) > 2 else spec[1][1:]:
                    acc = self.call_value(f, [acc, x], {}, st, n)
                return acc
        if name in ("builtins.min", "builtins.max", "builtins.sorted") and "key" in kwargs:
            f = self.shallow(kwargs["key"], st)
            seq = args[0] if len(args) == 1 else raw("list", *args)
            spec = self.iter_spec(seq, st, n)
            if name != "builtins.sorted" and spec[0] == "gen" and len(spec[1]) == 1:
                it, tn = spec[1][0]
                el = self.new_elem(it, tn)
                self.loops.append((it, el))
                g, x = spec[2]((el,))
                k = self.deep(self.call_value(f, [x], {}, st, n), st)
                self.loops.pop()
                kind = name[9:]
                dflt = self.deep(kwargs["default"], st) if "default" in kwargs else BOTTOM
                if k.op == "tuple":
                    return raw("opaque", "tuple key", ast.unparse(n), (mk("map", it, el, tup(k, x)),))
                return mk("argbest", it, el, string(kind), g, k, self.deep(x, st), tup(INF if kind == "min" else T.neg(INF), dflt))
            if name == "builtins.sorted":
                sd = self.deep(seq, st)
                if spec[0] == "gen" and len(spec[1]) == 1:
                    it, tn = spec[1][0]
                    el = self.new_elem(it, tn)
                    self.loops.append((it, el))
                    g, x = spec[2]((el,))
                    k = self.deep(self.call_value(f, [x], {}, st, n), st)
                    self.loops.pop()
                    return mk("sortedby", sd, mk("map", it, el, k), self.deep(kwargs.get("reverse", FALSE), st))
            return self.opaque(name + " key", n, self.deep(seq, st))
        if name == "numpy.vectorize":
            kw = L.bind_sig(L.SIG["numpy.vectorize"], args, kwargs)
            f = self.deep(kw.pop("pyfunc"), st)
            return raw("vec", f, tuple(sorted((k, self.vec_option(k, self.deep(v, st))) for k, v in kw.items())))
        dargs = [self.deep(a, st) for a in args]
        dkw = {k: self.deep(v, st) for k, v in kwargs.items()}
        if name == "numpy.errstate":
            modes = {k: v.args[0] for k, v in dkw.items() if v.op == "str"}
            return raw("ctxm", name, modes.get("divide", modes.get("all", "")))
        if name in ("warnings.catch_warnings", "contextlib.suppress", "contextlib.nullcontext"):
            return raw("ctxm", name, "")
        if name in ("numpy.log", "numpy.log2", "numpy.log10") and self.ctx.divide == "raise" and len(dargs) == 1:
            self.reject(st, mk("any", T.eq(dargs[0], num(0)), NONE), "FloatingPointError", n)
        if name == "decimal.localcontext":
            base = st.dctx or (num(28), string("ROUND_HALF_EVEN"))
            if dargs or "ctx" in dkw:
                base = self.dec_context(dargs[0] if dargs else dkw["ctx"]) or base
            return raw("declocal", dkw.get("prec", base[0]), dkw.get("rounding", base[1]))
        if name == "decimal.getcontext":
            return raw("ctxobj")
        if name in ("numpy.seterr", "numpy.random.set_state") and self.balanced(n):
            return NONE
        if name in GLOBAL_EFFECT:
            self.effect("global-state", name, n)
            if name == "numpy.random.seed":
                st.rng = raw("rngseed", dargs[0] if dargs else NONE)
            return NONE
        if name == "builtins.print":
            self.effect("print", "", n)
            return NONE
        if name == "warnings.warn":
            self.effect("warn", "", n)
            return NONE
        if name == "builtins.setattr" or name == "builtins.exec" or name == "builtins.eval":
            self.effect("dynamic", name, n)
            return self.opaque(name, n, *dargs)
        if name == "builtins.getattr" and len(dargs) >= 2 and dargs[1].op == "str":
            return self.load_attr(args[0], dargs[1].args[0], st, n)
        if name == "builtins.next":
            a = self.shallow(args[0], st)
            a = self.deep(a, st)
            dflt = dargs[1] if len(dargs) > 1 else BOTTOM
            if a.op == "fmap":
                it, v, c, b = a.args
                return T.ite(mk("anyloop", it, v, c), mk("first", it, v, c, b), dflt)
            return mk("getitem", a, num(0)) if dflt is BOTTOM else self.opaque("next", n, *dargs)
        if name.startswith("numpy.random."):
            return self.draw(name, dargs, dkw, st, n)
        if name.startswith("random."):
            self.effect("draw", name, n, st)
            return raw("ulib", name, tuple(dargs), tuple(sorted(dkw.items())))
        if name in ("numpy.put", "numpy.copyto", "numpy.place", "numpy.fill_diagonal", "numpy.putmask") and args:
            if args[0].op == "ref":
                v = raw("ulib", name, tuple(dargs), tuple(sorted(dkw.items())))
                kw = dict(zip(("a", "val", "wrap") if name.endswith("diagonal") else ("a", "mask", "values") if name.endswith("putmask") else (), dargs), **dkw)
                if name == "numpy.fill_diagonal" and set(kw) == {"a", "val"} and T.ndim_of(dargs[0]) == 2 and T.ndim_of(kw["val"]) == 0 and mk("dim", dargs[0], 0) is mk("dim", dargs[0], 1):
                    e = raw("lib", "numpy.eye", (("N", mk("dim", dargs[0], 0)),))
                    if T._filled(dargs[0]) is not None:
                        f = T._filled(dargs[0])[0]
                        v = T.add(f, T.mul(T.sub(kw["val"], f), e))
                if name == "numpy.putmask" and set(kw) == {"a", "mask", "values"} and T.ndim_of(kw["values"]) == 0:
                    v = mk("store", dargs[0], kw["mask"], kw["values"])
                self.write_ref(args[0], v, st, n)
            return NONE
        if "out" in kwargs and kwargs["out"].op == "ref":
            kw = {k: v for k, v in dkw.items() if k != "out"}
            v = L.lib_call(name, dargs, kw)
            self.write_ref(kwargs["out"], v, st, n)
            return kwargs["out"]
        if name in ("numpy.asarray", "numpy.asanyarray") and len(args) == 1 and not kwargs and args[0].op == "ref":
            return args[0]
        if name == "numpy.array" and dkw.get("copy") is FALSE and args[0].op == "ref":
            return args[0]
        # fresh copies: contents only
        if name in ("numpy.apply_along_axis",):
            return self.opaque(name, n, *dargs)
        if any(a.op == "func" for a in dargs) and name not in ("builtins.callable",):
            pass
        for k in ("**",):
            if k in dkw:
                return self.opaque("double star", n, *dargs)
        v = L.lib_call(name, dargs, dkw)
        if name in ("numpy.log", "numpy.log2", "numpy.log10", "math.log") and len(dargs) == 1 and L.raw_exp(dargs[0]):
            self.effect("log-of-exp", T.show(dargs[0], 4), n)
        if (name in MAY_VIEW or name == "numpy.array" and dkw.get("copy") in (FALSE, NONE)) and args and args[0].op == "ref" and not self.recast(dargs, dkw):
            r = self.bindable(v, st)
            if r.op == "ref" and r is not v:
                st.views[r] = args[0]
                return r
        return v

    def recast(self, dargs, dkw):
        """The requested dtype cannot be the one of the argument."""
        want = dkw.get("dtype", dargs[1] if len(dargs) > 1 else None)
        a = dargs[0]
        return want is not None and (ty(a) == "bool" or a.op in ("lt", "le", "eq", "not", "and", "or", "isnan", "isinf") or a.op == "param" and a.args[1] == "lab1")

    def draw(self, name, dargs, dkw, st, n):
        self.effect("draw", name, n, st)
        short = name[len("numpy.random.") :]
        if name in L.SIG:
            try:
                kw = L.bind_sig(L.SIG[name], dargs, dkw)
            except L.BadCall:
                return raw("ulib", name, tuple(dargs), tuple(sorted(dkw.items())))
        else:
            if short in ("RandomState", "default_rng", "Generator", "get_state"):
                return raw("ulib", name, tuple(dargs), tuple(sorted(dkw.items())))
            return raw("ulib", name, tuple(dargs), tuple(sorted(dkw.items())), st.rng)
        p = kw.get("pvals")
        if p is not None and p.op == "listrep" and p.args[0].op == "list" and len(p.args[0].args) == 1:
            kw["pvals"] = T.mul(p.args[0].args[0], L.norm_lib("numpy.ones", {"shape": p.args[1]}))
        if short in ("rand",) and set(kw) <= {"_0"}:
            kw = {"size": kw["_0"]} if kw else {}
            short = "uniform01"
        elif short in ("random", "random_sample", "ranf"):
            short = "uniform01"
        elif short == "uniform":
            lo, hi = kw.pop("low", num(0)), kw.pop("high", num(1))
            t = raw("draw", "uniform01", tuple(sorted(kw.items())), st.rng)
            self.advance(st, n)
            return T.add(lo, T.mul(T.sub(hi, lo), t))
        t = raw("draw", short, tuple(sorted(kw.items())), st.rng)
        self.advance(st, n)
        return t


# ----------------------------------------------------------------------------
# Entry points
# ----------------------------------------------------------------------------
class Result(object):
    def __init__(self, value, ctx, fo, params, mutated):
        self.value, self.ctx, self.fo, self.params, self.mutated = value, ctx, fo, params, mutated
        self.rejects = ctx.rejects


def is_frame(c):
    """A table built here: its columns are set by name."""
    while c.op == "store":
        if c.args[1].op == "lockey":
            return True
        c = c.args[0]
    return c.op == "lib" and c.args[0] == "pandas.DataFrame" or c.op == "lv" and c.args[2] == "df_"


def analyse(prog, fo, types, boundary=frozenset(), self_obj=None, overrides=None):
    """Value graph of function fo on symbolic parameters.

    types: {param: type name}; overrides: {param: Term}."""
    ctx = Ctx(boundary)
    ip = Interp(prog, ctx)
    st = State()
    ip.frame = Frame(fo.module, None)
    b, params = {}, {}
    overrides = overrides or {}
    names = list(fo.pos) + list(fo.kwonly)
    for p in names:
        if p in overrides:
            params[p] = overrides[p]
        else:
            params[p] = raw("param", p, types.get(p, ""))
        b[p] = params[p]
    if fo.vararg:
        b[fo.vararg] = raw("param", fo.vararg, "")
    if fo.kwarg:
        b[fo.kwarg] = raw("param", fo.kwarg, "dict")
    refs = {}
    for p, v in list(b.items()):
        if v.op not in IMM_OPS and ty(v) not in SCALAR_TY:
            r = ip.alloc(v, st)
            b[p] = r
            refs[p] = r
    v = ip.run(fo, b, st)
    val = ip.deep(v, st)
    mutated = {}
    for p, r in refs.items():
        c = ip.deep(r, st)
        if c is not params[p]:
            mutated[p] = c
    return Result(val, ctx, fo, params, mutated)
