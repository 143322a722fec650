"""The deeper pass.

1. Every function of the property is compared in both modes (callees kept as
   boundary nodes; callees expanded) and on every listed instance, also when the
   first comparison already agreed: an independent confirmation of the verdict.
2. Sensitivity: the analysed syntax trees are perturbed in memory (operators,
   constants, guards, arguments, dropped statements), the obligations of the
   property are decided again for each perturbed program, and the answers are
   counted.  This says how much of the code the obligations constrain.  It never
   changes the verdict, and nothing is executed."""
import ast
import multiprocessing
import os
import time

from . import decide as D
from . import instances as I
from . import oblig as O

LIMIT = int(os.environ.get("MLSTATIC_MUTANTS", "240"))
BUDGET = float(os.environ.get("MLSTATIC_BUDGET", "420"))

CMP = {ast.Lt: ast.LtE, ast.LtE: ast.Lt, ast.Gt: ast.GtE, ast.GtE: ast.Gt, ast.Eq: ast.NotEq, ast.NotEq: ast.Eq, ast.Is: ast.IsNot, ast.IsNot: ast.Is, ast.In: ast.NotIn, ast.NotIn: ast.In}
BIN = {ast.Add: ast.Sub, ast.Sub: ast.Add, ast.Mult: ast.Div, ast.Div: ast.Mult, ast.FloorDiv: ast.Div, ast.Mod: ast.FloorDiv, ast.Pow: ast.Mult, ast.BitAnd: ast.BitOr, ast.BitOr: ast.BitAnd}


def docstring(node):
    b = node.body
    return b[0] if b and isinstance(b[0], ast.Expr) and isinstance(b[0].value, ast.Constant) and isinstance(b[0].value.value, str) else None


def edits(fn, asserts=False):
    """[(description, function that edits a copied function node in place)].
    The n-th node of the walk identifies the place in the copy."""
    out = []
    doc = docstring(fn)
    skip = {id(x) for x in ast.walk(doc)} if doc is not None else set()
    for a in ast.walk(fn):
        if isinstance(a, ast.Raise) or isinstance(a, ast.Assert) and not asserts:
            # messages, and assertions: C03 decides what is turned away
            skip |= {id(x) for x in ast.walk(a)}
    for i, n in enumerate(ast.walk(fn)):
        if id(n) in skip or not hasattr(n, "lineno"):
            continue
        at = "line %d" % n.lineno
        if isinstance(n, ast.Compare):
            for k, op in enumerate(n.ops):
                new = CMP.get(type(op))
                if new is not None:
                    out.append(("%s: %s becomes %s" % (at, type(op).__name__, new.__name__), i, ("cmp", k, new)))
        elif isinstance(n, ast.BinOp) and type(n.op) in BIN and not (isinstance(n.left, ast.Constant) and isinstance(n.left.value, str)):
            out.append(("%s: %s becomes %s" % (at, type(n.op).__name__, BIN[type(n.op)].__name__), i, ("bin", BIN[type(n.op)])))
        elif isinstance(n, ast.BoolOp):
            out.append((at + ": and/or exchanged", i, ("bool",)))
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, (ast.Not, ast.USub)):
            out.append(("%s: %s dropped" % (at, type(n.op).__name__), i, ("unary",)))
        elif isinstance(n, ast.Constant) and isinstance(n.value, bool):
            out.append(("%s: %r negated" % (at, n.value), i, ("const", not n.value)))
        elif isinstance(n, ast.Constant) and isinstance(n.value, (int, float)):
            out.append(("%s: %r becomes %r" % (at, n.value, n.value + 1), i, ("const", n.value + 1)))
        elif isinstance(n, ast.Constant) and isinstance(n.value, str) and n.value:
            out.append(("%s: %r altered" % (at, n.value), i, ("const", n.value + "x")))
        elif isinstance(n, (ast.If, ast.IfExp)):
            out.append((at + ": condition negated", i, ("if",)))
        elif isinstance(n, ast.Call):
            for k, w in enumerate(n.keywords):
                if w.arg is not None:
                    out.append(("%s: argument %s dropped" % (at, w.arg), i, ("kw", k)))
            if len(n.args) >= 2 and not any(isinstance(a, ast.Starred) for a in n.args):
                out.append((at + ": first two arguments exchanged", i, ("swap",)))
        elif isinstance(n, ast.AugAssign) or isinstance(n, ast.Assign) and isinstance(n.targets[0], (ast.Subscript, ast.Attribute)) or isinstance(n, ast.Expr) and isinstance(n.value, ast.Call):
            out.append((at + ": statement dropped", i, ("drop",)))
    return out


def apply(fn, i, e):
    n = list(ast.walk(fn))[i]
    k = e[0]
    if k == "cmp":
        n.ops[e[1]] = e[2]()
    elif k == "bin":
        n.op = e[1]()
    elif k == "bool":
        n.op = ast.Or() if isinstance(n.op, ast.And) else ast.And()
    elif k == "unary":
        for m in ast.walk(fn):
            for f, v in ast.iter_fields(m):
                if v is n:
                    setattr(m, f, n.operand)
                elif isinstance(v, list) and any(x is n for x in v):
                    setattr(m, f, [n.operand if x is n else x for x in v])
    elif k == "const":
        n.value = e[1]
    elif k == "if":
        n.test = ast.copy_location(ast.UnaryOp(op=ast.Not(), operand=n.test), n.test)
    elif k == "kw":
        del n.keywords[e[1]]
    elif k == "swap":
        n.args[0], n.args[1] = n.args[1], n.args[0]
    elif k == "drop":
        for m in ast.walk(fn):
            for f, v in ast.iter_fields(m):
                if isinstance(v, list) and any(x is n for x in v):
                    setattr(m, f, [ast.copy_location(ast.Pass(), n) if x is n else x for x in v])
    ast.fix_missing_locations(fn)


def judge(job):
    from . import registry

    root, pid, mod, name, line, desc, i, e = job

    def edit(tree):
        for fn in ast.walk(tree):
            if isinstance(fn, (ast.FunctionDef, ast.AsyncFunctionDef)) and fn.name == name and fn.lineno == line:
                return apply(fn, i, e)

    try:
        P = O.Project(root, edit=(mod, edit))
        outs = registry.obligations(P, pid)
    except O.Anchor:
        return desc, "alarm"
    except Exception as x:  # noqa
        return desc, "error %s" % type(x).__name__
    if any(o.status == O.VIOLATED for o in outs):
        return desc, "alarm"
    return desc, "undecided" if any(o.status == O.UNDECIDED for o in outs) else "quiet"


def places(P, pid):
    """[(name, module, function node)] whose perturbation the property is about."""
    from . import registry

    if pid == "C30":
        out = []
        for m in ("mlpaper.classification", "mlpaper.regression"):
            for c in ast.walk(P.prog.module(m).tree):
                if isinstance(c, ast.ClassDef):
                    out += [("%s.%s" % (c.name, f.name), m, f) for f in c.body if isinstance(f, ast.FunctionDef)]
        return out
    fs = registry.EQUAL[pid]
    if pid == "C03":
        fs = [q[len("mlpaper.") :] for q in registry.everything(P)]
    if pid == "C17":
        fs = fs + ["mlpaper.loss_summary_table", "classification.curve_boot"]
    out = []
    for f in fs:
        fo = P.impl("mlpaper." + f)
        if fo is not None:
            out.append((f, fo.module.name, fo.node))
    return out


def run(P, pid, root):
    from . import registry

    fs = registry.EQUAL[pid]
    outcomes, n_modes, n_inst = [], 0, 0
    for f in fs:
        q = "mlpaper." + f
        if P.impl(q) is None:
            continue
        for inst in I.TABLE.get(f, ()):
            try:
                o = P.equal(q, fixed=inst, name="same-value on an instance")
            except (D.GaveUp, RecursionError):
                continue
            n_inst += 1
            if o.status != O.UNDECIDED:
                outcomes.append(o)
        for inline in (False, True):
            try:
                o = P.compare("same-value, callees %s" % ("expanded" if inline else "kept"), q, P.value(q, "impl", inline), P.value(q, "spec", inline))
            except (D.GaveUp, RecursionError):
                continue
            n_modes += 1
            if o.status == O.HOLDS:
                outcomes.append(o)
    jobs = []
    for f, mod, fn in places(P, pid):
        for desc, i, e in edits(fn, pid == "C03"):
            jobs.append((root, pid, mod, fn.name, fn.lineno, "%s %s" % (f, desc), i, e))
    total = len(jobs)
    if total > LIMIT:
        jobs = [jobs[k * total // LIMIT] for k in range(LIMIT)]
    count = {"alarm": 0, "undecided": 0, "quiet": 0, "error": 0, "not reached in time": 0}
    quiet = []
    t0 = time.time()
    if jobs:
        with multiprocessing.get_context("fork").Pool(8, maxtasksperchild=12) as pool:
            it = pool.imap_unordered(judge, jobs)
            done = 0
            while done < len(jobs):
                try:
                    desc, v = it.next(timeout=max(0.1, BUDGET - (time.time() - t0)))
                except multiprocessing.TimeoutError:
                    count["not reached in time"] = len(jobs) - done
                    break
                done += 1
                count[v.split()[0]] += 1
                if os.environ.get("MLSTATIC_SHOW") and v != "alarm":
                    print("   ", v, desc)
                if v == "quiet":
                    quiet.append(desc)
            pool.terminate()
    return {
        "outcomes": outcomes,
        "both_modes_compared": n_modes,
        "instances_compared": n_inst,
        "perturbations_possible": total,
        "perturbations_judged": count,
        "perturbations_quiet": sorted(quiet)[:60],
    }
