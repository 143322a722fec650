#!/usr/bin/env python3
"""check.py <property> [--tier quick|thorough] [--root DIR] [--verbose]

Decides one property by static analysis of the source under /repo/mlpaper.
Nothing of the repository is imported or executed."""
import argparse
import json
import os
import sys
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True

from mlstatic import oblig, registry, thorough  # noqa: E402

RULE = (
    "Each function is turned into a gated value graph (definitions propagated, joins as conditional nodes, loops summarised, callees either "
    "kept as boundary nodes or expanded, library calls normalised).  same-value: the graph equals the graph of the specification function in "
    "/verif/spec in every gate case the specification admits; default of parameter: the documented default; accepts: no rejection condition "
    "fires on an input the specification admits.  Further rules by property: bad inputs rejected, arguments unchanged, effects on global state "
    "and random sources, data reaching fit/predict, completeness of cache keys, behaviour of a class through a fixed client."
)


def known(path, pid):
    """{(rule, function): text} of recorded, unrepaired findings."""
    out = {}
    try:
        for line in open(path):
            line = line.strip()
            if line.startswith("known: property=%s " % pid):
                f = dict(x.split("=", 1) for x in line.split(" | ")[0].split()[1:] if "=" in x)
                out[(f.get("rule", "").replace("_", " "), f.get("function", ""))] = line.split(" | ", 1)[1]
    except OSError:
        pass
    return out


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--root", default="/repo")
    ap.add_argument("--verbose", action="store_true")
    ap.add_argument("--out", default=os.path.join(HERE, "evidence"))
    a = ap.parse_args()
    pid = a.property
    tier = a.tier if a.tier in ("quick", "thorough") else "quick"
    if pid not in registry.EQUAL:
        print("unknown property %s" % pid)
        return 2
    t0 = time.time()
    try:
        P = oblig.Project(a.root)
        outs = registry.obligations(P, pid)
    except oblig.Anchor as e:
        print("ANALYSIS-BROKEN property=%s %s" % (pid, e))
        return 2
    except SyntaxError as e:
        print("ANALYSIS-BROKEN property=%s the source does not parse: %s" % (pid, e))
        return 2
    cover = {}
    if tier == "thorough":
        cover = thorough.run(P, pid, a.root)
        outs += cover.pop("outcomes")
    kf = known(os.path.join(HERE, "known_findings.txt"), pid)
    bad, und, suppressed = [], [], []
    for o in outs:
        if o.status == oblig.VIOLATED:
            (suppressed if (o.rule, o.function) in kf else bad).append(o)
        elif o.status == oblig.UNDECIDED:
            und.append(o)
    for o in suppressed:
        print("KNOWN-FINDING: property=%s %s" % (pid, kf[(o.rule, o.function)]))
    n_hold = sum(o.status == oblig.HOLDS for o in outs)
    ev = {
        "property": pid,
        "tier": tier,
        "seed": int(os.environ.get("VERIF_SEED", "1") or 1),
        "level": "other",
        "coverage": {
            "explanation": RULE,
            "functions_analysed": len(P.stats["functions"]),
            "syntax_nodes_interpreted": P.stats["nodes"],
            "call_sites_resolved": P.stats["call_sites"],
            "obligations": len(outs),
            "discharged": n_hold,
            "undecided": len(und),
            "node_comparisons": P.stats["obligations"],
            "gate_cases": P.stats["cases"],
            "terms": P.stats["terms"],
            "samples": ["%s: %s %s" % (o.function, o.rule, o.detail[:100]) for o in outs[:8]],
            "undecided_list": ["%s: %s %s" % (o.function, o.rule, o.detail[:200]) for o in und[:20]],
        },
        "assumptions": [
            "numpy, scipy, pandas and decimal behave as modelled in mlstatic/lib.py; real arithmetic is exact for +, -, *, /",
            "callers pass arguments of the documented types (annotations of /verif/spec)",
            "the specifications in /verif/spec state the documented behaviour (confirmed by reading)",
        ],
        "violations": len(bad),
    }
    ev["coverage"].update(cover)
    ev["wall_s"] = round(time.time() - t0, 3)
    os.makedirs(a.out, exist_ok=True)
    with open(os.path.join(a.out, pid + ".json"), "w") as fh:
        json.dump(ev, fh, indent=1)
        fh.write("\n")
    print("%s: %d obligations, %d discharged, %d undecided, %d violated; %d functions, %d nodes (%.1f s)" % (pid, len(outs), n_hold, len(und), len(bad), len(P.stats["functions"]), P.stats["nodes"], ev["wall_s"]))
    for o in und[: None if a.verbose else 5]:
        print("  undecided: %s: %s: %s" % (o.function, o.rule, o.detail[:200]))
    if not bad:
        return 0
    rp = os.path.join(a.out, pid + ".violation.txt")
    with open(rp, "w") as fh:
        for o in bad:
            w = o.where or ("?", 0, "?")
            fh.write("%s:%s in %s\n  obligation: %s of %s\n  %s\n  %s\n\n" % (w[0], w[1], w[2], o.rule, o.function, o.detail, o.witness))
        fh.write("replay: python3 %s %s --root %s --verbose\n" % (os.path.abspath(__file__), pid, a.root))
    for o in bad[:5]:
        w = o.where or ("?", 0, "?")
        print("  %s:%s in %s: %s of %s: %s" % (w[0], w[1], w[2], o.rule, o.function, o.detail[:300]))
    print("VIOLATION property=%s replay=%s" % (pid, rp))
    return 1


if __name__ == "__main__":
    if os.environ.get("PYTHONHASHSEED") != "0":
        os.environ["PYTHONHASHSEED"] = "0"
        os.execv(sys.executable, [sys.executable] + sys.argv)
    try:
        sys.exit(main())
    except SystemExit:
        raise
    except BaseException:
        traceback.print_exc()
        # an internal error of the analyser is not a verdict about the property
        sys.exit(2)
