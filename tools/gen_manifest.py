"""Writes MANIFEST.json from properties.jsonl and the registry."""
import json
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
from mlstatic import registry  # noqa: E402

BASE = "static analysis: gated value-graph (SSA dataflow) construction from /repo's syntax trees and comparison with the value graph of a specification, case by case over the gates; no execution, no solver"
EXTRA = {
    "C02": "; plus a taint rule on the arguments of fit and predict",
    "C03": "; the rule here is on the rejection conditions: each documented kind of bad input must make one of them true, and none may fire on an admissible input",
    "C16": "; the rule here is an alias/effect analysis: no store reaches an object the caller passed in",
    "C17": "; plus an effect analysis of random draws and process-wide settings over all functions and module bodies",
    "C27": "; plus a dependence rule: the cached worker's value depends only on its arguments",
    "C30": "; the classes are analysed through fixed client functions",
}
NOTE = "Decides equality of the computed value with the specification in /verif/spec for every input of the documented types, over the reals and with library calls as modelled in mlstatic/lib.py; a difference that involves an unmodelled construct is reported as undecided, not as a violation."
NA = {
    "C90": "A long-run frequency over the sampling distribution of the data: no property of the program text bounds it. The formulas themselves are decided under C10 and C11.",
    "C91": "Quantifies over rounding errors of floating-point evaluation; the analysis identifies expressions equal over the reals and cannot bound the error of their evaluation order.",
}

checks = []
for pid in registry.EQUAL:
    checks.append({
        "property": pid,
        "quick_cmd": "python3 check.py %s --tier quick" % pid,
        "thorough_cmd": "python3 check.py %s --tier thorough" % pid,
        "technique": BASE + EXTRA.get(pid, ""),
        "level": "other",
        "level_note": NOTE,
    })
m = {
    "version": 1,
    "setup_cmd": "python3 -c \"import ast, sys; assert sys.version_info >= (3, 9)\"",
    "checks": checks,
    "not_applicable": [{"property": k, "reason": v} for k, v in NA.items()],
}
with open(os.path.join(HERE, "MANIFEST.json"), "w") as fh:
    json.dump(m, fh, indent=1)
    fh.write("\n")
