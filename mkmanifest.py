"""Writes MANIFEST.json from the checks present in dst/checks (run by hand after adding a check)."""
import importlib
import json
import os
import sys

here = os.path.dirname(os.path.abspath(__file__))
sys.path[:0] = [here, "/repo"]
NA = {
    "C14": "Pure function of one array: no state, schedule, I/O or fault takes part, so a simulated environment adds nothing to evaluating it on inputs.",
    "C15": "Pure arithmetic on one value and one unit string; no environment, fault or interleaving can change the outcome.",
    "C16": "Deterministic index arithmetic on one array and one symmetry dictionary; nothing to schedule or to fail.",
    "C17": "The numerical meaning of one selection on one immutable array is a pure function; what histories, faults and threads can do to it is C01-C05.",
    "C18": "Parsing one string is a pure function without state or environment.",
    "C19": "Closed-form acoustic formulas on one array; no environment in the statement.",
    "C20": "Algebraic identities of pure array functions; no environment in the statement.",
    "C21": "Algebraic identity between two pure coordinate changes; no environment in the statement.",
}
checks = []
for f in sorted(os.listdir(os.path.join(here, "dst", "checks"))):
    if not (f.startswith("c") and f.endswith(".py")):
        continue
    m = importlib.import_module("dst.checks." + f[:-3])
    checks.append(
        {
            "property": m.ID,
            "quick_cmd": "./run.sh %s --tier quick" % m.ID,
            "thorough_cmd": "./run.sh %s --tier thorough" % m.ID,
            "evidence_file": "evidence/%s.json" % m.ID,
            "technique": m.TECHNIQUE,
            "level": m.LEVEL,
            "level_note": m.LEVEL_NOTE,
        }
    )
man = {
    "version": 1,
    "setup_cmd": "bash setup.sh",
    "checks": checks,
    "not_applicable": [{"property": k, "reason": v} for k, v in NA.items()],
    "notes": "Deterministic simulation with fault injection. No hooks in /repo: faults enter through the interpreter (trace points), the thread "
    "scheduler, the system-call shim (LD_PRELOAD) and the file system; library code is imported from /repo as it is. "
    "Replay: ./run.sh <property> --replay <file>. Properties not listed here yet are being built.",
}
json.dump(man, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
print([c["property"] for c in checks])
