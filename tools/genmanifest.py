#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the properties registered in the harness."""
import json, os, re
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
built = set()
for f in os.listdir(os.path.join(here, "harness")):
    if f.endswith(".go"):
        built |= set(re.findall(r'\bID:\s*"(P\d\d)"', open(os.path.join(here, "harness", f)).read()))
NOTE = ("Every execution of the stated bounded space runs on the real code, built from /repo's working tree, and is compared with an "
        "independent reference semantics (truth tables, reference DPLL, reference parsers, counters). No sampling inside the bounds. "
        "Trusts the reference semantics in harness/oracle.go and the enumeration; says nothing beyond the bounds listed in the evidence file.")
TECH = {"P28": "stateless model checking: a controlled scheduler enumerates the interleavings of two computations at handler events and program steps on the real code; concurrent runs are monitored for conflicting accesses (none: all interleavings are equivalent)",
        "P12": "stateless model checking: every cancelation point of every SAT-based computation and history is explored on the real code, against a reference model",
        "P13": "stateless model checking: every cancelation point of every computation and MaxSAT or BDD history is explored on the real code, against a reference model",
        "P11": "explicit-state model checking: all operation histories of a SAT solver up to a depth, run on the real code in lockstep with a reference model",
        "P19": "explicit-state model checking: all operation histories of a MaxSAT solver up to a depth, run on the real code in lockstep with a reference model",
        "P22": "explicit-state model checking: all operation histories of a BDD kernel up to a depth, run on the real code in lockstep with truth tables",
        "P23": "explicit-state model checking: all reordering histories of a BDD kernel up to a depth, run on the real code in lockstep with truth tables"}
checks, na = [], []
for line in open(os.path.join(here, "properties.jsonl")):
    p = json.loads(line)
    pid = p["id"]
    if pid in built:
        checks.append({"property": pid, "quick_cmd": f"./run.sh {pid} quick", "thorough_cmd": f"./run.sh {pid} thorough",
                       "evidence_file": f"evidence/{pid}.json",
                       "technique": TECH.get(pid) or "explicit-state model checking: exhaustive bounded enumeration of inputs, operation histories and cancelation points on the real code, against a reference model",
                       "level": "model_checking", "level_note": NOTE})
    else:
        na.append({"property": pid, "reason": "the explorer for this property is not built yet"})
m = {"version": 1, "setup_cmd": "./run.sh -list >/dev/null", "checks": checks, "not_applicable": na,
     "notes": "run.sh builds harness/ (a Go module with a replace directive to /repo) into a temporary directory and runs the explorer for one property."}
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks;", len(na), "not applicable")
