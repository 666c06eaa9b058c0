#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json: every property in CHECKS is claimed, the others are listed as not (yet) claimed."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SCHED = "stateless model checking of the real code (controlled scheduler, iterated preemption bound, happens-before caching, race detection)"
SEQ = "bounded exhaustive enumeration of operation sequences on the real code under a virtual clock, against a reference model"
INP = "bounded exhaustive enumeration of inputs / configurations on the real code against independent oracles"
FLT = "bounded exhaustive enumeration of call histories and fault positions on the real code (Lua script interpreted by an in-process fake Redis)"
NS = "Every execution within the stated bounds is explored (evidence lists states, transitions, exhaustive or not); trusts the source rewriter and scheduler in /verif (mc, tools/instr)."
NQ = "Every history/input within the stated bounds is explored and compared step by step with a reference model; trusts that model and the virtual clock."
CHECKS = {}
def c(ids, tech, level, note):
    for i in ids.split():
        CHECKS[i] = (tech, level, note)
exec(open(os.path.join(V, "tools", "claims.py")).read())
ids = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
m = {"version": 1, "setup_cmd": "./check --setup", "checks": [], "not_applicable": [],
     "notes": "No hooks in /repo: the checks instrument a scratch copy of the working tree. ./check ID [--tier thorough] [--replay FILE]."}
for i in ids:
    if i in CHECKS:
        t, l, n = CHECKS[i]
        m["checks"].append({"property": i, "quick_cmd": "./check %s --tier quick" % i, "thorough_cmd": "./check %s --tier thorough" % i,
                            "evidence_file": "evidence/%s.json" % i, "technique": t, "level": l, "level_note": n})
    else:
        m["not_applicable"].append({"property": i, "reason": "check not built yet (work in progress)"})
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(m["checks"]), "checks")
