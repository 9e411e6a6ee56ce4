#!/usr/bin/env python3
"""Writes MANIFEST.json from plans.py and properties.jsonl."""
import json, os, sys
here = os.path.dirname(os.path.abspath(__file__))
sys.path[:0] = [here, os.path.join(here, "..")]
import plans
ids = [json.loads(l)["id"] for l in open(os.path.join(here, "..", "properties.jsonl"))]
NA = {"C25": "a property of generated machine code (absence of branches after optimisation), not of executions: monitoring runs cannot observe it; the repository's own static-tests link-time trick already decides it"}
checks, na = [], []
for i in ids:
    if i in plans.PLANS:
        p = plans.PLANS[i]
        checks.append({"property": i, "quick_cmd": "python3 check.py " + i, "thorough_cmd": "VERIF_TIER=thorough python3 check.py " + i, "evidence_file": "evidence/%s.json" % i,
                       "technique": p.get("technique", "runtime monitoring: generated workloads over the real code judged by an online oracle"), "level": p["level"],
                       "level_note": p.get("note", "Holds on the executions observed (counts in the evidence file); trusts: " + "; ".join(p["assumptions"]))})
    else:
        na.append({"property": i, "reason": NA.get(i, "check not built yet (work in progress)")})
hooks = {}
m = {"version": 1, "setup_cmd": "bash setup.sh", "checks": checks, "not_applicable": na, "notes": "No hooks in /repo were needed: everything is observed through public interfaces, instrumented readers, writers, contexts, element types and allocators."}
json.dump(m, open(os.path.join(here, "..", "MANIFEST.json"), "w"), indent=1)
