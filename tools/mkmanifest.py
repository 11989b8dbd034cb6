#!/usr/bin/env python3
"""Writes MANIFEST.json from bin/plan.py."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "bin"))
from plan import PLAN, NOT_APPLICABLE
checks = []
for i in sorted(PLAN):
    p = PLAN[i]
    c = dict(property=i, quick_cmd="bin/check %s" % i, thorough_cmd="bin/check %s --tier thorough" % i,
             technique=p["technique"], level=p["level"], level_note=p["note"])
    if p.get("theorems"): c["theorems"] = p["theorems"]
    checks.append(c)
m = dict(version=1, setup_cmd="bin/setup", checks=checks,
         not_applicable=[dict(property=k, reason=v) for k, v in NOT_APPLICABLE.items()],
         notes="No hooks in /repo are needed. Every check extracts the functions from /repo/src afresh, has Verus discharge their contracts, and runs the compiled library for counterexamples.")
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
