#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and harness/plan.py."""
import json
import os
import sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, "harness"))
import plan

props = [json.loads(l) for l in open(os.path.join(HERE, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if i not in plan.PROPERTIES:
        na.append({"property": i, "reason": "not built yet"})
        continue
    checks.append({
        "property": i,
        "quick_cmd": "bin/check %s" % i,
        "thorough_cmd": "VERIF_TIER=thorough bin/check %s" % i,
        "evidence_file": "evidence/%s.json" % i,
        "technique": "TLA+ specification model-checked with TLC; its behaviours and seeded random programs replayed "
                     "on the code, and the recorded traces validated against the specification by TLC",
        "level": "model_checking",
        "level_note": plan.NOTES.get(i, "") + ("" if not plan.NOTES.get(i) else " ") +
                      "Theorems hold in the explored bounds of the specification; the code is bound by trace validation "
                      "of every explored and random program of this run, so behaviour outside of those programs is not covered. "
                      "Trusts TLC, the exact rational arithmetic of java/RealArith.java, and the driver.",
    })
m = {"version": 1, "setup_cmd": "bin/setup", "checks": checks, "not_applicable": na,
     "notes": "No hooks in /repo. Repairs of genuine defects are listed in known-findings.jsonl. See DESIGN.md."}
with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
