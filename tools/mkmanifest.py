#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the registry of checks and the property list."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from dst.registry import CHECKS, NOTES, NOT_APPLICABLE
props = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
checks = []
for p in props:
    if p in CHECKS:
        checks.append(dict(property=p, quick_cmd=f"./check {p}", thorough_cmd=f"./check {p} --tier thorough",
                           evidence_file=f"evidence/{p}.json", level="exploration",
                           technique="deterministic simulation with fault injection: " + NOTES[p][0], level_note=NOTES[p][1]))
na = [dict(property=p, reason=NOT_APPLICABLE.get(p, "no check yet")) for p in props if p not in CHECKS]
json.dump(dict(version=1, setup_cmd="./check --selftest", checks=checks, not_applicable=na,
               notes="All checks run the current working tree of /repo in process; no hooks in /repo are needed, so no guard exists. "
                     "VERIF_SEED selects the seeds, VERIF_TIER the depth; ./check --replay FILE reproduces a violation exactly."),
          open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "claimed;", [x["property"] for x in na])
