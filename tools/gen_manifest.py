#!/usr/bin/env python3
"""writes MANIFEST.json from properties.jsonl, the contracts and the table below"""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, "tools"))
from manifest_table import LEVELS, NOT_APPLICABLE
props = [json.loads(l) for l in open(os.path.join(HERE, "properties.jsonl"))]
checks = []
for p in props:
    i = p["id"]
    if i in NOT_APPLICABLE:
        continue
    level, tech, note = LEVELS[i]
    checks.append(dict(property=i, quick_cmd="python3-vt check.py %s quick" % i, thorough_cmd="python3-vt check.py %s thorough" % i,
                       evidence_file="evidence/%s.json" % i, technique=tech, level=level, level_note=note))
m = dict(version=1, setup_cmd="true", checks=checks, not_applicable=[dict(property=k, reason=v) for k, v in NOT_APPLICABLE.items()],
         notes="pydv generates verification conditions from the real Python source of /repo on every run (no copy, no model) and discharges them with z3/cvc5; the executable contracts are additionally evaluated on the real code (bounded, labelled as such).")
json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
