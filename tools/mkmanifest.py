#!/usr/bin/env python3
"""Writes MANIFEST.json: a check for every checks/CNN.py, the other properties under not_applicable."""
import json, os, re
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(ROOT, "properties.jsonl"))]
reasons = json.load(open(os.path.join(ROOT, "tools", "not_applicable.json")))
notes = json.load(open(os.path.join(ROOT, "tools", "level_notes.json")))
checks, na = [], []
for p in props:
    i = p["id"]
    if os.path.exists(os.path.join(ROOT, "checks", i + ".py")):
        checks.append(dict(property=i, quick_cmd="VERIF_TIER=quick python3 checks/%s.py" % i,
                           thorough_cmd="VERIF_TIER=thorough python3 checks/%s.py" % i,
                           evidence_file="evidence/%s.json" % i,
                           technique="TLA+ specification checked with TLC; traces of the real code validated against it with TLC",
                           level="model_checking", level_note=notes[i]))
    else:
        na.append(dict(property=i, reason=reasons.get(i, "no check built yet; nothing is claimed")))
json.dump(dict(version=1, setup_cmd="./setup.sh", checks=checks, not_applicable=na,
               notes="Designs and trace specifications are in spec/, drivers of the real code in harness/drivers, checks in checks/."),
          open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "not applicable")
