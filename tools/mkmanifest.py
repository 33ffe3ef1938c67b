#!/usr/bin/env python3
"""Regenerate /verif/MANIFEST.json from props.py and properties.jsonl."""
import json, os, sys
H = os.path.dirname(os.path.abspath(__file__)); V = os.path.join(H, "..")
sys.path.insert(0, V)
from props import PROPS
NOTE = {}
TECH = {}
exec(open(os.path.join(H, "notes.py")).read())
ids = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
checks, na = [], []
for i in ids:
    if i in PROPS:
        checks.append(dict(property=i, quick_cmd="python3 check.py %s" % i, thorough_cmd="python3 check.py %s --thorough" % i,
            evidence_file="evidence/%s.json" % i, technique=TECH[i], level="exploration", level_note=NOTE[i]))
    else:
        na.append(dict(property=i, reason=NA.get(i, "check not built yet")))
json.dump(dict(version=1, setup_cmd="python3 check.py --build-only C23", hooks=dict(guard="none", enable="No hooks in /repo: the checks compile /repo's own sources with compiler instrumentation and link them with harnesses."),
    checks=checks, not_applicable=na, notes="See DESIGN.md."), open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks;", [x["property"] for x in na])
