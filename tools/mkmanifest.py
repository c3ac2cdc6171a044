#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the list of claimed checks."""
import json, os, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(ROOT, "tools"))
from claims import CLAIMS, NOT_APPLICABLE, SETUP

props = [json.loads(l)["id"] for l in open(os.path.join(ROOT, "properties.jsonl"))]
checks, na = [], []
for p in props:
    if p in CLAIMS:
        c = CLAIMS[p]
        checks.append(dict(property=p, quick_cmd=f"python3 run.py check {p}",
                           thorough_cmd=f"python3 run.py check {p} --thorough",
                           technique=c["technique"], level="model_checking", level_note=c["note"]))
    else:
        na.append(dict(property=p, reason=NOT_APPLICABLE[p] if p in NOT_APPLICABLE else "check in preparation"))
m = dict(version=1, setup_cmd=SETUP, checks=checks, not_applicable=na,
         notes="Specifications: spec/*.tla (TLA+, checked with TLC). Harness crates: harness/*. No hooks in /repo are needed.")
with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
