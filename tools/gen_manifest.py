#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from eastlint/registry.py and properties.jsonl."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from eastlint import registry
NA = {}
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in registry.CHECKS:
        mod, fn, tech, note = registry.CHECKS[i]
        checks.append({"property": i, "quick_cmd": "python3 -m eastlint.check " + i, "thorough_cmd": "python3 -m eastlint.check " + i,
                       "evidence_file": "evidence/%s.json" % i, "technique": "static analysis: " + tech, "level": "other", "level_note": note})
    else:
        na.append({"property": i, "reason": NA.get(i, "Not built yet.")})
m = {"version": 1, "setup_cmd": "python3 -m eastlint.setup", "checks": checks, "not_applicable": na,
     "notes": "No hooks: the analysis reads /repo's source through rustc. Known findings and fixes: known_findings.txt. Method: DESIGN.md."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(V, "MANIFEST.json"), "a").write("\n")
print(len(checks), "checks", len(na), "n/a")
