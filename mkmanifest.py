#!/usr/bin/env python3
"""Writes MANIFEST.json from props.py and properties.jsonl."""
import json
import os

from props import PROPS

V = os.path.dirname(os.path.abspath(__file__))
ids = [json.loads(x)["id"] for x in open(os.path.join(V, "properties.jsonl"))]
NOT = {}
checks, na = [], []
for i in ids:
    if i not in PROPS:
        na.append({"property": i, "reason": NOT.get(i, "check not built yet")})
        continue
    p = PROPS[i]
    checks.append({
        "property": i,
        "quick_cmd": "python3 run.py %s quick" % i,
        "thorough_cmd": "python3 run.py %s thorough" % i,
        "technique": p.get("technique", "stateless bounded-exhaustive model checking of the real code (controlled choice DFS) against a reference model"),
        "level": p.get("level", "model_checking"),
        "level_note": p["note"],
    })
m = {"version": 1, "setup_cmd": "python3 -m py_compile run.py props.py", "checks": checks, "not_applicable": na}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "not claimed")
