#!/usr/bin/env python3
"""Regenerates properties.jsonl and MANIFEST.json from tools/props.py (single source)."""
import json
import os
import sys

here = os.path.dirname(os.path.abspath(__file__))
root = os.path.dirname(here)
sys.path.insert(0, here)
import props

with open(os.path.join(root, "properties.jsonl"), "w") as f:
    for p in props.PROPS:
        q = {k: v for k, v in p.items() if k in ("id", "title", "statement", "quantifier", "why_tests_cant", "anchors")}
        assert len(q["title"]) <= 80, q["id"]
        f.write(json.dumps(q, sort_keys=False) + "\n")

checks, na = [], []
for p in props.PROPS:
    if p.get("na"):
        na.append({"property": p["id"], "reason": p["na"]})
        continue
    if not os.path.exists(os.path.join(root, "rules", p["id"].lower() + ".py")):
        na.append({"property": p["id"], "reason": "no check built yet"})
        continue
    checks.append({
        "property": p["id"],
        "quick_cmd": "python3 check.py %s --tier quick" % p["id"],
        "thorough_cmd": "python3 check.py %s --tier thorough" % p["id"],
        "evidence_file": "evidence/%s.json" % p["id"],
        "technique": "static analysis: " + p["technique"],
        "level": "other",
        "level_note": p["level_note"],
    })
m = {"version": 1, "setup_cmd": "python3 -m compileall -q lib rules check.py", "checks": checks, "not_applicable": na,
     "notes": "All checks are static: they parse /repo's current sources on every run and execute none of it. No hooks are needed in /repo."}
with open(os.path.join(root, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
