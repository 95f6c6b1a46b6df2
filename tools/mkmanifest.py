#!/usr/bin/env python3
"""Writes MANIFEST.json from the table below (run by hand; output is committed)."""
import json, os
here = os.path.dirname(os.path.abspath(__file__))
T = json.load(open(os.path.join(here, "manifest_notes.json")))
props = [json.loads(l) for l in open(os.path.join(here, "../properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in T["checks"]:
        c = T["checks"][i]
        checks.append({
            "property": i,
            "quick_cmd": "python3 run.py check %s --tier quick" % i,
            "thorough_cmd": "python3 run.py check %s --tier thorough" % i,
            "technique": c["technique"],
            "level": "model_checking",
            "level_note": c["note"],
        })
    else:
        na.append({"property": i, "reason": T["not_applicable"].get(i, "check under construction")})
m = {"version": 1, "setup_cmd": "python3 run.py setup", "checks": checks, "not_applicable": na, "notes": T["notes"]}
json.dump(m, open(os.path.join(here, "../MANIFEST.json"), "w"), indent=1)
