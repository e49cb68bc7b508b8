#!/usr/bin/env python3
"""Regenerates MANIFEST.json from claims below."""
import json, os
here = os.path.dirname(os.path.abspath(__file__))
props = [json.loads(l) for l in open(os.path.join(here, "properties.jsonl"))]
exec(open(os.path.join(here, "claims.py")).read())
checks, na = [], []
for p in props:
    i = p["id"]
    if i in CLAIMS:
        t, note = CLAIMS[i]
        checks.append({"property": i, "quick_cmd": f"./run-check {i} quick", "thorough_cmd": f"./run-check {i} thorough",
                       "technique": t, "level": "other", "level_note": note})
    else:
        na.append({"property": i, "reason": NA[i]})
json.dump({"version": 1, "setup_cmd": "./run-check --build", "checks": checks, "not_applicable": na}, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1, ensure_ascii=False)
