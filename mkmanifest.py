#!/usr/bin/env python3
"""Regenerates MANIFEST.json from the table of checks below."""
import json, os
ROOT = os.path.dirname(os.path.abspath(__file__))
CHECKS = json.load(open(os.path.join(ROOT, "checks.json")))
props = [json.loads(l)["id"] for l in open(os.path.join(ROOT, "properties.jsonl"))]
checks, na = [], []
for p in props:
    c = CHECKS["checks"].get(p)
    if not c:
        na.append({"property": p, "reason": "check under construction"})
        continue
    checks.append({
        "property": p,
        "quick_cmd": f"./run.sh {c['crate']} {p} --tier quick",
        "thorough_cmd": f"./run.sh {c['crate']} {p} --tier thorough",
        "evidence_file": f"evidence/{p}.json",
        "technique": c["technique"],
        "level": "model_checking",
        "level_note": c["note"],
    })
m = {"version": 1, "setup_cmd": "./setup.sh", "checks": checks, "not_applicable": na}
if CHECKS.get("hooks"):
    m["hooks"] = CHECKS["hooks"]
m["notes"] = CHECKS["notes"]
json.dump(m, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
