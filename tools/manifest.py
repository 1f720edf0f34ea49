#!/usr/bin/env python3
"""writes MANIFEST.json from the registered checks; run after adding one"""
import json, os, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(H, "ljsa"))
import rt, checks
NA = json.load(open(os.path.join(H, "tools", "not_applicable.json")))
ids = [json.loads(l)["id"] for l in open(os.path.join(H, "properties.jsonl"))]
m = {"version": 1, "setup_cmd": "python3 /verif/check.py setup", "checks": [], "not_applicable": []}
for i in ids:
    if i in rt.CHECKS:
        c = rt.CHECKS[i]
        d = {"property": i, "quick_cmd": "python3 /verif/check.py " + i, "thorough_cmd": "python3 /verif/check.py " + i,
             "technique": c["technique"], "level": c["level"], "level_note": c["note"]}
        m["checks"].append(d)
    else:
        m["not_applicable"].append({"property": i, "reason": NA.get(i, "no check built yet; planned, see DESIGN.md")})
json.dump(m, open(os.path.join(H, "MANIFEST.json"), "w"), indent=1)
print(len(m["checks"]), "checks", len(m["not_applicable"]), "not applicable")
