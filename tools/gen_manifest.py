#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from tools/levels.json."""
import json, os
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
L = json.load(open(os.path.join(R, "tools/levels.json")))
checks = []
for l in open(os.path.join(R, "properties.jsonl")):
    p = json.loads(l)["id"]
    d = L[p]
    c = {"property": p, "quick_cmd": f"python3 check.py {p} --tier quick", "thorough_cmd": f"python3 check.py {p} --tier thorough",
         "technique": d["technique"], "level": d["level"], "level_note": d["note"]}
    if d.get("theorems"): c["theorems"] = d["theorems"]
    checks.append(c)
m = {"version": 1, "setup_cmd": "sh setup.sh", "checks": checks, "not_applicable": [],
     "notes": "No hooks in /repo. Each check extracts the functions it proves from /repo/src on every run (proof/), and drives the real crate through its public interface (replay/, with stand-ins for unavailable dependencies in shim/)."}
json.dump(m, open(os.path.join(R, "MANIFEST.json"), "w"), indent=1)
