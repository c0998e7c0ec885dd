#!/usr/bin/env python3
"""Writes MANIFEST.json from mc/config.py and properties.jsonl."""
import json, os, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, H)
from mc.config import CHECKS
props = [json.loads(l) for l in open(os.path.join(H, "properties.jsonl"))]
NA = {}
checks = []
for p in props:
    c = CHECKS.get(p["id"])
    if not c:
        continue
    checks.append({
        "property": p["id"],
        "quick_cmd": f"python3 check.py {p['id']}",
        "thorough_cmd": f"VERIF_TIER=thorough python3 check.py {p['id']}",
        "technique": c.get("technique", "bounded exhaustive exploration of the real code against a reference model"),
        "level": "model_checking",
        "level_note": f"Every case inside the bounds is executed on the real code and compared with the oracle. "
                      f"Bounds: {c['bounds']}. Oracle: {c['oracle']}. " + c.get("note", "Trusts the compiler, long double arithmetic and the oracle; says nothing outside the bounds."),
    })
na = [{"property": p["id"], "reason": NA.get(p["id"], "check not built yet")} for p in props if p["id"] not in CHECKS]
m = {"version": 1, "setup_cmd": "python3 --version", "checks": checks, "not_applicable": na,
     "notes": "All checks compile the real headers of /repo. No hooks are needed in /repo."}
json.dump(m, open(os.path.join(H, "MANIFEST.json"), "w"), indent=1)
