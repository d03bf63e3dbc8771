#!/usr/bin/env python3
"""Writes MANIFEST.json from tools/checks.py and properties.jsonl (run by hand)."""
import json, os, sys
D = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, D)
from checks import CHECKS
props = [json.loads(l) for l in open(os.path.join(D, "..", "properties.jsonl"))]
m = {"version": 1, "setup_cmd": "python3 check.py --setup", "checks": [], "not_applicable": []}
for p in props:
    c = CHECKS.get(p["id"])
    if not c:
        m["not_applicable"].append({"property": p["id"], "reason": "check under construction"})
        continue
    m["checks"].append({
        "property": p["id"],
        "quick_cmd": f"python3 check.py {p['id']} quick",
        "thorough_cmd": f"python3 check.py {p['id']} thorough",
        "technique": c.get("technique", "runtime monitoring: online reference-model monitor over random client histories under a stepped clock"),
        "level": c.get("level", "exploration"),
        "level_note": c.get("note", "Held on the executions observed; trusts the probe jobs that record runs, the interposed wall clock and the reference model."),
    })
m["notes"] = "No hooks in /repo: the monitors observe through the public API, user job code, plugins, the Backend trait, a RESP server and an interposed wall clock."
json.dump(m, open(os.path.join(D, "..", "MANIFEST.json"), "w"), indent=1)
print(len(m["checks"]), "checks,", len(m["not_applicable"]), "not claimed")
