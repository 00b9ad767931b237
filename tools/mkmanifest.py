#!/usr/bin/env python3
"""Writes MANIFEST.json from the plans which exist and the notes below."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "lib"))
import plans
from notes import NOTES
checks = []
for l in open(os.path.join(V, "properties.jsonl")):
    pid = json.loads(l)["id"]
    if pid not in plans.PLANS:
        continue
    t, n = NOTES.get(pid, ("TLA+ specification checked with TLC, bound by trace validation", "bounded"))
    checks.append({"property": pid, "quick_cmd": f"python3 /verif/check.py {pid} --tier quick",
                   "thorough_cmd": f"python3 /verif/check.py {pid} --tier thorough",
                   "technique": t, "level": "model_checking", "level_note": n})
m = {"version": 1, "setup_cmd": "true", "checks": checks, "not_applicable": []}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks")
