#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json for the properties that have a check module."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = json.load(open(os.path.join(V, "tools", "techniques.json")))
checks, na = [], []
for line in open(os.path.join(V, "properties.jsonl")):
    pid = json.loads(line)["id"]
    if os.path.exists(os.path.join(V, "rv", "props", pid.lower() + ".py")):
        t = TECH[pid]
        checks.append({"property": pid,
                       "quick_cmd": "python3 /verif/check.py %s --tier quick" % pid,
                       "thorough_cmd": "python3 /verif/check.py %s --tier thorough" % pid,
                       "technique": t[0], "level": t[2] if len(t) > 2 else "exploration", "level_note": t[1]})
    else:
        na.append({"property": pid, "reason": "no check built yet"})
json.dump({"version": 1, "setup_cmd": "python3 /verif/tools/setup.py", "checks": checks, "not_applicable": na,
           "notes": "Checks import verypy from /repo's working tree (editable install); nothing needs building."},
          open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks;", len(na), "without")
