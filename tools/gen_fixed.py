#!/usr/bin/env python3
"""Record every fix: commit of /repo under "fixed" of known_findings.json.
FIXED maps a commit subject to the property whose violation it repairs."""
import json, os, subprocess
HERE = os.path.dirname(os.path.abspath(__file__))
BASE = "bb7fb46"
FIXED = json.load(open(os.path.join(HERE, "fixed_map.json")))
K = os.path.join(HERE, "..", "known_findings.json")
log = subprocess.check_output(["git", "-C", "/repo", "log", "--reverse", "--format=%h %s", BASE + ".."], text=True)
out, miss = [], []
for line in log.splitlines():
    h, s = line.split(" ", 1)
    if not s.startswith("fix: "):
        continue
    s = s[5:]
    if s not in FIXED:
        miss.append(s)
        continue
    out.append("fixed: property=%s %s %s" % (FIXED[s], h, s))
k = json.load(open(K))
k["fixed"] = out
json.dump(k, open(K, "w"), indent=1)
print(len(out), "fixed;", "NOT MAPPED: %s" % miss if miss else "all mapped")
