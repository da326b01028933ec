"""Fill the tables of DESIGN.md: cost from the evidence, planted bugs from seeded/."""
import glob
import json
import os
import re

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
p = os.path.join(V, "DESIGN.md")
s = open(p).read()


def put(mark, text):
    global s
    a, b = "<!-- %s -->" % mark, "<!-- /%s -->" % mark
    if a not in s:
        s = s.replace(mark, a + "\n" + b)
    i, j = s.index(a) + len(a), s.index(b)
    s = s[:i] + "\n" + text + "\n" + s[j:]


rows = ["| property | executions judged | distinct non-trivial | seconds |", "|---|---|---|---|"]
for f in sorted(glob.glob(os.path.join(V, "evidence", "V??.json"))):
    e = json.load(open(f))
    if e["tier"] == "quick":
        rows.append("| %s | %d | %d | %.0f |" % (e["property"], e["coverage"]["evaluations"], e["coverage"]["distinct_nontrivial"], e["wall_s"]))
put("TABLE_COST", "\n".join(rows))
rows = ["| planted | property | needs | caught by |", "|---|---|---|---|"]
caught = json.load(open(os.path.join(V, "tools", "caught.json"))) if os.path.exists(os.path.join(V, "tools", "caught.json")) else {}
for d in sorted(glob.glob(os.path.join(V, "seeded", "*"))):
    m = json.load(open(os.path.join(d, "meta.json")))
    i = os.path.basename(d)
    rows.append("| %s | %s | %s | %s |" % (i, m["property"], m["needs"].replace("|", "/"), caught.get(i, "?")))
put("TABLE_SEEDED", "\n".join(rows))
n = len(json.load(open(os.path.join(V, "known_findings.json")))["fixed"])
if "FIXED_COUNT" in s:
    s = s.replace("FIXED_COUNT", "%d" % n)
else:
    s = re.sub(r"(## Genuine defects found\n\n)\d+", r"\g<1>%d" % n, s)
open(p, "w").write(s)
