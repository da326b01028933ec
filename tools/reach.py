#!/opt/venv/bin/python
"""reach.py [PROPERTY ...]: which lines of verypy the monitored executions reach.

Runs a few chunks of each property with a line observer in every worker and
prints, per file, the lines of function bodies that were never executed."""
import ast
import warnings
import glob
import json
import os
import subprocess
import sys
import tempfile

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VP_REPO", "/repo")
SITE = '''
import sys, os, atexit
d = os.environ.get("RV_REACH")
if d:
    M = sys.monitoring
    P = os.path.realpath(os.environ["RV_REACH_REPO"] + "/verypy") + os.sep
    fds = {}
    def cb(code, line):
        f = code.co_filename
        if P in os.path.realpath(f):
            p = os.getpid()
            if p not in fds:
                fds.clear()
                fds[p] = open(os.path.join(d, "%d.txt" % p), "a", buffering=1)
            fds[p].write("%s:%d\\n" % (os.path.realpath(f)[len(P):], line))
        return M.DISABLE
    M.use_tool_id(2, "reach")
    M.register_callback(2, M.events.LINE, cb)
    M.set_events(2, M.events.LINE)
'''


def bodies(path):
    """Lines that hold a statement inside a function."""
    warnings.simplefilter("ignore")
    t = ast.parse(open(path, encoding="utf8").read())
    out = set()
    for f in ast.walk(t):
        if isinstance(f, (ast.FunctionDef, ast.Lambda)) and not isinstance(f, ast.Lambda):
            for n in ast.walk(f):
                if isinstance(n, ast.stmt) and n is not f and not (isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant)):
                    out.add(n.lineno)
    return out


def main():
    props = [a for a in sys.argv[1:] if a.startswith("V")] or [r["property"] for r in json.load(open(HERE + "/MANIFEST.json"))["checks"]]
    k = int(os.environ.get("REACH_CHUNKS", "8"))
    seen = {}
    with tempfile.TemporaryDirectory() as tmp:
        os.mkdir(tmp + "/site")
        os.mkdir(tmp + "/out")
        open(tmp + "/site/sitecustomize.py", "w").write(SITE)
        env = dict(os.environ, PYTHONPATH=tmp + "/site", RV_REACH=tmp + "/out", RV_REACH_REPO=REPO, VERIF_SEED="5")
        for p in props:
            a = ["/opt/venv/bin/python", HERE + "/check.py", p]
            for c in range(k):
                a += ["--chunk", str(c)]
            r = subprocess.run(a, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            print(p, "exit", r.returncode, file=sys.stderr)
            for f in glob.glob(tmp + "/out/*.txt"):
                for line in open(f):
                    a, b = line.rsplit(":", 1)
                    seen.setdefault(a, {}).setdefault(int(b), set()).add(p)
                os.remove(f)
    for path in sorted(glob.glob(REPO + "/verypy/**/*.py", recursive=True)):
        rel = os.path.relpath(path, REPO + "/verypy")
        b = bodies(path)
        got = set(seen.get(rel, {}))
        miss = sorted(b - got)
        print("%-55s %4d of %4d lines" % (rel, len(b & got), len(b)))
        runs, src = [], open(path, encoding="utf8").read().split("\n")
        for x in miss:
            print("      %4d %s" % (x, src[x - 1].strip()[:110]))


main()
