#!/usr/bin/env python3
"""Try a planted bug: plant.py SPEC.py [--keep]. SPEC defines ID, PROP, NEEDS,
BREAKS, EDITS = [(file, old, new[, count])], DEMO (python source, exit 0 = fine).
Works on a copy of /repo for demo and tests; the check runs with the patch applied
in /repo, which is restored afterwards. The bug is stored in seeded/ when it
qualifies (caught or not)."""
import json, os, runpy, shutil, subprocess, sys, tempfile
PY = "/opt/venv/bin/python"
# VP_REPO=/tmp/clone: plant in a clone (same HEAD) and leave /repo alone
R = os.environ.get("VP_REPO", "/repo")
ENV = dict(os.environ, PYTHONPATH=R, PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", MPLBACKEND="Agg",
           OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1")


def tests():
    b = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
    if R == "/repo":
        sh("bash /opt/vp/build.sh; bash /opt/vp/test.sh /tmp/plant.json", shell=True)
    else:
        d = tempfile.mkdtemp()
        run = (PY + " -m pytest -q --tb=no --rootdir=" + R + " -p no:cacheprovider -p randomly --randomly-seed=1"
               " --randomly-dont-reorganize --timeout=300 --continue-on-collection-errors -o junit_family=xunit2 ")
        sh("cd %s/tests && %s --ignore=replication_tests --junitxml=%s/a.xml ." % (R, run, d), shell=True, env=ENV)
        sh("cd %s/tests/replication_tests && %s --junitxml=%s/b.xml ." % (R, run, d), shell=True, env=ENV)
        sh(["python3", "/opt/vp/results.py", "/tmp/plant.json", "junit:%s/*.xml" % d])
        shutil.rmtree(d)
    return b - set(json.load(open("/tmp/plant.json"))["passed"])


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def edit(s):
    for e in s["EDITS"]:
        f, old, new = e[:3]
        p = os.path.join(R, f)
        t = open(p, encoding="utf8", newline="").read()
        if "\r\n" in t:
            old, new = old.replace("\n", "\r\n"), new.replace("\n", "\r\n")
        assert t.count(old) == (e[3] if len(e) > 3 else 1), (f, old, t.count(old))
        open(p, "w", encoding="utf8", newline="").write(t.replace(old, new))


def main(spec, checks):
    s = runpy.run_path(spec)
    assert not sh(["git", "-C", R, "status", "--porcelain", "-uno"]).stdout.strip()
    d = tempfile.mkdtemp()
    open(d + "/demo.py", "w").write(s["DEMO"])
    open(d + "/demo.sh", "w").write('#!/bin/bash\nexec %s "$(dirname "$0")/demo.py"\n' % PY)
    json.dump({"property": s["PROP"], "needs": s["NEEDS"], "what_it_breaks": s["BREAKS"]}, open(d + "/meta.json", "w"), indent=1)
    r = sh(["timeout", "250", "bash", d + "/demo.sh"], cwd=R, env=ENV)
    if r.returncode != 0:
        print("DEMO FAILS ON UNCHANGED TREE", r.stdout[-1500:]); return 1
    try:
        edit(s)
        diff = subprocess.check_output(["git", "-C", R, "diff"])
        open(d + "/patch.diff", "wb").write(diff)
        r = sh(["timeout", "250", "bash", d + "/demo.sh"], cwd=R, env=ENV)
        if r.returncode == 0:
            print("DEMO PASSES WITH THE BUG", r.stdout[-500:]); return 1
        print("demo:", r.stdout.strip().splitlines()[-1:])
        miss = tests()
        if miss:
            print("TESTS CATCH IT:", sorted(miss)[:4]); return 1
        for c in checks or [s["PROP"]]:
            r = sh([PY if 0 else "python3", "/verif/check.py", c])
            print("CHECK %s rc %d: %s" % (c, r.returncode, r.stdout[-500:] if r.returncode != 1 else "\n".join(r.stdout.splitlines()[:4])[:700]))
    finally:
        sh(["git", "-C", R, "checkout", "--", "."])
    dst = "/verif/seeded/" + s["ID"]
    if os.path.exists(dst):
        shutil.rmtree(dst)
    shutil.copytree(d, dst)
    shutil.rmtree(d)
    print("STORED", dst)


if __name__ == "__main__":
    a = sys.argv[1:]
    sys.exit(main(a[0], a[1:]))
