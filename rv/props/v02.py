"""An interrupted heuristic hands back nothing or a complete, feasible plan."""
import json
import os
import random
import subprocess
import sys

import numpy as np

from .. import algs, budget, env, inst, opts, oracle

CHUNKS = {"quick": 96, "thorough": 800}
MIN = {"quick": 1500, "thorough": 15000}
CHUNK_SECONDS = 300
RULE = ("every heuristic on generated instances of 3..8 customers (all option pairs) is first run counting the points at which "
        "CPython delivers a pending signal inside the library, then run again with KeyboardInterrupt raised at the k-th point: "
        "all k when there are few, else a sample spread over the run, with sampled rows of documented options besides the default ones; 1 chunk of 8 sends real SIGINTs to a child process solving "
        "instances of 8..40 customers. Distinct by heuristic, options, instance and point; non-trivial: the interruption fired")
ASSUMPTIONS = ["signals are delivered at function starts, backward jumps and after calls of built-ins (CPython 3.12); while Gurobi "
               "optimizes it handles the signal itself (only the real signals reach that)",
               "an interruption that arrives when the heuristic is already returning may leave its result in place (real signals)"]

ROWS = opts.rows()
PER = {"quick": 24, "thorough": 60}


def chunk(rng, idx, tier, rec):
    if idx % 8 == 7:
        return signals(rng, tier, rec)
    names = list(algs.ALL)
    rng.shuffle(names)
    I = inst.make(rng, nmin=3, nmax=8, cons=rng.choice(("C", "CL", "CL", "L")))
    if sum(I.d) <= 0:
        I.d[1] = 1
    for a in names:
        for single in (True, False):
            for min_k in (False, True):
                sweep(a, I, single, min_k, tier, rng, rec)
    options(I, tier, rng, rec)


def options(I, tier, rng, rec):
    """The same for the documented options of the heuristics."""
    for name, a, f, fl in rng.sample(ROWS, 20 if tier == "quick" else 40):
        min_k = rng.random() < .5 and not fl.get("no_min_k")
        if a == "gap" and I.L and I.N > 6:
            continue
        seed = rng.random()

        def g(*x):
            return f(I, min_k, random.Random(seed))
        b, s, e, _ = run(g, I, True, min_k, None)
        if e is not None:
            rec.count("uninterrupted run failed (judged by V24)")
            continue
        n = b.n
        for k in sorted({rng.randint(1, n) for _ in range(16)}):
            b, s, e, same = run(g, I, True, min_k, k)
            if not b.fired:
                rec.maybe("interruption point not reached again")
                continue
            rec.count("interrupted runs with options")
            judge("opt " + " ".join(name.split()[:2]) if a != "gap" else "gap", I, s, e, same,
                  "%s minK=%d interrupted at point %d of %d (%s)" % (name, min_k, k, n, b.where),
                  (name, min_k, repr(I.pts), k), rec, True)


def run(f, I, single, min_k, at):
    b = budget.interrupt(at)
    data = (list(I.pts), I.Dc.copy(), list(I.d))
    s = e = None
    try:
        with env.quiet(), b:
            s = f(data[0], data[1], data[2], I.C, I.L, I.st, I.wtt, single, min_k)
    except (Exception, KeyboardInterrupt, budget.OutOfSteps) as ex:
        e = ex
    same = data[0] == list(I.pts) and data[2] == list(I.d) and np.array_equal(data[1], I.Dc)
    return b, s, e, same


def sweep(a, I, single, min_k, tier, rng, rec):
    if algs.unsupported(a, I, min_k) or (a == "gap" and I.L and I.N > 6) or (a == "gap" and I.L and not single):
        return
    f = algs.get(a)
    b, s, e, _ = run(f, I, single, min_k, None)
    if e is not None:
        rec.count("uninterrupted run failed (judged by V01)")
        return
    n, per = b.n, PER[tier]
    rec.high("points " + a, n)
    if n <= per * 2:
        ks = list(range(1, n + 1))
    else:
        # a third near the ends, the rest anywhere
        ks = {rng.randint(1, min(n, 60)) for _ in range(per // 6)} | {rng.randint(max(1, n - 60), n) for _ in range(per // 6)}
        ks |= {1 + int(n * (i + rng.random()) / (per - len(ks))) for i in range(per - len(ks))}
        ks = sorted(k for k in ks if k <= n)
    for k in ks:
        b, s, e, same = run(f, I, single, min_k, k)
        if not b.fired:
            rec.maybe("interruption point not reached again")
            continue
        judge(a, I, s, e, same, "%s single=%d minK=%d interrupted at point %d of %d (%s)" % (a, single, min_k, k, n, b.where),
              (a, single, min_k, repr(I.pts), k), rec, True)


def judge(a, I, s, e, same, tag, sig, rec, fired):
    rec.case(sig, True, {"heuristic": tag, "instance": I.tags})
    if not same:
        rec.bad("inputs/" + a, "%s: the problem data of the caller was changed" % tag, I.describe())
    if e is None:
        if fired:
            rec.bad("swallowed/" + a, "%s: returned %s as if nothing had happened" % (tag, s), I.describe())
            return
        plan = s
        rec.count("finished before the signal")
        if s is None and a == "gap" and I.L:
            return
    else:
        if type(e) is not KeyboardInterrupt:
            rec.bad("error/%s/%s" % (a, type(e).__name__), "%s: raised %s: %s" % (tag, type(e).__name__, e), I.describe())
            return
        plan = e.args[0] if e.args else None
        if plan is None or plan is False or plan == "":
            rec.count("without a plan")
            return
        rec.count("with a plan")
        if type(plan) not in (list, tuple):
            rec.bad("payload/" + a, "%s: handed over %r" % (tag, plan), I.describe())
            return
    for kind, text in oracle.plan_faults(plan, I.N, I.d, I.C, I.Dc, I.L):
        rec.bad("%s/%s" % (kind, a), "%s: %s in %s" % (tag, text, plan), I.describe())


def signals(rng, tier, rec):
    """Real SIGINTs, in a child process that only solves and reports."""
    jobs, insts = [], []
    for r in range(12 if tier == "quick" else 40):
        I = inst.make(rng, nmin=8, nmax=rng.choice((12, 20, 40)), cons=rng.choice(("C", "CL", "C")))
        if sum(I.d) <= 0:
            I.d[1] = 1
        a = rng.choice(algs.ALL)
        min_k = rng.random() < .3
        if algs.unsupported(a, I, min_k) or a == "gap" and (I.L or I.N > 16):
            continue
        if a in ("ptl", "mbsa", "lr3o") and I.N > 16:
            continue
        single = rng.random() < .5
        jobs.append({"a": a, "pts": [list(map(float, p)) for p in I.pts], "D": I.Dc.tolist(),
                     "int": bool(np.issubdtype(I.Dc.dtype, np.integer)), "d": [float(x) for x in I.d], "C": I.C, "L": I.L,
                     "st": I.st, "wtt": I.wtt, "single": single, "min_k": min_k,
                     "delay": 10 ** rng.uniform(-3.5, -.3)})
        insts.append(I)
    p = subprocess.Popen([sys.executable, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "sigchild.py")],
                         stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True)
    try:
        out, _ = p.communicate(json.dumps(jobs), timeout=200)
    except subprocess.TimeoutExpired:
        p.kill()
        out, _ = p.communicate()
        rec.maybe("child with real signals cut off")
    for line in out.splitlines():
        r = json.loads(line)
        j, I = jobs[r["i"]], insts[r["i"]]
        if r["what"] == "late":
            rec.count("signal after the end")
            continue
        e = None
        if r["what"] == "exc":
            e = KeyboardInterrupt(*r["args"]) if r["type"] == "KeyboardInterrupt" else RuntimeError(r["type"] + ": " + str(r["args"]))
        rec.count("real signals")
        judge(j["a"], I, r.get("sol"), e, r["same"], "%s single=%d minK=%d SIGINT after %.4f s" % (j["a"], j["single"], j["min_k"], j["delay"]),
              (j["a"], repr(I.pts), j["delay"]), rec, False)
