"""Heuristics are deterministic and have no memory."""
import gc
import json
import logging
import os
import random
import subprocess
import sys

import numpy as np

from .. import algs, budget, core, env, inst

CHUNKS = {"quick": 64, "thorough": 640}
MIN = {"quick": 1500, "thorough": 12000}
CHUNK_SECONDS = 300
RULE = ("families of related instances (same size, tie-rich layouts; variants that differ only in the capacity, the limit, the "
        "demands or the distances) are solved by all heuristics several times: in order, shuffled with other random states, "
        "failed and interrupted calls in between and the data of different problems passed in the same array object, at every log "
        "level, and in child processes with other hash seeds, with and without python -O. All plans for a job must be equal. "
        "Distinct by heuristic, options and instance; non-trivial: at least two repetitions returned")
ASSUMPTIONS = ["Gurobi and scikit-learn are deterministic for equal inputs and one thread"]


def family(rng):
    n = rng.randint(4, 11)
    kind = rng.choice(("grid", "dup", "ring", "line", None, None))
    out = []
    base = None
    for _ in range(40):
        I = inst.make(rng, n=n, cons=rng.choice(("C", "CL", "CL", "L"))) if kind is None else \
            inst.make(rng, n=n, cons=rng.choice(("C", "CL", "CL")), layout_kind=kind)
        if sum(I.d) > 0:
            base = I
            break
    out.append(base)
    # looser capacity, another limit, other demands, a permuted and a scaled matrix
    if base.C:
        v = copy(base)
        v.C = type(base.C)(base.C * 2) or base.C
        out.append(v)
    v = copy(base)
    v.L = float(base.L * 1.5) if base.L else float(np.max(base.Dc) * 4 + 1)
    out.append(v)
    v = copy(base)
    v.d = [0] + list(reversed(base.d[1:]))
    if not v.L:
        out.append(v)
    v = copy(base)
    v.pts = [base.pts[0]] + list(reversed(base.pts[1:]))
    p = [0] + list(range(base.N - 1, 0, -1))
    v.Dc = base.Dc[np.ix_(p, p)].copy()
    out.append(v)
    return out


def copy(I):
    v = inst.Inst(list(I.pts), I.D, list(I.d), I.C, I.L, I.st, I.wtt, I.tags)
    v.Dc = I.Dc.copy()
    return v


def result(o):
    if not o.ended:
        return None
    if o.exc is not None:
        return ("error", type(o.exc).__name__)
    return ("plan", None if o.value is None else tuple(int(x) for x in o.value))


def disturb(rng, jobs, rec):
    """Something else happens between two calls."""
    what = rng.choice(("seed", "fail", "interrupt", "interrupt", "gc", "log"))
    I, a, single, min_k = rng.choice(jobs)
    if what == "seed":
        random.seed(rng.random())
        np.random.seed(rng.randrange(2 ** 31))
    elif what == "gc":
        gc.collect()
    elif what == "log":
        logging.getLogger().setLevel(rng.choice((logging.WARNING, 10, 8, 1)))
    elif what == "fail":
        core.call(algs.get(a), list(I.pts), None, list(I.d), I.C, I.L, I.st, I.wtt, single, min_k)
    else:
        b = budget.interrupt(rng.randint(1, 400))
        try:
            with env.quiet(), b:
                algs.get(a)(list(I.pts), I.Dc.copy(), list(I.d), I.C, I.L, I.st, I.wtt, single, min_k)
        except BaseException as e:
            if isinstance(e, core.ChunkTimeout):
                raise
    rec.count("disturbances " + what)


def chunk(rng, idx, tier, rec):
    fam = family(rng)
    jobs = []
    for a in algs.ALL:
        opts = [(s, m) for s in (True, False) for m in (True, False)]
        for I in fam:
            single, min_k = rng.choice(opts)
            if algs.unsupported(a, I, min_k):
                min_k = False
            if a == "gap" and (I.L or (I.N > 10 and not single)):
                continue
            if a == "ptl" and I.N > 10:
                continue
            jobs.append((I, a, single, min_k))
    seen = [[] for _ in jobs]

    def run(k, D=None):
        I, a, single, min_k = jobs[k]
        r = result(algs.solve(a, I, single, min_k, D=D))
        if r is None:
            rec.maybe("budget")
        return r

    logging.getLogger().addHandler(logging.NullHandler())
    logging.getLogger().setLevel(logging.WARNING)
    for k in range(len(jobs)):
        seen[k].append(("in order", run(k)))
    # shuffled, disturbed, always the same array object
    order = list(range(len(jobs)))
    rng.shuffle(order)
    buf = {}
    for k in order:
        if rng.random() < .5:
            disturb(rng, jobs, rec)
        I = jobs[k][0]
        key = (I.N, I.Dc.dtype.str)
        D = buf.setdefault(key, np.zeros_like(I.Dc))
        D[:] = I.Dc
        seen[k].append(("shuffled", run(k, D)))
    logging.getLogger().setLevel(logging.WARNING)
    child(rng, jobs, seen, rec)
    for k, (I, a, single, min_k) in enumerate(jobs):
        got = [(w, r) for w, r in seen[k] if r is not None]
        if len(got) < 2:
            rec.maybe("no repetition")
            continue
        rec.case((a, single, min_k, repr(I.pts), I.C, I.L, I.Dc.tobytes()), True,
                 {"heuristic": a, "runs": [w for w, _ in got], "result": got[0][1]})
        rec.count("repetitions", len(got) - 1)
        diff = [(w, r) for w, r in got if r != got[0][1]]
        if diff:
            rec.bad("differs/%s" % a, "%s single=%d minK=%d: %s when run %s but %s when run %s on %s" %
                    (a, single, min_k, got[0][1], got[0][0], diff[0][1], diff[0][0], I.tags), I.describe())


def child(rng, jobs, seen, rec):
    spec = {"jobs": [{"a": a, "pts": [list(map(float, p)) for p in I.pts], "D": I.Dc.tolist(), "dtype": I.Dc.dtype.str,
                      "d": [x.item() if isinstance(x, np.generic) else x for x in I.d], "C": I.C, "L": I.L, "st": I.st,
                      "wtt": I.wtt, "single": s, "min_k": m} for I, a, s, m in jobs],
            "seed": rng.randrange(2 ** 31)}
    order = list(range(len(jobs)))
    rng.shuffle(order)
    spec["order"] = order
    opt = rng.random() < .5
    spec["log"] = 0 if opt else rng.choice((0, 10, 7))
    e = dict(os.environ, PYTHONHASHSEED=str(rng.randrange(2 ** 31)))
    cmd = [sys.executable] + (["-O"] if opt else []) + [os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "jobchild.py")]
    p = subprocess.Popen(cmd, stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True, env=e)
    try:
        out, _ = p.communicate(json.dumps(spec, default=float), timeout=200)
    except subprocess.TimeoutExpired:
        p.kill()
        out, _ = p.communicate()
        rec.maybe("child cut off")
    tag = "in another process%s%s" % (" with -O" if opt else "", " at log level %d" % spec["log"] if spec["log"] else "")
    n = 0
    for line in out.splitlines():
        try:
            r = json.loads(line)
        except ValueError:
            continue
        n += 1
        if not r["ended"]:
            continue
        seen[r["k"]].append((tag, ("error", r["exc"]) if "exc" in r else
                             ("plan", None if r["sol"] is None else tuple(r["sol"]))))
    rec.count("child processes")
    if n == 0:
        rec.maybe("child gave nothing")
