"""The command line reports what was really found."""
import logging
import math
import os
import pickle
import re
import shutil
import sys
import tempfile

import numpy as np

from .. import algs, core, env, fake, inst, oracle

fake.install()
CHUNKS = {"quick": 64, "thorough": 640}
MIN = {"quick": 10000, "thorough": 100000}
CHUNK_SECONDS = 300
RULE = ("runs of the verypy command on own-written .vrp, .tsp and pickle problems of 2..8 customers (planar, rounded, explicit matrices; "
        "capacity, cost limit, service time), single, in (nested) directories and in list files, over the option combinations of output, "
        "objective, rounding, single iteration, forbidding and post-optimization; heuristics are wrapped to record each call and in part made "
        "to fail, to be interrupted with or without a plan, or to return a broken plan. Every record of every output mode is parsed and "
        "compared with a recomputation. Distinct by problem files and options; non-trivial: at least one record was judged")
ASSUMPTIONS = ["the text layout of the records (labels and columns) is part of what users rely on",
               "the single-heuristic command lines are run for problem files only"]
FAST = ("ps", "gpl", "ss", "gps", "ims", "ps2o", "si", "mj", "pi", "cmt", "sn", "pn", "ty", "swp", "wh", "gm", "rfcs", "ptl", "lr3o", "mbsa")
ALIAS = {"ps": ("ps", "PS", "cw", "clarkewright", "CW64-PS"), "swp": ("swp", "sweep"), "wh": ("wh", "whs"), "mj": ("mj", "molejameson"),
         "ss": ("ss", "We64-SS"), "cmt": ("cmt", "tp", "twophase"), "sn": ("sn", "nn"), "rfcs": ("rfcs", "beasley")}


class Problem(object):
    """What a correct reader gets out of the file (the model behind the file)."""
    pass


def num(x):
    return "%d" % x if float(x).is_integer() and not isinstance(x, float) else repr(float(x))


def write(rng, folder, name):
    p = Problem()
    I = inst.make(rng, nmin=2, nmax=rng.choice((4, 6, 8)), layout_kind=rng.choice(("uniform", "cluster", "corner", "grid", "far")),
                  demand_kind=rng.choice(("mixed", "tight", "unit", "loose")), cons=rng.choice(("C", "C", "CL", "CL", "L", "none")))
    p.pts = [tuple(round(c, 2) for c in q) for q in I.pts]
    ewt = rng.choice(("EUC_2D", "EUC_2D", "EXACT_2D", "EXPLICIT", "CEIL_2D"))
    exact = inst.matrix(p.pts, False)
    integer = ewt in ("EUC_2D", "CEIL_2D") or ewt == "EXPLICIT" and rng.random() < .5
    if ewt == "CEIL_2D":
        p.D = np.ceil(exact).astype(int)
    elif integer:
        p.D = np.floor(exact + .5).astype(int)
    else:
        p.D = exact
    p.coords = ewt != "EXPLICIT" or rng.random() < .7
    p.d, p.C, p.L, p.st = list(I.d), I.C, I.L, None
    kind = "vrp"
    if I.C is None and I.L is None and rng.random() < .5:
        kind, p.d = "tsp", None
    if I.C is None and p.d is not None and rng.random() < .5:
        p.C = sum(p.d) + rng.randint(0, 5)
    if I.L is not None:
        p.st = rng.choice((None, None, 2, 10, 5, 2.5))
        Dc = inst.service_matrix(p.D, p.st) if p.st else p.D
        p.L = max(float(Dc[0, i] + Dc[i, 0]) for i in range(1, len(Dc))) * rng.choice((1.05, 1.3, 2, 4)) + 3
        p.L = int(p.L) if rng.random() < .5 else round(p.L, 3)
    p.n = len(p.D) - 1
    p.kind = "pickle" if rng.random() < .15 else kind
    p.path = os.path.join(folder, name + "." + p.kind)
    p.name = name
    p.ewt = ewt
    if p.kind == "pickle":
        with open(p.path, "wb") as f:
            pickle.dump((p.n, p.pts if p.coords else None, None, p.d, p.D, p.C, "EXACT_2D" if ewt == "EXPLICIT" else ewt, None, p.L, p.st), f)
        return p
    out = ["NAME: " + name, "TYPE: " + ("CVRP" if kind == "vrp" else "TSP"), "COMMENT: written for the check", "DIMENSION: %d" % (p.n + 1)]
    if p.C is not None:
        out.append("CAPACITY: " + num(p.C))
    if p.L is not None:
        out.append("DISTANCE: " + num(p.L))
    if p.st is not None:
        out.append("SERVICE_TIME: " + num(p.st))
    out.append("EDGE_WEIGHT_TYPE: " + ewt)
    if ewt == "EXPLICIT":
        out.append("EDGE_WEIGHT_FORMAT: FULL_MATRIX")
        out.append("DISPLAY_DATA_TYPE: " + ("TWOD_DISPLAY" if p.coords else "NO_DISPLAY"))
        out.append("EDGE_WEIGHT_SECTION")
        out += [" ".join(num(x) if integer else repr(float(x)) for x in row) for row in p.D]
        if p.coords:
            out.append("DISPLAY_DATA_SECTION")
    else:
        out.append("NODE_COORD_SECTION")
    if p.coords:
        out += ["%d %r %r" % (i + 1, q[0], q[1]) for i, q in enumerate(p.pts)]
    if p.d is not None:
        out.append("DEMAND_SECTION")
        out += ["%d %s" % (i + 1, num(q)) for i, q in enumerate(p.d)]
        out += ["DEPOT_SECTION", " 1", " -1"]
    out.append("EOF")
    with open(p.path, "w") as f:
        f.write("\n".join(out) + "\n")
    return p


# ---- one run ---------------------------------------------------------------
class Recorder(object):
    """Wraps the heuristics the command line selects."""

    def __init__(self, rng, faults):
        self.rng, self.calls, self.rows, self.faults, self.ls, self.errors = rng, [], [], faults, [], []

    def get(self, real):
        def get_algorithms(names="all"):
            rows = real(names)
            return [(a, nm, desc, self.wrap(a, nm, f)) for a, nm, desc, f in rows]
        return get_algorithms

    def wrap(self, a, nm, f):
        if (a, nm) not in self.rows:
            self.rows.append((a, nm))

        def call(points, D, d, C, L, st, wtt, single, minimize_K):
            c = {"a": a, "name": nm, "points": points, "D": np.array(D), "d": None if d is None else list(d), "C": C, "L": L, "st": st,
                 "single": single, "K": minimize_K, "how": "ok", "sol": None}
            self.calls.append(c)
            fault = self.rng.choice(self.faults)
            try:
                sol = f(points, D, d, C, L, st, wtt, single, minimize_K)
            except Exception as e:
                c["how"] = "failed"
                c["error"] = e
                self.errors.append("%s in %s" % (type(e).__name__, a))
                raise
            if fault == "fail":
                c["how"] = "failed"
                raise ValueError("made to fail")
            if fault == "none":
                c["how"] = "none"
                return None
            if fault == "interrupt":
                c["how"] = "interrupted"
                raise KeyboardInterrupt()
            if fault == "interrupt with plan":
                c["how"], c["sol"] = "interrupted", list(sol)
                raise KeyboardInterrupt(list(sol))
            if fault == "broken":
                sol = list(sol)
                cust = [x for x in sol if x]
                what = self.rng.choice(("drop", "twice", "merge"))
                if what == "drop" and len(cust) > 1:
                    sol.remove(self.rng.choice(cust))
                elif what == "twice":
                    sol = [0, self.rng.choice(cust)] + sol
                else:
                    sol = [0] + cust + [0]
            c["sol"] = list(sol)
            return sol
        call.__doc__ = f.__doc__
        return call


def intish(s):
    return [int(x) for x in re.findall(r"-?\d+", re.sub(r"np\.\w+\(", "", s))]


def canon(sol):
    return sorted(min(tuple(r), tuple(reversed(r))) for r in oracle.routes_of(sol))


def near(a, b, places=None):
    t = 1e-6 * (1 + abs(b)) if places is None else .51 * 10 ** -places + 1e-9 * (1 + abs(b))
    return abs(a - b) <= t or a == b


def chunk(rng, idx, tier, rec):
    tmp = tempfile.mkdtemp(prefix="rv-v19-")
    cwd = os.getcwd()
    try:
        os.chdir(tmp)
        for k in range(60):
            folder = os.path.join(tmp, "r%d" % k)
            os.mkdir(folder)
            run(rng, folder, rec)
            single_cli(rng, folder, rec)
            if k % 4 == 0:
                tsp_cli(rng, folder, rec)
                random_cli(rng, rec)
                listing(rng, rec, folder)
            shutil.rmtree(folder)
    finally:
        os.chdir(cwd)
        shutil.rmtree(tmp)


def selection(rng, folder):
    """Problem files and the argument that selects them."""
    how = rng.choice(("file", "file", "folder", "folder", "nested", "list", "list"))
    if how == "file":
        p = write(rng, folder, "prob")
        return how, [p], p.path, []
    if how == "folder":
        ps = [write(rng, folder, "p%d" % i) for i in range(rng.randint(1, 4))]
        if rng.random() < .3:
            ps.append(write(rng, folder, "p0x"))
        with open(os.path.join(folder, "notes.md"), "w") as f:
            f.write("not a problem\n")
        return how, ps, folder, []
    if how == "nested":
        ps = []
        for sub in ("", "a", "b", os.path.join("a", "c")):
            os.makedirs(os.path.join(folder, sub), exist_ok=True)
            for i in range(rng.choice((0, 1, 1, 2))):
                ps.append(write(rng, os.path.join(folder, sub), rng.choice(("same%d", "q%d" + sub.replace(os.sep, ""))) % i))
        if not ps:
            ps.append(write(rng, folder, "only"))
        seen = set()
        ps2 = []
        for p in ps:        # the last one written under a path is what is there
            ps2 = [q for q in ps2 if q.path != p.path] + [p]
        return how, ps2, folder, ["--recursive"]
    os.mkdir(os.path.join(folder, "x"))
    ps = []
    for i in range(rng.randint(1, 3)):
        ps.append(write(rng, rng.choice((folder, os.path.join(folder, "x"))), rng.choice(("same", "l%d" % i))))
    ps2 = []
    for p in ps:
        ps2 = [q for q in ps2 if q.path != p.path] + [p]
    lst = os.path.join(folder, "list.txt")
    with open(lst, "w") as f:
        for p in ps2:
            f.write(("  " if rng.random() < .2 else "") + (p.path if rng.random() < .7 else os.path.relpath(p.path)) + "\n")
        if rng.random() < .5:
            f.write("\n")
    return how, ps2, lst, []


def run(rng, folder, rec):
    import verypy
    from verypy import VeRyPy
    how, problems, target, opts = selection(rng, folder)
    chosen = rng.sample(FAST, rng.choice((1, 1, 2, 2, 3)))
    if any(p.L for p in problems) is False and rng.random() < .05:
        chosen.append("gap")
    wants = list(chosen)
    args = list(opts)
    for a in chosen:
        args += ["-a", rng.choice(ALIAS.get(a, (a,)))]
    if rng.random() < .1:
        args += ["-a", chosen[0]]       # selected twice, still solved once
    if rng.random() < .15:
        f = rng.choice(FAST)
        args += ["--forbid", rng.choice(ALIAS.get(f, (f,)))]
        wants = [a for a in wants if a != f]
    minimal = rng.random() < .3
    single = rng.random() < .3
    min_k = rng.random() < .3
    cost = rng.random() < .3
    rounding = rng.choice((None, None, "ROUND", "TRUNCATE", "EXACT"))
    post = rng.choice(([], [], ["2opt"], ["3opt"], ["2opt", "3opt"]))
    if minimal:
        args.append("-m")
    if single:
        args.append("-1")
    if min_k:
        args += ["-b", rng.choice(("K", "vehicles"))]
    elif rng.random() < .3:
        args += ["-b", rng.choice(("c", "cost"))]
    if cost:
        args.append("-c")
    if rounding:
        args += ["-D", rounding]
    for q in post:
        args += ["--post-optimize", q]
    routes = rng.random() < .4
    vrph = rng.random() < .3
    if routes:
        args.append("--routes")
    if vrph:
        args.append("--vrph")
    if rng.random() < .3:
        args.append("-t")
    if rng.random() < .2:
        args.append("--iinfo")
    simulate = rng.random() < .04
    if simulate:
        args.append("--simulate")
    verb = rng.choice((None,) * 6 + (0, 1, 3)) if not minimal else None
    if verb is not None:
        args += ["-v", str(verb)]
    args.append(target)
    faults = rng.choice((["ok"], ["ok"], ["ok", "ok", "fail"], ["ok", "ok", "ok", "interrupt", "interrupt with plan"],
                         ["ok", "broken"], ["ok", "none", "fail"]))
    R = Recorder(rng, faults)
    lsfault = rng.choice((None,) * 8 + ("fail", "interrupt")) if post else None
    keep = (verypy.get_algorithms, VeRyPy.get_algorithms, getattr(VeRyPy, "do_local_search", None))
    real_ls = keep[2]

    def ls(*a, **kw):
        R.ls.append(lsfault)
        if lsfault == "fail":
            raise ValueError("made to fail")
        if lsfault == "interrupt":
            raise KeyboardInterrupt()
        return real_ls(*a, **kw)

    verypy.get_algorithms = R.get(keep[0])
    VeRyPy.get_algorithms = R.get(keep[1])
    if lsfault and real_ls:
        VeRyPy.do_local_search = ls
    root = logging.getLogger()
    before = (list(root.handlers), root.level)
    try:
        o = core.call(VeRyPy.main, args, _limit=150000000)
    finally:
        verypy.get_algorithms, VeRyPy.get_algorithms = keep[0], keep[1]
        if real_ls:
            VeRyPy.do_local_search = real_ls
        root.handlers[:], root.level = before[0], before[1]
        logging.getLogger().setLevel(before[1])
    shown = [a if not a.startswith(folder) else os.path.relpath(a, folder) for a in args]
    tag = "verypy %s (faults %s%s)" % (" ".join(shown), "/".join(sorted(set(faults))), ", post-optimization %s" % lsfault if lsfault else "")
    data = {"args": shown, "problems": [(p.path, p.kind, p.ewt, p.C, p.L, p.st, p.d, p.pts) for p in problems],
            "stdout": o.out[-6000:], "stderr": o.err[-2000:]}
    if not o.ended:
        rec.maybe("command line run cut off")
        return
    rec.count("runs " + ("minimal" if minimal else "full"))
    rec.count("runs on " + how)
    for e in R.errors:
        rec.count("heuristic failed: " + e)
    if o.exc is not None:
        if type(o.exc) is KeyboardInterrupt:
            rec.bad("crash/interrupt", "%s: ended by the interruption without a report" % tag, data)
        else:
            rec.bad("crash/%s" % core.where(o.exc), "%s: %s" % (tag, o.why()), data)
        return
    judge(rng, rec, R, tag, data, o, problems, wants, dict(minimal=minimal, single=single, min_k=min_k, cost=cost, rounding=rounding, post=post,
          routes=routes, vrph=vrph, simulate=simulate, lsfault=lsfault, verb=verb), args)


def expected_matrix(p, rounding):
    D = p.D
    if rounding == "ROUND":
        D = np.floor(D + .5)
    if rounding == "TRUNCATE":
        D = np.floor(D)
    return D, (inst.service_matrix(D, p.st) if p.st else D)


def matches(c, p, opt):
    D, Dc = expected_matrix(p, opt["rounding"])
    if c["D"].shape != Dc.shape or np.max(np.abs(c["D"] - Dc)) > 1e-6:
        return False
    if (c["d"] is None) != (p.d is None) or (p.d is not None and any(abs(x - y) > 1e-9 for x, y in zip(c["d"], p.d))):
        return False
    for x, y in ((c["C"], p.C), (c["L"], p.L), (c["st"], p.st)):
        if (x is None) != (y is None) or (x is not None and abs(x - y) > 1e-9):
            return False
    if p.coords and (c["points"] is None or len(c["points"]) != p.n + 1 or
                     any(abs(a - b) > 1e-9 for q, r in zip(c["points"], p.pts) for a, b in zip(q, r))):
        return False
    return True


def judge(rng, rec, R, tag, data, o, problems, wants, opt, args):
    names = dict(R.rows)
    # every selected problem by every selected heuristic, once
    jobs = []
    for c in R.calls:
        ps = [p for p in problems if matches(c, p, opt)]
        if not ps:
            rec.bad("input", "%s: %s was called with data that no selected file has" % (tag, c["a"]), data)
            return
        done = [j[0] for j in jobs if j[1]["a"] == c["a"]]
        ps = [p for p in ps if p not in done] or ps
        if ps[0] in done:
            rec.bad("twice", "%s: %s was solved more than once with %s" % (tag, ps[0].path, c["a"]), data)
            return
        jobs.append((ps[0], c))
        if c["a"] not in wants:
            rec.bad("forbidden", "%s: %s was run though not selected" % (tag, c["a"]), data)
            return
        if bool(c["single"]) != opt["single"] or bool(c["K"]) != opt["min_k"]:
            rec.bad("options", "%s: %s was called with single=%r minimize_K=%r" % (tag, c["a"], c["single"], c["K"]), data)
            return
    cut = any(c["how"] == "interrupted" for _, c in jobs) or "interrupt" in R.ls
    if opt["simulate"]:
        if R.calls:
            rec.bad("simulate", "%s: a heuristic was run" % tag, data)
            return
    elif not cut:
        missing = [(p.path, a) for p in problems for a in wants if not any(j[0] is p and j[1]["a"] == a for j in jobs)]
        if missing:
            rec.bad("unsolved", "%s: not solved: %s" % (tag, missing), data)
            return
    elif any(c["how"] == "interrupted" for _, c in jobs[:-1]):
        rec.bad("continued", "%s: went on after an interruption" % tag, data)
        return
    # what has to be reported for each call
    for p, c in jobs:
        D, Dc = expected_matrix(p, opt["rounding"])
        c["q"] = None
        if c["sol"]:
            sol = c["sol"]
            c["len"], c["cost"] = oracle.cost(sol, D), oracle.cost(sol, Dc)
            c["faults"] = faults(p, sol, Dc)
            c["doubt"] = doubtful(p, sol, Dc)
    if opt["simulate"]:
        jobs = []
    for p, c in jobs:
        c["p"] = p
    final = {}
    if opt["minimal"]:
        ok = minimal(rec, R, tag, data, o, jobs, opt, names, problems, wants)
    else:
        ok = full(rec, R, tag, data, o, jobs, opt, names, problems, wants)
    rec.case((tag, repr([p.pts for p in problems])), bool(jobs), {"run": tag, "records": len(jobs)})
    for _, c in jobs:
        rec.case((tag, c["a"], repr(c["p"].pts)), True)
        rec.count("records " + c["how"] + (" with a broken plan" if c["sol"] and c["faults"] else ""))


def faults(p, sol, Dc):
    return oracle.plan_faults(sol, p.n + 1, p.d, p.C, Dc, p.L)


def doubtful(p, sol, Dc):
    """The limits are met or broken only by rounding."""
    for r in oracle.routes_of(sol):
        if p.C and abs(sum(p.d[i] for i in r) - p.C) < 1e-5 and not all(isinstance(x, int) for x in p.d + [p.C]):
            return True
        if p.L and abs(oracle.cost([0] + r + [0], Dc) - p.L) < 1e-5 * (1 + p.L):
            return True
    return False


def post_ok(rec, tag, data, c, sol, opt, Dc, p):
    """A post-optimized plan against the one it started from."""
    a, b = sorted(sorted(r) for r in oracle.routes_of(sol)), sorted(sorted(r) for r in oracle.routes_of(c["sol"]))
    if sorted(x for r in a for x in r) != sorted(x for r in b for x in r):
        rec.bad("post/customers", "%s: %s post-optimized to %s serves other customers" % (tag, c["sol"], sol), data)
        return False
    if oracle.cost(sol, Dc) > c["cost"] + 1e-6 * (1 + c["cost"]):
        rec.bad("post/worse", "%s: %s was made worse: %s" % (tag, c["sol"], sol), data)
        return False
    if not c["faults"] and faults(p, sol, Dc):
        rec.bad("post/infeasible", "%s: %s was made infeasible: %s" % (tag, c["sol"], sol), data)
        return False
    from .. import lsgen
    if not c["doubt"]:
        for op, nb in (("2opt", lsgen.nb_2opt), ("3opt", lsgen.nb_3opt)):
            if op in opt["post"]:
                for r in oracle.routes_of(sol):
                    r = [0] + r + [0]
                    base = oracle.cost(r, Dc)
                    if len(set(r)) == len(r) - 1 and any(oracle.cost(q, Dc) < base - 1e-6 * (1 + base) for q in nb(r)):
                        rec.bad("post/notdone", "%s: %s still has improving %s moves on %s" % (tag, sol, op, r), data)
                        return False
    return True


def quality(c, sol, opt):
    D, Dc = expected_matrix(c["p"], opt["rounding"])
    return oracle.cost(sol, Dc if opt["cost"] else D)


def minimal(rec, R, tag, data, o, jobs, opt, names, problems, wants):
    lines = [l for l in o.out.splitlines() if ";" in l]
    if not lines or lines[0] != "algo;problem;is_feasible;f;K;t":
        rec.bad("csv/header", "%s: %r" % (tag, lines[:1]), data)
        return
    other = [l for l in o.out.splitlines() if ";" not in l and l.strip() and "license" not in l]
    if other:
        rec.bad("csv/noise", "%s: prints also %r" % (tag, other[0]), data)
        return
    rows = [l.split(";") for l in lines[1:]]
    if any(len(r) != 6 for r in rows):
        rec.bad("csv/columns", "%s: %r" % (tag, [r for r in rows if len(r) != 6][0]), data)
        return
    if opt["simulate"]:
        for r in rows:
            if r[2] != "False":
                rec.bad("csv/simulate", "%s: %s" % (tag, r), data)
        return
    if len(rows) != len(jobs):
        rec.bad("csv/rows", "%s: %d rows for %d runs" % (tag, len(rows), len(jobs)), data)
        return
    for r, (p, c) in zip(rows, jobs):
        if r[0] != c["a"] or r[1] != p.name:
            rec.bad("csv/label", "%s: row %s for %s with %s" % (tag, r, p.name, c["a"]), data)
            return
        text = "%s: row %s for %s with %s (%s)" % (tag, r, p.name, c["a"], c["how"])
        if bool(r[5].endswith("*")) != (c["how"] == "interrupted") and not R.ls:
            rec.bad("csv/interrupted", text, data)
            return
        if c["sol"] is None:
            if r[2] != "False" or r[3] != "inf" or r[4] != "inf":
                rec.bad("csv/nothing-found", text, data)
                return
            continue
        if r[2] not in ("True", "False") or (not c["doubt"] and not opt["post"] and (r[2] == "True") != (not c["faults"])):
            rec.bad("csv/feasible", text + " though %s" % (c["faults"] or "it is feasible"), data)
            return
        if opt["post"] and not c["doubt"] and not c["faults"] and r[2] != "True":
            rec.bad("csv/feasible", text + ": post-optimized plan is not feasible", data)
            return
        if [x for x in c["faults"] if x[0] in ("missing", "twice")] and r[2] == "True":
            rec.bad("csv/feasible", text + " though %s" % c["faults"], data)
            return
        q = quality(c, c["sol"], opt)
        if opt["post"]:
            if float(r[3]) > q + .0051 + 1e-9 * q:
                rec.bad("csv/post", text + ": the heuristic's plan costs %r" % q, data)
                return
        elif not near(float(r[3]), q, 2):
            rec.bad("csv/cost", text + ": true %r" % q, data)
            return
        k = len(oracle.routes_of(c["sol"]))
        if int(r[4]) != k:
            rec.bad("csv/K", text + ": the plan %s has %d routes" % (c["sol"], k), data)
            return


def full(rec, R, tag, data, o, jobs, opt, names, problems, wants):
    text = o.out
    heads = list(re.finditer(r"^Solving (.*) with (.*)$", text, re.M))
    table = None
    m = list(re.finditer(r"^instance\t.*$", text, re.M))
    if m:
        table = text[m[-1].start():]
        text = text[:m[-1].start()]
    parts = []
    for i, h in enumerate(heads):
        end = heads[i + 1].start() if i + 1 < len(heads) else len(text)
        parts.append((h.group(1), h.group(2), text[h.end():end]))
    if opt["simulate"]:
        for nm, a, t in parts:
            if "SOLUTION" in t:
                rec.bad("record/simulate", "%s: a solution is reported" % tag, data)
        return
    if len(parts) != len(jobs):
        rec.bad("record/count", "%s: %d records for %d runs" % (tag, len(parts), len(jobs)), data)
        return
    for (nm, a, t), (p, c) in zip(parts, jobs):
        if nm != p.name or a != c["name"]:
            rec.bad("record/label", "%s: record of %s with %s, solved was %s with %s" % (tag, nm, a, p.name, c["name"]), data)
            return
        if not record(rec, R, tag + " " + p.name + " with " + c["a"], data, t, p, c, opt):
            return
    for p, c in jobs:
        if c["how"] == "interrupted" and not re.search("nterrupted.*%s" % re.escape(p.name), o.err):
            rec.bad("record/interruption", "%s: the interruption of %s is not reported" % (tag, c["a"]), data)
            return
        if c["how"] == "failed" and not re.search("rror.*ailed.*%s|ailed.*%s" % (re.escape(p.name), re.escape(p.name)), o.err, re.I):
            rec.bad("record/failure", "%s: the failure of %s is not reported" % (tag, c["a"]), data)
            return
    many = len({j[0].path for j in jobs}) > 1 or len(names) > 1
    if table is None:
        if many and jobs and len({j[1]["a"] for j in jobs}) > 1:
            rec.bad("table/missing", "%s: no collected results" % tag, data)
        return
    collected(rec, tag, data, table, jobs, opt, names)


def record(rec, R, tag, data, t, p, c, opt):
    D, Dc = expected_matrix(p, opt["rounding"])

    def field(label, last=True):
        m = re.findall(r"^%s:? (.*)$" % re.escape(label), t, re.M)
        return m[-1].strip() if m else None

    plan = field("SOLUTION:")
    if c["sol"] is None:
        if plan is not None or field("FEASIBLE:") == "True" or field("ALL SERVED:") == "True":
            rec.bad("record/nothing-found", "%s (%s): a solution is reported: %s" % (tag, c["how"], plan), data)
            return False
        return True
    if plan is None:
        if R.ls and R.ls[-1]:
            return True
        rec.bad("record/no-plan", "%s: the plan %s is not reported" % (tag, c["sol"]), data)
        return False
    sol = intish(plan)
    data = dict(data, returned=c["sol"])
    if opt["post"]:
        if not (R.ls and R.ls[-1]):
            if not post_ok(rec, tag, data, c, sol, opt, Dc, p):
                return False
        m = re.search(r"improved by ([-\d.]+)%", t)
        a, b = quality(c, c["sol"], opt), quality(c, sol, opt)
        if m and not (R.ls and R.ls[-1]):
            want = (1 - b / a) * 100 if a else 0
            if abs(float(m.group(1)) - want) > .0051:
                rec.bad("record/improvement", "%s: reports an improvement by %s%%, from %r to %r is %.4f%%" % (tag, m.group(1), a, b, want), data)
                return False
        elif a - b > 1e-6 * (1 + a) and not m:
            rec.bad("record/improvement", "%s: does not report the improvement from %r to %r" % (tag, a, b), data)
            return False
    elif canon(sol) != canon(c["sol"]):
        rec.bad("record/plan", "%s: reports %s, the heuristic gave %s" % (tag, sol, c["sol"]), data)
        return False
    fl, doubt = faults(p, sol, Dc), doubtful(p, sol, Dc)
    kinds = {k for k, _ in fl}
    checks = [("FEASIBLE:", not fl), ("ALL SERVED:", not kinds & {"missing", "twice"}), ("IS C FEASIBLE:", "capacity" not in kinds),
              ("IS L FEASIBLE:", "length" not in kinds)]
    said = 0
    for label, want in checks:
        v = field(label)
        if v is None:
            continue
        said += 1
        if v not in ("True", "False") or ((v == "True") != want and not (doubt and label != "ALL SERVED:")):
            rec.bad("record/feasible", "%s: %s %s for %s, by definition %s %s" % (tag, label, v, sol, want, fl), data)
            return False
    if not said:
        rec.bad("record/feasible", "%s: nothing on the feasibility" % tag, data)
        return False
    k = field("SOLUTION K:")
    if k is None or int(k) != len(oracle.routes_of(sol)):
        rec.bad("record/K", "%s: %s routes reported for %s" % (tag, k, sol), data)
        return False
    length, cst = oracle.cost(sol, D), oracle.cost(sol, Dc)
    shown = 0
    for label, want in (("SOLUTION COST:", cst), ("SOLUTION LENGTH:", length)):
        v = field(label)
        if v is None:
            continue
        shown += 1
        if not near(float(v), want):
            rec.bad("record/cost", "%s: %s %s for %s, true %r" % (tag, label, v, sol, want), data)
            return False
    if not shown:
        rec.bad("record/cost", "%s: neither cost nor length" % tag, data)
        return False
    if field("SOLUTION COST:") is None and abs(cst - length) > 1e-6 * (1 + cst):
        rec.bad("record/cost", "%s: cost %r is not length %r, but only the length is reported" % (tag, cst, length), data)
        return False
    c["final"] = sol
    for label, want in (("CAPACITY:", p.C), ("DISTANCE:", p.L), ("SERVICE_TIME:", p.st), ("SIZE:", p.n + 1)):
        v = field(label)
        if v is None:
            if want is not None:
                rec.bad("record/problem", "%s: %s missing" % (tag, label), data)
                return False
        elif (v == "None") != (want is None) or (want is not None and not near(float(v), want)):
            rec.bad("record/problem", "%s: %s %s, is %r" % (tag, label, v, want), data)
            return False
    if opt["routes"]:
        m = re.search(r"^No\.\tCost.*$\n((?:^\d+\t.*$\n)*)^Total\t(\S+)\t(\S+)", t, re.M)
        if not m:
            rec.bad("record/routes", "%s: no table of routes" % tag, data)
            return False
        seen = []
        for line in m.group(1).splitlines():
            no, rc, rl, load, route = line.split("\t")
            r = intish(route)
            seen.append(r)
            q = "-" if not p.C else sum(p.d[i] for i in r)
            if int(no) != len(seen) or not near(float(rc), oracle.cost(r, Dc), 2) or not near(float(rl), oracle.cost(r, D), 2) or \
                    (load == "-") != (q == "-") or (q != "-" and not near(float(load), q)):
                rec.bad("record/routes", "%s: line %r: true cost %r, length %r, load %r" % (tag, line, oracle.cost(r, Dc), oracle.cost(r, D), q), data)
                return False
        if [x for r in seen for x in r if x] != [x for x in sol if x] or len(seen) != len(oracle.routes_of(sol)):
            rec.bad("record/routes", "%s: routes %s of plan %s" % (tag, seen, sol), data)
            return False
        if not near(float(m.group(2)), cst, 2) or not near(float(m.group(3)), length, 2):
            rec.bad("record/routes", "%s: totals %s for cost %r and length %r" % (tag, m.groups()[1:], cst, length), data)
            return False
    if opt["vrph"]:
        m = re.search(r"VRPH FORMAT:\n(.*)$", t, re.M)
        v = intish(m.group(1)) if m else []
        back = []
        for x in v[1:-1]:
            if x < 0:
                back.append([-x])
            elif back:
                back[-1].append(x)
        if back != oracle.routes_of(sol):
            rec.bad("record/vrph", "%s: %s for %s" % (tag, v, sol), data)
            return False
    return True


def collected(rec, tag, data, table, jobs, opt, names):
    lines = [l for l in table.splitlines() if l.strip()]
    cells = [[x.strip() for x in l.split("\t")] for l in lines]
    head = cells[0]
    width = {len(r) for r in cells}
    if len(width) > 1:
        rec.bad("table/columns", "%s: rows of the collected results have different numbers of columns: %s" % (tag, lines), data)
        return
    label = "+" + "+".join(opt["post"]) if opt["post"] else ""
    cols = head[7:]
    for p in {id(j[0]): j[0] for j in jobs}.values():
        mine = {c["name"]: c for q, c in jobs if q is p}
        best = None
        ok = False
        same = [r for r in cells[1:] if r[0] == p.name]
        why = "no row"
        for r in same:
            why = fits(r, cols, p, mine, opt, label)
            if why is None:
                ok = True
                break
        if not ok:
            rec.bad("table/row", "%s: collected results for %s: %s in\n%s" % (tag, p.path, why, table), data)
            return
    if len(cells) - 1 != len({j[0].path for j in jobs}):
        rec.bad("table/rows", "%s: %d rows for %d problems" % (tag, len(cells) - 1, len({j[0].path for j in jobs})), data)
        return
    rec.count("collected tables")


def fits(r, cols, p, mine, opt, label):
    for c in mine.values():
        if c["name"] + label not in cols:
            return "no column for %s" % c["name"]
        v = r[7 + cols.index(c["name"] + label)]
        if c["sol"] is None:
            if v != "inf":
                return "%s found nothing but has %s" % (c["name"], v)
            continue
        q = quality(c, c.get("final") or c["sol"], opt)
        try:
            if not near(float(v), q):
                return "%s has %s, true %r" % (c["name"], v, q)
        except ValueError:
            return "%s has %r, true %r" % (c["name"], v, q)
    for nm, v in zip(cols, r[7:]):
        if nm[:len(nm) - len(label)] not in mine and re.match(r"^[\d.]+$", v):
            return "%s was not run but has %s" % (nm, v)
    ks = [len(oracle.routes_of(c.get("final") or c["sol"])) for c in mine.values() if c["sol"]]
    if ks:
        k = min(ks)
        if r[1] not in (str(p.n), str(p.n + 1)) or r[2] != str(k):
            return "N=%s K*=%s for %d customers and %d routes" % (r[1], r[2], p.n, k)
        if (r[3] == "None") != (p.C is None) or (p.C is not None and not near(float(r[3]), p.C)):
            return "C=%s" % r[3]
        if p.C and (r[4] == "None" or not near(float(r[4]), sum(p.d) / (p.C * k), 3)):
            return "tightness %s, true %r" % (r[4], sum(p.d) / (p.C * k))
        for v, w in ((r[5], p.L), (r[6], p.st)):
            if (v == "None") != (w is None) or (w is not None and not near(float(v), w)):
                return "%s is not %s" % (v, w)
    return None


# ---- the command line of a single heuristic ---------------------------------
def single_cli(rng, folder, rec):
    from verypy import shared_cli
    p = write(rng, folder, "one%d" % rng.randint(0, 9))
    a = rng.choice(FAST)
    f = algs.get(a)
    fault = rng.choice(("ok", "ok", "ok", "interrupt", "interrupt with plan", "none"))
    calls = []

    def init(points, D, d, C, L, st, wtt, single, min_k):
        c = {"points": points, "D": np.array(D), "d": None if d is None else list(d), "C": C, "L": L, "st": st, "single": single, "K": min_k, "sol": None}
        calls.append(c)
        s = f(points, D, d, C, L, st, wtt, single, min_k)
        if fault == "none":
            return None
        if fault == "interrupt":
            raise KeyboardInterrupt()
        c["sol"] = list(s)
        if fault == "interrupt with plan":
            raise KeyboardInterrupt(list(s))
        return s

    min_k = rng.random() < .3 and a not in algs.NO_MIN_K
    single = rng.random() < .4
    times = rng.choice((1, 1, 3))
    verb = rng.choice((0, 1, 2))
    logfile = os.path.join(folder, "debug.log") if rng.random() < .3 else None
    argv = ["x.py", "-v", str(verb), "-n", str(times)] + (["-b", "K"] if min_k else []) + (["-1"] if single else []) + \
        (["-l", logfile] if logfile else []) + [p.path]
    root = logging.getLogger()
    before = (list(root.handlers), root.level)
    old = sys.argv
    try:
        sys.argv = argv
        o = core.call(shared_cli.cli, a, a, init, _limit=150000000)
    finally:
        sys.argv = old
        root.handlers[:] = before[0]
        root.setLevel(before[1])
    tag = "cli %s (%s) %s" % (a, fault, " ".join(argv[1:-1]))
    data = {"problem": (p.ewt, p.C, p.L, p.st, p.d, p.pts), "stdout": o.out[-4000:], "stderr": o.err[-1000:]}
    if not o.ended:
        rec.maybe("command line run cut off")
        return
    if logfile:
        logged(rec, tag, logfile, o, data)
    rec.case((tag, repr(p.pts)), True)
    rec.count("single command lines " + fault)
    if o.exc is not None and not (type(o.exc) is KeyboardInterrupt and fault.startswith("interrupt")):
        if fault == "none" or calls and not isinstance(o.exc, (NotImplementedError,)):
            if fault != "none":
                rec.count("heuristic failed (judged by V01)")
                return
            rec.bad("cli/crash/%s" % core.where(o.exc), "%s: %s" % (tag, o.why()), data)
        return
    opt = dict(rounding=None)
    for c in calls:
        if not matches(c, p, opt) or bool(c["single"]) != single or bool(c["K"]) != min_k:
            rec.bad("cli/input", "%s: called with other data or options" % tag, data)
            return
    if len(calls) != (1 if fault.startswith("interrupt") else times):
        rec.bad("cli/runs", "%s: %d runs" % (tag, len(calls)), data)
        return
    if fault.startswith("interrupt") and "nterrupted" not in o.err:
        rec.bad("cli/interruption", "%s: not reported" % tag, data)
        return
    got = [c for c in calls if c["sol"]]
    plan = re.findall(r"^SOLUTION: (.*)$", o.out, re.M)
    if not got:
        if plan:
            rec.bad("cli/nothing-found", "%s: reports %s" % (tag, plan), data)
        return
    if len(plan) != 1:
        rec.bad("cli/plan", "%s: %d plans reported" % (tag, len(plan)), data)
        return
    sol = intish(plan[0])
    D, Dc = expected_matrix(p, None)
    keys = [((len(oracle.routes_of(c["sol"])),) if min_k else ()) + (oracle.cost(c["sol"], Dc),) for c in got]
    mine = ((len(oracle.routes_of(sol)),) if min_k else ()) + (oracle.cost(sol, Dc),)
    if canon(sol) not in [canon(c["sol"]) for c in got] or any(k[:-1] < mine[:-1] or k[:-1] == mine[:-1] and k[-1] < mine[-1] - 1e-6 * (1 + mine[-1]) for k in keys):
        rec.bad("cli/plan", "%s: reports %s of %s" % (tag, sol, [c["sol"] for c in got]), data)
        return
    fl = {k for k, _ in faults(p, sol, Dc)}
    dbt = doubtful(p, sol, Dc)
    for label, want in (("FEASIBLE", not fl), ("ALL SERVED", not fl & {"missing", "twice"}), ("IS C FEASIBLE", "capacity" not in fl),
                        ("IS L FEASIBLE", "length" not in fl)):
        m = re.findall(r"^%s: (.*)$" % label, o.out, re.M)
        if m and (m[-1] == "True") != want and not dbt:
            rec.bad("cli/feasible", "%s: %s: %s for %s" % (tag, label, m[-1], sol), data)
            return
    for label, want in (("SOLUTION COST", oracle.cost(sol, Dc)), ("SOLUTION LENGTH", oracle.cost(sol, D)), ("SOLUTION K", len(oracle.routes_of(sol)))):
        m = re.findall(r"^%s: ?(.*)$" % label, o.out, re.M)
        if m and not near(float(m[-1]), want):
            rec.bad("cli/cost", "%s: %s: %s for %s, true %r" % (tag, label, m[-1], sol, want), data)
            return


LOGLINE = re.compile(r"^(DEBUG|INFO|WARNING|ERROR|CRITICAL|Level \d+|NOTSET):")


def logged(rec, tag, logfile, o, data):
    """The log file has what the console shows of the debug output, in order."""
    if not os.path.exists(logfile):
        rec.bad("cli/log", "%s: no log file" % tag, data)
        return
    with open(logfile) as f:
        got = [l for l in f.read().splitlines() if LOGLINE.match(l)]
    os.remove(logfile)
    seen = [l for l in o.out.splitlines() if LOGLINE.match(l)]
    rec.count("log files")
    rec.count("log lines", len(got))
    if got != seen:
        k = next((i for i, (x, y) in enumerate(zip(got, seen)) if x != y), min(len(got), len(seen)))
        rec.bad("cli/log", "%s: the file has %d lines, the console %d; from %d on %r and %r" % (tag, len(got), len(seen), k, got[k:k + 2], seen[k:k + 2]), data)


def listing(rng, rec, folder):
    """Without a problem or an algorithm there is help and nothing is solved."""
    from verypy import VeRyPy, get_algorithms
    p = write(rng, folder, "help")
    calls = Recorder(rng, ("ok",))
    real = VeRyPy.get_algorithms
    VeRyPy.get_algorithms = calls.get(real)
    argv = rng.choice((["verypy"], ["verypy", "-l"], ["verypy", "-l", p.path], ["verypy", p.path], ["verypy", "-b", "K", p.path], ["verypy", "-h"]))
    try:
        o = with_argv(argv, VeRyPy.main)
    finally:
        VeRyPy.get_algorithms = real
    tag = " ".join(os.path.basename(x) for x in argv)
    rec.case((tag, repr(p.pts)), False)
    rec.count("help shown")
    if calls.calls or type(o.exc) is not SystemExit or not (o.out + o.err).strip():
        rec.bad("help", "%s: %d heuristics called, %s, output %r" % (tag, len(calls.calls), o.why(), (o.out + o.err)[:300]))
    elif "Select at least one algorithm" in o.err:
        names = {a for a, _, _, _ in get_algorithms("all")}
        words = set(re.findall(r"[\w|]+", o.out + o.err))
        if not names <= words:
            rec.bad("help/list", "%s: the list lacks %s" % (tag, sorted(names - words)), {"stdout": o.out, "stderr": o.err})


def with_argv(argv, f, *a):
    root = logging.getLogger()
    before = (list(root.handlers), root.level)
    old = sys.argv
    try:
        sys.argv = argv
        return core.call(f, *a, _limit=150000000)
    finally:
        sys.argv = old
        root.handlers[:] = before[0]
        root.setLevel(before[1])


def tsp_cli(rng, folder, rec):
    from verypy import shared_cli
    from .v10 import solvers
    p = write(rng, folder, "t%d" % rng.randint(0, 9))
    if p.kind == "pickle":
        return
    name, f = rng.choice([x for x in solvers().items() if x[0] not in ("acotsp", "acotsp_ants")])
    o = with_argv(["x.py", p.path], shared_cli.tsp_cli, name, f)
    tag = "tsp_cli %s" % name
    data = {"problem": (p.ewt, p.pts), "stdout": o.out[-4000:]}
    rec.case((tag, repr(p.pts)), True)
    rec.count("TSP command lines")
    if not o.ok:
        rec.bad("tsp_cli/crash/%s" % (core.where(o.exc) if o.exc else "no-end"), "%s: %s" % (tag, o.why()), data)
        return
    plan, c = re.findall(r"^SOLUTION: (.*)$", o.out, re.M), re.findall(r"^COST: (.*)$", o.out, re.M)
    sol = intish(plan[0]) if len(plan) == 1 else None
    if sol is None or sorted(set(sol)) != list(range(p.n + 1)) or len(sol) != p.n + 2 or sol[0] != sol[-1]:
        rec.bad("tsp_cli/tour", "%s: %s" % (tag, plan), data)
    elif len(c) != 1 or not near(float(c[0]), oracle.cost(sol, p.D)):
        rec.bad("tsp_cli/cost", "%s: %s for %s, true %r" % (tag, c, sol, oracle.cost(sol, p.D)), data)


def random_cli(rng, rec):
    """A random problem of N customers, made and solved."""
    from verypy import shared_cli
    a = rng.choice(("ps", "ss", "swp", "sn", "si", "gm"))
    f = algs.get(a)
    calls = []

    def init(*args):
        s = f(*args)
        calls.append((np.array(args[1]), list(args[2]), args[3], args[4], list(s)))
        return s

    n, times = rng.randint(1, 9), rng.choice((1, 2))
    o = with_argv(["x.py", "-v", "0", "-n", str(times), str(n)], shared_cli.cli, a, a, init)
    tag = "cli %s of %d random customers" % (a, n)
    data = {"stdout": o.out[-4000:]}
    if not o.ok:
        rec.bad("cli/crash/%s" % (core.where(o.exc) if o.exc else "no-end"), "%s: %s" % (tag, o.why()), data)
        return
    rec.case((tag, repr(calls)), True)
    rec.count("random problems")
    plan = re.findall(r"^SOLUTION: (.*)$", o.out, re.M)
    if len(calls) != times or len(plan) != 1:
        rec.bad("cli/random", "%s: %d runs, %d plans" % (tag, len(calls), len(plan)), data)
        return
    sol = intish(plan[0])
    D, d, C, L, _ = calls[0]
    best = min(oracle.cost(c[4], c[0]) for c in calls)
    if len(D) != n + 1 or canon(sol) not in [canon(c[4]) for c in calls] or oracle.cost(sol, D) > best + 1e-6 * (1 + best):
        rec.bad("cli/random", "%s: reports %s of %s" % (tag, sol, [c[4] for c in calls]), data)
        return
    fl = oracle.plan_faults(sol, n + 1, d, C, D, L)
    m = re.findall(r"^FEASIBLE: (.*)$", o.out, re.M)
    k = re.findall(r"^SOLUTION K: (.*)$", o.out, re.M)
    if (m and (m[-1] == "True") != (not fl)) or not k or int(k[-1]) != len(oracle.routes_of(sol)):
        rec.bad("cli/random", "%s: FEASIBLE %s, K %s for %s" % (tag, m, k, sol), data)
