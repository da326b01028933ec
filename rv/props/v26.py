"""Limits, interruptions and failures of the MIP solver are reported, never turned into a bad plan."""
import sys

import gurobipy
import numpy as np

from .. import algs, core, inst, opts, oracle

CHUNKS = {"quick": 48, "thorough": 960}
MIN = {"quick": 1500, "thorough": 15000}
RULE = ("the heuristics that use the MIP solver (assignment, petal, matching; rows of their documented options) and the exact TSP solver on "
        "generated instances of 3..9 customers: after a run that counts the solver calls, the k-th call (or every call from the k-th on) runs "
        "into a real time limit of 0 s, reports an interruption, or fails with a solver error; k over all calls when few, else sampled. "
        "Non-trivial: the fault was met; distinct by heuristic, options, instance, k and kind of fault")
ASSUMPTIONS = ["an interrupted optimization is represented by the solver's own INTERRUPTED status after an optimization without solution"]
KINDS = ("time", "time+", "interrupt", "error", "error+")
ROWS = [r for r in opts.rows() if r[1] in ("gap", "ptl", "mbsa")]
Real = gurobipy.Model


class Plan(object):
    """Which solver call meets which fault."""
    calls = 0
    at = None
    kind = None
    fired = 0
    after = 0


class Faulty(Real):
    """gurobipy's model with faults injected into optimize()."""
    _rv_status = None

    def optimize(self, *a, **k):
        Plan.calls += 1
        hit = Plan.at is not None and (Plan.calls == Plan.at or (Plan.kind.endswith("+") and Plan.calls > Plan.at))
        if Plan.fired and not hit:
            Plan.after += 1
        self._rv_status = None
        if not hit:
            return super().optimize(*a, **k)
        Plan.fired += 1
        kind = Plan.kind.rstrip("+")
        if kind == "error":
            raise gurobipy.GurobiError(10001, "Out of memory")
        old = self.getParamInfo("TimeLimit")[2]
        self.setParam("TimeLimit", 0)
        super().optimize(*a, **k)
        self.setParam("TimeLimit", old)
        if kind == "interrupt":
            self._rv_status = gurobipy.GRB.INTERRUPTED
        elif self.Status != gurobipy.GRB.TIME_LIMIT:
            self._rv_status = gurobipy.GRB.TIME_LIMIT

    def getAttr(self, name, *a):
        if name in ("Status", "status") and not a and self._rv_status is not None:
            return self._rv_status
        return super().getAttr(name, *a)

    def __getattribute__(self, name):
        if name in ("Status", "status"):
            s = self._rv_status
            if s is not None:
                return s
        return super().__getattribute__(name)

    def __getattr__(self, name):
        return super().__getattr__(name)


def install():
    """The library sees the faulty model wherever it took the real one from."""
    gurobipy.Model = Faulty
    for m in list(sys.modules.values()):
        if getattr(m, "__name__", "").startswith("verypy"):
            for k, v in list(vars(m).items()):
                if v is Real:
                    setattr(m, k, Faulty)


def run(f, at, kind):
    install()
    Plan.calls = Plan.fired = Plan.after = 0
    Plan.at, Plan.kind = at, kind
    try:
        return core.call(f)
    finally:
        Plan.at = None


def chunk(rng, idx, tier, rec):
    import random
    for _ in range(2):
        I = inst.make(rng, nmin=3, nmax=9, cons=rng.choice(("C", "C", "CL", "L")))
        if sum(I.d) <= 0:
            I.d[1] = 1
        for a in ("gap", "ptl", "mbsa"):
            for single in (True, False):
                min_k = rng.random() < .5
                if algs.unsupported(a, I, min_k) or (a == "gap" and I.L and (I.N > 6 or not single)):
                    continue
                f = algs.get(a)

                def go():
                    return f(list(I.pts), I.Dc.copy(), list(I.d), I.C, I.L, I.st, I.wtt, single, min_k)
                faults(rng, rec, a, "%s single=%s minK=%s" % (a, single, min_k), go, I)
        for name, a, g, fl in rng.sample(ROWS, 5):
            min_k = rng.random() < .5 and not fl.get("no_min_k")
            if a == "gap" and ((I.L and I.N > 6) or algs.unsupported(a, I, min_k)):
                continue
            seed = rng.random()

            def go2():
                return g(I, min_k, random.Random(seed))
            faults(rng, rec, a, "%s minK=%s" % (name, min_k), go2, I)
        tsp(rng, rec)


def faults(rng, rec, a, tag, go, I):
    o = run(go, None, None)
    n = Plan.calls
    if not o.ok or not n:
        rec.count("run without solver calls or failing by itself (judged by V01, V24)")
        return
    rec.high("solver calls " + a, n)
    ks = range(1, n + 1) if n <= 5 else sorted({1, n} | {rng.randint(1, n) for _ in range(4)})
    for k in ks:
        for kind in KINDS:
            o = run(go, k, kind)
            t = "%s: %s at solver call %d of %d" % (tag, kind, k, n)
            if not Plan.fired:
                rec.maybe("solver call not reached again")
                continue
            rec.case((t, repr(I.pts), repr(I.d)), True, {"run": t, "instance": I.tags, "outcome": o.why()[:80]})
            judge(rec, a, t, kind.rstrip("+"), o, I)


def judge(rec, a, t, kind, o, I):
    data = I.describe()
    if not o.ended:
        rec.bad("no-end/" + a, "%s: did not end" % t, data)
        return
    e = o.exc
    if kind == "interrupt":
        if e is None or type(e) is not KeyboardInterrupt:
            rec.bad("swallowed/" + a, "%s: %s instead of an interruption (%r)" % (t, o.why(), o.value), data)
            return
        if Plan.after:
            rec.bad("goes-on/" + a, "%s: called the solver %d more times" % (t, Plan.after), data)
        plan = e.args[0] if e.args else None
        if not plan:
            rec.count("interrupted without a plan")
            return
        rec.count("interrupted with a plan")
    elif e is not None:
        if not isinstance(e, gurobipy.GurobiError):
            rec.bad("error/%s/%s" % (a, core.where(e)), "%s: %s" % (t, o.why()), data)
            return
        rec.count("%s reported" % kind)
        return
    else:
        plan = o.value
        if plan is None and a == "gap":
            rec.count("no plan found")
            return
        rec.count("%s survived" % kind)
    for k, text in oracle.plan_faults(plan, I.N, I.d, I.C, I.Dc, I.L):
        rec.bad("%s/%s" % (k, a), "%s: %s in %s" % (t, text, plan), data)


def tsp(rng, rec):
    """The exact TSP solver by itself."""
    from verypy.tsp_solvers.tsp_solver_gurobi import solve_tsp_gurobi
    from .. import lsgen
    D, kind = lsgen.matrix(rng, rng.randint(4, 9))
    nodes = rng.sample(range(len(D)), rng.randint(4, len(D)))

    def go():
        return solve_tsp_gurobi(D, list(nodes))
    o = run(go, None, None)
    n = Plan.calls
    for k in range(1, n + 1):
        for kind in KINDS:
            o = run(go, k, kind)
            t = "solve_tsp_gurobi(%s): %s at solver call %d of %d" % (nodes, kind, k, n)
            rec.case((t, D.tobytes()), True)
            kk = kind.rstrip("+")
            if kk == "interrupt":
                if type(o.exc) is not KeyboardInterrupt:
                    rec.bad("swallowed/tsp", "%s: %s" % (t, o.why()), {"D": D.tolist()})
            elif o.ok:
                sol, f = o.value
                if sorted(sol[:-1]) != sorted(nodes) or sol[0] != sol[-1] or abs(f - lsgen.cost(sol, D)) > lsgen.tol(D):
                    rec.bad("tour/tsp", "%s: %r" % (t, o.value), {"D": D.tolist()})
            elif not isinstance(o.exc, gurobipy.GurobiError):
                rec.bad("error/tsp/%s" % core.where(o.exc), "%s: %s" % (t, o.why()), {"D": D.tolist()})
