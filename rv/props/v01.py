"""Every heuristic ends with a complete and feasible plan."""
from .. import algs, inst, oracle

CHUNKS = {"quick": 96, "thorough": 1400}
MIN = {"quick": 1500, "thorough": 10000}
RULE = ("generated solvable instances (13 layouts x 9 demand patterns x limits C/CL/L/none x integer/real x service time, "
        "1..14 customers, some with 15..28) given to all 21 heuristics, single and full, cost and vehicle objective; "
        "each returned plan judged from the problem definition. Non-trivial: the heuristic returned a plan and the instance "
        "has at least 2 customers; distinct by heuristic, options, instance and plan")
ASSUMPTIONS = ["symmetric distances, each customer feasible alone, some demand is positive",
               "'ends' is judged by a budget of calls and jumps about 10 times above the largest need seen"]

SLOW_L = 8          # gap with a cost limit tries many programs: small sizes only


def chunk(rng, idx, tier, rec):
    small = rng.random() < .8
    for rep in range(2 if small else 1):
        I = inst.make(rng, nmin=1 if small else 15, nmax=14 if small else 28)
        if sum(I.d) <= 0:
            I.d[1] = 1
        for a in algs.ALL:
            for min_k in (False, True):
                for single in (True, False):
                    one(a, I, single, min_k, rec)


def skip(a, I, single, min_k):
    n = I.N - 1
    if a == "gap":
        if I.L:
            return n > SLOW_L or not single
        return n > 20 or (not single and n > 12)
    if a in ("mbsa", "ptl"):
        return n > 20
    if a == "lr3o":
        return n > 16
    return False


def one(a, I, single, min_k, rec):
    if skip(a, I, single, min_k):
        rec.count("skipped for cost")
        return
    tag = "%s single=%d minK=%d" % (a, single, min_k)
    # discarding customers in the petal heuristic is a search over subsets: a long run on a larger instance proves nothing
    soft = a == "ptl" and I.N > 10
    o = algs.solve(a, I, single, min_k, limit=8000000 if soft else None)
    rec.high("steps " + a, o.steps)
    refuse = algs.unsupported(a, I, min_k)
    if refuse:
        rec.count("declared unsupported")
        if not isinstance(o.exc, refuse):
            rec.bad("refusal/" + a, "%s: expected %s, got %s" % (tag, refuse.__name__, o.why()), I.describe())
        return
    if not o.ended and soft:
        rec.maybe("petal search over subsets cut off")
        return
    if not o.ended:
        rec.bad("no-end/" + a, "%s %s on %s" % (tag, o.why(), I.tags), I.describe())
        return
    if o.exc is not None:
        from .. import core
        rec.bad("error/%s/%s/%s" % (a, type(o.exc).__name__, core.where(o.exc)),
                "%s raised %s" % (tag, o.why()), I.describe())
        return
    sol = o.value
    if sol is None and a == "gap" and I.L:
        rec.count("gap reports no plan (allowed with L)")
        return
    faults = oracle.plan_faults(sol, I.N, I.d, I.C, I.Dc, I.L)
    rec.case((a, single, min_k, repr(I.pts), repr(sol)), I.N > 2,
             {"heuristic": tag, "instance": I.tags, "plan": [int(x) for x in sol] if sol else None})
    rec.count("plans " + a)
    for kind, text in faults:
        rec.bad("%s/%s" % (kind, a), "%s: %s; plan %s on %s" % (tag, text, sol, I.tags), I.describe())
