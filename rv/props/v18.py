"""Service times are charged once per customer."""
import numpy as np

from .. import algs, core, inst, lsgen, oracle

CHUNKS = {"quick": 64, "thorough": 640}
MIN = {"quick": 3000, "thorough": 30000}
RULE = ("symmetric matrices of 1..12 customers in 4 number types x service times that are odd, even, fractional, python and numpy numbers: "
        "every route of the made matrix costs its travel plus one service time per customer; and plans of all heuristics for problems with "
        "service time and cost limit, whose travel plus service is recomputed from the plain matrix. Non-trivial: at least 2 customers; "
        "distinct by matrix, service time, route or plan")
FAST = ("ps", "gpl", "ss", "gps", "ims", "ps2o", "si", "mj", "pi", "mbsa", "cmt", "sn", "pn", "ty", "swp", "wh", "gm", "rfcs", "ptl", "lr3o")


def chunk(rng, idx, tier, rec):
    from verypy.cvrp_ops import D2D_c
    for _ in range(300):
        n = rng.randint(1, 12)
        D, kind = lsgen.matrix(rng, n)
        dt = rng.choice((np.int64, np.int32, np.float64, np.float32)) if rng.random() < .7 else D.dtype
        if D.dtype.kind == "f" and np.dtype(dt).kind == "i":
            D = np.floor(D + .5)
        D = np.asarray(D, dtype=dt)
        st = rng.choice((1, 2, 3, 5, 10, 7, 2.5, 0.5, 3.25, 5.0, 7.0, 90, np.int64(5), np.float64(2.5)))
        keep = D.copy()
        tag = "D2D_c of a %s matrix, service time %r (%s)" % (D.dtype, st, kind)
        data = {"D": D.tolist(), "dtype": str(D.dtype), "st": float(st)}
        o = core.call(D2D_c, D, st)
        if not o.ok:
            rec.bad("error", tag + ": " + o.why(), data)
            continue
        if D.dtype != keep.dtype or not np.array_equal(D, keep):
            rec.bad("modified", tag + ": the given matrix was changed", data)
        M = np.asarray(o.value)
        eps = 1e-4 * (1 + float(np.max(D)) + float(st)) if dt == np.float32 else lsgen.tol(D)
        routes = [list(range(n + 1)) + [0]]
        for _ in range(4):
            routes.append([0] + rng.sample(range(1, n + 1), rng.randint(1, n)) + [0])
        for r in routes:
            want = float(lsgen.cost(r, keep.astype(float))) + float(st) * (len(r) - 2)
            got = float(lsgen.cost(r, M.astype(float)))
            rec.case((tag, keep.tobytes(), tuple(r)), len(r) > 3, {"route": r, "charged": got, "matrix": tag})
            rec.count("routes charged")
            if abs(want - got) > eps:
                rec.bad("charge", "%s: route %s is charged %r, travel and service are %r" % (tag, r, got, want), dict(data, route=r))
                break
    heuristics(rng, rec)


def heuristics(rng, rec):
    from verypy.cvrp_ops import D2D_c
    I = inst.make(rng, nmin=2, nmax=11, cons="CL", service=True)
    if sum(I.d) <= 0:
        I.d[1] = 1
    D = I.D.copy()
    Dc = D2D_c(D, I.st)
    for a in FAST:
        o = algs.solve(a, I, True, False, D=Dc.copy())
        if not o.ok or o.value is None:
            rec.bad("error/%s" % a, "%s with service time %r: %s" % (a, I.st, o.why()), I.describe())
            continue
        rec.case((a, repr(I.pts), repr(o.value)), True, None)
        rec.count("plans")
        for r in oracle.routes_of(o.value):
            t = float(lsgen.cost([0] + r + [0], I.D)) + I.st * len(r)
            if t > I.L * (1 + 1e-6) + 1e-6:
                rec.bad("limit/%s" % a, "%s: route %s takes %r of travel and service, limit %r" % (a, r, t, I.L), I.describe())
