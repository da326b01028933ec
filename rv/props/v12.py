"""What the library writes it can read back unchanged."""
import os
import tempfile

import numpy as np

from .. import core, lsgen, oracle

CHUNKS = {"quick": 48, "thorough": 480}
MIN = {"quick": 3000, "thorough": 30000}
RULE = ("problems of 1..13 customers over 9 kinds of symmetric matrices written as .vrp and .tsp with every combination of demands, capacity, "
        "cost limit, node selection and precision and read back; plans of every shape written in the solution format and read back; VRPH "
        "encodings decoded independently. Non-trivial: at least 3 nodes or customers; distinct by content")


def chunk(rng, idx, tier, rec):
    tmp = tempfile.mkdtemp(prefix="rv-v12-")
    try:
        for _ in range(150):
            problem(rng, tmp, rec)
            plan(rng, tmp, rec)
    finally:
        for f in os.listdir(tmp):
            os.unlink(os.path.join(tmp, f))
        os.rmdir(tmp)


def problem(rng, tmp, rec):
    from verypy import cvrp_io
    n = rng.randint(1, 13)
    D, kind = lsgen.matrix(rng, n)
    scale = rng.choice((None, None, None, 1e-7, 1 / 3.0, 1e7, 1e12))
    if scale:
        D = D * scale
        kind += " x %g" % scale
    cvrp = rng.random() < .6
    path = os.path.join(tmp, "p.vrp" if cvrp else "p.tsp")
    sel = None
    if rng.random() < .6:
        sel = rng.sample(range(n + 1), rng.randint(2, n + 1))
        if cvrp and 0 in sel and rng.random() < .7:
            sel.remove(0)
            sel.insert(0, 0)
    prec = rng.choice((None, None, 1000.0, 100, 10.0))
    d = C = L = None
    if cvrp and rng.random() < .8:
        d = [0] + [rng.choice((rng.randint(0, 50), rng.randint(1, 500) / 10.0, rng.choice((.1, 1 / 3.0)))) for _ in range(n)]
        if rng.random() < .5:
            d = [int(x) for x in d]
        C = rng.choice((rng.randint(1, 200), round(rng.uniform(1, 200), 2)))
    if cvrp and rng.random() < .5:
        L = rng.choice((rng.randint(1, 900), rng.uniform(1, 900), float(rng.randint(1, 900))))
    nodes = sel or list(range(n + 1))
    tag = "%s n=%d nodes=%s precision=%s d=%s C=%s L=%s %s" % (path[-3:], n, sel, prec, d, C, L, kind)
    data = {"D": D.tolist(), "what": tag}
    o = core.call(cvrp_io.write_TSPLIB_file, path, D, None if d is None else list(d), C, L, None if sel is None else list(sel), prec)
    rec.case((tag, D.tobytes()), len(nodes) > 2, {"problem": tag})
    if not o.ok:
        rec.bad("write-error/%s" % (core.where(o.exc) if o.exc else "no-end"), tag + ": " + o.why(), data)
        return
    o = core.call(cvrp_io.read_TSPLIB_CVRP, path)
    x = core.call(cvrp_io.read_TSBLIB_additional_constraints, path)
    if not o.ok or not x.ok:
        rec.bad("read-error", "%s: %s / %s" % (tag, o.why(), x.why()), data)
        return
    rec.count("problems")
    P, (K, rL, st) = o.value, x.value
    R = np.asarray(P.distance_matrix)
    if R.shape != (len(nodes), len(nodes)):
        rec.bad("shape", "%s: read back a matrix of shape %s" % (tag, R.shape), data)
        return
    for a, i in enumerate(nodes):
        for b, j in enumerate(nodes):
            want = float(D[i, j]) * (prec or 1)
            if abs(float(R[a, b]) - want) > (1.0001 if prec and D.dtype.kind == "f" else 1e-14 * want):
                rec.bad("distance", "%s: D[%d,%d] read back as %r, written %r" % (tag, i, j, R[a, b], want), data)
                return
    if d is not None:
        got, want = P.customer_demands, [0] + [d[i] for i in nodes[1:]]
        if got is None or len(got) != len(want) or any(abs(u - v) > 1e-14 * v for u, v in zip(got, want)):
            rec.bad("demands", "%s: demands read back as %r" % (tag, got), data)
    if C is not None and (P.capacity_constraint is None or abs(P.capacity_constraint - C) > 1e-9):
        rec.bad("capacity", "%s: capacity read back as %r" % (tag, P.capacity_constraint), data)
    want = None if L is None else L * (prec or 1)
    if (rL is None) != (want is None) or (want is not None and abs(rL - want) > 1e-14 * want):
        rec.bad("limit", "%s: cost limit read back as %r" % (tag, rL), data)
    if st is not None or K is not None:
        rec.bad("extra", "%s: vehicles %r, service time %r appeared" % (tag, K, st), data)


def plan(rng, tmp, rec):
    from verypy import cvrp_io
    n = rng.randint(1, 14)
    cust = rng.sample(range(1, n + rng.randint(1, 90)), n)
    k = rng.randint(1, n)
    cuts = [0] + sorted(rng.sample(range(1, n), k - 1)) + [n] if n > 1 else [0, n]
    routes = [cust[a:b] for a, b in zip(cuts, cuts[1:])]
    sol = [0]
    for r in routes:
        sol += r + [0]
        if rng.random() < .05:
            sol.append(0)
    cost = rng.choice((rng.randint(0, 9999), float(rng.randint(0, 9999)), rng.uniform(0, 9999), np.float64(rng.uniform(0, 99)), np.int64(77)))
    tag = "plan %s cost %r" % (sol, cost)
    path = os.path.join(tmp, "s.opt")
    o = core.call(cvrp_io.as_OPT_solution, cost, list(sol))
    rec.case((tag,), n > 2, {"plan": tag, "text": o.value})
    if not o.ok:
        rec.bad("opt-error", tag + ": " + o.why())
        return
    with open(path, "w") as f:
        f.write(o.value)
    o = core.call(cvrp_io.read_OPT_CVRP, path)
    if not o.ok:
        rec.bad("opt-read-error", tag + ": " + o.why())
    else:
        rs, rf, rk = o.value
        if oracle.routes_of(rs) != routes or rs[0] != 0 or rs[-1] != 0:
            rec.bad("opt-routes", "%s read back as %s" % (tag, rs))
        if rf is None or abs(rf - cost) > .005001:
            rec.bad("opt-cost", "%s read back with cost %r" % (tag, rf))
        if rk != len(routes):
            rec.bad("opt-k", "%s read back with %r vehicles" % (tag, rk))
        rec.count("plans")
    o = core.call(cvrp_io.as_VRPH_solution, list(sol))
    if not o.ok:
        rec.bad("vrph-error", tag + ": " + o.why())
        return
    v = list(o.value)
    back = []
    for x in v[1:-1]:
        if x < 0:
            back.append([-x])
        elif back:
            back[-1].append(x)
        else:
            back.append(["?", x])
    if v[-1] != 0 or v[0] != max(cust) + 1 or back != routes:
        rec.bad("vrph", "%s encoded as %s" % (tag, v))
    rec.count("VRPH encodings")
