"""Route first, cluster second: no consecutive partition is better."""
from .. import algs, budget, core, inst, oracle

CHUNKS = {"quick": 64, "thorough": 960}
MIN = {"quick": 15000, "thorough": 150000}
RULE = ("solvable instances of 1..14 customers in 13 layouts with capacity and/or cost limits, also service times and both objectives; the "
        "giant tour is the library's own, a random permutation, a polar order or a nearest neighbour order, the routes are taken as they are, "
        "in their cheapest order or as the library's 2-opt/3-opt leaves them. The plan is compared with a dynamic program over all "
        "partitions of that tour into consecutive routes, from every possible first customer. Non-trivial: at least 2 routes and "
        "4 customers; distinct by instance, tour and options")
ASSUMPTIONS = ["a route's cost is what the given route optimizer makes of it when it is built up customer by customer, as documented; a route "
               "is only considered when its beginnings are feasible too"]


def as_is(D, nodes):
    t = [int(x) for x in nodes]
    if t[0] != t[-1] or len(t) == 1:
        t = t + [t[0]]
    return t, float(oracle.cost(t, D))


def cheapest(D, nodes):
    """The optimal order, by Held-Karp, always the same for the same customers."""
    from .v10 import held_karp
    t, _ = as_is(D, nodes)
    cust = sorted(t[1:-1])
    best = held_karp(D, [0] + cust)
    # rebuild a tour of that cost
    import itertools
    if len(cust) <= 6:
        for p in itertools.permutations(cust):
            q = [0] + list(p) + [0]
            c = float(oracle.cost(q, D))
            if c <= best + 1e-9 * (1 + best):
                return q, c
    return None


def prefix(costs, tour, D, d, C, L, opt, n):
    """cost[u][m]: cost of serving m customers from tour[u] on (None: infeasible)."""
    out = []
    for u in range(n):
        row, cur, load = [None], [0, 0], 0.0
        for m in range(1, n + 1):
            v = tour[(u + m - 1) % n]
            load += d[v]
            if C and load > C + 1e-7 * (1 + abs(C)) * (costs if not whole(d, C) else 0):
                break
            cur = list(cur)
            cur[-1] = v
            cur, c = opt(D, cur)
            if L and c > L + 1e-7 * (1 + abs(L)) * (costs if not (D.dtype.kind == "i" and float(L).is_integer()) else 0):
                break
            row.append(float(c))
        out.append(row + [None] * (n + 1 - len(row)))
    return out


def whole(d, C):
    return float(C).is_integer() and all(float(x).is_integer() for x in d)


def best_partition(table, n, by_k):
    """Cheapest partition into consecutive routes, any first customer."""
    best = None
    for s in range(n):
        f = [(0, 0.0)] + [None] * n
        for k in range(1, n + 1):
            for j in range(k):
                c = table[(s + j) % n][k - j]
                if c is None or f[j] is None:
                    continue
                v = (f[j][0] + 1, f[j][1] + c)
                if f[k] is None or (v if by_k else v[1]) < (f[k] if by_k else f[k][1]):
                    f[k] = v
        if f[n] is not None and (best is None or (f[n] if by_k else f[n][1]) < (best if by_k else best[1])):
            best = f[n]
    return best


def tours(rng, kind, I):
    cust = list(range(1, I.N))
    if kind == "random":
        rng.shuffle(cust)
    elif kind == "polar":
        import math
        cust.sort(key=lambda i: (math.atan2(I.pts[i][1] - I.pts[0][1], I.pts[i][0] - I.pts[0][0]), i))
    elif kind == "nearest":
        out, left = [cust[0]], set(cust[1:])
        while left:
            nx = min(left, key=lambda j: (I.Dc[out[-1], j], j))
            left.discard(nx)
            out.append(nx)
        cust = out
    return cust + [cust[0]]


def chunk(rng, idx, tier, rec):
    from verypy.tsp_solvers import tsp_solver_ropt as ropt
    for _ in range(900):
        I = inst.make(rng, nmin=1, nmax=rng.choice((6, 9, 14)), cons=rng.choice(("C", "CL", "L", "C", "none")))
        if rng.random() < .25:
            near_and_far(rng, I)
        min_k = rng.random() < .5
        how = rng.choice(("as is", "as is", "2opt", "default", "optimal"))
        if how == "optimal" and I.N > 7:
            how = "as is"
        kind = rng.choice(("random", "polar", "nearest", "library"))
        one(rng, rec, I, min_k, how, kind, ropt)


def near_and_far(rng, I):
    """Customers around the depot and groups far away: splits differ a lot in cost."""
    x0, y0 = I.pts[0]
    far = [(rng.uniform(-300, 300), rng.uniform(-300, 300)) for _ in range(rng.randint(1, 3))]
    pts = [(x0, y0)]
    for _ in range(I.N - 1):
        c = rng.choice(far) if rng.random() < .6 else (0, 0)
        pts.append((x0 + c[0] + rng.gauss(0, 2), y0 + c[1] + rng.gauss(0, 2)))
    scale = 1 if not I.L else float(I.L) / max(float(I.Dc[0, i] + I.Dc[i, 0]) for i in range(1, I.N)) if I.Dc.any() else 1
    I.pts = pts
    I.D = I.Dc = inst.matrix(pts, I.D.dtype.kind == "i")
    I.st = None
    if I.L:
        I.L = scale * max(float(I.Dc[0, i] + I.Dc[i, 0]) for i in range(1, I.N)) * 1.0001 + 1e-6


def one(rng, rec, I, min_k, how, kind, ropt):
    from verypy.classic_heuristics import rfcs
    n = I.N - 1
    part = {"as is": as_is, "2opt": ropt.solve_tsp_2opt, "default": ropt.solve_tsp_2opt, "optimal": cheapest}[how]
    final = {"as is": as_is, "2opt": as_is, "default": ropt.solve_tsp_3opt, "optimal": cheapest}[how]
    seen = []
    fixed = tours(rng, kind, I) if kind != "library" else None
    gen0 = getattr(rfcs, "solve_tsp_intial", None) or ropt.solve_tsp_2opt

    def gen(D, nodes):
        if fixed is not None:
            t = list(fixed)
            c = float(oracle.cost(t, D))
        else:
            t, c = gen0(D, nodes)
        seen.append([int(x) for x in t])
        return t, c

    kw = {} if how == "default" else {"partition_tsp_opt_algo": part, "route_tsp_opt_algo": final}
    D, d = I.Dc.copy(), list(I.d)
    o = core.call(rfcs.route_first_cluster_second_init, D, d, I.C, I.L, min_k, tsp_gen_algo=gen, **kw)
    tag = "rfcs minK=%d routes %s, giant tour %s %s, C=%s L=%s" % (min_k, how, kind, seen[:1], I.C, I.L)
    if not o.ok:
        rec.bad("error/%s" % (core.where(o.exc) if o.exc else "no-end"), tag + ": " + o.why(), I.describe())
        return
    sol = [int(x) for x in o.value]
    faults = oracle.plan_faults(sol, I.N, I.d, I.C, I.Dc, I.L)
    routes = oracle.routes_of(sol)
    rec.case((tag, repr(I.pts), repr(I.d)), len(routes) > 1 and n > 3, {"run": tag, "plan": sol})
    rec.count("plans %s" % how)
    rec.high("routes", len(routes))
    if faults:
        rec.bad("plan/%s" % faults[0][0], "%s -> %s: %s" % (tag, sol, faults[0][1]), I.describe())
        return
    if n < 2 or not seen:
        return
    tour = seen[0][:-1] if seen[0][0] == seen[0][-1] and len(seen[0]) > 1 else seen[0]
    if sorted(tour) != list(range(1, I.N)):
        rec.maybe("giant tour is not over the customers")
        return
    # consecutive?
    pos = {v: i for i, v in enumerate(tour)}
    for r in routes:
        p = sorted(pos[x] for x in r)
        gaps = sum(1 for a, b in zip(p, p[1:] + [p[0] + n]) if b - a != 1)
        if gaps > 1 and len(p) < n:
            rec.bad("notconsecutive", "%s -> %s: route %s is not a stretch of the giant tour" % (tag, sol, r), I.describe())
            return
        if how == "as is" and len(p) < n and any((pos[b] - pos[a]) % n != 1 for a, b in zip(r, r[1:])) \
                and any((pos[a] - pos[b]) % n != 1 for a, b in zip(r, r[1:])):
            rec.bad("reordered", "%s -> %s: route %s is not in tour order" % (tag, sol, r), I.describe())
            return
    table = prefix(-1, tour, I.Dc, I.d, I.C, I.L, part, n)
    best = best_partition(table, n, min_k)
    if best is None:
        rec.maybe("no partition is feasible beyond rounding")
        return
    rec.count("partitions compared")
    true = oracle.cost(sol, I.Dc)
    eps = 1e-6 * (1 + true)
    K = len(routes)
    if min_k and K > best[0]:
        rec.bad("more-routes", "%s -> %s: %d routes, %d are enough (%r)" % (tag, sol, K, best[0], best), I.describe())
    elif (not min_k or K == best[0]) and true > best[1] + eps:
        rec.bad("not-optimal", "%s -> %s costs %r, the best partition %r with %d routes" % (tag, sol, true, best[1], best[0]), I.describe())
    if how in ("as is", "optimal"):
        lo = best_partition(prefix(1, tour, I.Dc, I.d, I.C, I.L, part, n), n, min_k)
        if lo and ((not min_k and true < lo[1] - eps) or (min_k and (K < lo[0] or K == lo[0] and true < lo[1] - eps))):
            rec.bad("impossible", "%s -> %s is better than every partition of its tour (%r)" % (tag, sol, lo), I.describe())
