"""Nothing the caller passes is different after the call."""
import os
import tempfile

import numpy as np

from .. import algs, budget, core, env, fake, inst, lsgen

fake.install()
CHUNKS = {"quick": 40, "thorough": 480}
MIN = {"quick": 10000, "thorough": 120000}
CHUNK_SECONDS = 300
RULE = ("deep snapshots (type, dtype, memory order, every value; routes and books of RouteData objects) of every argument before and after "
        "each call: all heuristics on instances of 2..9 customers with points as list of tuples, list of lists or array, demands as list, "
        "tuple or array, matrices in C or Fortran order of several number types or read-only; intra-route, inter-route and whole-plan "
        "operators, local search, naive operators, TSP solvers, solution, file and plan utilities; about half of the calls are repeated "
        "with an interruption at a point sampled over the run. Calls that fail are judged like those that succeed. "
        "Distinct by function, arguments and interruption point; non-trivial: at least 2 customers")
ASSUMPTIONS = ["whether an unusual container is supported at all is not judged here, only that nothing in it changes",
               "auxiliary cumulative sums that the library keeps in RouteData objects are its own"]


def freeze(x):
    """A value that is equal later only if nothing in x changed."""
    from verypy.routedata import RouteData
    if isinstance(x, np.ndarray):
        if x.dtype == object:
            return ("objarray", x.shape, tuple(freeze(v) for v in x.ravel()))
        return ("array", x.dtype.str, x.shape, x.strides, x.tobytes())
    if isinstance(x, RouteData):
        return ("route",) + tuple(freeze(v) for v in (x.route, x.cost, x.demand, x.node_set))
    if isinstance(x, (list, tuple)):
        return (type(x).__name__,) + tuple(freeze(v) for v in x)
    if isinstance(x, (set, frozenset)):
        return ("set", frozenset(x))
    if isinstance(x, dict):
        return ("dict",) + tuple((freeze(k), freeze(v)) for k, v in x.items())
    if isinstance(x, (int, float, np.generic)):
        return (type(x).__name__, repr(x))
    if isinstance(x, (str, bytes)) or x is None:
        return x
    return ("other", id(x))


def watch(rec, name, names, f, args, rng, points=1, sig=None, n=3, kw=None):
    """Call f(*args); compare every argument. Then again, interrupted."""
    kw = kw or {}
    runs, total = [None], None
    for k in range(points + 1):
        at = None
        if k:
            if not total:
                return
            at = rng.randint(1, total)
        before = [freeze(a) for a in args]
        b = budget.interrupt(at, limit=15000000)
        q = env.quiet()
        e = None
        try:
            with q, b:
                f(*args, **kw)
        except (Exception, KeyboardInterrupt, SystemExit, budget.OutOfSteps) as ex:
            e = ex
        how = "whole"
        if isinstance(e, budget.OutOfSteps):
            how = "cut off"
        elif b.fired:
            how = "interrupted"
        elif e is not None:
            how = "failed"
        rec.count("calls " + how)
        rec.case((name, sig, at), n >= 2, {"call": name, "ended": how})
        for a, was, what in zip(args, before, names):
            now = freeze(a)
            if now != was:
                rec.bad("mutated/%s/%s" % (name, what), "%s (%s) changed %s: %s -> %s" %
                        (name, how if not b.fired else how + " " + str(b.where), what, short(was), short(now)),
                        {"call": name, "sig": str(sig), "at": at})
                return
        if at is None:
            total = b.n
            if how == "cut off":
                return


def short(x):
    s = repr(x)
    return s if len(s) < 300 else s[:300] + "..."


def chunk(rng, idx, tier, rec):
    heuristics(rng, tier, rec)
    for _ in range(14):
        operators(rng, rec)
    for _ in range(10):
        utilities(rng, rec)
    for _ in range(4):
        tsp(rng, rec)


# ---- heuristics ------------------------------------------------------------
def shapes(rng, I):
    """The instance's data in the containers a caller may have."""
    pk = rng.choice(("tuples", "tuples", "lists", "array"))
    pts = {"tuples": [tuple(p) for p in I.pts], "lists": [list(p) for p in I.pts], "array": np.array(I.pts, dtype=float)}[pk]
    dk = rng.choice(("list", "list", "tuple", "array", "floatarray"))
    d = {"list": list(I.d), "tuple": tuple(I.d), "array": np.array(I.d), "floatarray": np.array(I.d, dtype=float)}[dk]
    Dk = rng.choice(("C", "C", "C", "F", "f4", "view", "frozen"))
    D = I.Dc.copy()
    if Dk == "F":
        D = np.asfortranarray(D)
    elif Dk == "f4":
        D = D.astype(np.float32 if D.dtype.kind == "f" else np.int32)
    elif Dk == "view":
        big = np.zeros((len(D) * 2, len(D) * 2), dtype=D.dtype)
        big[::2, ::2] = D
        D = big[::2, ::2]
    elif Dk == "frozen":
        D.setflags(write=False)
    return (pk, dk, Dk), pts, D, d


def heuristics(rng, tier, rec):
    names = list(algs.ALL)
    rng.shuffle(names)
    for rep in range(2):
        I = inst.make(rng, nmin=2, nmax=rng.choice((5, 9)), cons=rng.choice(("C", "CL", "CL", "L", "none")))
        for a in names:
            for single in (True, False):
                min_k = rng.random() < .4
                if a == "gap" and I.L and (I.N > 6 or not single) or a == "ptl" and I.N > 9:
                    continue
                kinds, pts, D, d = shapes(rng, I)
                if a == "gap" and kinds[0] != "tuples" and rng.random() < .5:
                    pts, kinds = [tuple(p) for p in I.pts], ("tuples",) + kinds[1:]
                st, wtt = I.st, I.wtt
                f = algs.get(a)
                rec.count("containers %s/%s/%s" % kinds)
                watch(rec, a, ("points", "distance matrix", "demands"),
                      lambda p, m, q: f(p, m, q, I.C, I.L, st, wtt, single, min_k), (pts, D, d), rng,
                      points=2, sig=(kinds, single, min_k, repr(I.pts), repr(I.d), I.C, I.L), n=I.N - 1)


# ---- operators -------------------------------------------------------------
def operators(rng, rec):
    from verypy.local_search import do_local_search, inter_route_operators as inter, intra_route_operators as intra
    from verypy.local_search import naive_implementations as naive, solution_operators as whole
    from verypy.routedata import RouteData
    n = rng.randint(2, 9)
    s = lsgen.state(rng, n, nroutes=rng.randint(1, min(4, n)))
    if rng.random() < .3:
        s.D = np.asfortranarray(s.D)
    d = rng.choice((list, list, tuple))(s.d)
    sig = (s.D.tobytes(), repr(s.routes), repr(d), s.C, s.L)
    level = rng.choice((None, None, 0, 25.0, 1000.0))
    strategy = rng.choice((1, 2))
    for name in ("do_2opt_move", "do_3opt_move", "do_relocate_move", "do_exchange_move"):
        r = list(max(s.routes, key=len))
        watch(rec, name, ("route", "distance matrix"), getattr(intra, name), (r, s.D, strategy, level), rng, 1, sig + (strategy, level), n)

    def rds(routes, sets):
        return [RouteData(list(r), float(lsgen.cost(r, s.D)), sum(s.d[i] for i in r), set(r) - {0} if sets else None) for r in routes]

    sets = rng.random() < .5
    for name, k in (("do_2optstar_move", 2), ("do_1point_move", 2), ("do_2point_move", 2), ("do_chain_move", 3)):
        if len(s.routes) < k:
            continue
        given = rds(rng.sample(s.routes, k), sets)
        watch(rec, name, ("route 1", "route 2", "route 3")[:k] + ("distance matrix", "demands"), getattr(inter, name),
              tuple(given) + (s.D, d, s.C, s.L, strategy, level), rng, 1, sig + (strategy, level, repr([g.route for g in given])), n)
    if len(s.routes) > 1:
        idx = rng.sample(range(len(s.routes)), len(s.routes))
        src, dst = s.routes[idx[0]], s.routes[idx[1]]
        form = rng.choice(("route", "list", "one"))
        arg = rds([src], sets)[0] if form == "route" else (list(src[1:-1]) if form == "list" else src[1])
        watch(rec, "do_insert_move", ("customers", "receiving route", "distance matrix", "demands"), inter.do_insert_move,
              (arg, rds([dst], sets)[0], s.D, d, s.C, s.L, strategy, level), rng, 2, sig + (form, strategy, level), n)
        recv = rds([s.routes[i] for i in idx[1:]], sets)
        lev = rng.choice((0, 1, 2, 3)) if len(src) < 6 else 0
        watch(rec, "do_redistribute_move", ("route", "receiving routes", "distance matrix", "demands"), inter.do_redistribute_move,
              (rds([src], sets)[0], recv, s.D, d, s.C, s.L, strategy, level, lev), rng, 2, sig + (lev, strategy, level), n)
    sol = RouteData.to_solution(rds(s.routes, False))
    watch(rec, "do_3optstar_move", ("plan", "distance matrix", "demands"), whole.do_3optstar_move,
          (sol, s.D, d, s.C, s.L, strategy, level), rng, 1, sig + (strategy, level), n)
    try:
        from verypy.local_search import inter_route_3opt_operators as io3
        for name, k in (("do_3optstar_2route_move", 2), ("do_3optstar_3route_move", 3)):
            if len(s.routes) >= k:
                given = rds(rng.sample(s.routes, k), sets)
                for g in given:
                    g.update_auxiliary_data(s.D, list(d))
                watch(rec, name, ("route 1", "route 2", "route 3")[:k] + ("distance matrix", "demands"), getattr(io3, name),
                      tuple(given) + (s.D, d, s.C, s.L, strategy, level), rng, 1, sig + (strategy, level), n)
    except ImportError:
        rec.count("no 3-opt* operators for routes")
    ops = [getattr(intra, x) for x in ("do_2opt_move", "do_3opt_move", "do_relocate_move", "do_exchange_move")] + \
          [getattr(inter, x) for x in ("do_2optstar_move", "do_1point_move", "do_2point_move", "do_chain_move")]
    rng.shuffle(ops)
    chosen = ops[:rng.randint(1, 4)]
    watch(rec, "do_local_search", ("operators", "plan", "distance matrix", "demands"), do_local_search,
          (chosen, sol, s.D, d, s.C, s.L, strategy, rng.choice((1, 2, 3, 4)), rng.choice((None, 1, 2))), rng, 3, sig + (strategy, repr(chosen)), n)
    plain = [x for r in s.routes if len(r) > 2 for x in r[:-1]] + [0]
    for name in ("do_naive_2opt_move", "do_naive_2optstar_move", "do_naive_1point_move", "do_naive_relocate_move", "do_naive_2point_move",
                 "do_naive_exchange_move", "do_naive_3optstar_move"):
        if n > 6 and name == "do_naive_3optstar_move":
            continue
        watch(rec, name, ("plan", "distance matrix", "demands"), getattr(naive, name), (plain, s.D, d, s.C, s.L), rng, 1, sig, n)


# ---- TSP solvers -----------------------------------------------------------
def tsp(rng, rec):
    from .v10 import solvers
    sol = solvers()
    n = rng.randint(2, 9)
    D, kind = lsgen.matrix(rng, n)
    nodes = rng.sample(range(n + 1), rng.randint(2, n + 1))
    if rng.random() < .4:
        nodes = list(range(n + 1))
    if rng.random() < .3:
        nodes = nodes + [nodes[0]]
    if rng.random() < .2:
        nodes = tuple(nodes)
    for name, f in sol.items():
        if name in ("lkh", "acotsp", "acotsp_ants", "fast") and rng.random() < .7:
            continue
        watch(rec, "tsp " + name, ("distance matrix", "nodes"), f, (D, nodes), rng, 1 if name not in ("lkh", "acotsp", "acotsp_ants") else 0,
              (D.tobytes(), repr(nodes)), n)


# ---- utilities -------------------------------------------------------------
def utilities(rng, rec):
    from verypy import cvrp_io, cvrp_ops, shared_cli, util
    from verypy.routedata import RouteData
    n = rng.randint(1, 10)
    s = lsgen.state(rng, n)
    routes = [list(r) for r in s.routes]
    sol = [0]
    for r in s.routes:
        sol += r[1:]
    if rng.random() < .3:
        sol = [x for y in sol for x in ([y, 0] if y == 0 and rng.random() < .3 else [y])]
    listing = rng.choice((sol, routes, [r[1:-1] for r in routes], [tuple(r) for r in routes], tuple(sol), sol[:-1]))
    d = rng.choice((list(s.d), tuple(s.d), np.array(s.d)))
    sig = (s.D.tobytes(), repr(listing), repr(d))
    P, M, Q = "plan", "distance matrix", "demands"
    watch(rec, "normalize_solution", (P,), cvrp_ops.normalize_solution, (listing,), rng, 1, sig, n)
    watch(rec, "recalculate_objective", (P, M), cvrp_ops.recalculate_objective, (listing, s.D), rng, 1, sig, n)
    watch(rec, "validate_solution_feasibility", (P, M, Q), cvrp_ops.validate_solution_feasibility,
          (listing if not isinstance(listing[0], (list, tuple)) else sol, s.D, d, s.C, s.L, rng.random() < .5), rng, 1, sig, n)
    watch(rec, "D2D_c", (M,), cvrp_ops.D2D_c, (s.D, rng.choice((2, 5, 2.5, 7))), rng, 0, sig, n)
    if rng.random() < .1 and n > 2:
        watch(rec, "generate_missing_coordinates", (M,), cvrp_ops.generate_missing_coordinates, (s.D,), rng, 0, sig, n)
    watch(rec, "objf", (P, M), util.objf, (sol, s.D), rng, 0, sig, n)
    watch(rec, "totald", (P, Q), util.totald, (sol, list(s.d)), rng, 0, sig, n)
    watch(rec, "sol2routes", (P,), util.sol2routes, (sol,), rng, 1, sig, n)
    watch(rec, "routes2sol", ("routes",), util.routes2sol, (routes,), rng, 1, sig, n)
    watch(rec, "without_empty_routes", (P,), util.without_empty_routes, (sol,), rng, 0, sig, n)
    watch(rec, "sol2edgeset", (P,), util.sol2edgeset, (sol, rng.random() < .5), rng, 0, sig, n)
    watch(rec, "produce_nn_list", (M,), util.produce_nn_list, (s.D,), rng, 0, sig, n)
    names = ["p%d.vrp" % rng.randint(0, 30) for _ in range(4)]
    watch(rec, "natural_sort", ("list",), util.natural_sort, (names,), rng, 0, repr(names), n)
    watch(rec, "as_VRPH_solution", (P,), cvrp_io.as_VRPH_solution, (sol,), rng, 0, sig, n)
    watch(rec, "as_OPT_solution", (P,), lambda x: cvrp_io.as_OPT_solution(10.0, x), (sol,), rng, 0, sig, n)
    pts = [(rng.uniform(0, 9), rng.uniform(0, 9)) for _ in range(n + 1)]
    pts = rng.choice((pts, [list(p) for p in pts], np.array(pts)))
    other = rng.choice((None, pts[1:]))
    for ewt in ("EUC_2D", "GEO", "CEIL_2D", "MAX_2D", "MAN_2D", "ATT", "EXACT_2D", "FLOOR_2D"):
        watch(rec, "calculate_D", ("points", "other points"), cvrp_io.calculate_D, (pts, other, ewt), rng, 0, repr(pts) + ewt, n)
    tmp = tempfile.mkdtemp(prefix="rv-v04-")
    try:
        for ext in (".vrp", ".tsp"):
            path = os.path.join(tmp, "p" + ext)
            sel = rng.choice((None, rng.sample(range(n + 1), rng.randint(1, n + 1))))
            watch(rec, "write_TSPLIB_file", (M, Q, "selected nodes"), lambda m, q, x: cvrp_io.write_TSPLIB_file(
                path, m, q, s.C, s.L, x, rng.choice((None, 1000))), (s.D, list(s.d), sel), rng, 1, sig, n)
    finally:
        for f in os.listdir(tmp):
            os.unlink(os.path.join(tmp, f))
        os.rmdir(tmp)
    for cls in ("from_solution", "from_routes"):
        arg = sol if cls == "from_solution" else routes
        watch(rec, cls, (P, M, Q), getattr(RouteData, cls), (arg, s.D, list(s.d)), rng, 1, sig, n)
    rds = RouteData.from_routes([list(r) for r in routes], s.D, list(s.d))
    watch(rec, "to_solution", ("routes",), RouteData.to_solution, (rds,), rng, 0, sig, n)
    watch(rec, "update_auxiliary_data", (M, Q), rds[0].update_auxiliary_data, (s.D, list(s.d)), rng, 1, sig, n)
    Dc = s.D.astype(float)
    watch(rec, "print_solution_statistics", (P, M, "cost matrix", Q), shared_cli.print_solution_statistics,
          (sol, s.D, Dc, list(s.d), s.C, s.L, None, rng.choice((-1, 1, 3))), rng, 0, sig, n)
    watch(rec, "print_problem_information", ("points", M, Q), shared_cli.print_problem_information,
          (pts, s.D, list(s.d), s.C, s.L, None, None, rng.choice((0, 1, 3, 4))), rng, 0, sig, n)
