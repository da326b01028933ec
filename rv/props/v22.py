"""Improvement phases never spoil what they start from and are not cut short."""
import itertools

import numpy as np

from .. import algs, core, inst, lsgen, oracle
from .v08 import joins

CHUNKS = {"quick": 64, "thorough": 900}
MIN = {"quick": 1800, "thorough": 25000}
RULE = ("solvable instances of 1..13 customers, single and full runs, both objectives. Each construction is run with and without its improvement "
        "(savings and 2-opt, generalized savings and 3-opt per parameter pair, sweep with routed routes, any heuristic's plan and a local search "
        "over 1..6 operators run twice; routes of up to 26 customers included); in the plans of heuristics that re-optimize their routes every 2-opt, relocate or 3-opt move of every "
        "route is built from its definition, in those of the Lagrangean heuristic every 3-opt* move of the whole plan. Non-trivial: the "
        "improvement changed the plan, or a route of 3 or more customers was searched; distinct by instance and configuration")
ASSUMPTIONS = ["the mixed integer solver's optimality gap of 1e-4 is allowed where it routes",
               "the delete step of Wren and Holliday may worsen a plan as published, so their plans are not compared with the sweep"]


def cost(sol, D):
    return float(oracle.cost(sol, D))


def two(r, D):
    """Smallest cost change of a 2-opt move of depot + r."""
    t = [0] + r + [0]
    return min((D[t[i], t[j]] + D[t[i + 1], t[j + 1]] - D[t[i], t[i + 1]] - D[t[j], t[j + 1]]
                for i in range(len(t) - 2) for j in range(i + 2, len(t) - 1)), default=0)


def _len(t, D):
    return sum(D[t[i - 1], t[i]] for i in range(len(t)))


def relocate(r, D):
    t = [0] + r
    c, best = _len(t, D), 0
    for i in range(1, len(t)):
        u = t[:i] + t[i + 1:]
        for j in range(1, len(t)):
            best = min(best, _len(u[:j] + [t[i]] + u[j:], D) - c)
    return best


def three(r, D):
    t = [0] + r
    n = len(t)
    c, best = _len(t, D), 0
    for i, j, k in itertools.combinations(range(1, n + 1), 3):
        a, b, e, f = t[:i], t[i:j], t[j:k], t[k:]
        for x in (b, b[::-1]):
            for y in (e, e[::-1]):
                best = min(best, _len(a + x + y + f, D) - c, _len(a + y + x + f, D) - c)
    return best


def three_long(r, D):
    """three() for long routes of a symmetric matrix, one k at a time."""
    t = np.array([0] + list(r) + [0])
    n, best = len(t) - 1, 0
    E = np.asarray(D, dtype=float)[np.ix_(t, t)]
    i, j = np.triu_indices(n, 1)
    i, j = i + 1, j + 1                           # cuts before positions i < j < k <= n
    for k in range(3, n + 1):
        a, b = i[j < k], j[j < k]
        old = E[a - 1, a] + E[b - 1, b] + E[k - 1, k]
        for p, q in (((a, b - 1), (b, k - 1)), ((b, k - 1), (a, b - 1))):
            for p0, p1 in (p, p[::-1]):
                for q0, q1 in (q, q[::-1]):
                    best = min(best, float(np.min(E[a - 1, p0] + E[p1, q0] + E[q1, k] - old)))
    return best


MOVES = {"2-opt": two, "relocate": relocate, "3-opt": three}
OPTIMAL = {"cmt": ("3-opt",), "gm": ("3-opt",), "gps": ("3-opt",), "lr3o": ("3-opt",), "rfcs": ("3-opt",), "ty": ("3-opt",),
           "mbsa": ("3-opt",), "gap": ("3-opt",), "ps2o": ("2-opt",), "wh": ("2-opt", "relocate"), "mj": ("2-opt",)}
GAP = {"mbsa": 1.01e-4, "gap": 1.01e-4}


def chunk(rng, idx, tier, rec):
    for n in range(8):
        I = inst.make(rng, nmin=1, nmax=rng.choice((6, 9, 13)))
        min_k = rng.random() < .5
        for abbr in OPTIMAL:
            slow = abbr in ("gap", "wh", "gm")
            if slow and (I.N > 11 or I.N > 8 and n % 2) or abbr == "gap" and I.L and I.N > 6:
                continue
            routes(rng, rec, I, abbr, rng.random() < .5, min_k and abbr not in algs.NO_MIN_K)
        savings(rng, rec, I, min_k)
        paessens(rng, rec, I, min_k)
        polish(rng, rec, I, min_k)
        lagrange(rng, rec, I if I.N <= 9 else inst.make(rng, nmin=2, nmax=8))
        routed_sweep(rng, rec, I, min_k)
        for _ in range(3):
            converged(rng, rec, inst.make(rng, nmin=4, nmax=14, cons=rng.choice(("C", "C", "CL", "L"))), rng.random() < .4)
    for _ in range(5):
        long_routes(rng, rec)


def routes(rng, rec, I, abbr, single, min_k):
    if algs.unsupported(abbr, I, min_k):
        return
    o = algs.solve(abbr, I, single, min_k)
    if not o.ok or o.value is None:
        rec.count("no plan (judged by V01)") if o.ended else rec.maybe("did not end")
        return
    tag = "%s%s%s C=%s L=%s" % (abbr, " single" if single else "", " minK" if min_k else "", I.C, I.L)
    for r in oracle.routes_of([int(x) for x in o.value]):
        r = [int(x) for x in r]
        if len(r) > 11:
            continue
        for name in OPTIMAL[abbr]:
            gain = MOVES[name](r, I.Dc)
            c = _len([0] + r, I.Dc)
            rec.case((tag, name, repr(r), repr(I.pts)), len(r) > 2, {"run": tag, "route": r, "move": name})
            rec.count("routes searched for %s moves" % name)
            if gain < -1e-6 * (1 + c) - GAP.get(abbr, 0) * c:
                rec.bad("%s/%s" % (abbr, name), "%s: a %s move of route %s gains %g" % (tag, name, r, -gain), I.describe())


def long_routes(rng, rec):
    """Routes long enough to take many moves to improve."""
    from verypy.classic_heuristics.paessens_savings import paessens_savings_init as f
    I = inst.make(rng, nmin=14, nmax=26, cons=rng.choice(("C", "none", "L")), service=False)
    if I.C:
        I.C = sum(I.d) / rng.choice((1, 1, 2)) + max(I.d)
    if I.L:
        I.L *= 4
    runs = [(a, lambda a=a, b=rng.random() < .5: algs.solve(a, I, b, False)) for a in ("cmt", "gps", "rfcs", "ps2o", "mj", "ty")]
    par = [(round(rng.uniform(.1, 2), 2), round(rng.uniform(0, 1), 2))]
    runs.append(("gps", lambda: core.call(f, I.Dc.copy(), list(I.d), I.C, I.L, False, par, True)))
    for abbr, run in runs:
        o = run()
        if not o.ok or o.value is None:
            rec.count("no plan (judged by V01)") if o.ended else rec.maybe("did not end")
            continue
        tag = "%s C=%s L=%s" % (abbr, I.C, I.L)
        for r in oracle.routes_of([int(x) for x in o.value]):
            r = [int(x) for x in r]
            if not 2 < len(r):
                continue
            for name in OPTIMAL[abbr]:
                gain = {"3-opt": three_long}.get(name, MOVES[name])(r, I.Dc)
                c = _len([0] + r, I.Dc)
                rec.case((tag, name, repr(r), repr(I.pts)), len(r) > 2, {"run": tag, "route": r, "move": name})
                rec.count("long routes searched for %s moves" % name)
                if gain < -1e-6 * (1 + c):
                    rec.bad("%s/%s" % (abbr, name), "%s: a %s move of route %s gains %g" % (tag, name, r, -gain), I.describe())


def compare(rec, I, key, tag, before, after, fewer=False):
    """after: improved plan; never dearer (or, on request, of more routes)."""
    a, b = [int(x) for x in before.value], [int(x) for x in after.value]
    rec.case((tag, repr(I.pts), repr(I.d)), a != b, {"pair": tag, "before": a, "after": b})
    rec.count("pairs " + key)
    if cost(b, I.Dc) > cost(a, I.Dc) + 1e-7 * (1 + cost(a, I.Dc)):
        rec.bad(key + "/dearer", "%s: %s (%g) became %s (%g)" % (tag, a, cost(a, I.Dc), b, cost(b, I.Dc)), I.describe())
    if fewer and len(oracle.routes_of(b)) > len(oracle.routes_of(a)):
        rec.bad(key + "/routes", "%s: %s became %s" % (tag, a, b), I.describe())
    for kind, text in oracle.plan_faults(b, I.N, I.d, I.C, I.Dc, I.L):
        rec.bad("%s/%s" % (key, kind), "%s: %s" % (tag, text), I.describe())


def both(rec, I, key, tag, p, q, fewer=False):
    if p.ok and q.ok and p.value is not None and q.value is not None:
        compare(rec, I, key, tag, p, q, fewer)
    elif p.ended and q.ended:
        rec.bad(key + "/error", "%s: %s, %s" % (tag, p.why(), q.why()), I.describe())
    elif p.ended:
        rec.bad(key + "/no-end", "%s: %s" % (tag, q.why()), I.describe())
    else:
        rec.maybe("did not end")


def savings(rng, rec, I, min_k):
    p = algs.solve("ps", I, False, min_k)
    q = algs.solve("ps2o", I, False, min_k)
    both(rec, I, "savings and 2-opt", "ps, ps2o minK=%d C=%s L=%s" % (min_k, I.C, I.L), p, q, True)


def paessens(rng, rec, I, min_k):
    from verypy.classic_heuristics.paessens_savings import paessens_savings_init as f
    for _ in range(2):
        par = [(round(rng.uniform(.1, 3), 2), round(rng.uniform(0, 1), 2))]
        p = core.call(f, I.Dc.copy(), list(I.d), I.C, I.L, min_k, par, False)
        q = core.call(f, I.Dc.copy(), list(I.d), I.C, I.L, min_k, par, True)
        both(rec, I, "generalized savings and 3-opt", "paessens %s minK=%d C=%s L=%s" % (par, min_k, I.C, I.L), p, q, True)


def routed_sweep(rng, rec, I, min_k):
    """One sweep without limits is one route: routing it can only shorten it."""
    from verypy.classic_heuristics.sweep import sweep_init as f
    from verypy.tsp_solvers.tsp_solver_ropt import solve_tsp_3opt, solve_tsp_2opt
    solver, move = rng.choice(((solve_tsp_3opt, three), (solve_tsp_2opt, two)))
    way, k = rng.choice(("cw", "ccw")), rng.randrange(I.N - 1)
    pts = [tuple(p) for p in I.pts]
    q = core.call(f, pts, I.Dc.copy(), list(I.d), I.C, I.L, min_k, way, [k], solver)
    tag = "sweep %s from %d routed C=%s L=%s" % (way, k, I.C, I.L)
    if not q.ok:
        rec.maybe("did not end") if not q.ended else rec.bad("routed sweep/error", "%s: %s" % (tag, q.why()), I.describe())
        return
    plan = [int(x) for x in q.value]
    for kind, text in oracle.plan_faults(plan, I.N, I.d, I.C, I.Dc, I.L):
        rec.bad("routed sweep/" + kind, "%s: %s" % (tag, text), I.describe())
    for r in oracle.routes_of(plan):
        if len(r) > 11:
            continue
        rec.count("routed sweep routes")
        rec.case((tag, repr(r), repr(I.pts)), len(r) > 2)
        if move(list(r), I.Dc) < -1e-6 * (1 + _len([0] + list(r), I.Dc)):
            rec.bad("routed sweep/improvable", "%s: route %s of %s" % (tag, r, plan), I.describe())
    if not I.C and not I.L:
        p = core.call(f, pts, I.Dc.copy(), list(I.d), None, None, min_k, way, [k])
        both(rec, I, "sweep and routing", tag, p, q)


def surely(sol, I):
    """Feasible beyond rounding."""
    for r in oracle.routes_of(sol):
        if I.C and sum(I.d[n] for n in r) > I.C + 1e-9 * (1 + abs(I.C)):
            return False
        if I.L and _len([0] + list(r), I.Dc) > I.L - 1e-9 * (1 + abs(I.L)):
            return False
    return True


def polish(rng, rec, I, min_k):
    """Post-optimization as the command line does it, twice."""
    from verypy.local_search import do_local_search
    from verypy.local_search import inter_route_operators as b
    from verypy.local_search import intra_route_operators as a
    ops = [a.do_2opt_move, a.do_3opt_move, a.do_relocate_move, a.do_exchange_move, b.do_2optstar_move, b.do_1point_move, b.do_2point_move]
    abbr = rng.choice(("ps", "ss", "si", "pi", "sn", "pn", "swp", "ims", "gpl", "mj"))
    p = algs.solve(abbr, I, True, min_k and abbr not in algs.NO_MIN_K)
    if not p.ok:
        return
    ops = rng.sample(ops, rng.randint(1, 6))
    st, it = rng.choice((1, 2)), rng.choice((1, 2, 3, 4))
    go = lambda sol: core.call(do_local_search, ops, list(sol), I.Dc.copy(), list(I.d), I.C, I.L, st, it)
    q = go([int(x) for x in p.value])
    tag = "%s then %s %d/%d C=%s L=%s" % (abbr, "+".join(o.__name__[3:-5] for o in ops), st, it, I.C, I.L)
    both(rec, I, "polish", tag, p, q)
    if not q.ok:
        return
    z = go([int(x) for x in q.value])
    if not z.ok:
        rec.bad("polish/error", "%s again: %s" % (tag, z.why()), I.describe())
        return
    rec.count("polished twice")
    u, v = [int(x) for x in q.value], [int(x) for x in z.value]
    if oracle.routes_of(u) != oracle.routes_of(v) and abs(cost(u, I.Dc) - cost(v, I.Dc)) > 1e-7 * (1 + cost(u, I.Dc)):
        rec.bad("polish/again", "%s: %s, again %s" % (tag, u, v), I.describe())


def lagrange(rng, rec, I):
    o = algs.solve("lr3o", I, False, False)
    if not o.ok:
        rec.count("no plan (judged by V01)") if o.ended else rec.maybe("did not end")
        return
    sol = [int(x) for x in o.value]
    base, D = cost(sol, I.Dc), I.Dc
    eps = 1e-6 * (1 + base)
    rec.case(("lr3o", repr(I.pts), repr(sol)), I.N > 3, {"lr3o": sol})
    rec.count("plans searched for 3-opt* moves")
    for q in joins(sol):
        if cost(q, D) < base - eps and surely(q, I):
            rec.bad("lr3o/3-opt*", "lr3o C=%s L=%s: %s (%g), but %s (%g)" % (I.C, I.L, sol, base, q, cost(q, D)), I.describe())
            break


def converged(rng, rec, I, min_k):
    """Wren and Holliday, full convergence: no single or pair move improves."""
    from verypy.classic_heuristics import wren_holliday_sweep as w
    start = rng.choice((w.BEST_OF_FOUR, w.BEST_OF_FOUR, w.LEAST_DENSE, w.BEST_ALTERNATIVE if I.N <= 10 else 0, rng.randrange(I.N - 1)))
    way = rng.choice(("both", "cw", "ccw"))
    tag = "wh from %d %s minK=%d C=%s L=%s" % (start, way, min_k, I.C, I.L)
    o = core.call(w.wren_holliday_init, [tuple(p) for p in I.pts], I.Dc.copy(), list(I.d), I.C, I.L, min_k, start, way)
    if not o.ok or o.value is None:
        rec.bad("wh/error", tag + ": " + o.why(), I.describe()) if o.ended else rec.maybe("did not end")
        return
    s = lsgen.State()
    s.C, s.L, s.D, s.d = I.C, I.L, I.Dc, I.d
    plan = [int(x) for x in o.value]
    rs = [[0] + [int(x) for x in r] + [0] for r in oracle.routes_of(plan)]
    if not min_k:
        rs.append([0, 0])
    eps = 1e-6 * (1 + cost(plan, I.Dc))
    rec.count("plans searched for moves between routes")
    rec.case((tag, repr(I.pts), repr(I.d)), len(rs) > 2, {"run": tag, "plan": plan})
    for k, nb, name in ((2, lsgen.nb_1point, "1-point"), (3, lsgen.nb_chain, "chain")):
        for given in itertools.permutations(rs, k):
            if any(len(r) == 2 for r in given[:-1]):
                continue
            c = sum(_len(r, I.Dc) for r in given)
            for q in nb(*given):
                if sum(_len(r, I.Dc) for r in q) - c < -eps and lsgen.clear(q, s, eps):
                    rec.bad("wh/" + name, "%s: %s, a %s move turns %s into %s" % (tag, plan, name, given, q), I.describe())
                    return
