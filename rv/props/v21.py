"""Equivalent statements of a problem get equivalent plans."""
import numpy as np

from .. import algs, core, inst, oracle

CHUNKS = {"quick": 64, "thorough": 900}
MIN = {"quick": 2500, "thorough": 35000}
RULE = ("pairs of equivalent problems of 1..12 customers through every heuristic (single and full runs, both objectives): distances, cost limit "
        "and coordinates times a power of two; demands and capacity times a power of two; coordinates moved, turned by quarters or mirrored; "
        "customers renumbered; a limit added that no plan can exceed; the same numbers in other containers, number types and memory layouts. "
        "Retyped problems have to get the very same plan, scaled ones the same routes, the others a plan of the same cost and number of routes. "
        "Non-trivial: a plan of at least two routes or four customers; distinct by instance, heuristic and relation")
ASSUMPTIONS = ["the relations other than retyping are judged on problems in general position, where no two choices tie",
               "heuristics whose documented rule depends on the changed aspect are left out of that relation (table in DESIGN.md)"]

SOLVER = ("gap", "ptl", "mbsa")          # the solver's own tolerances decide between near ties
SCALE_D = tuple(a for a in algs.ALL if a not in SOLVER + ("ty", "lr3o"))
SCALE_Q = tuple(a for a in algs.ALL if a not in ("gap", "ptl", "lr3o"))
NO_L = tuple(a for a in algs.ALL if a not in ("gap", "ptl", "wh"))  # first accepted insertion: appended, or first that fits L
NO_C = tuple(a for a in algs.ALL if a not in ("gap", "ty", "ptl"))
MOVE = ("swp", "gm", "wh")
TURN = ("swp",)
RENUMBER = ("ps", "ss", "ims", "si", "pi", "sn", "pn", "swp")
TYPES = algs.ALL


def plan(o):
    if not o.ok:
        return None if not o.ended else o.why()
    return None if o.value is None else [int(x) for x in o.value]


def cost(sol, D):
    return float(oracle.cost(sol, D)), len(oracle.routes_of(sol))


def routes(sol):
    """The routes whatever their order and direction."""
    return sorted(min(r, r[::-1]) for r in (list(x) for x in oracle.routes_of(sol)))


def chunk(rng, idx, tier, rec):
    for n in range(6):
        I = inst.make(rng, nmin=1, nmax=12, general=True, cons=rng.choice(("C", "CL", "CL", "L", "none")))
        J = inst.make(rng, nmin=1, nmax=10)
        for abbr in algs.ALL:
            slow = abbr in ("gap", "ptl", "wh", "gm")
            if abbr == "wh":
                for _ in range(3):
                    options(rng, rec, inst.make(rng, nmin=4, nmax=11, general=True, cons="L"), abbr)
            if abbr in MOVE and (not slow or I.N <= 10):
                options(rng, rec, I, abbr)
            if slow and I.N > 9 or abbr == "gap" and I.L and I.N > 6:
                pass
            else:
                general(rng, rec, I, abbr, slow)
            if not (slow and (J.N > 8 or n % 2) or abbr == "gap" and J.L):
                retyped(rng, rec, J, abbr)


def mode(rng, abbr):
    return rng.random() < .4, rng.random() < .5 and abbr not in algs.NO_MIN_K


def general(rng, rec, I, abbr, slow):
    single, min_k = mode(rng, abbr)
    if algs.unsupported(abbr, I, min_k):
        return
    o = algs.solve(abbr, I, single, min_k)
    base = plan(o)
    if not o.ok:
        if not o.ended:
            rec.maybe("did not end")
        else:
            rec.count("failed (judged by V01)")
        return
    rels = []
    if abbr in SCALE_D:
        k = rng.choice((2.0, .25, 8.0, 64.0))
        rels.append(("distances x %g" % k, True, None, inst.Inst(
            [(x * k, y * k) for x, y in I.pts], I.D * k, I.d, I.C, I.L * k if I.L else None, I.st * k if I.st else None, I.wtt, I.tags)))
    if abbr in SCALE_Q and I.C:
        k = rng.choice((2, 4, 16))
        rels.append(("demands x %d" % k, True, None, inst.Inst(I.pts, I.D, [x * k for x in I.d], I.C * k, I.L, I.st, I.wtt, I.tags)))
    if abbr in NO_L and not I.L:
        # the longest plan visits every customer from the depot
        lim = 4 * float(np.sum(I.Dc)) + 1
        rels.append(("idle cost limit", False, None, inst.Inst(I.pts, I.D, I.d, I.C, lim, I.st, I.wtt, I.tags)))
    if abbr in NO_C and not I.C:
        rels.append(("idle capacity", False, None, inst.Inst(I.pts, I.D, I.d, 10 * sum(I.d) + 1, I.L, I.st, I.wtt, I.tags)))
    if abbr in MOVE:
        dx, dy = rng.choice((64.0, -256.0)), rng.choice((-32.0, 128.0))
        rels.append(("moved", False, None, inst.Inst([(x + dx, y + dy) for x, y in I.pts], I.D, I.d, I.C, I.L, I.st, I.wtt, I.tags)))
    if abbr in TURN and not single:
        name, f = rng.choice((("quarter turn", lambda x, y: (-y, x)), ("half turn", lambda x, y: (-x, -y)),
                              ("mirrored", lambda x, y: (-x, y)), ("mirrored", lambda x, y: (y, x))))
        rels.append((name, False, None, inst.Inst([f(x, y) for x, y in I.pts], I.D, I.d, I.C, I.L, I.st, I.wtt, I.tags)))
    if abbr in RENUMBER and not (abbr == "swp" and single):
        p = list(range(1, I.N))
        rng.shuffle(p)
        p = [0] + p
        rels.append(("renumbered", False, p, inst.Inst([I.pts[i] for i in p], I.D[np.ix_(p, p)], [I.d[i] for i in p], I.C, I.L, I.st, I.wtt, I.tags)))
    for name, exact, p, K in rels:
        q = algs.solve(abbr, K, single, min_k)
        if not q.ended:
            rec.maybe("did not end")
            continue
        got = plan(q)
        if p is not None and isinstance(got, list):
            got = [p[x] for x in got]
        judge(rec, I, abbr, name, single, min_k, base, got, exact)


def options(rng, rec, I, abbr):
    """The sweeps with every way to choose a start, demands left out at times: the
    map moved, or another unit of length."""
    from verypy.classic_heuristics.gillet_miller_sweep import gillet_miller_init
    from verypy.classic_heuristics.sweep import BEST_ALTERNATIVE, CLOSEST_TO_DEPOT, SMALLEST_ANGLE, sweep_init
    from verypy.classic_heuristics.wren_holliday_sweep import BEST_OF_FOUR, LEAST_DENSE, wren_holliday_init
    from verypy.classic_heuristics.wren_holliday_sweep import BEST_ALTERNATIVE as WH_ALL
    pos, min_k = rng.randrange(1, I.N), rng.random() < .5
    seed = rng.choice((LEAST_DENSE, LEAST_DENSE, BEST_OF_FOUR, WH_ALL, pos) if abbr == "wh" else
                      (BEST_ALTERNATIVE, CLOSEST_TO_DEPOT, SMALLEST_ANGLE, pos, [pos - 1]))
    f = {"wh": wren_holliday_init, "gm": gillet_miller_init, "swp": sweep_init}[abbr]
    way = rng.choice(("cw", "ccw", "both"))
    d = None if not I.C and rng.random() < .7 else I.d

    def run(pts, D, L):
        return core.call(f, pts, D, None if d is None else list(d), I.C, L, min_k, seed_node=seed, direction=way, _limit=algs.limit_for(I.N))
    o = run([tuple(p) for p in I.pts], I.Dc.copy(), I.L)
    if not o.ok:
        rec.maybe("did not end") if not o.ended else rec.bad("options/" + abbr, "%s seed=%s %s demands %s: %s" % (
            abbr, seed, way, d is not None, o.why()), I.describe())
        return
    dx, dy, k = rng.choice((64.0, -256.0, 1024.0)), rng.choice((-32.0, 512.0)), rng.choice((.25, 8.0))
    tag = "%s seed=%s %s%s" % (abbr, seed, way, "" if d else " no demands")
    for name, q in (("moved", run([(x + dx, y + dy) for x, y in I.pts], I.Dc.copy(), I.L)),
                    ("distances x %g" % k, run([(x * k, y * k) for x, y in I.pts], I.Dc * k, I.L * k if I.L else I.L))):
        if not q.ended:
            rec.maybe("did not end")
            continue
        judge(rec, I, tag, name, False, min_k, plan(o), plan(q), name != "moved", "options")


def judge(rec, I, abbr, name, single, min_k, base, got, exact, kind=None):
    tag = "%s%s%s C=%s L=%s, %s" % (abbr, " single" if single else "", " minK" if min_k else "", I.C, I.L, name)
    rec.count((kind + " " if kind else "") + name.split(" x ")[0])
    rec.case((tag, repr(I.pts), repr(I.d)), isinstance(base, list) and (base.count(0) > 2 or len(base) > 5), {"pair": tag, "plan": base})
    if isinstance(base, list) and isinstance(got, list):
        if exact == "same":
            fine = base == got
        elif exact:
            fine = routes(base) == routes(got)
        else:
            (a, ka), (b, kb) = cost(base, I.Dc), cost(got, I.Dc)
            fine = ka == kb and abs(a - b) <= 1e-7 * (1 + abs(a))
    else:
        fine = base == got
    if not fine:
        rec.bad("%s/%s" % (kind or name.split(" x ")[0], abbr.split()[0]), "%s: %s, but %s" % (tag, base, got), I.describe())


def retyped(rng, rec, I, abbr):
    """The same numbers in another form; ties included, as nothing may change."""
    single, min_k = mode(rng, abbr)
    if algs.unsupported(abbr, I, min_k):
        return
    o = algs.solve(abbr, I, single, min_k)
    base = plan(o)
    if not o.ok:
        rec.count("failed (judged by V01)") if o.ended else rec.maybe("did not end")
        return
    whole = all(float(x) == int(x) for x in I.d)
    forms = ["points as lists", "points as array", "Fortran matrix", "view of a larger matrix", "numpy scalars"]
    if whole:
        forms += ["real demands", "real capacity"]
    if I.L and float(I.L) == int(I.L):
        forms += ["real limit"]
    if np.issubdtype(I.Dc.dtype, np.integer) and abbr != "gap":
        forms += ["real matrix", "short integer matrix"]
    for form in rng.sample(forms, 2):
        pts, D, d, C, L = [tuple(p) for p in I.pts], I.Dc.copy(), list(I.d), I.C, I.L
        if form == "points as lists":
            pts = [list(p) for p in pts]
        elif form == "points as array":
            pts = np.array(pts)
        elif form == "Fortran matrix":
            D = np.asfortranarray(D)
        elif form == "view of a larger matrix":
            big = np.full((2 * I.N, I.N + 3), 77, dtype=D.dtype)
            big[::2, 2:-1] = D
            D = big[::2, 2:-1]
        elif form == "numpy scalars":
            d = [x if isinstance(x, bool) else (np.float64(x) if isinstance(x, float) else np.int64(x)) for x in d]
            C = C if C is None else (np.float64(C) if isinstance(C, float) else np.int64(C))
            L = L if L is None else (np.float64(L) if isinstance(L, float) else np.int64(L))
        elif form == "real demands":
            d = [float(x) for x in d]
        elif form == "real capacity":
            C = None if C is None else float(C)
        elif form == "real limit":
            L = float(L)
        elif form == "real matrix":
            D = D.astype(float)
        elif form == "short integer matrix":
            D = D.astype(np.int32)
        q = core.call(algs.get(abbr), pts, D, d, C, L, I.st, I.wtt, single, min_k, _limit=algs.limit_for(I.N))
        if not q.ended:
            rec.maybe("did not end")
            continue
        judge(rec, I, abbr, form, single, min_k, base, plan(q), "same")
