"""Feasibility check, objective and normalization agree with the definition."""
from .. import core, lsgen, oracle

CHUNKS = {"quick": 48, "thorough": 480}
MIN = {"quick": 5000, "thorough": 50000}
RULE = ("plans of 1..12 customers over 9 kinds of symmetric matrices and all limits: feasible ones and ones with a missing or doubled "
        "customer, an overfull or overlong route, limits met exactly; every cyclic listing, repeated depots, lists of routes with and "
        "without their depots; each answer compared with a recomputation from the definition (undecidable rounding cases are left out). "
        "Non-trivial: at least 2 customers; distinct by plan, limits and matrix")


def chunk(rng, idx, tier, rec):
    for _ in range(900):
        n = rng.randint(1, 12)
        s = lsgen.state(rng, n, allow_empty=False)
        routes = [r[1:-1] for r in s.routes if len(r) > 2]
        feasibility(rng, s, routes, rec)
        normal(rng, s, routes, rec)


def feasibility(rng, s, routes, rec):
    from verypy.cvrp_ops import recalculate_objective, validate_solution_feasibility
    from verypy.util import objf
    rs = [list(r) for r in routes]
    n = len(s.D) - 1
    what = rng.choice(("ok", "ok", "missing", "twice", "swap", "merge", "both"))
    if what in ("missing", "both"):
        r = rng.choice(rs)
        r.pop(rng.randrange(len(r)))
        rs = [r for r in rs if r] or [[rng.randint(1, n)]]
    if what in ("twice", "both"):
        r = rng.choice(rs)
        r.insert(rng.randint(0, len(r)), rng.randint(1, n))
    if what == "swap" and len(rs) > 1:
        a, b = rng.sample(rs, 2)
        b.append(a.pop())
        rs = [r for r in rs if r]
    if what == "merge" and len(rs) > 1:
        rs = [rs[0] + rs[1]] + rs[2:]
    C, L = s.C, s.L
    if C and rng.random() < .3:
        C = max(sum(s.d[i] for i in r) for r in rs) * rng.choice((1, .9, .5))
    if L and rng.random() < .3:
        L = max(lsgen.cost([0] + r + [0], s.D) for r in rs) * rng.choice((1, .9, .5))
    if C is not None and C <= 0:
        C = None
    if L is not None and L <= 0:
        L = None
    # the oracle, None: rounding decides
    visits = sorted(x for r in rs for x in r)
    cover = visits == list(range(1, n + 1))
    eps = 1e-7
    verdicts = []
    for lim, val in ((C, [sum(s.d[i] for i in r) for r in rs]), (L, [lsgen.cost([0] + r + [0], s.D) for r in rs])):
        if not lim:
            verdicts.append(True)
            continue
        v = True
        for x in val:
            if x > lim + eps:
                v = False
            elif x > lim - eps and v is not False:
                whole = float(x).is_integer() and float(lim).is_integer() and (lim is L and s.D.dtype.kind == "i" or lim is C and all(isinstance(q, int) for q in s.d))
                if not whole:
                    v = None
        verdicts.append(v)
    want = (cover, verdicts[0], verdicts[1])
    base = [0]
    for r in rs:
        base += r + [0]
    cyc = base[:-1]
    k = rng.randrange(len(cyc))
    listing = rng.choice((base, base, cyc[k:] + cyc[:k], cyc[k:] + cyc[:k], "doubled"))
    if listing == "doubled":
        listing = [x for y in base for x in ([y, 0] if y == 0 and rng.random() < .4 else [y])]
    tag = "%s C=%r L=%r" % (listing, C, L)
    data = dict(lsgen.describe(s), listing=listing, C=C, L=None if L is None else float(L))
    args = [list(listing), s.D, list(s.d)]
    if not C and rng.random() < .3:
        args[2] = None
    if not L and args[2] is not None and rng.random() < .2:
        args[1] = None
    o = core.call(validate_solution_feasibility, *(args + [C, L, rng.random() < .5]))
    rec.case((tag, s.D.tobytes()), n > 1, {"plan": tag, "answer": repr(o.value)})
    rec.count("checked %s" % (want,))
    if not o.ok:
        rec.bad("error/check/%s" % (core.where(o.exc) if o.exc else "no-end"), tag + ": " + o.why(), data)
    else:
        for name, w, g in zip(("coverage", "capacity", "length"), want, o.value):
            if w is not None and bool(g) != w:
                rec.bad(name, "%s: reported %s feasible=%r, by definition %r" % (tag, name, g, w), data)
    # objective: giant tour, open cyclic listing, routes with or without depots
    true = float(sum(lsgen.cost([0] + r + [0], s.D) for r in rs))
    tol = lsgen.tol(s.D)
    forms = [("giant tour", base), ("rotated", cyc[k:] + cyc[:k]), ("routes", [[0] + r + [0] for r in rs]), ("bare routes", [list(r) for r in rs]),
             ("open routes", [[0] + r for r in rs]), ("tuples", [tuple(r) + (0,) for r in rs])]
    for name, f in forms:
        o = core.call(recalculate_objective, f, s.D)
        if not o.ok:
            rec.bad("error/objective/%s" % name, "%s of %s: %s" % (name, f, o.why()), data)
        elif abs(float(o.value) - true) > tol:
            rec.bad("objective/%s" % name, "%s %s valued %r, true %r" % (name, f, o.value, true), data)
    o = core.call(objf, base, s.D)
    if not o.ok or abs(float(o.value) - true) > tol:
        rec.bad("objective/objf", "objf of %s is %r (%s), true %r" % (base, o.value, o.why(), true), data)


def canon(routes):
    return sorted(tuple(min(tuple(r), tuple(reversed(r)))) for r in routes)


def normal(rng, s, routes, rec):
    from verypy.cvrp_ops import normalize_solution, recalculate_objective
    from verypy.util import sol2routes
    want = canon(routes)
    results = []
    for form in ("giant", "noisy", "routes", "bare", "routes"):
        rs = [list(r) if rng.random() < .5 else list(reversed(r)) for r in routes]
        rng.shuffle(rs)
        if form in ("giant", "noisy"):
            sol = [0]
            for r in rs:
                sol += r + [0] * (1 if form == "giant" else rng.randint(1, 3))
        elif form == "routes":
            sol = [[0] + r + [0] for r in rs]
            if rng.random() < .2:
                sol.insert(rng.randint(0, len(sol)), [0, 0])
        else:
            sol = rs
        given = repr(sol)
        o = core.call(normalize_solution, sol)
        rec.case(("norm", given), len(s.D) > 2, None)
        if not o.ok:
            rec.bad("error/normalize/%s" % form, "%s: %s" % (given, o.why()))
            continue
        out = list(o.value)
        if canon(oracle.routes_of(out)) != want or out[0] != 0 or out[-1] != 0:
            rec.bad("normal-routes", "%s normalized to %s" % (given, out))
        if any(a == 0 and b == 0 for a, b in zip(out, out[1:])):
            rec.bad("normal-empty", "%s normalized to %s with an empty route" % (given, out))
        again = core.call(normalize_solution, list(out))
        if not again.ok or list(again.value) != out:
            rec.bad("normal-again", "%s normalized to %s and that to %s" % (given, out, again.value))
        if abs(float(recalculate_objective(out, s.D)) - float(sum(lsgen.cost([0] + r + [0], s.D) for r in routes))) > lsgen.tol(s.D):
            rec.bad("normal-cost", "%s normalized to %s changes the cost" % (given, out))
        results.append(out)
        rec.count("normalized")
    if any(r != results[0] for r in results):
        rec.bad("normal-unequal", "listings of the same plan normalize differently: %s" % results)
