"""Every documented option of a heuristic gives a complete and feasible plan."""
import random

from .. import core, inst, opts, oracle

CHUNKS = {"quick": 128, "thorough": 1600}
MIN = {"quick": 12000, "thorough": 150000}
RULE = ("every documented option value of every heuristic function, alone and in combination (about 350 rows: seeds, counts, directions, "
        "criteria, strategies, solvers, multipliers, relaxations), on solvable instances of 1..10 customers in 13 layouts and 9 demand "
        "patterns; each plan is judged from the problem definition, pairs of options documented to mean the same are compared, documented "
        "limits of an option (required number of routes, forbidden customers) are checked, and unknown option values have to be refused. "
        "Non-trivial: a plan for at least two customers; distinct by option row, instance and plan")
ASSUMPTIONS = ["a cost limit may leave the assignment heuristic without a plan (documented as its best guess)",
               "with an explicit number of routes the assignment heuristic may report that there is no plan"]

ROWS = opts.rows()


def chunk(rng, idx, tier, rec):
    n = {"quick": 2, "thorough": 2}[tier]
    for rep in range(n):
        I = inst.make(rng, nmin=1, nmax=rng.choice((4, 7, 10)))
        if sum(I.d) <= 0:
            I.d[rng.randrange(1, I.N)] = 1
        for name, a, f, fl in ROWS:
            if a in HEAVY and rng.random() > HEAVY[a] * (.6 if tier == "quick" else 1):
                continue
            min_k = rng.random() < .5 and not fl.get("no_min_k")
            row(rng, rec, I, name, a, f, fl, min_k)
        special(rng, rec, I)
    if idx % 8 == 0:
        refused(rng, rec)
    penalties(rng, rec, 25 if tier == "quick" else 40)


def penalties(rng, rec, k):
    """The penalized search from random starts: limits that are tight and distances that do not add up exactly."""
    l = opts._imp("lr3opt")
    for _ in range(k):
        I = inst.make(rng, nmin=3, nmax=rng.choice((7, 11)), cons=rng.choice(("L", "L", "CL", "C")),
                      layout_kind=rng.choice(("uniform", "uniform", "twins", "lattice", "cluster")))
        I.d[1] = I.d[1] or 1
        random.seed(rng.random())
        o = core.call(l.lr3opt_init, I.Dc.copy(), list(I.d), I.C, I.L, initialization_algorithm=l._init_with_random,
                      _limit=20000000)
        judge(rec, I, "lr3o penalties", "lr3o", o, False)


# share of rows of costly heuristics drawn for one instance
HEAVY = {"gap": .4, "ptl": .5, "cmt": .4, "lr3o": .5, "wh": .5, "mbsa": .6, "gm": .6}


def expected_refusal(name, I):
    if name.startswith("gap") and not I.C and not I.L:
        return True         # number of routes is needed
    if "large_demands" in name and not I.C:
        return True
    return False


def row(rng, rec, I, name, a, f, fl, min_k):
    if a == "gap" and I.L and I.N > 7:
        rec.count("skipped for cost")
        return
    o = core.call(f, I, min_k, rng, _limit=40000000)
    judge(rec, I, name, a, o, min_k)
    return o


def judge(rec, I, name, a, o, min_k, none_ok=False, without=()):
    tag = "%s minK=%d" % (name, min_k)
    kind = group(name)
    rec.high("steps " + a, o.steps)
    if expected_refusal(name, I):
        if isinstance(o.exc, ValueError):
            rec.count("declared refusals")
            return
        if o.exc is not None or not o.ended:
            rec.bad("refusal/" + kind, "%s: expected ValueError, got %s" % (tag, o.why()), I.describe())
            return
    if not o.ended:
        if a == "ptl" and I.N > 8:
            rec.maybe("petal search over subsets cut off")
            return
        rec.bad("no-end/" + kind, "%s %s on %s" % (tag, o.why(), I.tags), I.describe())
        return
    if o.exc is not None:
        rec.bad("error/%s/%s/%s" % (kind, type(o.exc).__name__, core.where(o.exc)), "%s raised %s" % (tag, o.why()), I.describe())
        return
    if o.value is None and (none_ok or (a == "gap" and I.L)):
        rec.count("no plan (allowed)")
        return
    sol = o.value
    rec.case((name, min_k, repr(I.pts), repr(sol)), I.N > 2, {"row": tag, "instance": I.tags, "plan": [int(x) for x in sol] if sol else None})
    rec.count("plans " + a)
    for k, text in oracle.plan_faults(sol, I.N, I.d, I.C, I.Dc, I.L):
        if k == "missing" and without:
            continue
        rec.bad("%s/%s" % (k, kind), "%s: %s; plan %s on %s" % (tag, text, sol, I.tags), I.describe())


def group(name):
    return " ".join(name.split()[:2])


def eq(rec, I, what, x, y):
    """Two ways to say the same."""
    if not (x.ended and y.ended):
        rec.maybe("cut off")
        return
    if x.exc is not None or y.exc is not None:
        if type(x.exc) is not type(y.exc):
            rec.bad("same/" + what, "%s: %s against %s" % (what, x.why(), y.why()), I.describe())
        return
    a = None if x.value is None else [int(v) for v in x.value]
    b = None if y.value is None else [int(v) for v in y.value]
    rec.case(("same", what, repr(I.pts), repr(a)), I.N > 2)
    rec.count("pairs of equal options")
    if a != b:
        rec.bad("same/" + what, "%s: %s against %s" % (what, a, b), I.describe())


def special(rng, rec, I):
    """Limits of options, and options that mean the same."""
    imp = opts._imp
    D, d, p = I.Dc, list(I.d), [tuple(x) for x in I.pts]
    min_k = rng.random() < .5
    call = lambda f, *a, **k: core.call(f, *a, _limit=40000000, **k)

    # -- a required number of routes
    if I.N <= 7:
        K = rng.randint(1, I.N - 1)
        o = call(imp("gapvrp").gap_init, p, D.copy(), d, I.C, I.L, I.st, K, min_k)
        judge(rec, I, "gap K", "gap", o, min_k, none_ok=True) if (I.C or I.L) or o.exc is None else None
        if o.ok and o.value is not None and len(oracle.routes_of(o.value)) > K:
            rec.bad("limit/gap K", "%d routes were allowed but the plan is %s" % (K, o.value), I.describe())
        if o.ok and o.value is None and not I.L and I.C and K == I.N - 1:
            rec.bad("none/gap K", "no plan with one route for each customer", I.describe())
        K = rng.randint(1, I.N - 1)
        o = call(imp("petalvrp").petal_init, p, D.copy(), d, I.C, I.L, K, min_k)
        judge(rec, I, "ptl K", "ptl", o, min_k)

    # -- customers left out
    nn = imp("nearest_neighbor").nearest_neighbor_init
    out = [i for i in range(1, I.N) if rng.random() < .3]
    if out and len(out) < I.N - 1:
        o = call(nn, D.copy(), d, I.C, I.L, rng.choice((1, 2)), rng.choice(("closest", "farthest")), rng.random() < .5, list(out))
        judge(rec, I, "sn forbidden", "sn", o, False, without=out)
        if o.ok:
            got = set(int(x) for x in o.value) - {0}
            if got != set(range(1, I.N)) - set(out):
                rec.bad("forbidden/sn", "without %s the plan is %s" % (out, o.value), I.describe())
    k, how = rng.choice((1, 2)), rng.choice(("closest", "farthest"))
    eq(rec, I, "nn improvement that changes nothing", call(nn, D.copy(), d, I.C, I.L, k, how, True),
       call(nn, D.copy(), d, I.C, I.L, k, how, True, None, lambda r, *a: r))
    eq(rec, I, "nn nothing forbidden", call(nn, D.copy(), d, I.C, I.L, k, how, False), call(nn, D.copy(), d, I.C, I.L, k, how, False, []))

    # -- the sweep from polar coordinates
    sw = imp("sweep")
    seed, di = rng.choice((0, -1, -2, 1)), rng.choice(("cw", "ccw", "both"))
    polar = sw.get_sweep_from_cartesian_coordinates(p)
    if I.N != 3:        # three rows of two numbers could be either form
        eq(rec, I, "sweep from polar coordinates", call(sw.sweep_init, p, D.copy(), d, I.C, I.L, min_k, di, seed),
           call(sw.sweep_init, polar if rng.random() < .5 else [[float(x) for x in r] for r in polar], D.copy(), d, I.C, I.L, min_k, di, seed))
    some = sorted(rng.sample(range(1, I.N), rng.randint(3, I.N - 1))) if I.N > 3 else []
    if some:
        # a sweep over a part of the customers is one of the problem without the others
        q = [p[0]] + [p[i] for i in some]
        ix = [0] + some
        a = call(sw.sweep_init, polar[:, [int(c) in some for c in polar[2]]], D.copy(), d, I.C, I.L, min_k, di, min(seed, 0))
        b = call(sw.sweep_init, q, D[ix, :][:, ix].copy(), [d[i] for i in ix], I.C, I.L, min_k, di, min(seed, 0))
        if len(set(polar[0])) == I.N - 1:     # equal angles leave the order open
            if b.ok:
                b.value = [ix[int(i)] for i in b.value]
            eq(rec, I, "sweep over a part of the customers", a, b)
    eq(rec, I, "sweep from all positions", call(sw.sweep_init, p, D.copy(), d, I.C, I.L, min_k, di, -2),
       call(sw.sweep_init, p, D.copy(), d, I.C, I.L, min_k, di, list(range(I.N - 1))))
    eq(rec, I, "sweep from the smallest angle", call(sw.sweep_init, p, D.copy(), d, I.C, I.L, min_k, di, -1),
       call(sw.sweep_init, p, D.copy(), d, I.C, I.L, min_k, di, [0]))

    # -- seeds given by a function
    ci = imp("cheapest_insertion").cheapest_insertion_init
    k, how = rng.choice((1, 2)), rng.choice(("closest", "farthest"))

    def seeds(D, unrouted, rd):
        s = sorted(((float(D[0, i]), (i,)) for i in unrouted), reverse=how == "closest")
        return s
    eq(rec, I, "insertion seeds by a function", call(ci, D.copy(), d, I.C, I.L, min_k, k, how),
       call(ci, D.copy(), d, I.C, I.L, min_k, k, seeds))
    ss = imp("sequential_savings").sequential_savings_init
    eq(rec, I, "savings seeds by a function", call(ss, D.copy(), d, I.C, I.L, min_k, how),
       call(ss, D.copy(), d, I.C, I.L, min_k,
            lambda D: sorted(range(1, len(D)), key=lambda i: (D[0][i], i), reverse=how == "closest")))

    # -- savings criteria
    ps = imp("parallel_savings")
    gps = imp("gaskell_savings").gaskell_savings_init
    eq(rec, I, "savings criterion given", call(ps.parallel_savings_init, D.copy(), d, I.C, I.L, min_k),
       call(ps.parallel_savings_init, D.copy(), d, I.C, I.L, min_k, ps.clarke_wright_savings_function))
    gpl = imp("paessens_savings").paessens_savings_init
    par = [(rng.choice((.8, 1.0, 1.4)), rng.choice((0.0, .1, .5))) for _ in range(3)]
    eq(rec, I, "generalized savings repeated parameters", call(gpl, D.copy(), d, I.C, I.L, min_k, par),
       call(gpl, D.copy(), d, I.C, I.L, min_k, par + par))
    ims = imp("suppression_savings").suppression_savings_init
    n = I.N - 1
    eq(rec, I, "suppression auto", call(ims, D.copy(), d, I.C, I.L, min_k), call(ims, D.copy(), d, I.C, I.L, min_k, int(n / 7) + 5))


def refused(rng, rec):
    """Unknown option values have to be refused, not taken for something else."""
    I = inst.make(rng, nmin=3, nmax=6, cons="C")
    if sum(I.d) <= 0:
        I.d[1] = 1
    imp, D, d, p = opts._imp, I.Dc, list(I.d), [tuple(x) for x in I.pts]
    for what, f in (
            ("ci seeds", lambda: imp("cheapest_insertion").cheapest_insertion_init(D, d, I.C, I.L, False, 1, "bogus")),
            ("gps method", lambda: imp("gaskell_savings").gaskell_savings_init(D, d, I.C, I.L, False, "bogus")),
            ("ss seeds", lambda: imp("sequential_savings").sequential_savings_init(D, d, I.C, I.L, False, "bogus")),
            ("swp direction", lambda: imp("sweep").sweep_init(p, D, d, I.C, I.L, False, "bogus")),
            ("gm direction", lambda: imp("gillet_miller_sweep").gillet_miller_init(p, D, d, I.C, I.L, False, "bogus")),
            ("ty grouping", lambda: imp("tyagi_nearest_neighbor").tyagi_init(D, d, I.C, I.L, select_grouping="bogus")),
            ("cmt seeds", lambda: imp("cmt_2phase").cmt_2phase_init(D, d, I.C, I.L, phase1_seed_selection_method="bogus")),
            ("nn seeds", lambda: imp("nearest_neighbor").nearest_neighbor_init(D, d, I.C, I.L, 1, "bogus")),
            ("gap seeds", lambda: imp("gapvrp").gap_init(p, D, d, I.C, I.L, seed_method="bogus")),
            ("mj criterion", lambda: imp("mole_jameson_insertion").mole_jameson_insertion_init(D, d, I.C, I.L, False, "bogus")),
            ("gps strategy", lambda: imp("paessens_savings").paessens_savings_init(D, d, I.C, I.L, False, "bogus")),
            ("swp seed", lambda: imp("sweep").sweep_init(p, D, d, I.C, I.L, False, "both", "bogus")),
            ("gm seed", lambda: imp("gillet_miller_sweep").gillet_miller_init(p, D, d, I.C, I.L, False, "both", "bogus")),
            ("wh seed", lambda: imp("wren_holliday_sweep").wren_holliday_init(p, D, d, I.C, I.L, False, "bogus")),
            ("wh direction", lambda: imp("wren_holliday_sweep").wren_holliday_init(p, D, d, I.C, I.L, False, direction="bogus")),
            ("ptl discard", lambda: imp("petalvrp").petal_init(p, D, d, I.C, I.L, can_discard_multiple_customers="bogus"))):
        o = core.call(f)
        rec.case(("refused", what, repr(I.pts)), True)
        rec.count("unknown values refused")
        if not isinstance(o.exc, ValueError):
            rec.bad("unknown/" + what, "an unknown option value gave %s" % (o.why() if o.exc else o.value,), I.describe())
