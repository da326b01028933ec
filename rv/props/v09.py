"""Local search: feasible, no worse, monotone over iterations, locally optimal."""
import itertools

from .. import core, lsgen, oracle

CHUNKS = {"quick": 96, "thorough": 960}
MIN = {"quick": 2000, "thorough": 20000}
RULE = ("feasible plans of 1..14 customers in 1..5 routes, random or nearly optimal ones, over 9 kinds of symmetric matrices and limits met exactly or with slack; sets of "
        "1..8 operators in any order x 2 operator strategies x 4 iteration strategies, also cut short after 1, 2, 3.. iterations; the end "
        "plan's neighbourhoods are built in full from the definitions. Non-trivial: the search changed the plan; distinct by state and options")
INTRA = {"do_2opt_move": lsgen.nb_2opt, "do_3opt_move": lsgen.nb_3opt, "do_relocate_move": lsgen.nb_relocate,
         "do_exchange_move": lsgen.nb_exchange}
INTER = {"do_2optstar_move": (2, lsgen.nb_2optstar), "do_1point_move": (2, lsgen.nb_1point), "do_2point_move": (2, lsgen.nb_2point),
         "do_chain_move": (3, lsgen.nb_chain)}


def ops_of(names):
    from verypy.local_search import inter_route_operators as b
    from verypy.local_search import intra_route_operators as a
    return [getattr(a, n) if n in INTRA else getattr(b, n) for n in names]


def chunk(rng, idx, tier, rec):
    for k in range(60 if tier == "quick" else 40):
        settled = k % 2 == 0                # nearly optimal routes: the limits matter
        n = rng.randint(4, 14) if settled else rng.randint(1, 11)
        s = lsgen.state(rng, n, nroutes=rng.randint(min(2, n), min(5, n)) if settled else rng.randint(1, min(5, n)), allow_empty=False,
                        limits=rng.choice(("C", "CL", "L", "L", "L")) if settled else None, settled=settled)
        s.routes = [r for r in s.routes if len(r) > 2]
        names = list(INTRA) + list(INTER)
        rng.shuffle(names)
        names = names[:rng.choice((2, 2, 3, 4, 8) if settled else (1, 1, 2, 3, 4, 8))]
        for ost in (1, 2):
            for ist in (1, 2, 3, 4):
                search(rng, s, names, ost, ist, rec)


def search(rng, s, names, ost, ist, rec):
    from verypy.local_search import do_local_search
    sol = [0]
    for r in s.routes:
        sol += r[1:]
    d = list(s.d) if s.C or rng.random() < .7 else None
    tag = "%s operator=%d iteration=%d C=%s L=%s on %s" % ("+".join(names), ost, ist, s.C, s.L, sol)
    data = dict(lsgen.describe(s), solution=sol, ops=names, operator_strategy=ost, iteration_strategy=ist)
    eps = 10 * lsgen.tol(s.D)
    before = lsgen.cost(sol, s.D)
    last = before
    cuts = [None] if rng.random() < .7 else [1, 2, 3, 5, None]
    for cut in cuts:
        o = core.call(do_local_search, ops_of(names), list(sol), s.D, d, s.C, s.L, ost, ist, cut)
        if not o.ok:
            rec.bad("error/%s" % (core.where(o.exc) if o.exc else "no-end"), tag + " " + o.why(), data)
            return
        new = o.value
        true = lsgen.cost(new, s.D)
        rec.case((tag, cut, s.D.tobytes()), true < before - eps, {"search": tag, "iterations": cut, "from": before, "to": true} if true < before - eps else None)
        for kind, text in oracle.plan_faults(new, len(s.D), s.d, s.C, s.D, s.L):
            rec.bad(kind, "%s -> %s: %s" % (tag, new, text), data)
            return
        if true > last + eps:
            rec.bad("worse", "%s -> %s costs %r, was %r (iterations %s)" % (tag, new, true, last, cut), data)
        last = true
    if rng.random() < .35:
        one_round(rng, s, names, list(sol), d, before, eps, rec)
    rec.count("searches " + ("improved" if last < before - eps else "unchanged"))
    routes = [[0] + r + [0] for r in oracle.routes_of(new)]
    for name in names:
        if name in INTRA:
            for r in routes:
                c = lsgen.cost(r, s.D)
                for q in INTRA[name](r):
                    if lsgen.cost(q, s.D) < c - eps:
                        rec.bad("notoptimal/" + name, "%s -> %s: %s improves %s to %s" % (tag, new, name, r, q), data)
                        return
        else:
            k, nb = INTER[name]
            for given in itertools.permutations(routes, k):
                c = sum(lsgen.cost(r, s.D) for r in given)
                for q in nb(*given):
                    if sum(lsgen.cost(r, s.D) for r in q) < c - eps and lsgen.clear(q, s, eps):
                        rec.bad("notoptimal/" + name, "%s -> %s: %s improves %s to %s" % (tag, new, name, given, q), data)
                        return
    rec.count("local optima verified")


def gains(s, routes, name, eps):
    """The gains of the moves of one operator: (surely allowed, perhaps allowed)."""
    sure, maybe = [0.0], [0.0]
    if name in INTRA:
        for r in routes:
            c = lsgen.cost(r, s.D)
            g = [c - lsgen.cost(q, s.D) for q in INTRA[name](r)]
            sure += g
            maybe += g
    else:
        k, nb = INTER[name]
        for given in itertools.permutations(routes, k):
            c = sum(lsgen.cost(r, s.D) for r in given)
            for q in nb(*given):
                g = c - sum(lsgen.cost(r, s.D) for r in q)
                if g > eps:
                    v = lsgen.clear(q, s, eps)
                    if v:
                        sure.append(g)
                    if v is not False:
                        maybe.append(g)
    return max(sure), max(maybe)


def one_round(rng, s, names, sol, d, before, eps, rec):
    """What the documentation says of a single round of three of the strategies."""
    from verypy.local_search import ITEROPT, LSOPT, do_local_search
    how = rng.choice(("steepest", "first", "repeated"))
    ist = {"steepest": ITEROPT.BEST_ACCEPT, "first": ITEROPT.FIRST_ACCEPT, "repeated": ITEROPT.REPEATED_ACCEPT}[how]
    o = core.call(do_local_search, ops_of(names), list(sol), s.D, d, s.C, s.L, LSOPT.BEST_ACCEPT, ist, 1)
    tag = "one round of %s, %s, C=%s L=%s on %s" % ("+".join(names), how, s.C, s.L, sol)
    data = dict(lsgen.describe(s), solution=sol, ops=names)
    if not o.ok:
        rec.bad("round-error", tag + ": " + o.why(), data)
        return
    new = o.value
    drop = before - lsgen.cost(new, s.D)
    rec.case((tag, s.D.tobytes()), drop > eps)
    rec.count("single rounds, " + how)
    if how == "repeated":
        routes = [[0] + r + [0] for r in oracle.routes_of(new)]
        sure, _ = gains(s, routes, names[-1], eps)
        if sure > eps:
            rec.bad("round/repeated", "%s -> %s: %s still gains %r" % (tag, new, names[-1], sure), data)
        return
    g = []
    for name in names:
        g.append(gains(s, s.routes, name, eps) + (name,))
        if how == "first" and g[-1][1] > eps:
            g = g[-1:]
            if g[0][0] <= eps:
                return                        # the limits are too close to call
            break
    if how == "first" and g[-1][1] <= eps:
        g = [(0.0, 0.0, "none")]
    sure, maybe = max(x[0] for x in g), max(x[1] for x in g)
    single = how == "steepest" or g[-1][2] not in INTRA
    if drop < sure - eps or single and drop > maybe + eps:
        rec.bad("round/" + how, "%s -> %s: the cost drops by %r, the best move gains %r" % (tag, new, drop, sure), data)
