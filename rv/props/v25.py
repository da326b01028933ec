"""The educational operators and the search that repeats them."""
import itertools

from .. import core, lsgen, oracle

CHUNKS = {"quick": 128, "thorough": 1280}
MIN = {"quick": 2000, "thorough": 20000}
RULE = ("feasible plans of 1..8 customers in 1..4 routes over 9 kinds of symmetric matrices and limits met exactly or with slack; 6 operators "
        "x 2 strategies x requested levels, and searches with 1..6 of them in any order, also cut short; the whole-plan neighbourhoods are "
        "built from the definitions. Non-trivial: an improving move exists or one was returned; distinct by state and options")
PER_ROUTE = {"do_naive_relocate_move": lsgen.nb_relocate, "do_naive_exchange_move": lsgen.nb_exchange}
WHOLE = {"do_naive_2opt_move": (lsgen.nb_2opt, None), "do_naive_1point_move": (lsgen.nb_relocate, lsgen.nb_1point),
         "do_naive_2point_move": (lsgen.nb_exchange, lsgen.nb_2point), "do_naive_2optstar_move": (lsgen.nb_2opt, lsgen.nb_2optstar)}
NAMES = sorted(PER_ROUTE) + sorted(WHOLE)


def giant(routes):
    sol = [0]
    for r in routes:
        sol += r[1:]
    return sol


def split(sol):
    """Routes of an encoding, empty ones kept."""
    out, cur = [], [0]
    for x in sol[1:]:
        cur.append(x)
        if x == 0:
            out.append(cur)
            cur = [0]
    return out


def whole_moves(name, routes):
    """(changed routes before, after) for each move of a whole-plan operator."""
    intra, inter = WHOLE[name]
    for r in routes:
        for q in intra(r):
            yield (r,), (q,)
    if inter:
        for a, b in itertools.permutations(range(len(routes)), 2):
            for q in inter(routes[a], routes[b]):
                yield (routes[a], routes[b]), q


def best_whole(name, routes, s, eps):
    """The least change among the moves that are feasible beyond doubt."""
    best = None
    for old, new in whole_moves(name, routes):
        d = sum(lsgen.cost(r, s.D) for r in new) - sum(lsgen.cost(r, s.D) for r in old)
        if (best is None or d < best) and lsgen.clear(new, s, eps):
            best = d
    return best


def best_routes(name, routes, s):
    """The least change of each route."""
    return [min([0] + [lsgen.cost(q, s.D) - lsgen.cost(r, s.D) for q in PER_ROUTE[name](r)]) for r in routes]


def sound(rec, s, sol, new, tag, data):
    if not isinstance(new, list) or new[:1] != [0] or new[-1:] != [0]:
        rec.bad("shape", "%s returned %r" % (tag, new), data)
        return False
    if sorted(x for x in new if x) != sorted(x for x in sol if x):
        rec.bad("customers", "%s -> %s" % (tag, new), data)
        return False
    ok = True
    for kind, text in oracle.plan_faults(new, len(s.D), s.d, s.C, s.D, s.L):
        if kind == "missing":
            continue            # the given plan need not serve everybody; checked above
        rec.bad(kind, "%s -> %s: %s" % (tag, new, text), data)
        ok = False
    return ok


def op_of(name):
    from verypy.local_search import naive_implementations as m
    return getattr(m, name)


def chunk(rng, idx, tier, rec):
    for _ in range(80):
        n = rng.choice((1, 2, 3, 4, 5, 6, 7, 8))
        s = lsgen.state(rng, n, allow_empty=rng.random() < .3)
        for name in NAMES:
            for strategy in (1, 2):
                move(rng, rec, s, name, strategy)
        for _ in range(3):
            names = rng.sample(NAMES, rng.choice((1, 1, 2, 3, 6)))
            search(rng, rec, s, names, rng.choice((1, 2)), rng.choice((None, None, 1, 2, 3, 5)))


def move(rng, rec, s, name, strategy):
    sol = giant(s.routes)
    eps = 10 * lsgen.tol(s.D)
    if name in WHOLE:
        best = best_whole(name, s.routes, s, eps)
        each = None
    else:
        each = best_routes(name, s.routes, s)
        best = sum(each)
    best = min(best or 0, 0)
    levels = [None]
    if best < -eps:
        levels.append(rng.choice((best * .5, best * .95, best * 1.2, best - 5)))
    for level in levels:
        tag = "%s strategy=%d level=%s C=%s L=%s on %s" % (name, strategy, level, s.C, s.L, sol)
        data = dict(lsgen.describe(s), solution=sol, op=name, strategy=strategy, level=level)
        given = list(sol)
        o = core.call(op_of(name), given, s.D, list(s.d), s.C, s.L, strategy, level)
        lvl = level or 0
        exists = best < lvl - eps
        if not o.ok:
            rec.bad("error/%s" % (core.where(o.exc) if o.exc else "no-end"), tag + " " + o.why(), data)
            continue
        if given != sol:
            rec.bad("input", "%s changed the plan it was given to %s" % (tag, given), data)
        new, delta = o.value
        rec.case((tag, s.D.tobytes()), exists or new is not None, {"move": tag, "best": best, "got": delta} if exists else None)
        if (new is None) != (delta is None):
            rec.bad("shape", "%s returned %r" % (tag, o.value), data)
            continue
        # the per-route operators with the first move of each route may stop short of the level
        if new is None:
            rec.count("no move")
            if exists and (each is None or strategy == 2 or lvl == 0):
                rec.bad("missed", "%s returned nothing although a feasible change of %r exists" % (tag, best), data)
            continue
        rec.count("moves " + name)
        if not sound(rec, s, sol, new, tag, data):
            continue
        true = lsgen.cost(new, s.D) - lsgen.cost(sol, s.D)
        if abs(true - delta) > eps:
            rec.bad("delta", "%s -> %s reports %r, true %r" % (tag, new, delta, true), data)
        if true > lvl + eps or (lvl == 0 and not delta < 0):
            rec.bad("level", "%s -> %s change %r not below level" % (tag, new, delta), data)
        if strategy == 2 and true > best + eps:
            rec.bad("notbest", "%s -> %s change %r, best is %r" % (tag, new, true, best), data)
        if each is not None:
            got = split(new)
            if [sorted(r) for r in got] != [sorted(r) for r in s.routes]:
                rec.bad("moved", "%s -> %s moved a customer to another route" % (tag, new), data)
                continue
            for r, q, b in zip(s.routes, got, each):
                if b < -eps and lsgen.cost(q, s.D) > lsgen.cost(r, s.D) - 1e-12:
                    rec.bad("missedroute", "%s -> %s did not improve %s although %r is possible" % (tag, new, r, b), data)


def search(rng, rec, s, names, strategy, cut):
    from verypy.local_search.naive_implementations import do_naive_local_search
    sol = giant(s.routes)
    eps = 10 * lsgen.tol(s.D)
    tag = "search %s strategy=%d iterations=%s C=%s L=%s on %s" % ("+".join(names), strategy, cut, s.C, s.L, sol)
    data = dict(lsgen.describe(s), solution=sol, ops=names, strategy=strategy, iterations=cut)
    made = []

    def watch(op):
        def run(*a, **k):
            r = op(*a, **k)
            if r[0] is not None:
                made.append(r[1])
            return r
        run.__name__ = op.__name__
        return run
    given = list(sol)
    o = core.call(do_naive_local_search, [watch(op_of(n)) for n in names], given, s.D, list(s.d), s.C, s.L, strategy, cut)
    if not o.ok:
        rec.bad("error/%s" % (core.where(o.exc) if o.exc else "no-end"), tag + " " + o.why(), data)
        return
    new = o.value
    if given != sol:
        rec.bad("input", "%s changed the plan it was given to %s" % (tag, given), data)
    before, after = lsgen.cost(sol, s.D), None
    if not sound(rec, s, sol, new, tag, data):
        return
    after = lsgen.cost(new, s.D)
    rec.case((tag, s.D.tobytes()), bool(made), {"search": tag, "moves": len(made), "from": before, "to": after} if made else None)
    if abs(after - before - sum(made)) > eps * (1 + len(made)):
        rec.bad("lost", "%s -> %s changes by %r, its %d moves sum to %r" % (tag, new, after - before, len(made), sum(made)), data)
    if cut is not None and len(made) > cut * len(names):
        rec.bad("limit", "%s made %d moves with %d operators" % (tag, len(made), len(names)), data)
    if cut is not None and len(made) >= cut:
        rec.count("searches cut short")
        return
    for name in names:
        if name in WHOLE:
            b = best_whole(name, split(new), s, eps)
        else:
            b = min(best_routes(name, split(new), s))
        if b is not None and b < -eps:
            rec.bad("notoptimal/" + name, "%s -> %s: %s improves it by %r" % (tag, new, name, b), data)
            return
    rec.count("local optima verified")
