"""Conversions between plan encodings and the shared containers are faithful."""
import random as pyrandom

from .. import core, lsgen, oracle

CHUNKS = {"quick": 48, "thorough": 480}
MIN = {"quick": 5000, "thorough": 50000}
RULE = ("plans of 1..14 customers in 1..n routes, with repeated depots, routes with and without depots, in every encoding and back; route "
        "records with their running totals; the ordered set against a model over random operation histories; the plan comparison against "
        "all laws of a strict preference on small grids. Non-trivial: at least 2 customers or 3 operations; distinct by content")


def chunk(rng, idx, tier, rec):
    for _ in range(600):
        encodings(rng, rec)
        ordered_set(rng, rec)
    preference(rng, rec)


def bad_call(rec, key, o, tag):
    if o.ok:
        return False
    rec.bad("error/" + key, "%s: %s" % (tag, o.why()))
    return True


def encodings(rng, rec):
    from verypy import util
    from verypy.routedata import RouteData
    n = rng.randint(1, 14)
    D, kind = lsgen.matrix(rng, n)
    cust = list(range(1, n + 1))
    rng.shuffle(cust)
    k = rng.randint(1, n)
    cuts = [0] + sorted(rng.sample(range(1, n), k - 1)) + [n] if n > 1 else [0, n]
    routes = [cust[a:b] for a, b in zip(cuts, cuts[1:])]
    clean, noisy = [0], [0]
    for r in routes:
        clean += r + [0]
        noisy += r + [0] * rng.choice((1, 1, 1, 2, 3))
    full = [[0] + r + [0] for r in routes]
    rec.case(("enc", repr(noisy), D.tobytes()), n > 1, {"plan": noisy})
    rec.count("plans converted")
    for sol in (clean, noisy):
        o = core.call(util.sol2routes, list(sol))
        if not bad_call(rec, "sol2routes", o, sol) and [list(r) for r in o.value] != full:
            rec.bad("sol2routes", "%s -> %s" % (sol, o.value))
        o = core.call(util.without_empty_routes, list(sol))
        if not bad_call(rec, "without_empty_routes", o, sol) and list(o.value) != clean:
            rec.bad("without_empty_routes", "%s -> %s" % (sol, o.value))
        for sym in (True, False):
            want = set()
            for a, b in zip(sol, sol[1:]):
                want.add((min(a, b), max(a, b)) if sym else (a, b))
            o = core.call(util.sol2edgeset, list(sol), sym)
            if not bad_call(rec, "sol2edgeset", o, sol) and set(o.value) != want:
                rec.bad("sol2edgeset", "%s symmetric=%s -> %s" % (sol, sym, o.value))
    forms = {"full": full, "bare": [list(r) for r in routes], "mixed": [rng.choice(([0] + r + [0], list(r), [0] + r, r + [0])) for r in routes],
             "with empty": [x for f in full for x in rng.choice(([f], [f, [0, 0]], [[], f], [[0], f]))]}
    for name, f in forms.items():
        given = repr(f)
        o = core.call(util.routes2sol, f)
        got = None if not o.ok else list(o.value)
        if name == "with empty" and o.ok and got and got[0] == 0 == got[-1]:
            got = [0] + [x for r in oracle.routes_of(got) for x in r + [0]]   # empty routes may stay or go
        if not bad_call(rec, "routes2sol", o, given) and got != clean:
            rec.bad("routes2sol/" + name, "%s -> %s" % (given, o.value))
        if repr(f) != given:
            rec.bad("routes2sol-modified", "%s became %s" % (given, f))
    d = [0] + [rng.choice((rng.randint(0, 30), rng.uniform(0, 9))) for _ in cust]
    if rng.random() < .2:
        d = None
    eps = lsgen.tol(D)
    tot = lambda r: sum(d[i] for i in r) if d else 0
    for sol in (clean, noisy):
        o = core.call(RouteData.from_solution, list(sol), D, d)
        if bad_call(rec, "from_solution", o, sol):
            continue
        rds = o.value
        if [list(x.route) for x in rds] != full:
            rec.bad("from_solution", "%s -> %s" % (sol, [x.route for x in rds]))
            continue
        back = core.call(RouteData.to_solution, rds)
        if not bad_call(rec, "to_solution", back, sol) and list(back.value) != clean:
            rec.bad("to_solution", "%s -> %s" % (sol, back.value))
        for x in rds:
            record(rec, RouteData, x, D, d, tot, eps)


def record(rec, RouteData, x, D, d, tot, eps):
    r = list(x.route)
    if abs(float(x.cost) - float(lsgen.cost(r, D))) > eps:
        rec.bad("record-cost", "%s carries %r" % (r, x.cost))
    if d and abs(x.demand - tot(r)) > 1e-7:
        rec.bad("record-demand", "%s carries %r, is %r" % (r, x.demand, tot(r)))
    if set(x.node_set) != set(r) - {0}:
        rec.bad("record-nodes", "%s has nodes %s" % (r, x.node_set))
    if list(x)[:3] != [x.route, x.cost, x.demand] or [x[0], x[1], x[2], x[3]] != list(x) or x.is_empty() != (len(r) <= 2):
        rec.bad("record-unpack", "%s unpacks to %s" % (r, list(x)))
    o = core.call(x.update_auxiliary_data, D, d)
    if bad_call(rec, "update_auxiliary_data", o, r):
        return
    for i in range(len(r)):
        want = {"fwd_l": lsgen.cost(r[:i + 1], D), "rwd_l": lsgen.cost(r[i:], D)}
        if d:
            want["fwd_d"], want["rwd_d"] = tot(r[:i + 1]), tot(r[i:])
        for name, w in want.items():
            got = getattr(x, name)[i]
            if abs(float(got) - float(w)) > eps + 1e-7:
                rec.bad("running/" + name, "%s: %s[%d] is %r, should be %r" % (r, name, i, got, w))
                return
    before = sorted(r)
    o = core.call(x.normalize)
    if not bad_call(rec, "normalize", o, r):
        if sorted(x.route) != before or list(x.route) not in (r, r[::-1]) or (len(r) > 2 and x.route[1] > x.route[-2]):
            rec.bad("record-normalize", "%s -> %s" % (r, x.route))
    rec.count("route records")


def ordered_set(rng, rec):
    from verypy.util import OrderedDictSet
    start = [rng.randint(0, 9) for _ in range(rng.randint(0, 6))]
    ods = OrderedDictSet(list(start)) if start or rng.random() < .5 else OrderedDictSet()
    model = []
    for e in start:
        if e not in model:
            model.append(e)
    hist = ["init %s" % start]
    for _ in range(rng.randint(1, 25)):
        op = rng.choice(("add", "add", "remove", "diff", "index", "index", "iter", "len", "in"))
        e = rng.randint(0, 9)
        try:
            if op == "add":
                hist.append("add %d" % e)
                ods.add(e)
                if e not in model:
                    model.append(e)
            elif op == "remove":
                hist.append("remove %d" % e)
                try:
                    ods.remove(e)
                    gone = True
                except KeyError:
                    gone = False
                if gone != (e in model):
                    rec.bad("set/remove", "%s: removed=%s, model %s" % (hist, gone, model))
                    return
                if gone:
                    model.remove(e)
            elif op == "diff":
                c = [rng.randint(0, 9) for _ in range(rng.randint(0, 4))]
                hist.append("difference %s" % c)
                ods.difference_update(rng.choice((c, set(c), OrderedDictSet(c))))
                model = [x for x in model if x not in c]
            elif op == "index":
                if model:
                    i = rng.randrange(-len(model), len(model))
                    hist.append("[%d]" % i)
                    if ods[i] != model[i]:
                        rec.bad("set/index", "%s gives %r, model %s" % (hist, ods[i], model))
                        return
                else:
                    try:
                        ods[0]
                        rec.bad("set/index", "%s: index of an empty set" % hist)
                        return
                    except IndexError:
                        hist.append("[0] empty")
            elif op == "in":
                if (e in ods) != (e in model):
                    rec.bad("set/in", "%s: %d in set is %s, model %s" % (hist, e, e in ods, model))
                    return
            if op in ("iter", "len") or rng.random() < .3:
                if list(ods) != model or len(ods) != len(model):
                    rec.bad("set/iter", "%s gives %s, model %s" % (hist, list(ods), model))
                    return
        except Exception as ex:
            rec.bad("set/error/%s" % op, "%s raised %r, model %s" % (hist, ex, model))
            return
    rec.case(("set", tuple(hist)), len(hist) > 3, {"history": hist})
    rec.count("set operations", len(hist))


def preference(rng, rec):
    from verypy.util import first_valid, is_better_sol, is_sorted, objf, totald
    vals = [(f, k) for f in (1, 2.5, 2.5000001, 40) for k in (1, 2, 5)] + [(float(rng.randint(0, 5)), rng.randint(1, 4)) for _ in range(8)]
    for mk in (True, False):
        key = (lambda v: (v[1], v[0])) if mk else (lambda v: v[0])
        for a in vals:
            for b in vals:
                got = bool(is_better_sol(a[0], a[1], b[0], b[1], mk))
                rec.case(("pref", mk, a, b), True)
                if got != (key(b) < key(a)):
                    rec.bad("preference", "new %s against best %s, vehicles first=%s: %s" % (b, a, mk, got))
            if is_better_sol(a[0], a[1], None, None, mk) or not is_better_sol(None, None, a[0], a[1], mk):
                rec.bad("preference-none", "no plan preferred to %s" % (a,))
            if not is_better_sol(float("inf"), 99, a[0], a[1], mk):
                rec.bad("preference-first", "%s not preferred to the initial bound" % (a,))
    for _ in range(60):
        l = [rng.choice((None, 0, "", [], rng.randint(1, 9), "x", [1])) for _ in range(rng.randint(0, 5))]
        want = next((x for x in l if x), None)
        o = core.call(first_valid, l)
        if not o.ok or o.value != want:
            rec.bad("first_valid", "%s -> %r %s" % (l, o.value, o.why()))
        l = [rng.randint(0, 5) for _ in range(rng.randint(0, 5))]
        if bool(is_sorted(l)) != (l == sorted(l)):
            rec.bad("is_sorted", "%s -> %s" % (l, is_sorted(l)))
