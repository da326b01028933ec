"""Moves between routes: customers, limits, exact books."""
from .. import core, lsgen

CHUNKS = {"quick": 64, "thorough": 640}
MIN = {"quick": 5000, "thorough": 50000}
RULE = ("feasible route sets (2..4 routes incl. one-customer and empty ones, 2..10 customers) over 9 kinds of symmetric matrices with "
        "limits met exactly or with slack; 6 operators, strategies, requested levels, recombination levels; route records fresh or used before under other distances and demands; each returned route checked "
        "for customers, limits, true cost and demand. Non-trivial: the operator returned a move; distinct by operator, options, state")


def chunk(rng, idx, tier, rec):
    for _ in range(700 if tier == "quick" else 500):
        k = rng.randint(2, 4)
        s = lsgen.state(rng, rng.randint(k, 10), nroutes=k)
        pairs(rng, s, rec)
        inserts(rng, s, rec)


def data_of(s, routes):
    from verypy.routedata import RouteData
    out = []
    for r in routes:
        q = sum(s.d[i] for i in r)
        out.append(RouteData(list(r), lsgen.cost(r, s.D), q))
    return out


def levels(rng):
    return rng.choice((None, None, None, 0, -rng.uniform(0, 30), rng.uniform(0, 40), 1000.0))


def books(rec, tag, name, s, given, got, data):
    """Each returned route: ends, limits, own cost and demand."""
    eps = lsgen.tol(s.D)
    if sorted(x for r in given for x in r if x) != sorted(x for g in got for x in g.route if x):
        rec.bad("customers/" + name, "%s -> %s" % (tag, [g.route for g in got]), data)
        return False
    feasible = lsgen.clear(given, s, 0) is not False
    for g in got:
        r = list(g.route)
        if len(r) < 2 or r[0] != 0 or r[-1] != 0 or 0 in r[1:-1]:
            rec.bad("shape/" + name, "%s -> route %s" % (tag, r), data)
            continue
        true = lsgen.cost(r, s.D)
        if g.cost is None or abs(true - g.cost) > eps:
            rec.bad("cost/" + name, "%s -> route %s carries cost %r, true %r" % (tag, r, g.cost, true), data)
        if s.C:
            q = sum(s.d[i] for i in r)
            if g.demand is None or abs(q - g.demand) > 1e-7 * (1 + abs(q)):
                rec.bad("demand/" + name, "%s -> route %s carries demand %r, true %r" % (tag, r, g.demand, q), data)
            if feasible and q > s.C + 1e-7 * (1 + abs(s.C)):
                rec.bad("capacity/" + name, "%s -> route %s carries %r > %r" % (tag, r, q, s.C), data)
        if s.L and feasible and true > s.L + eps:
            rec.bad("length/" + name, "%s -> route %s costs %r > %r" % (tag, r, true, s.L), data)
    return True


def pairs(rng, s, rec):
    from verypy.local_search import inter_route_operators as ops
    eps = lsgen.tol(s.D)
    todo = [("do_2optstar_move", 2), ("do_1point_move", 2), ("do_2point_move", 2)]
    if len(s.routes) > 2:
        todo.append(("do_chain_move", 3))
    for name, k in todo:
        for strategy in (1, 2):
            for level in (None, levels(rng)):
                given = rng.sample(s.routes, k)
                tag = "%s strategy=%s level=%s C=%s L=%s on %s" % (name, strategy, level, s.C, s.L, given)
                data = dict(lsgen.describe(s), op=name, given=given, level=level, strategy=strategy)
                rds = data_of(s, given)
                if rng.random() < .1:
                    rds = [(r.route, r.cost, r.demand, None) for r in rds]
                elif rng.random() < .3:
                    used_before(rng, s, rds, ops)
                    tag += " (records used before)"
                o = core.call(getattr(ops, name), *(rds + [s.D, list(s.d) if (s.C or rng.random() < .5) else None,
                                                           s.C, s.L, strategy, level]))
                if not o.ok:
                    rec.bad("error/%s/%s" % (name, core.where(o.exc) if o.exc else "steps"), tag + " " + o.why(), data)
                    continue
                res = list(o.value)
                none = [x is None for x in res]
                if len(res) != k + 1 or (any(none) and not all(none)):
                    rec.bad("shape/" + name, "%s returned %r" % (tag, res), data)
                    continue
                moved = not none[0]
                rec.case((name, strategy, level, repr(given), s.D.tobytes(), s.C, s.L), moved,
                         {"move": tag, "answer": [list(x.route) if hasattr(x, "route") else x for x in res]} if moved else None)
                if not moved:
                    rec.count("no move")
                    continue
                rec.count("moves " + name)
                if not books(rec, tag, name, s, given, res[:-1], data):
                    continue
                true = sum(lsgen.cost(g.route, s.D) for g in res[:-1]) - sum(lsgen.cost(r, s.D) for r in given)
                if abs(true - res[-1]) > eps:
                    rec.bad("delta/" + name, "%s -> %s reports %r, true %r" % (tag, [g.route for g in res[:-1]], res[-1], true), data)
                lvl = level or 0
                if true > lvl + eps or (lvl == 0 and not res[-1] < 0):
                    rec.bad("level/" + name, "%s change %r not below level" % (tag, res[-1]), data)


def used_before(rng, s, rds, ops):
    """The same route records in a search under other distances and demands."""
    D = lsgen.matrix(rng, len(s.D) - 1)[0]
    d = list(s.d)
    rng.shuffle(d)
    C = rng.choice((None, s.C, sum(d) + 1))
    for name, k in (("do_2optstar_move", 2), ("do_1point_move", 2), ("do_2point_move", 2), ("do_chain_move", 3)):
        if k <= len(rds):
            core.call(getattr(ops, name), *(rds[:k] + [D, d if C or rng.random() < .5 else None, C, rng.choice((None, 50.0)), rng.choice((1, 2)), None]))


def inserts(rng, s, rec):
    from verypy.local_search import inter_route_operators as ops
    eps = lsgen.tol(s.D)
    # insert: customers of one route to another, in the three accepted forms
    for strategy in (1, 2):
        a, b = rng.sample(range(len(s.routes)), 2)
        src, dst = s.routes[a], s.routes[b]
        form = rng.choice(("route", "list", "one"))
        if form == "one" and len(src) < 3:
            form = "route"
        what = {"route": src[1:-1], "list": src[1:-1], "one": src[1:2]}[form]
        rd_src, rd_dst = data_of(s, [src, dst])
        arg = {"route": rd_src, "list": list(src[1:-1]), "one": src[1] if len(src) > 2 else None}[form]
        level = levels(rng)
        tag = "do_insert_move %s %s strategy=%s level=%s C=%s L=%s to %s" % (form, what, strategy, level, s.C, s.L, dst)
        data = dict(lsgen.describe(s), op="do_insert_move", form=form, what=what, to=dst, level=level, strategy=strategy)
        o = core.call(ops.do_insert_move, arg, rd_dst, s.D, list(s.d), s.C, s.L, strategy, level)
        check_insert(rec, "do_insert_move", tag, s, what, [dst], o, level, data, eps)
    # redistribute: a route over one or several receiving routes
    strategy = rng.choice((1, 2))
    idx = list(range(len(s.routes)))
    rng.shuffle(idx)
    src = s.routes[idx[0]]
    recv = [s.routes[i] for i in idx[1:]]
    lev = rng.choice((0, 0, 1, 2, 3))
    if len(src) > 6:
        lev = rng.choice((0, 2))
    single = rng.random() < .3
    if single:
        recv = recv[:1]
    level = rng.choice((None, None, rng.uniform(0, 60)))
    rds = data_of(s, recv)
    tag = "do_redistribute_move level=%s recombination=%s strategy=%s C=%s L=%s %s over %s" % (level, lev, strategy, s.C, s.L, src, recv)
    data = dict(lsgen.describe(s), op="do_redistribute_move", src=src, recv=recv, recombination=lev, level=level, strategy=strategy)
    o = core.call(ops.do_redistribute_move, data_of(s, [src])[0], rds[0] if single else rds, s.D, list(s.d), s.C, s.L,
                  strategy, level, lev)
    check_insert(rec, "do_redistribute_move", tag, s, src[1:-1], recv, o, level, data, eps)


def check_insert(rec, name, tag, s, what, recv, o, level, data, eps):
    if not o.ok:
        rec.bad("error/%s/%s" % (name, core.where(o.exc) if o.exc else "steps"), tag + " " + o.why(), data)
        return
    res = list(o.value)
    none = [x is None for x in res]
    if len(res) != len(recv) + 2 or (any(none) and not all(none)):
        rec.bad("shape/" + name, "%s returned %r" % (tag, res), data)
        return
    rec.case((tag, s.D.tobytes()), not none[0], {"move": tag, "answer": [list(x.route) if hasattr(x, "route") else x for x in res]} if not none[0] else None)
    if none[0]:
        rec.count("no move")
        return
    rec.count("moves " + name)
    if [x for x in res[0].route if x]:
        rec.bad("shape/" + name, "%s: first route is not empty: %s" % (tag, res[0].route), data)
    if not books(rec, tag, name, s, recv + [[0] + list(what) + [0]], res[:-1], data):
        return
    true = sum(lsgen.cost(g.route, s.D) for g in res[1:-1]) - sum(lsgen.cost(r, s.D) for r in recv)
    if abs(true - res[-1]) > eps:
        rec.bad("delta/" + name, "%s -> %s reports %r, true %r" % (tag, [g.route for g in res[:-1]], res[-1], true), data)
    if what and level and true > level + eps:
        rec.bad("level/" + name, "%s change %r not below level" % (tag, res[-1]), data)
