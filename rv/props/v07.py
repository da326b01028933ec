"""Moves between routes are found whenever they exist."""
from .. import core, lsgen
from .v06 import data_of

CHUNKS = {"quick": 64, "thorough": 640}
MIN = {"quick": 5000, "thorough": 50000}
RULE = ("feasible route sets as for V06; the whole neighbourhood is built and judged from the definition (moves whose feasibility or gain "
        "hinges on rounding are left out) and compared with the operator's answer. Non-trivial: the neighbourhood holds a feasible move "
        "below the level; distinct by operator, options, state")
OPS = (("do_2optstar_move", 2, lsgen.nb_2optstar), ("do_1point_move", 2, lsgen.nb_1point),
       ("do_2point_move", 2, lsgen.nb_2point), ("do_chain_move", 3, lsgen.nb_chain))


def chunk(rng, idx, tier, rec):
    from verypy.local_search import inter_route_operators as ops
    for _ in range(500):
        k = rng.randint(2, 3)
        s = lsgen.state(rng, rng.randint(k, 9), nroutes=k)
        eps = 10 * lsgen.tol(s.D)
        for name, kk, nb in OPS:
            if kk > len(s.routes):
                continue
            given = rng.sample(s.routes, kk)
            base = sum(lsgen.cost(r, s.D) for r in given)
            deltas = [sum(lsgen.cost(r, s.D) for r in q) - base for q in nb(*given) if lsgen.clear(q, s, eps)]
            best = min(deltas) if deltas else None
            for strategy in (1, 2):
                for level in (None, rng.choice((-rng.uniform(0, 30), rng.uniform(1, 40), 1000.0,
                                                best * .9 if best and best < 0 else -1.0))):
                    lvl = level or 0
                    exists = best is not None and best < lvl - eps
                    tag = "%s strategy=%s level=%s C=%s L=%s on %s" % (name, strategy, level, s.C, s.L, given)
                    data = dict(lsgen.describe(s), op=name, given=given, level=level, strategy=strategy)
                    o = core.call(getattr(ops, name), *(data_of(s, given) + [s.D, list(s.d), s.C, s.L, strategy, level]))
                    if not o.ok:
                        rec.bad("error/" + name, tag + " " + o.why(), data)
                        continue
                    got = o.value[-1]
                    rec.case((tag, s.D.tobytes()), exists, {"move": tag, "best": best, "got": got} if exists else None)
                    if exists:
                        rec.count("existing " + name)
                        if got is None:
                            rec.bad("missed/" + name, "%s returned nothing although a feasible move of %r exists" % (tag, best), data)
                        elif strategy == 2 and got > best + eps:
                            rec.bad("notbest/" + name, "%s found %r, best is %r" % (tag, got, best), data)
                    else:
                        rec.count("none exists")
        insertion(rng, s, eps, ops, rec)


def insertion(rng, s, eps, ops, rec):
    a, b = rng.sample(range(len(s.routes)), 2)
    if len(s.routes[a]) < 3:
        return
    node, dst = rng.choice(s.routes[a][1:-1]), s.routes[b]
    cand = [dst[:j] + [node] + dst[j:] for j in range(1, len(dst))]
    base = lsgen.cost(dst, s.D)
    deltas = [lsgen.cost(q, s.D) - base for q in cand if lsgen.clear([q], s, eps)]
    sure = all(lsgen.clear([q], s, eps) is not None for q in cand)
    best = min(deltas) if deltas else None
    for strategy in (1, 2):
        level = None if strategy == 1 else rng.choice((None, None, rng.uniform(.5, 50)))
        exists = best is not None and (level is None or best < level - eps)
        tag = "do_insert_move strategy=%s level=%s C=%s L=%s %s to %s" % (strategy, level, s.C, s.L, node, dst)
        data = dict(lsgen.describe(s), op="do_insert_move", node=node, to=dst, level=level, strategy=strategy)
        o = core.call(ops.do_insert_move, rng.choice((node, [node])), data_of(s, [dst])[0], s.D, list(s.d), s.C, s.L, strategy, level)
        if not o.ok:
            rec.bad("error/do_insert_move", tag + " " + o.why(), data)
            continue
        got = o.value[-1]
        rec.case((tag, s.D.tobytes()), exists, None)
        if exists:
            rec.count("existing do_insert_move")
            if got is None:
                rec.bad("missed/do_insert_move", "%s returned nothing although %r is possible" % (tag, best), data)
            elif strategy == 2 and sure and abs(got - best) > eps:
                rec.bad("notbest/do_insert_move", "%s found %r, best is %r" % (tag, got, best), data)
        elif got is not None and sure and best is None:
            rec.bad("impossible/do_insert_move", "%s inserted although no position is feasible" % tag, data)
