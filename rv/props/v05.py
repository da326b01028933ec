"""Moves inside a route: customers kept, exact gain, complete and best."""
from .. import core, lsgen

CHUNKS = {"quick": 64, "thorough": 640}
MIN = {"quick": 5000, "thorough": 50000}
RULE = ("random routes of 0..9 customers (depot or another node as end point) over 9 kinds of symmetric matrices; "
        "4 operators x 2 strategies x requested levels; the answer is judged against the built neighbourhood. "
        "Non-trivial: route of at least 2 customers; distinct by operator, options, matrix and route")
OPS = (("do_2opt_move", lsgen.nb_2opt), ("do_3opt_move", lsgen.nb_3opt),
       ("do_relocate_move", lsgen.nb_relocate), ("do_exchange_move", lsgen.nb_exchange))


def chunk(rng, idx, tier, rec):
    from verypy.local_search import LSOPT
    from verypy.local_search import intra_route_operators as ops
    for _ in range(1200):
        n = rng.choice((1, 2, 3, 4, 5, 6, 7, 8, 9, 10))
        D, kind = lsgen.matrix(rng, n)
        m = rng.randint(0, n)
        nodes = rng.sample(range(1, n + 1), m)
        r = [0] + nodes + [0]
        if rng.random() < .1 and m:
            e = r.pop(1)
            r = [e] + [0] + r[1:-1] + [e]
        if rng.random() < .1 and m > 1:
            r = r[:-1]                      # open path: end points stay too
        base = lsgen.cost(r, D)
        eps = lsgen.tol(D)
        for name, nb in OPS:
            # leaving a route as it is is not a move
            deltas = sorted(lsgen.cost(q, D) - base for q in nb(r) if q != r)
            lo = deltas[0] if deltas else 0
            for strategy in (LSOPT.FIRST_ACCEPT, LSOPT.BEST_ACCEPT):
                levels = [None, rng.choice((0, -abs(lo) * rng.uniform(.2, .9), lo, lo * .5, 5.0, 1000.0))]
                for level in levels:
                    judge(ops, name, r, D, strategy, level, deltas, base, eps, kind, rec)


def judge(ops, name, r, D, strategy, level, deltas, base, eps, kind, rec):
    f = getattr(ops, name)
    o = core.call(f, list(r), D, strategy, level)
    tag = "%s strategy=%s level=%s on %s" % (name, strategy, level, r)
    data = {"route": r, "D": D.tolist(), "level": level, "strategy": strategy, "op": name}
    if not o.ok:
        rec.bad("error/" + name, tag + " " + o.why(), data)
        return
    rec.case((name, strategy, level, tuple(r), D.tobytes()), len(r) > 3, {"move": tag, "answer": repr(o.value)})
    try:
        new, delta = o.value
    except Exception:
        rec.bad("shape/" + name, tag + " returned %r" % (o.value,), data)
        return
    lvl = level if level else 0
    if (new is None) != (delta is None):
        rec.bad("shape/" + name, tag + " returned %r" % (o.value,), data)
        return
    if new is None:
        rec.count("no move")
        if deltas and deltas[0] < lvl - eps:
            rec.bad("missed/" + name, "%s returned nothing although a move of %r exists" % (tag, deltas[0]), data)
        return
    rec.count("moves " + name)
    if new[0] != r[0] or new[-1] != r[-1]:
        rec.bad("ends/" + name, "%s -> %s moved an end point" % (tag, new), data)
    if sorted(new) != sorted(r):
        rec.bad("customers/" + name, "%s -> %s lost or gained nodes" % (tag, new), data)
        return
    true = lsgen.cost(new, D) - base
    if abs(true - delta) > eps:
        rec.bad("delta/" + name, "%s -> %s reports %r, true %r" % (tag, new, delta, true), data)
    if not true < lvl + eps or (lvl == 0 and not delta < 0):
        rec.bad("level/" + name, "%s -> %s change %r not below level" % (tag, new, delta), data)
    if strategy == 2 and deltas and true > deltas[0] + eps:
        rec.bad("notbest/" + name, "%s -> %s change %r, best is %r" % (tag, new, true, deltas[0]), data)
