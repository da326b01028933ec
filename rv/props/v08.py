"""The whole-plan 3-opt* move: sound, exact, complete, best."""
from .. import core, lsgen, oracle

CHUNKS = {"quick": 96, "thorough": 960}
MIN = {"quick": 2000, "thorough": 20000}
RULE = ("feasible plans of 1..8 customers in 1..4 routes over 9 kinds of symmetric matrices, limits met exactly or with slack, with empty "
        "routes now and then; 2 strategies x requested levels; every triple of edges and each of the 14 other ways to join their ends is "
        "built and judged from the definition. Non-trivial: the operator returned a move or a feasible one below the level exists; "
        "distinct by state and options")

# pairings of the six ends a|b..c|d..e|f other than the identity
MATCH = []


def _match(left, cur):
    if not left:
        MATCH.append(tuple(cur))
        return
    a = left[0]
    for b in left[1:]:
        _match([x for x in left if x not in (a, b)], cur + [(a, b)])


_match(list(range(6)), [])
MATCH.remove(((0, 1), (2, 3), (4, 5)))


def joins(sol):
    """Every plan that reconnects three edges of the giant tour, as route lists."""
    m = len(sol)
    for i in range(m - 1):
        for j in range(i + 1, m - 1):
            for k in range(j + 1, m - 1):
                h, s1, s2, t = sol[:i + 1], sol[i + 1:j + 1], sol[j + 1:k + 1], sol[k + 1:]
                for pairs in MATCH:
                    to = {}
                    for x, y in pairs:
                        to[x], to[y] = y, x
                    out, at, used = list(h), to[0], set()
                    while at != 5:
                        seg, rev, end = {1: (s1, 1, 2), 2: (s1, -1, 1), 3: (s2, 1, 4), 4: (s2, -1, 3)}[at]
                        out += seg[::rev]
                        used.add(at if at in (1, 3) else at - 1)
                        at = to[end]
                    out += t
                    ok = True
                    left = [x for x in (1, 3) if x not in used]
                    while left:
                        st = left.pop()
                        loop, at = [], st
                        while True:
                            seg, rev, end = {1: (s1, 1, 2), 2: (s1, -1, 1), 3: (s2, 1, 4), 4: (s2, -1, 3)}[at]
                            loop += seg[::rev]
                            u = at if at in (1, 3) else at - 1
                            if u in left:
                                left.remove(u)
                            at = to[end]
                            if at == st:
                                break
                        if 0 not in loop:
                            ok = False
                            break
                        z = loop.index(0)
                        out += loop[z + 1:] + loop[:z + 1]
                    if ok:
                        yield out


def chunk(rng, idx, tier, rec):
    for _ in range(180):
        n = rng.choice((1, 2, 3, 4, 5, 6, 6, 7, 7, 8))
        s = lsgen.state(rng, n, allow_empty=rng.random() < .3)
        sol = [0]
        for r in s.routes:
            sol += r[1:]
        base = lsgen.cost(sol, s.D)
        eps = 10 * lsgen.tol(s.D)
        cand = []
        for q in joins(sol):
            d = lsgen.cost(q, s.D) - base
            cand.append((d, q))
        cand.sort(key=lambda x: x[0])
        sure = [d for d, q in feasible(cand, s, eps)]
        best = sure[0] if sure else None
        for strategy in (1, 2):
            for level in (None, rng.choice((0, -rng.uniform(0, 30), rng.uniform(1, 40), 1000.0, best * .9 if best and best < 0 else -1.0))):
                judge(rec, s, sol, strategy, level, best, base, eps)


def feasible(cand, s, eps):
    """First candidate that is feasible beyond doubt (the list is sorted)."""
    for d, q in cand:
        if lsgen.clear([[0] + r + [0] for r in oracle.routes_of(q)], s, eps):
            return [(d, q)]
    return []


def judge(rec, s, sol, strategy, level, best, base, eps):
    from verypy.local_search.solution_operators import do_3optstar_move
    tag = "do_3optstar_move strategy=%s level=%s C=%s L=%s on %s" % (strategy, level, s.C, s.L, sol)
    data = dict(lsgen.describe(s), solution=sol, level=level, strategy=strategy)
    o = core.call(do_3optstar_move, list(sol), s.D, list(s.d) if s.C or strategy == 1 else None, s.C, s.L, strategy, level)
    lvl = level or 0
    exists = best is not None and best < lvl - eps
    if not o.ok:
        rec.bad("error/%s" % (core.where(o.exc) if o.exc else "steps"), tag + " " + o.why(), data)
        return
    new, delta = o.value
    rec.case((tag, s.D.tobytes()), exists or new is not None, {"move": tag, "best": best, "got": delta} if exists else None)
    if (new is None) != (delta is None):
        rec.bad("shape", "%s returned %r" % (tag, o.value), data)
        return
    if new is None:
        rec.count("no move")
        if exists:
            rec.bad("missed", "%s returned nothing although a feasible move of %r exists" % (tag, best), data)
        return
    rec.count("moves")
    if len(oracle.routes_of(new)) != len(oracle.routes_of(sol)):
        rec.count("moves that change the number of routes")
    if sorted(x for x in new if x) != sorted(x for x in sol if x):
        rec.bad("customers", "%s -> %s" % (tag, new), data)
        return
    for kind, text in oracle.plan_faults(new, len(s.D), s.d, s.C, s.D, s.L):
        if kind == "missing":
            continue            # the given plan need not serve everybody
        rec.bad(kind, "%s -> %s: %s" % (tag, new, text), data)
    true = lsgen.cost(new, s.D) - base
    if abs(true - delta) > eps:
        rec.bad("delta", "%s -> %s reports %r, true %r" % (tag, new, delta, true), data)
    if true > lvl + eps or (lvl == 0 and not delta < 0):
        rec.bad("level", "%s -> %s change %r not below level" % (tag, new, delta), data)
    if strategy == 2 and best is not None and true > best + eps:
        rec.bad("notbest", "%s -> %s change %r, best is %r" % (tag, new, true, best), data)
