"""Nearest neighbour, insertion and sweep heuristics against their published rules."""
import math

from .. import algs, core, inst, oracle
from .v14 import Plan, Tie, better, canon, explicit, fits, two_opt, value

CHUNKS = {"quick": 48, "thorough": 800}
MIN = {"quick": 6000, "thorough": 90000}
RULE = ("instances of 1..16 customers at random places with capacity and/or cost limits; sequential and parallel nearest neighbour (also with "
        "farthest/closest seeds, end-only extension and 1..4 emerging routes), sequential and parallel cheapest insertion (also with other "
        "criteria weights, seeds and route counts) and sweep (also from given starts and in one direction) are compared with reference models "
        "of the rules; each interchange that Tyagi's heuristic considers is compared with the best possible one. Runs in which a tie or a "
        "limit within rounding decides are not judged. Non-trivial: 4 or more customers and 2 or more routes")
ASSUMPTIONS = ["parallel insertion: a route that can take nobody any more may be replaced at once or on its next turn; both are accepted",
               "plans are compared up to direction and order of the routes"]


def near(a, b):
    return abs(a - b) <= 1e-9 * (1 + abs(a))


def pick(items, key):
    """The smallest by key; a tie is no basis for a verdict."""
    s = sorted(items, key=key)
    if len(s) > 1 and near(key(s[0]), key(s[1])):
        raise Tie()
    return s[0]


def model_nn(D, d, C, L, K, seeds, end_only):
    left = set(range(1, len(D)))
    route, prev, done, k = [None] * K, [None] * K, [], 0
    while left:
        if route[k] is None:
            s = pick(left, (lambda i: D[0, i]) if seeds == "closest" else (lambda i: -D[0, i]))
            route[k], prev[k] = [s], s
            left.discard(s)
            continue
        u = pick(left, lambda j: D[prev[k], j])
        r = route[k]
        back, front = r + [u], [u] + r
        m = back
        if not end_only and len(r) > 1:
            cb, cf = oracle.cost([0] + back + [0], D), oracle.cost([0] + front + [0], D)
            if near(cb, cf):
                raise Tie()
            m = front if cf < cb else back
        if not fits(sum(d[x] for x in m), C, None) or not fits(oracle.cost([0] + m + [0], D), L, None):
            done.append(r)
            route[k] = None
            continue
        route[k], prev[k] = m, u
        left.discard(u)
        k = (k + 1) % K
    return done + [r for r in route if r]


def model_ci(D, d, C, L, min_k, K, seeds, lm, mm):
    """All plans the rule allows (the moment a full route is replaced is open)."""
    n = len(D)
    order = list(range(1, n))
    order.sort(key=lambda i: D[0, i], reverse=seeds == "closest")
    for a, b in zip(order, order[1:]):
        if near(D[0, a], D[0, b]):
            raise Tie()

    def insertions(r, left):
        p = [0] + r + [0]
        out = []
        load, cst = sum(d[x] for x in r), oracle.cost(p, D)
        for u in left:
            if not fits(load + d[u], C, None):
                continue
            for a in range(len(p) - 1):
                i, j = p[a], p[a + 1]
                dl = D[i, u] + D[u, j] - D[i, j]
                if not fits(cst + dl, L, None):
                    continue
                if not min_k:
                    w = dl - D[0, u] - D[u, 0]
                    if w != 0 and abs(w) <= 1e-9 * (1 + D[0, u]):
                        raise Tie()
                    if w > 0:
                        continue
                mst = D[i, u] + D[u, j] - mm * D[i, j]
                out.append(((-(lm * D[0, u] - mst), mst, dl - 2 * D[0, u]), u, a))
        out.sort()
        if len(out) > 1 and not (len(r) == 1 and out[0][1] == out[1][1]):
            if near(out[0][0][0], out[1][0][0]) and near(out[0][0][1], out[1][0][1]):
                raise Tie()
            if near(out[0][0][0], out[1][0][0]) and out[0][0][0] != out[1][0][0]:
                raise Tie()
        if len(r) == 1 and len(out) > 2 and near(out[0][0][0], out[2][0][0]):
            raise Tie()
        return out

    def seed(order, left):
        while order:
            s = order.pop()
            if s in left:
                left.discard(s)
                return [s]
        raise Tie()

    order0, left0 = list(order), set(range(1, n))
    routes0 = [seed(order0, left0) for _ in range(min(K, n - 1))]
    states = [(routes0, [], order0, left0, -1)]
    results, steps = {}, 0
    while states:
        steps += 1
        if steps > 4000 or len(results) > 64:
            raise Tie()
        routes, done, order, left, k = states.pop()
        if not left:
            results[repr(canon(routes + done))] = routes + done
            continue
        k = (k + 1) % len(routes)
        c = insertions(routes[k], left)
        routes = list(routes)
        left = set(left)
        order = list(order)
        open_end = False
        if c:
            _, u, a = c[0]
            routes[k] = routes[k][:a] + [u] + routes[k][a:]
            left.discard(u)
            if left and not insertions(routes[k], left):
                open_end = len(routes) > 1
                if open_end:
                    states.append((list(routes), list(done), list(order), set(left), k))
            else:
                states.append((routes, done, order, left, k))
                continue
        if left:
            done = done + [routes[k]]
            routes[k] = seed(order, left)
        states.append((routes, done, order, left, k))
    return list(results.values())


def model_mj(D, d, C, L, min_k, runs):
    out = []
    for lm, mm, init in runs:
        a, b = [refine(grow(D, d, C, L, lm, mm, init, last), D, d, C, L, min_k) for last in (False, True)]
        va, vb = value(a, D), value(b, D)
        if va[1] != vb[1] or not near(va[0], vb[0]):
            raise Tie()
        out.append(va)
    b = out[0]
    for v in out[1:]:
        if better(v, b, min_k):
            b = v
    return [b]


def grow(D, d, C, L, lm, mm, init, last):
    """The insertion phase of Mole and Jameson: one route at a time, kept 2-optimal."""
    def strain(i, u, j):
        m = D[i, u] + D[u, j] - mm * D[i, j]
        return lm * D[0, u] - m, m
    n = len(D)
    if init == "farthest":
        order = [((D[0, i],), (i,)) for i in range(1, n)]
    else:
        order = [((strain(0, i, j)[0], -D[i, j]), (i, j)) for i in range(1, n) for j in range(i, n)]
    order.sort()
    left, done = set(range(1, n)), []
    while left:
        while True:
            key, seed = order.pop()
            if not set(seed) & set(range(1, n)) - left:
                break
        rest = [o for o in order if not set(o[1]) & set(range(1, n)) - left]
        if rest and near(rest[-1][0][0], key[0]):
            raise Tie()
        r = list(dict.fromkeys(seed))
        left -= set(r)
        dead = {}
        while left:
            p, c = [0] + r + [0], []
            load, cst = sum(d[x] for x in r), oracle.cost([0] + r + [0], D)
            for u in left:
                if not fits(load + d[u], C, None):
                    continue
                for a in range(len(p) - 1):
                    i, j = p[a], p[a + 1]
                    dl = D[i, u] + D[u, j] - D[i, j]
                    if dead.setdefault((i, j, u, len(r) == 1 and a), 0 if fits(cst + dl, L, None) else 1) == 1:
                        continue              # too long when it became possible
                    s, m = strain(i, u, j)
                    c.append(((-s, m, dl - 2 * D[0, u]), u, a))
            c.sort(key=lambda x: (x[0], x[1], -x[2] if last else x[2]))
            took = None
            for t, (k, u, a) in enumerate(c):
                key = (p[a], p[a + 1], u, len(r) == 1 and a)
                q = r[:a] + [u] + r[a:]
                w = two_opt(q, D)
                total = oracle.cost([0] + w + [0], D) - cst
                gain = total - D[0, u] - D[u, 0]
                if gain != 0 and abs(gain) <= 1e-9 * (1 + D[0, u]):
                    raise Tie()
                ok = gain <= 0 and fits(cst + total, L, None)
                if dead[key]:
                    if ok:
                        raise Tie()           # refused once, possible now: the rule leaves it open
                    continue
                if not ok:
                    dead[key] = 2
                    continue
                for v in c[t + 1:]:
                    if near(v[0][0], k[0]) and not (len(r) == 1 and v[1] == u) and \
                            (near(v[0][1], k[1]) or v[0][0] != k[0]):
                        raise Tie()
                took = w
                if w != q:
                    dead = {}
                left.discard(u)
                break
            if took is None:
                break
            if len(r) == 1:
                dead = {}
            r = took
        done.append(r)
    return done[-1:] + done[:-1]


def refine(routes, D, d, C, L, min_k):
    """Moves of single customers and 2-opt, then giving away the emptiest route
    (the moves are the library's own, decided by V05 to V09)."""
    from verypy.local_search import LSOPT, do_local_search
    from verypy.local_search import inter_route_operators as b
    from verypy.local_search import intra_route_operators as a
    from verypy.routedata import RouteData
    while True:
        sol = [0]
        for r in routes:
            sol += list(r) + [0]
        sol = do_local_search([b.do_1point_move, a.do_2opt_move], sol + ([] if min_k else [0]), D, d, C, L, LSOPT.BEST_ACCEPT)
        routes = oracle.routes_of(sol)
        loads = sorted(sum(d[x] for x in r) for r in routes)
        if len(loads) > 1 and near(loads[0], loads[1]):
            raise Tie()
        low = min(range(len(routes)), key=lambda k: sum(d[x] for x in routes[k]))
        full = [[0] + r + [0] for k, r in enumerate(routes) if k != low]
        mk = lambda r: RouteData(r, oracle.cost(r, D), sum(d[x] for x in r))
        o = b.do_redistribute_move(mk([0] + routes[low] + [0]), [mk(r) for r in full] + ([] if min_k else [RouteData()]), D, d, C, L,
                                   strategy=LSOPT.FIRST_ACCEPT, recombination_level=0)
        if o[-1] is None or not (min_k or o[-1] < 0):
            return routes
        if not min_k and o[-1] > -1e-9 * (1 + max(D[0])):
            raise Tie()
        routes = [r for r in ([x for x in rd.route if x] for rd in o[:-1]) if r]


MJ = {"proximity_ranking": [(0.0, 0.0, "farthest")], "min_strain": [(0.0, 1.0, "farthest")], "clarke_wright": [(2.0, 1.0, "strain")],
      "gaskell": [(g, g - 1, "strain") for g in (1.25, 1.5, 1.75, 2.0)],
      "augumented_min_strain": [(g, 1.0, "strain" if g == 2 else "farthest") for g in (0, .5, 1, 1.5, 2.0)]}
MJ["all"] = MJ["proximity_ranking"] + MJ["gaskell"] + MJ["augumented_min_strain"][:4]


def angles(I):
    x0, y0 = I.pts[0]
    a = {i: math.atan2(I.pts[i][1] - y0, I.pts[i][0] - x0) for i in range(1, I.N)}
    o = sorted(a, key=lambda i: a[i])
    for p, q in zip(o, o[1:]):
        if abs(a[p] - a[q]) < 1e-9:
            raise Tie()
    if abs(a[o[0]] + math.pi) < 1e-9 or abs(a[o[-1]] - math.pi) < 1e-9:
        raise Tie()
    return o


def model_swp(I, start, step):
    o = angles(I)
    n = len(o)
    routes, cur = [], []
    for t in range(n):
        u = o[(start + step * t) % n]
        m = cur + [u]
        if cur and (not fits(sum(I.d[x] for x in m), I.C, None) or not fits(oracle.cost([0] + m + [0], I.Dc), I.L, None)):
            routes.append(cur)
            m = [u]
        cur = m
    return routes + [cur]


def best_of(plans, D, min_k):
    v = [value(p, D) for p in plans]
    b = v[0]
    for x in v[1:]:
        if better(x, b, min_k):
            b = x
    return [b]


def chunk(rng, idx, tier, rec):
    for _ in range(180):
        I = inst.make(rng, nmin=1, nmax=rng.choice((5, 9, 16)), general=True)
        if I.L and rng.random() < .5:
            I.L *= 1 + rng.random() * .05 + 1e-5
        nearest(rng, rec, I)
        insertion(rng, rec, I)
        for _ in range(2 if I.N < 14 else 1):
            mole_jameson(rng, rec, I)
        sweep(rng, rec, I)
        tyagi(rng, rec, I)
        if rng.random() < .4:
            # the rules do not need the triangle inequality
            # (without it, when a refused insertion becomes possible later is left open)
            explicit(rng, I)
            if I.L:
                I.L = None
                I.C = I.C or sum(I.d) // rng.randint(1, 4) + max(I.d)
            nearest(rng, rec, I)
            insertion(rng, rec, I)
            mole_jameson(rng, rec, I)


def nearest(rng, rec, I):
    from verypy.classic_heuristics import nearest_neighbor as M
    D, d, C, L = I.Dc, I.d, I.C, I.L
    o = algs.solve("sn", I, rng.random() < .3, False)
    judge(rec, I, "sn", "sn", False, o, lambda: Plan(model_nn(D, d, C, L, 1, "closest", False)))
    single = rng.random() < .2

    def pn():
        first = model_nn(D, d, C, L, 1, "closest", False)
        if single:
            return Plan(first)
        return best_of([first] + [model_nn(D, d, C, L, k, "closest", False) for k in range(2, len(first) + 1)], D, False)
    o = algs.solve("pn", I, single, False)
    judge(rec, I, "pn single=%d" % single, "pn", False, o, pn)
    K, seeds, end = rng.randint(1, 4), rng.choice(("closest", "farthest")), rng.random() < .5
    o = core.call(M.nearest_neighbor_init, D.copy(), list(d), C, L, K, seeds, end)
    judge(rec, I, "nearest neighbour K=%d from %s, end only %d" % (K, seeds, end), "nn-par", False, o,
          lambda: Plan(model_nn(D, d, C, L, K, seeds, end)))


def insertion(rng, rec, I):
    from verypy.classic_heuristics import cheapest_insertion as M
    D, d, C, L = I.Dc, I.d, I.C, I.L
    min_k = rng.random() < .4
    single = rng.random() < .3
    o = algs.solve("si", I, single, min_k)
    judge(rec, I, "si", "si", min_k, o, lambda: Plans(model_ci(D, d, C, L, min_k, 1, "farthest", 1.0, 0.0)))

    def pi():
        out = []
        for p in model_ci(D, d, C, L, min_k, 1, "farthest", 1.0, 0.0):
            out += model_ci(D, d, C, L, min_k, len(p), "farthest", 1.0, 0.0)
        return Plans(out)
    o = algs.solve("pi", I, single, min_k)
    judge(rec, I, "pi", "pi", min_k, o, pi)
    K, seeds = rng.choice((1, 1, 2, 3)), rng.choice(("closest", "farthest"))
    K = min(K, I.N - 1)
    lm, mm = rng.choice(((2.0, 1.0), (0.0, 1.0), (1.5, .5), (0.0, 0.0), (1.0, 1.0), (1.25, .25)))
    o = core.call(M.cheapest_insertion_init, D.copy(), list(d), C, L, min_k, K, seeds,
                  lambda D, i, u, j: M.parametrized_insertion_criteria(D, i, u, j, lm, mm))
    judge(rec, I, "insertion K=%d from %s, lambda %s mu %s" % (K, seeds, lm, mm), "ci-par", min_k, o,
          lambda: Plans(model_ci(D, d, C, L, min_k, K, seeds, lm, mm)))


def mole_jameson(rng, rec, I):
    from verypy.classic_heuristics import mole_jameson_insertion as M
    D, d, C, L = I.Dc, I.d, I.C, I.L
    min_k = rng.random() < .4
    if rng.random() < .5:
        single = rng.random() < .4
        crit = "clarke_wright" if single else "all"
        o = algs.solve("mj", I, single, min_k)
    else:
        crit = rng.choice(sorted(MJ))
        o = core.call(M.mole_jameson_insertion_init, D.copy(), list(d), C, L, min_k, crit)
    judge(rec, I, "mj " + crit, "mj", min_k, o, lambda: model_mj(D, d, C, L, min_k, MJ[crit]))


class Plans(list):
    """Acceptable plans."""


def sweep(rng, rec, I):
    from verypy.classic_heuristics import sweep as M
    min_k = rng.random() < .4
    n = I.N - 1
    single = rng.random() < .3
    o = algs.solve("swp", I, single, min_k)
    judge(rec, I, "swp single=%d" % single, "swp", min_k, o,
          (lambda: Plan(model_swp(I, 0, -1))) if single else
          (lambda: best_of([model_swp(I, s, t) for t in (1, -1) for s in range(n)], I.Dc, min_k)))
    way = rng.choice(("cw", "ccw", "both"))
    steps = {"cw": [-1], "ccw": [1], "both": [1, -1]}[way]
    try:
        order = angles(I)
    except Tie:
        return
    start = rng.choice(("closest", "angle", "node", "list"))
    if start == "closest":
        seed, pos = M.CLOSEST_TO_DEPOT, [order.index(min(order, key=lambda i: I.D[0, i]))]
    elif start == "angle":
        seed, pos = M.SMALLEST_ANGLE, [0]
    elif start == "node":
        seed = rng.randint(1, n)
        pos = [order.index(seed)]
    else:
        pos = sorted(rng.sample(range(n), rng.randint(1, n)))
        seed = list(pos)
    o = core.call(M.sweep_init, [tuple(p) for p in I.pts], I.Dc.copy(), list(I.d), I.C, I.L, min_k, way, seed)
    judge(rec, I, "sweep %s from %s" % (way, seed), "swp-par", min_k, o,
          lambda: best_of([model_swp(I, s, t) for t in steps for s in pos], I.Dc, min_k))


def tyagi(rng, rec, I):
    """What the interchange of Tyagi's heuristic does, seen through the
    documented route improvement callback of the nearest neighbour heuristic."""
    from verypy.classic_heuristics import nearest_neighbor as M, tyagi_nearest_neighbor as T
    if not (I.C or I.L):
        return
    D, d, C, L = I.Dc, I.d, I.C, I.L
    every = rng.random() < .6
    seen = []

    def watch(route, rd, rl, D_, d_, C_, L_, served, nnn):
        before, free = [int(x) for x in route], [i for i in range(I.N) if not served[i]]
        out = T.route_end_interchange(route, rd, rl, D_, d_, C_, L_, served, nnn, every)
        seen.append((before, free, [int(x) for x in out], [i for i in range(I.N) if not served[i]]))
        return out
    o = core.call(M.nearest_neighbor_init, D.copy(), list(d), C, L, add_only_to_end=True, route_improvement_callback=watch)
    if not o.ok:
        rec.bad("ty/error", "nearest neighbour with interchanges C=%s L=%s: %s" % (C, L, o.why()), I.describe())
        return
    for before, free, after, free2 in seen:
        try:
            u = pick(free, lambda j: D[before[-2], j])
            gains = {}
            for p in (range(1, len(before) - 1) if every else {1, len(before) - 2}):
                m = list(before)
                m[p] = u
                if fits(sum(d[x] for x in m), C, None) and fits(oracle.cost(m, D), L, None):
                    gains[p] = d[u] - d[before[p]] if C else oracle.cost(before, D) - oracle.cost(m, D)
        except Tie:
            rec.count("not judged: a tie decides")
            continue
        top = max(gains.values()) if gains else 0
        ch = [p for p in range(len(before)) if len(after) == len(before) and after[p] != before[p]]
        tag = "interchange %s with %d (every=%d) C=%s L=%s -> %s" % (before, u, every, C, L, after)
        rec.case((tag, repr(I.pts)), top > 0)
        rec.count("interchanges judged" if top > 0 else "interchanges without gain")
        if len(after) != len(before) or len(ch) > 1 or ch and after[ch[0]] != u:
            rec.bad("ty/shape", tag, I.describe())
        elif not ch and top > 1e-9 * (1 + abs(C or L)):
            rec.bad("ty/missed", tag + ", the best gains %r" % top, I.describe())
        elif ch and (ch[0] not in gains or gains[ch[0]] < top - 1e-9 * (1 + abs(top)) or top <= 0):
            rec.bad("ty/not-best", tag + " gains %r, the best %r" % (gains.get(ch[0]), top), I.describe())
        elif ch and (u in free2 or before[ch[0]] not in free2):
            rec.bad("ty/books", tag + ": served marks are wrong, unserved %s -> %s" % (free, free2), I.describe())


def judge(rec, I, name, key, min_k, o, model):
    tag = "%s minK=%d C=%s L=%s" % (name, min_k, I.C, I.L)
    if not o.ok:
        rec.bad("%s/error" % key, tag + ": " + o.why(), I.describe())
        return
    try:
        want = model()
    except Tie:
        rec.count("not judged: a tie decides")
        return
    sol = [int(x) for x in o.value]
    routes = oracle.routes_of(sol)
    rec.case((tag, repr(I.pts), repr(I.d)), I.N > 4 and len(routes) > 1, {"run": tag, "plan": sol})
    rec.count("judged " + key)
    if isinstance(want, Plan):
        want = Plans([want])
    if isinstance(want, Plans):
        if canon(routes) not in [canon(w) for w in want]:
            rec.bad("%s/plan" % key, "%s -> %s, the rule gives %s" % (tag, routes, want[:2]), I.describe())
    else:
        c, k = value(routes, I.Dc)
        if not any(abs(c - w[0]) <= 1e-6 * (1 + w[0]) and (not min_k or k == w[1]) for w in want):
            rec.bad("%s/value" % key, "%s -> %r with %d routes, the rule gives %r" % (tag, c, k, want), I.describe())
