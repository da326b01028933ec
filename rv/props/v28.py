"""Matching, two phase, petal and assignment heuristics against their published rules."""
import math

from .. import algs, core, inst, oracle
from .v14 import Tie, fits, value

CHUNKS = {"quick": 48, "thorough": 640}
MIN = {"quick": 3000, "thorough": 40000}
RULE = ("instances of 1..11 customers at random places (also with explicit and whole distances) with capacity and/or cost limits, both objectives. "
        "Matching based savings, the two phase heuristic, petals and the generalized assignment heuristic are compared with reference "
        "models: enumeration of all matchings, execution of both phases, a dynamic program over all partitions into petals, enumeration of "
        "all assignments to the seeds used; routes are costed by a dynamic program over all orders. Every step of the Lagrangean search is compared with the penalized objective. The examples the publications "
        "report on are solved and have to give the published costs. Runs in which a tie, a limit or a solver tolerance decides are not judged. "
        "Non-trivial: 4 or more customers and 2 or more routes")
ASSUMPTIONS = ["the solver's relative gap (1e-4) is granted wherever an optimum is compared",
               "the two phase and petal heuristics route with the library's own 3-opt here: runs in which it misses the optimal order are not judged",
               "the seed points of the assignment heuristic are those it asks distances for (the cones rule is checked for their directions)"]
GAP = 2e-4


def tours(D):
    """Optimal tour cost through the depot for every set of customers (bit i-1)."""
    n = len(D) - 1
    m = [[float(x) for x in r] for r in D]
    inf = float("inf")
    dp = [[inf] * n for _ in range(1 << n)]
    opt = [0.0] * (1 << n)
    for i in range(n):
        dp[1 << i][i] = m[0][i + 1]
    for s in range(1, 1 << n):
        row = dp[s]
        on = [i for i in range(n) if s >> i & 1]
        if len(on) > 1:
            for i in on:
                p = dp[s ^ (1 << i)]
                row[i] = min(p[j] + m[j + 1][i + 1] for j in on if j != i)
        opt[s] = min(row[i] + m[i + 1][0] for i in on)
    return opt


def bits(route):
    return sum(1 << (i - 1) for i in route)


def members(s):
    return [i + 1 for i in range(s.bit_length()) if s >> i & 1]


def sets_of(sol):
    return sorted(bits(r) for r in oracle.routes_of([int(x) for x in sol]))


def loads(n, d):
    out = [0] * (1 << n)
    for s in range(1, 1 << n):
        low = (s & -s).bit_length()
        out[s] = out[s & (s - 1)] + d[low]
    return out


def whole(D):
    return D.dtype.kind == "i" or bool((D == D.round()).all())


# ---------------------------------------------------------------- matching
def matchings(m):
    """All ways to pair m routes, one left out if m is odd."""
    def rec(free):
        if len(free) < 2:
            yield []
            return
        a = free[0]
        for k in range(1, len(free)):
            for rest in rec(free[1:k] + free[k + 1:]):
                yield [(a, free[k])] + rest
    ids = tuple(range(m))
    if m % 2 == 0:
        for x in rec(ids):
            yield x
    else:
        for o in ids:
            for x in rec(ids[:o] + ids[o + 1:]):
                yield x


def model_mbsa(D, d, C, L, min_k, W, st):
    n = len(D) - 1
    opt, load = tours(D), loads(n, d)
    exact = whole(D) and float(W).is_integer()
    routes = [1 << i for i in range(n)]
    while len(routes) > 1:
        m = len(routes)
        w, e = {}, 0.0
        for i in range(m):
            for j in range(i + 1, m):
                u = routes[i] | routes[j]
                if not fits(load[u], C, None):
                    w[i, j] = W
                    st["limit"] = 1
                    continue
                big = bin(u).count("1") > 2
                if L:
                    if opt[u] <= L < opt[u] * (1 + GAP) and big and not exact:
                        raise Tie()
                    if not fits(opt[u], L, None):
                        w[i, j] = W
                        st["limit"] = 1
                        continue
                w[i, j] = opt[routes[i]] + opt[routes[j]] - opt[u]
                if big:
                    e = max(e, GAP * opt[u])
                if abs(w[i, j] - W) <= (0 if exact else 1e-9 * (1 + opt[u])):
                    raise Tie()
        if all(x == W for x in w.values()):
            break
        val = [(sum(w[p] for p in x), x) for x in matchings(m)]
        top = max(v for v, _ in val)
        total = [sum(w[min(i, j), max(i, j)] for j in range(m) if j != i) for i in range(m)]
        if exact:
            if abs(top) * GAP > .4:
                raise Tie()
            slack, e = 1e-6, 1e-6
        else:
            slack = GAP * abs(top) + 2 * e * m + 1e-9
        first = set()
        for v, x in val:
            if v < top - slack:
                continue
            hi = max(w[p] for p in x)
            c = [p for p in x if w[p] >= hi - 2 * e - 1e-9]
            if exact and len(c) > 1:
                sec = {p: 2 * w[p] - total[p[0]] - total[p[1]] for p in c}
                hi2 = max(sec.values())
                c = [p for p in c if sec[p] >= hi2 - 1e-6]
                st["second"] = 1
            first.update(c)
        if all(w[p] == W for p in first):
            break
        if len(first) > 1:
            raise Tie()
        (i, j), = first
        if not min_k:
            if abs(w[i, j]) <= e + (0 if exact else 1e-9 * (1 + opt[routes[i] | routes[j]])):
                raise Tie()
            if w[i, j] < 0:
                break
        if any(v >= top - slack and (i, j) not in x for v, x in val):
            raise Tie()
        big = max(w, key=lambda p: w[p])
        if w[big] > w[i, j] + 1e-6:
            st["matching, not greed"] = 1
        u = routes[i] | routes[j]
        routes = [r for k, r in enumerate(routes) if k not in (i, j)] + [u]
    return sorted(routes), sum(opt[r] for r in routes)


def matching(rng, rec, I):
    from verypy.classic_heuristics import matchingvrp as M
    D, d, C, L = I.Dc, I.d, I.C, I.L
    min_k = rng.random() < .4
    W, st = 0.0, {}
    if rng.random() < .6:
        o = algs.solve("mbsa", I, rng.random() < .5, min_k)
    else:
        W = rng.choice((0.0, -300.0, -1000.0)) if min_k else rng.choice((0.0, -5.0))
        o = core.call(M.mbsa_init, D.copy(), list(d), C, L, min_k, W)
    settle(rec, I, "mbsa W=%s" % W, "mbsa", min_k, o, lambda: [model_mbsa(D, d, C, L, min_k, W, st)])
    for k in st:
        rec.count("mbsa: " + k)


def settle(rec, I, name, key, min_k, o, model):
    """The plan's routes are among those the model allows, and routed optimally."""
    tag = "%s minK=%d C=%s L=%s" % (name, min_k, I.C, I.L)
    if not o.ok:
        rec.bad("%s/error" % key, tag + ": " + o.why(), I.describe())
        return
    try:
        want = model()
    except Tie:
        rec.count("not judged: a tie decides")
        return
    got = sets_of(o.value)
    c = float(oracle.cost([int(x) for x in o.value], I.Dc))
    rec.case((tag, repr(I.pts), repr(I.d), repr(I.D.tolist())), I.N > 4 and len(got) > 1, {"run": tag, "plan": [int(x) for x in o.value]})
    rec.count("judged " + key)
    same = [w for w in want if w[0] == got]
    if not same:
        rec.bad("%s/plan" % key, "%s -> %s (%r), the rule gives %s" % (tag, [members(s) for s in got], c,
                [([members(s) for s in w[0]], w[1]) for w in want[:3]]), I.describe())
    elif c > same[0][1] * (1 + GAP) + 1e-6:
        rec.bad("%s/cost" % key, "%s -> %s costs %r, the optimal routes for these customers %r" % (tag, o.value, c, same[0][1]), I.describe())


# ---------------------------------------------------------------- two phases
class Router(object):
    """Routes as the library's local search leaves them, as long as that is optimal."""

    def __init__(self, D):
        from verypy.tsp_solvers.tsp_solver_ropt import solve_tsp_ropt
        self.D, self.f, self.opt = D, solve_tsp_ropt, tours(D)

    def __call__(self, route):
        o = core.call(self.f, self.D, [0] + list(route))
        best = self.opt[bits(route)]
        if not o.ok:
            raise Tie()
        r = [int(x) for x in o.value[0]]
        if oracle.cost(r, self.D) > best + 1e-7 * (1 + best):
            raise Tie()
        return r[1:-1], best


def grow(D, d, C, L, route, load, cost, i, tsp):
    """The route with i, or None if a limit forbids it."""
    if not fits(load + d[i], C, None):
        return None
    ub = cost - D[route[-1], 0] + D[route[-1], i] + D[i, 0]
    if L and not fits(ub, L, None):
        r, c = tsp(route + [i])
        if not fits(c, L, None):
            return None
        return r, load + d[i], c, True
    if L:
        tsp(route + [i])
    return route + [i], load + d[i], ub, False


def ordered(items):
    s = sorted(items)
    for a, b in zip(s, s[1:]):
        if abs(a[0] - b[0]) <= 1e-9 * (1 + abs(a[0])):
            raise Tie()
    return s


def phase_one(D, d, C, L, lam, seeds, tsp):
    left = set(range(1, len(D)))
    out, first = [], []
    while left:
        if seeds == "first":
            s = min(left)
        else:
            s = ordered([({"farthest": -D[0, i], "closest": D[0, i], "biggest": -d[i]}[seeds], i) for i in left])[0][1]
        left.discard(s)
        first.append(s)
        route, load, cost = [s], d[s], D[0, s] + D[s, 0]
        for _, i in ordered([(D[0, i] + lam * D[i, s], i) for i in left]):
            g = grow(D, d, C, L, route, load, cost, i, tsp)
            if g:
                route, load, cost, _ = g
                left.discard(i)
        out.append(tsp(route)[0])
    return first, out


def phase_two(D, d, C, L, mu, seeds, most, repeat, tsp):
    """All results of the second phase (they may differ when two routes attract
    equally many customers); None stands for customers left over."""
    eps = [[D[0, i] + mu * D[i, s] - D[0, s] for i in range(len(D))] for s in seeds]
    K = len(seeds)
    results, todo, steps = [], [([([s], d[s], D[0, s] + D[s, 0]) for s in seeds], frozenset(range(1, len(D))) - frozenset(seeds), list(range(K)), False)], 0
    while todo:
        steps += 1
        if steps > 300:
            raise Tie()
        routes, left, open_, moved = todo.pop()
        if not left:
            results.append([tsp(r)[0] for r, _, _ in routes])
            continue
        if not open_:
            if repeat is None or not moved:
                results.append(None)
                continue
            open_, moved = list(range(K)), False
        near = {}
        for i in left:
            near.setdefault(ordered([(eps[k][i], k) for k in open_])[0][1], []).append(i)
        if most:
            top = max(len(x) for x in near.values())
            choice = [k for k in near if len(near[k]) == top]
        else:
            choice = [open_[0]]
        for k in choice:
            rest = [x for x in open_ if x != k]
            sig = ordered([(-((min(eps[x][i] for x in rest) if rest else 0.0) - eps[k][i]), i) for i in near.get(k, [])])
            (route, load, cost), now, mv = routes[k], set(left), moved
            for _, i in sig:
                g = grow(D, d, C, L, route, load, cost, i, tsp)
                if g:
                    route, load, cost, _ = g
                    now.discard(i)
                    mv = True
            rs = list(routes)
            rs[k] = (route, load, cost)
            todo.append((rs, frozenset(now), rest, mv))
    return results


def two_phase(rng, rec, I):
    from verypy.classic_heuristics import cmt_2phase as M
    D, d, C, L = I.Dc, I.d, I.C, I.L
    min_k = rng.random() < .4
    lam, mu, seeds, most, repeat = 2.0, 1.0, "farthest", True, 1
    if rng.random() < .4:
        o = algs.solve("cmt", I, rng.random() < .5, min_k)
    else:
        lam, mu = round(rng.uniform(.5, 3), 2), round(rng.uniform(.5, 2.5), 2)
        seeds = rng.choice(("farthest", "closest", "biggest", "first"))
        most, repeat = rng.random() < .6, rng.choice((None, 1, 1, 2, "K"))
        o = core.call(M.cmt_2phase_init, D.copy(), list(d), C, L, min_k, lambda_multiplier=lam, mu_multiplier=mu,
                      phase1_seed_selection_method=seeds, phase2_choose_most_associated_route=most,
                      phase2_repeated_association_with_n_routes=repeat)
    seen = {}

    def model():
        tsp = Router(D)
        total = lambda p: sum(tsp.opt[bits(r)] for r in p)
        first, p1 = phase_one(D, d, C, L, lam, seeds, tsp)
        two = phase_two(D, d, C, L, mu, first, most, None if repeat is None else 1, tsp)
        if None in two and repeat not in (None, 1):
            raise Tie()
        out = []
        for p2 in two:
            if p2 is None:
                out.append(p1)
                seen["second phase failed"] = 1
                continue
            a, b = total(p1), total(p2)
            if abs(a - b) <= 1e-6 * (1 + a):
                out += [p1, p2]
            else:
                out.append(p1 if a < b else p2)
                seen["first phase better" if a < b else "second phase better"] = 1
        return [(sorted(bits(r) for r in p), total(p)) for p in out]
    settle(rec, I, "cmt lambda=%s mu=%s %s most=%d repeat=%s" % (lam, mu, seeds, most, repeat), "cmt", min_k, o, model)
    for k in seen:
        rec.count("cmt: " + k)


# ---------------------------------------------------------------- petals
def polar(I):
    from .v15 import angles
    return angles(I)


def petals(I, tsp, keep):
    """ring[u][m]: cost of the petal of m customers from position u (or None)."""
    o, n = polar(I), I.N - 1
    ring = []
    for u in range(n):
        row = [None] * (n + 1)
        for m in range(1, n + 1):
            p = [o[(u + k) % n] for k in range(m)]
            q = sum(I.d[x] for x in p) if I.d is not None else 0
            if not fits(q, I.C, None):
                break
            if not fits(tsp.opt[bits(p)], I.L, None):
                break
            c = tsp(p)[1]
            if keep(q):
                row[m] = c
        ring.append(row)
    return ring


def cheapest_partition(ring, kmax):
    """Cheapest way to cut the circle into petals, with at most kmax of them."""
    n = len(ring)
    inf = float("inf")
    best = inf
    for s in range(n):
        # f[k][t]: first t customers from position s with k petals
        f = [[inf] * (n + 1) for _ in range(n + 1)]
        f[0][0] = 0.0
        for k in range(1, n + 1):
            for t in range(1, n + 1):
                f[k][t] = min([f[k - 1][t - m] + ring[(s + t - m) % n][m] for m in range(1, t + 1)
                               if ring[(s + t - m) % n][m] is not None and f[k - 1][t - m] < inf] or [inf])
        best = min([best] + [f[k][n] for k in range(1, n + 1) if not kmax or k <= kmax])
    return best


def petal(rng, rec, I):
    from verypy.classic_heuristics import petalvrp as M
    D, d, C, L = I.Dc, I.d, I.C, I.L
    if not (C or L):
        return
    min_k = rng.random() < .4
    n = I.N - 1
    pts = [tuple(p) for p in I.pts]
    if rng.random() < .5:
        o = algs.solve("ptl", I, False, min_k)
        tag = "ptl minK=%d C=%s L=%s" % (min_k, C, L)
        if not o.ok:
            rec.bad("ptl/error", tag + ": " + o.why(), I.describe())
            return
        if not min_k:            # (with it, a limit on the number of routes may have been loosened on the way)
            improve(rec, I, tag, o)
        try:
            tsp = Router(D)
            ring = petals(I, tsp, lambda q: True)
            kmin = None
            if min_k and C:
                x = sum(d) / float(C)
                if abs(x - round(x)) < 1e-6 and not (float(C).is_integer() and all(float(q).is_integer() for q in d)):
                    raise Tie()
                kmin = int(math.floor(x)) + 1
            elif min_k:
                kmin = 1
            best = float("inf")
            k = kmin
            while best == float("inf"):
                best = cheapest_partition(ring, k)
                k = k + 1 if k else None
        except Tie:
            rec.count("not judged: a tie decides")
            return
        sol = [int(x) for x in o.value]
        c, kk = value(oracle.routes_of(sol), D)
        rec.case((tag, repr(I.pts), repr(d)), n > 3 and kk > 1, {"run": tag, "plan": sol})
        rec.count("judged ptl")
        if min_k and kmin and kk > k - 1:
            rec.bad("ptl/routes", "%s -> %s has %d routes, petals allow %d" % (tag, sol, kk, k - 1), I.describe())
        elif not (min_k and kk < k - 1) and c > best * (1 + GAP) + 1e-6:
            rec.bad("ptl/petals", "%s -> %s costs %r, the best partition into petals %r" % (tag, sol, c, best), I.describe())
        return
    # one iteration: exactly the optimum over the first petal set that has one
    ratio = rng.choice((None, .75, .5, .9, .3))
    K = rng.choice((None, None, 2, 3, 4))
    if K and C and K * C < sum(d):
        K = None
    one = rng.random() < .3
    if one:
        ratio, K = .75, None
        o = algs.solve("ptl", I, True, min_k)
    else:
        o = core.call(M.petal_init, pts, D.copy(), list(d), C, L, K=K, minimize_K=min_k, relaxe_SCP_solutions=False,
                      required_iterations=1, restricted_route_ratio=ratio)
    tag = "ptl one iteration ratio=%s K=%s minK=%d C=%s L=%s" % (ratio, K, min_k, C, L)
    if not o.ok:
        rec.bad("ptl/error", tag + ": " + o.why(), I.describe())
        return
    try:
        tsp = Router(D)
        if not C:
            ct, v = 0.0, 1
        else:
            x = sum(d) / float(C)
            if abs(x - round(x)) < 1e-6:
                raise Tie()
            v = int(math.ceil(x))
            ct = sum(d) - ((K or v) - 1) * C
        kmax = (v if not K and min_k else K)
        near = lambda a, b: abs(a - b) <= 1e-6 * (1 + abs(b))

        def atleast(q, b):
            if near(q, b) and not (float(q).is_integer() and float(b).is_integer()):
                raise Tie()
            return q >= b
        best = None
        if ratio is not None and C:
            r = petals(I, tsp, lambda q: atleast(q, ratio * C))
            if any(x is not None for row in r for x in row):
                best = ("restricted", cheapest_partition(r, kmax))
                if best[1] == float("inf"):
                    raise Tie()      # an infeasible relaxation is repaired: not specified
        if best is None:
            best = ("reduced", cheapest_partition(petals(I, tsp, lambda q: atleast(q, ct) or (ratio is not None and C and atleast(q, ratio * C))), kmax))
            if best[1] == float("inf"):
                raise Tie()
    except Tie:
        rec.count("not judged: a tie decides")
        return
    sol = [int(x) for x in o.value]
    c, kk = value(oracle.routes_of(sol), D)
    rec.case((tag, repr(I.pts), repr(d)), n > 3 and kk > 1, {"run": tag, "plan": sol})
    rec.count("judged ptl %s" % best[0])
    if abs(c - best[1]) > GAP * best[1] + 1e-6 or kmax and kk > kmax:
        rec.bad("ptl/first", "%s -> %s costs %r with %d routes, the best of the %s petals %r (at most %s routes)" % (tag, sol, c, kk, best[0], best[1], kmax), I.describe())


def improve(rec, I, tag, o):
    """No customer can be moved to another route for less (the relaxation of petals)."""
    D, d, C, L = I.Dc, I.d, I.C, I.L
    sol = [int(x) for x in o.value]
    rs = oracle.routes_of(sol)
    total = oracle.cost(sol, D)
    worst = None
    for a, r in enumerate(rs):
        for p, u in enumerate(r):
            less = r[:p] + r[p + 1:]
            drop = oracle.cost([0] + r + [0], D) - (oracle.cost([0] + less + [0], D) if less else 0.0)
            for b, t in enumerate(rs):
                if a == b:
                    continue
                m = min((oracle.cost([0] + t[:q] + [u] + t[q:] + [0], D), q) for q in range(len(t) + 1))
                c = m[0]
                if C and sum(d[x] for x in t) + d[u] > C or L and c > L * (1 - 1e-7):
                    continue
                if L and oracle.cost([0] + less + [0], D) > L * (1 - 1e-7) and less:
                    continue
                g = drop - (c - oracle.cost([0] + t + [0], D))
                if worst is None or g > worst[0]:
                    worst = (g, u, t)
    rec.count("petal plans searched for better single moves")
    if worst and worst[0] > GAP * total + 1e-4:
        rec.bad("ptl/move", "%s -> %s: moving %d to %s would save %r of %r" % (tag, sol, worst[1], worst[2], worst[0], total), I.describe())


# ---------------------------------------------------------------- assignment
def rounded(x, kind):
    if kind == "EUC_2D":
        return math.floor(x + .5)
    if kind == "CEIL_2D":
        return math.ceil(x)
    if kind == "FLOOR_2D":
        return math.floor(x)
    return x


def assignments(D, d, C, S, opt, load, exact):
    """[(route sets, cost)] of all assignments within the solver's gap of the best."""
    n, K = len(D) - 1, len(S)
    ins = [[float(D[0, i]) + S[k][i] - S[k][0] for i in range(n + 1)] for k in range(K)]
    front = {(0,) * K: 0.0}
    for i in range(1, n + 1):
        nxt = {}
        for st, c in front.items():
            for k in range(K):
                s = st[k] | 1 << (i - 1)
                if C and load[s] > C:
                    if load[s] <= C * (1 + 1e-6):
                        raise Tie()
                    continue
                nxt[st[:k] + (s,) + st[k + 1:]] = c + ins[k][i]
        front = nxt
        if len(front) > 30000:
            raise Tie()
    if not front:
        return []
    best = min(front.values())
    tol = .3 if exact and abs(best) * GAP < .3 else GAP * abs(best) + 1e-6
    out = {}
    for st, c in front.items():
        if c <= best + tol:
            r = tuple(sorted(s for s in st if s))
            out[r] = sum(opt[s] for s in r)
    return sorted(out.items())


def cones(I, K, trial):
    """Directions of the seeds: the circle is cut into K sectors of equal demand,
    each customer's demand spread evenly over its cone."""
    o = polar(I)
    n = len(o)
    if n < 2 or trial >= n:
        raise Tie()
    x0, y0 = I.pts[0]
    o = o[trial:] + o[:trial]
    a = [math.atan2(I.pts[i][1] - y0, I.pts[i][0] - x0) for i in o]
    for k in range(1, n):
        while a[k] < a[k - 1]:
            a[k] += 2 * math.pi
    rays = [(a[-1] - 2 * math.pi + a[0]) / 2] + [(p + q) / 2 for p, q in zip(a, a[1:])]
    rays.append(rays[0] + 2 * math.pi)
    part = sum(I.d) / float(K)
    if any(I.d[i] > part * (1 - 1e-6) or I.d[i] <= 0 for i in o) and K > 1:
        raise Tie()
    cuts, cum = [rays[0]], 0.0
    for k in range(1, K):
        want, cum = k * part, 0.0
        for j, i in enumerate(o):
            if cum + I.d[i] >= want:
                cuts.append(rays[j] + (want - cum) / I.d[i] * (rays[j + 1] - rays[j]))
                break
            cum += I.d[i]
    cuts.append(rays[-1])
    return [(p + q) / 2 for p, q in zip(cuts, cuts[1:])]


def assignment(rng, rec, I):
    from verypy.classic_heuristics import gapvrp as M
    D, d, C = I.Dc, I.d, I.C
    if not C:
        return
    n = I.N - 1
    kmin = max(1, int(math.ceil(sum(d) / C)))
    if kmin > 4:
        return
    min_k = rng.random() < .6
    method = rng.choice(("cones", "cones", "kmeans", "large_demands", "ends_of_thoroughfares"))
    search = rng.random() < .5
    K = None if rng.random() < .6 else rng.randint(kmin, min(4, kmin + 2))
    kind = I.wtt if rng.random() < .6 else rng.choice(("EXACT_2D", "EUC_2D", "CEIL_2D", "FLOOR_2D"))
    L = None if rng.random() < .8 else float(sum(2 * D[0, i] for i in range(1, I.N))) * 50 + 1
    seen = []
    f = getattr(M, "calculate_D", None)
    if f is None:
        rec.count("not judged: seed points are not seen")
        return

    def spy(a, b=None, *x, **y):
        out = f(a, b, *x, **y)
        if b is not None:
            seen.append([tuple(map(float, p)) for p in a])
        return out
    M.calculate_D = spy
    try:
        o = core.call(M.gap_init, [tuple(p) for p in I.pts], D.copy(), list(d), C, L, I.st, K, min_k, search, method, kind)
    finally:
        M.calculate_D = f
    tag = "gap %s K=%s minK=%d search=%d seeds %s C=%s L=%s" % (method, K, min_k, search, kind, C, L)
    if not o.ok:
        if method == "ends_of_thoroughfares":
            rec.count("not judged: no such seeds")
            return
        rec.bad("gap/error", tag + ": " + o.why(), I.describe())
        return
    if not seen:
        rec.count("not judged: seed points are not seen")
        return
    opt, load = tours(D), loads(n, d)
    trials, at = [], {}
    try:
        for s in seen:
            k = len(s)
            t = at[k] = at.get(k, -1) + 1
            if method == "cones" and not L:      # (with L the same seeds may be used several times)
                directions(rec, I, tag, s, k, t)
            elif method != "cones":
                places(rec, I, tag, method, s, k, None if L else t)
            S = [[rounded(inst.dist(p, q), kind) + (I.st / 2.0 if I.st and j else 0.0) for j, q in enumerate(I.pts)] for p in s]
            exact = kind != "EXACT_2D" and whole(D) and not I.st
            if not exact and kind != "EXACT_2D" and any(abs(inst.dist(p, q) % 1 - .5) < 1e-9 or abs(inst.dist(p, q) % 1) < 1e-9 for p in s for q in I.pts):
                raise Tie()
            trials.append((k, assignments(D, d, C, S, opt, load, exact)))
    except Tie:
        rec.count("not judged: a tie decides")
        return
    rec.count("assignment problems enumerated", len(trials))
    if o.value is None:
        rec.case((tag, repr(I.pts), repr(d)), False)
        if any(a for _, a in trials):
            rec.bad("gap/none", "%s finds no plan, but a trial has %s" % (tag, [a for _, a in trials if a][0][:1]), I.describe())
        return
    got = tuple(sets_of(o.value))
    c = float(oracle.cost([int(x) for x in o.value], D))
    rec.case((tag, repr(I.pts), repr(d)), n > 3 and len(got) > 1, {"run": tag, "plan": [int(x) for x in o.value], "trials": len(trials)})
    rec.count("judged gap " + method)
    if not any(got == r and c <= v * (1 + GAP) + 1e-6 for _, a in trials for r, v in a):
        rec.bad("gap/plan", "%s -> %s (%r) is no best assignment to the seeds of any trial: %s" % (tag, [members(s) for s in got], c,
                [(s, [([members(x) for x in r], v) for r, v in a[:2]]) for s, (_, a) in list(zip(seen, trials))[:3]]), I.describe())
        return
    for (k, a), s in zip(trials, seen):
        if a and (max(len(r) for r, _ in a) < len(got) if min_k else max(v for _, v in a) < c * (1 - GAP) - 1e-6) or \
                a and min_k and all(len(r) <= len(got) for r, _ in a) and max(v for _, v in a) < c * (1 - GAP) - 1e-6:
            rec.bad("gap/best", "%s -> %r with %d routes, but seeds %s give %r" % (tag, c, len(got), s, a[:2]), I.describe())
            return
    # which numbers of routes are tried, and how many trials each gets
    first = K or kmin
    ks = sorted(at)
    ok = {k: any(a for kk, a in trials if kk == k) for k in ks}
    if ks != list(range(first, first + len(ks))):
        rec.bad("gap/K", "%s tries %s vehicles, not from %d on" % (tag, ks, first), I.describe())
    elif min_k and any(ok[k] for k in ks[:-1]) or K and len(ks) > 1:
        rec.bad("gap/K", "%s goes on to %s vehicles after a plan was found" % (tag, ks), I.describe())
    elif search and not L and any(at[k] + 1 < n for k in ks):
        rec.bad("gap/trials", "%s searches the seeds with %s trials only for %d customers" % (tag, {k: at[k] + 1 for k in ks}, n), I.describe())


def places(rec, I, tag, method, s, k, t):
    """Seeds at customers: different ones, those of large demands first. Seeds at
    cluster centres: in the middle of the customers nearest to them."""
    n = I.N - 1
    pts = [tuple(map(float, p)) for p in I.pts]
    if method == "kmeans":
        if k >= n:
            return
        own = {}
        for p in pts[1:]:
            dd = sorted((inst.dist(p, q), j) for j, q in enumerate(s))
            if len(dd) > 1 and dd[1][0] - dd[0][0] < 1e-6 * (1 + dd[1][0]):
                return
            own.setdefault(dd[0][1], []).append(p)
        rec.count("cluster seeds judged")
        for j, q in enumerate(s):
            c = own.get(j, [])
            if not c or inst.dist(q, (sum(p[0] for p in c) / len(c), sum(p[1] for p in c) / len(c))) > .05 * max(inst.dist(a, b) for a in pts for b in pts):
                rec.bad("gap/cluster", "%s: seed %s is not in the middle of its customers %s" % (tag, q, c), I.describe())
                return
        return
    if k > n:
        return
    at = [pts.index(q) if q in pts else None for q in s]
    rec.count("customer seeds judged")
    if None in at or len(set(at)) < k or method == "large_demands" and 0 in at:
        rec.bad("gap/customer", "%s: seeds %s are nodes %s" % (tag, s, at), I.describe())
    elif method == "large_demands" and t == 0:
        big = {i for i in range(1, n + 1) if I.d[i] > .5 * I.C}
        if len(big & set(at)) < min(len(big), k):
            rec.bad("gap/large", "%s: seeds at %s, but %s have more than half a load" % (tag, at, sorted(big)), I.describe())


def directions(rec, I, tag, s, k, t):
    try:
        want = cones(I, k, t)
    except Tie:
        return
    x0, y0 = I.pts[0]
    far = max(inst.dist(p, I.pts[0]) for p in I.pts)
    rec.count("directions of seeds judged", k)
    for w, p in zip(want, s):
        r = inst.dist(p, (x0, y0))
        if r > far * (1 + 1e-9):
            rec.bad("gap/seed", "%s trial %d: seed %s lies beyond all customers" % (tag, t, p), I.describe())
            return
        a = math.atan2(p[1] - y0, p[0] - x0)
        if r > 1e-6 * far and abs((a - w + math.pi) % (2 * math.pi) - math.pi) > 1e-5:
            rec.bad("gap/seed", "%s trial %d: seeds %s, the sectors of equal demand have their middles at %s" % (tag, t, s, want), I.describe())
            return


# ---------------------------------------------------------------- publications
E22 = ([(145, 215), (151, 264), (159, 261), (130, 254), (128, 252), (163, 247), (146, 246), (161, 242), (142, 239), (163, 236), (148, 232),
        (128, 231), (156, 217), (129, 214), (146, 208), (164, 208), (141, 206), (147, 193), (164, 193), (129, 189), (155, 185), (139, 182)],
       [0, 1100, 700, 800, 1400, 2100, 400, 800, 100, 500, 600, 1200, 1300, 1300, 300, 900, 2100, 1000, 900, 2500, 1800, 700], 6000)
E51 = ([(30, 40)] + [tuple(map(int, x.split())) for x in (
    "37 52; 49 49; 52 64; 20 26; 40 30; 21 47; 17 63; 31 62; 52 33; 51 21; 42 41; 31 32; 5 25; 12 42; 36 16; 52 41; 27 23; 17 33; 13 13; 57 58; "
    "62 42; 42 57; 16 57; 8 52; 7 38; 27 68; 30 48; 43 67; 58 48; 58 27; 37 69; 38 46; 46 10; 61 33; 62 63; 63 69; 32 22; 45 35; 59 15; 5 6; "
    "10 17; 21 10; 5 64; 30 15; 39 10; 32 39; 25 32; 25 55; 48 28; 56 37").split(";")],
       [0] + list(map(int, "7 30 16 9 21 15 19 23 11 5 19 29 23 21 10 15 3 41 9 28 8 8 16 10 28 7 15 14 6 19 11 12 23 26 17 6 9 15 14 7 27 13 11 16 10 5 "
                      "25 17 18 10".split())), 160)
E13 = ("9|14 5|21 12 7|23 22 17 10|22 21 16 21 19|25 24 23 30 28 9|32 31 26 27 25 10 7|36 35 30 37 35 16 11 10|38 37 36 43 41 22 13 16 6|"
       "42 41 36 31 29 20 17 10 6 12|50 49 44 37 31 28 25 18 14 12 8|52 51 46 39 29 30 27 20 16 20 10 10",
       [0, 1200, 1700, 1500, 1400, 1700, 1400, 1200, 1900, 1800, 1600, 1700, 1100], 6000)


def published():
    """(what, run, published cost, tolerance, vehicles)."""
    import numpy as np
    from verypy.classic_heuristics import (gapvrp, matchingvrp, mole_jameson_insertion as mj, parallel_savings as ps, petalvrp,
                                           sequential_savings as ss, tyagi_nearest_neighbor as ty, nearest_neighbor as nn, cmt_2phase)
    e, f = inst.matrix(E51[0], False), inst.matrix(E22[0], False)
    g = np.zeros((13, 13))
    for i, l in enumerate(E13[0].split("|")):
        for j, x in enumerate(l.split()):
            g[i + 1, j] = g[j, i + 1] = float(x)
    mjs = {"proximity_ranking": 290, "min_strain": 294, "clarke_wright": 290, "gaskell": 290, "augumented_min_strain": 290}
    out = [
        ("parallel savings, E51", lambda: ps.parallel_savings_init(e.copy(), list(E51[1]), 160, None), e, 584.64, .01, 6),
        ("sequential savings, E51", lambda: ss.sequential_savings_init(e.copy(), list(E51[1]), 160, None, False, "farthest"), e, 625.56, .01, 5),
        ("petals, E51", lambda: petalvrp.petal_init(E51[0], e.copy(), list(E51[1]), 160, None, minimize_K=True, relaxe_SCP_solutions=False,
                                                    required_iterations=1, restricted_route_ratio=None, K=5), e, 531.90, .01, 5),
        ("petals, E22", lambda: petalvrp.petal_init(E22[0], f.copy(), list(E22[1]), 6000, None, minimize_K=True, relaxe_SCP_solutions=False,
                                                    required_iterations=1, restricted_route_ratio=None, K=4), f, 608 - 210, .5, 4),
        ("matching based savings, E22", lambda: matchingvrp.mbsa_init(f.copy(), list(E22[1]), 6000, None), f, 587 - 210, .5, 4),
        ("matching based savings, E51", lambda: matchingvrp.mbsa_init(e.copy(), list(E51[1]), 160, None), e, 586, .5, None),
        ("assignment, E51", lambda: gapvrp.gap_init(E51[0], e.copy(), list(E51[1]), 160, None, K=None, minimize_K=True, seed_edge_weight_type="EXACT_2D"),
         e, 524.61, .05, 5),
        ("two phases, E51", lambda: cmt_2phase.cmt_2phase_init(e.copy(), list(E51[1]), 160, None, False, 1.9, 1.3), e, 550.5, .1, None),
        ("Tyagi, E13", lambda: algs.get("ty")(None, g.copy(), list(E13[1]), 6000, None, None, "EXPLICIT", False, False), g, 290, .01, 4)]
    for c, v in sorted(mjs.items()):
        out.append(("Mole and Jameson %s, E13" % c, lambda c=c: mj.mole_jameson_insertion_init(g.copy(), list(E13[1]), 6000, None, minimize_K=True,
                                                                                              strain_criterion=c), g, v, .01, 4))
    return out


def publication(rec, idx):
    p = published()
    if idx >= len(p):
        return
    what, run, D, want, tol, k = p[idx]
    o = core.call(run, _limit=2000000000)
    if not o.ok or o.value is None:
        rec.bad("published/error", what + ": " + (o.why() if not o.ok else "no plan"))
        return
    sol = [int(x) for x in o.value]
    c, kk = value(oracle.routes_of(sol), D)
    rec.case(("published", what), True, {"run": what, "cost": c, "routes": kk})
    rec.count("published results reproduced")
    if abs(c - want) > tol or k and kk != k:
        rec.bad("published/" + what.split(",")[0].replace(" ", "-"), "%s: %r with %d routes, published %r (%s routes)" % (what, c, kk, want, k), {"plan": sol})


def explicit(rng, I, ints):
    import numpy as np
    n = I.N
    D = np.zeros((n, n), dtype=int if ints else float)
    for i in range(n):
        for j in range(i):
            D[i, j] = D[j, i] = rng.randint(*ints) if ints else rng.uniform(10, 60)
    # shortest paths: the triangle inequality holds
    for k in range(n):
        for i in range(n):
            for j in range(n):
                if D[i, k] + D[k, j] < D[i, j]:
                    D[i, j] = D[i, k] + D[k, j]
    I.D = I.Dc = D
    I.st = None
    if I.L:
        far = max(2 * float(D[0, i]) for i in range(1, n))
        I.L = int(far * rng.choice((1.2, 1.6, 2.5))) if ints else far * rng.choice((1.1, 1.5, 2.5)) + .123


class Relaxed(object):
    """Records every relaxed 3-opt* step of the Lagrangean heuristic."""

    def __enter__(self):
        import inspect
        from verypy.classic_heuristics import lr3opt
        from verypy.local_search import solution_operators
        self.events, self.saved = [], []
        real = solution_operators.do_3optstar_move
        bind = inspect.signature(real).bind

        def step(*a, **k):
            out = real(*a, **k)
            given = bind(*a, **k).arguments
            if given.get("move_checker") is not None:
                self.events.append(([int(x) for x in next(iter(given.values()))], [int(x) for x in out[0]] if out[0] is not None else None, out[1]))
            return out
        for m in (lr3opt, solution_operators):
            if getattr(m, "do_3optstar_move", None) is real:
                self.saved.append((m, real))
                m.do_3optstar_move = step
        return self

    def __exit__(self, *a):
        for m, real in self.saved:
            m.do_3optstar_move = real


def lagrange(rng, rec):
    """Every step of the relaxed search against the penalized objective."""
    from verypy.classic_heuristics import lr3opt
    from .v08 import joins
    I = inst.make(rng, nmin=2, nmax=rng.choice((5, 8)), cons=rng.choice(("C", "C", "CL", "CL", "L", "none")))
    given = [rng.choice((None, None, .05, 1.0, 20.0)) for _ in range(2)]
    first = list(range(1, I.N))
    rng.shuffle(first)
    k = rng.randrange(1, I.N) if rng.random() < .4 else None
    first = [0] + (first if k is None else first[:k - 1] + [0] + first[k - 1:]) + [0]
    with Relaxed() as seen:
        o = core.call(lr3opt.lr3opt_init, I.Dc.copy(), list(I.d), I.C, I.L, given[0], given[1],
                      initialization_algorithm=lambda *a: (list(first), float(oracle.cost(first, I.Dc))), postoptimize_with_3optstar=False)
    tag = "lr3opt multipliers %s C=%s L=%s from %s" % (given, I.C, I.L, first)
    if not o.ok:
        rec.bad("lr3o/error", tag + ": " + o.why(), I.describe()) if o.ended else rec.maybe("did not end")
        return
    if not seen.events:
        rec.count("Lagrangean searches not observed")
        return
    big = max(float(x) for r in I.Dc for x in r)
    if big == 0:
        rec.count("not judged: all places are shared")
        return
    lam = list(given)
    if lam[0] is None:
        lam[0] = sum(I.d) / len(I.d) / (20 * big)
    if lam[1] is None:
        lam[1] = sum(min(float(I.Dc[i, j]) for j in range(I.N) if i != j) for i in range(I.N)) / I.N / (10 * big)
    if I.L and lam[1] == 0:
        rec.count("not judged: all places are shared")
        return

    def worth(sol):
        f = 0.0
        for r in oracle.routes_of(sol):
            c = float(oracle.cost([0] + r + [0], I.Dc))
            f += c + (lam[0] * max(0, sum(I.d[x] for x in r) - I.C) if I.C else 0) + (lam[1] * max(0, c - I.L) if I.L else 0)
        return f
    rec.case((tag, repr(I.pts), repr(I.d)), len(seen.events) > 2, {"run": tag, "steps": len(seen.events)})
    at = None
    for n, (sol, new, delta) in enumerate(seen.events):
        if at is not None and oracle.routes_of(sol) != at:
            rec.bad("lr3o/jump", "%s: step %d searches %s, not %s" % (tag, n, sol, at), I.describe())
            return
        p = worth(sol)
        tol = 1e-5 * (1 + p)
        if new is not None:
            rec.count("relaxed moves")
            at = oracle.routes_of(new)
            if sorted(x for x in new if x) != list(range(1, I.N)):
                rec.bad("lr3o/customers", "%s: %s -> %s" % (tag, sol, new), I.describe())
                return
            if abs(worth(new) - p - delta) > tol or delta > tol:
                rec.bad("lr3o/delta", "%s: multipliers %s, %s -> %s reports %r, the penalized cost changes by %r" % (tag, lam, sol, new, delta, worth(new) - p), I.describe())
                return
            continue
        rec.count("relaxed optima")
        at = oracle.routes_of(sol)
        best = min(((worth(q), q) for q in joins(sol)), default=(p, None))
        if best[0] < p - tol:
            rec.bad("lr3o/missed", "%s: multipliers %s, %s is left although %s is better by %r" % (tag, lam, sol, best[1], p - best[0]), I.describe())
            return
        lam = [2 * x for x in lam]
    ends = [int(x) for x in o.value]
    for kind, text in oracle.plan_faults(ends, I.N, I.d, I.C, I.Dc, I.L):
        rec.bad("lr3o/" + kind, "%s: %s" % (tag, text), I.describe())
    canon = lambda rs: sorted(min(tuple(r), tuple(r[::-1])) for r in rs)
    if canon(oracle.routes_of(ends)) != canon(at):
        rec.bad("lr3o/end", "%s: the search ended in %s, the plan is %s" % (tag, at, ends), I.describe())


def chunk(rng, idx, tier, rec):
    publication(rec, idx)
    for _ in range(70):
        I = inst.make(rng, nmin=1, nmax=rng.choice((4, 7, 9)), general=True)
        u = rng.random()
        if u < .3:
            explicit(rng, I, u < .2 and ((5, 60) if u < .08 else (2, 12)))
        matching(rng, rec, I)
        # few different distances: equal savings, which the second criterion decides
        I = inst.make(rng, n=rng.choice((4, 5, 6, 7)), general=True, cons=rng.choice(("C", "C", "CL")))
        explicit(rng, I, rng.choice(((2, 6), (2, 12), (1, 20))))
        matching(rng, rec, I)
        for _ in range(2):
            I = inst.make(rng, nmin=1, nmax=rng.choice((5, 8, 11)), general=True)
            if rng.random() < .1:
                explicit(rng, I, False)
            two_phase(rng, rec, I)
        I = inst.make(rng, nmin=6, nmax=11, general=True, cons=rng.choice(("L", "CL")))
        two_phase(rng, rec, I)
        I = inst.make(rng, nmin=1, nmax=rng.choice((5, 8, 11)), general=True, cons=rng.choice(("C", "C", "CL", "L")), service=False)
        petal(rng, rec, I)
        n = rng.choice((3, 5, 6, 7, 8))
        I = inst.make(rng, n=n, general=rng.random() < .7, cons="C", layout_kind="uniform", demand_kind=rng.choice(("mixed", "tight", "realdem", "loose")),
                      service=rng.choice((None, None, 4, 2.5)))
        assignment(rng, rec, I)
    for _ in range(8):
        lagrange(rng, rec)
