"""Savings heuristics: their plans against a direct execution of the published rules."""
from .. import algs, core, inst, oracle

CHUNKS = {"quick": 48, "thorough": 800}
MIN = {"quick": 6000, "thorough": 90000}
RULE = ("instances of 1..16 customers at random places (and rounded and explicit non-metric distances), with capacity and/or cost limits "
        "and both objectives. Parallel (also with 2-opt routes), sequential, Gaskell, Paessens (with and without 3-opt, both search strategies and lists of "
        "parameters) and suppression savings are compared with a reference model that executes the published rule: routes for one-run "
        "heuristics, number of routes and cost for the multi-run ones. Runs in which a tie or a limit within rounding decides are not "
        "judged. Non-trivial: at least one merge was refused by a limit or by the ends rule and there are 4 or more customers")
ASSUMPTIONS = ["the reference model is executed with two opposite orders of equal savings and the run is judged only if both agree",
               "the local search after Paessens' savings is the library's own (decided by V05 and V09)"]
EPS = 1e-7


class Tie(Exception):
    pass


class Plan(list):
    """One expected plan; other answers are lists of acceptable (cost, routes)."""


def fits(x, lim, flag):
    """x <= lim, noting when rounding could decide."""
    if lim is None or not lim:
        return True
    if x != lim and abs(x - lim) <= EPS * (1 + abs(lim)):
        raise Tie()
    if x == lim and float(x) != int(x):
        raise Tie()
    return x <= lim


def parallel(keys, D, d, C, L, min_k, rev, stats):
    """keys: {(i, j): primary value}; the nearer pair first among equals."""
    order = sorted(keys, key=lambda p: (-keys[p], D[p], (-p[0], -p[1]) if rev else p))
    for p, q in zip(order, order[1:]):
        if keys[p] != keys[q] and abs(keys[p] - keys[q]) <= 1e-9 * (1 + abs(keys[p])):
            raise Tie()
    n = len(D)
    route = {i: [i] for i in range(1, n)}
    for i, j in order:
        cw = D[i, 0] + D[0, j] - D[i, j]
        if not min_k:
            if cw != 0 and abs(cw) <= 1e-9 * (1 + D[i, j]):
                raise Tie()
            if cw < 0:
                continue
        a, b = route[i], route[j]
        if a is b:
            continue
        if i not in (a[0], a[-1]) or j not in (b[0], b[-1]):
            stats["ends"] = 1
            continue
        left = a if a[-1] == i else a[::-1]
        right = b if b[0] == j else b[::-1]
        m = left + right
        if not fits(sum(d[x] for x in m), C, None) or not fits(oracle.cost([0] + m + [0], D), L, None):
            stats["limit"] = 1
            continue
        for x in m:
            route[x] = m
    out = {}
    for r in route.values():
        out[id(r)] = r
    return list(out.values())


def canon(routes):
    return sorted(min(tuple(r), tuple(r[::-1])) for r in routes if r)


def both(f, D, stats):
    """Run the model with two opposite tie orders; only agreement is an answer."""
    a, b = f(False), f(True)
    if canon(a) != canon(b):
        raise Tie()
    return a


def two_opt(r, D):
    """Steepest descent with 2-opt on one route (without the depot)."""
    p = [0] + list(r) + [0]
    while True:
        g = []
        for i in range(len(p) - 2):
            for j in range(i + 2, len(p) - 1):
                g.append((D[p[i], p[i + 1]] + D[p[j], p[j + 1]] - D[p[i], p[j]] - D[p[i + 1], p[j + 1]], i, j))
        g.sort(reverse=True)
        tol = 1e-9 * (1 + max(oracle.cost(p, D), 1))
        if not g or g[0][0] <= 0:
            return p[1:-1]
        if g[0][0] <= tol or len(g) > 1 and g[0][0] - g[1][0] <= tol:
            raise Tie()
        _, i, j = g[0]
        p = p[:i + 1] + p[i + 1:j + 1][::-1] + p[j + 1:]


def cw(D):
    n = len(D)
    return {(i, j): D[i, 0] + D[0, j] - D[i, j] for i in range(1, n) for j in range(i + 1, n)}


def lam(D):
    n = len(D)
    avg = float(D.sum()) / (n * n)
    return {(i, j): (D[i, 0] + D[0, j] - D[i, j]) * (avg + abs(D[0, i] - D[0, j]) - D[i, j])
            for i in range(1, n) for j in range(i + 1, n)}


def pi(D):
    n = len(D)
    return {(i, j): D[i, 0] + D[0, j] - 2 * D[i, j] for i in range(1, n) for j in range(i + 1, n)}


def gf(D, g, f):
    n = len(D)
    return {(i, j): D[i, 0] + D[0, j] - g * D[i, j] + f * abs(D[i, 0] - D[0, j])
            for i in range(1, n) for j in range(i + 1, n)}


def value(routes, D):
    return sum(oracle.cost([0] + list(r) + [0], D) for r in routes), len(routes)


def better(a, b, min_k):
    """Strictly better; differences within rounding are no basis for a choice."""
    (ca, ka), (cb, kb) = a, b
    if min_k and ka != kb:
        return ka < kb
    return ca < cb - 1e-9 * (1 + cb)


def best(cands, D, min_k):
    out = None
    for r in cands:
        v = value(r, D)
        if out is None or better(v, out[0], min_k):
            out = (v, r)
    return out


def model_gpl(D, d, C, L, min_k, methods, st):
    fs = [m(D) for m in methods]
    return best([both(lambda rev: parallel(k, D, d, C, L, min_k, rev, st), D, st) for k in fs], D, min_k)


def three_opt(routes, D, d, C, L):
    from verypy.local_search import LSOPT, do_local_search
    from verypy.local_search.intra_route_operators import do_3opt_move
    sol = [0]
    for r in routes:
        sol += list(r) + [0]
    o = core.call(do_local_search, [do_3opt_move], sol, D, d, C, L, LSOPT.BEST_ACCEPT)
    if not o.ok:
        raise Tie()
    return oracle.routes_of([int(x) for x in o.value])


def model_gps(D, d, C, L, min_k, strategy, do3, st):
    def trial(g, f):
        r = both(lambda rev: parallel(gf(D, g, f), D, d, C, L, min_k, rev, st), D, st)
        return three_opt(r, D, d, C, L) if do3 else r
    if strategy == "M4":
        par = [(1.0, .1), (1.0, .5), (1.4, .0), (1.4, .5)]
        res = [(value(trial(*p), D), p) for p in par]
        b = res[0]
        for v, p in res[1:]:
            if better(v, b[0], min_k):
                b = (v, p)
        # trials within rounding of the best one: each may be the centre
        outs = []
        for v, (g, f) in res:
            if not better(b[0], v, min_k):
                outs.append(top([b[0]] + [value(trial(*p), D) for p in ((g - .1, f), (g + .1, f), (g, f - .1), (g, f + .1))], min_k))
        return outs
    return [top([value(trial(*p), D) for p in strategy], min_k)]


def top(vals, min_k):
    out = vals[0]
    for v in vals[1:]:
        if better(v, out, min_k):
            out = v
    return out


def model_ims(D, d, C, L, min_k, runs, st):
    n = len(D) - 1
    runs = max(1, min(runs, n * (n - 1) // 2))
    gone = set()
    cands = []
    plain = {p: max(0, s) for p, s in cw(D).items()}
    for _ in range(runs):
        keys = {p: (0 if p in gone else s) for p, s in plain.items()}
        cands.append(both(lambda rev: parallel(keys, D, d, C, L, min_k, rev, st), D, st))
        if keys:
            top = sorted(keys, key=lambda p: (-keys[p], D[p]))
            if len(top) > 1 and keys[top[0]] - keys[top[1]] <= 1e-9 * (1 + keys[top[0]]) and D[top[0]] == D[top[1]]:
                raise Tie()
            gone.add(top[0])
    return best(cands, D, min_k)


def model_ss(D, d, C, L, min_k, seeds, st):
    n = len(D)
    left = set(range(1, n))
    order = list(range(1, n))
    order.sort(key=lambda i: D[0, i], reverse=seeds == "farthest")
    for a, b in zip(order, order[1:]):
        if abs(D[0, a] - D[0, b]) <= 1e-9 * (1 + D[0, a]):
            raise Tie()
    routes = []
    for s in order:
        if s not in left:
            continue
        left.discard(s)
        r = [s]
        dead = set()              # (end, candidate): refused once is refused for good
        while True:
            c = []
            for e in {r[0], r[-1]}:
                for j in left:
                    if (e, j) not in dead:
                        c.append((D[e, 0] + D[0, j] - D[e, j], -D[e, j], e, j))
            c.sort(reverse=True)
            for a, b in zip(c, c[1:]):
                if a[:2] != b[:2] and abs(a[0] - b[0]) <= 1e-9 * (1 + abs(a[0])) or a[:2] == b[:2]:
                    raise Tie()
            done = True
            for sv, _, e, j in c:
                if not min_k:
                    if sv != 0 and abs(sv) <= 1e-9 * (1 + D[e, j]):
                        raise Tie()
                    if sv < 0:
                        break
                m = [j] + r if e == r[0] else r + [j]
                if not fits(sum(d[x] for x in m), C, None) or not fits(oracle.cost([0] + m + [0], D), L, None):
                    st["limit"] = 1
                    dead.add((e, j))
                    continue
                r = m
                left.discard(j)
                done = False
                break
            if done:
                break
        routes.append(r)
    return routes


def explicit(rng, I):
    """Symmetric distances without geometry (the triangle inequality may fail)."""
    import numpy as np
    n = I.N
    D = np.zeros((n, n))
    for i in range(n):
        for j in range(i):
            D[i, j] = D[j, i] = rng.uniform(1, 100)
    I.D = I.Dc = D
    I.st = None
    if I.L:
        I.L = max(2 * D[0, i] for i in range(1, n)) * rng.choice((1.1, 1.5, 2.5)) + .123


def chunk(rng, idx, tier, rec):
    for _ in range(60):
        u = rng.random()
        I = inst.make(rng, nmin=1, nmax=rng.choice((5, 9, 16)), general=u < .75, integer=u >= .9,
                      layout_kind="uniform" if u < .9 else None)
        if .75 <= u < .9:
            explicit(rng, I)
        for abbr in ("ps", "ps2o", "ss", "gpl", "ims", "gps"):
            min_k = rng.random() < .4
            one(rng, rec, I, abbr, min_k)
        extra(rng, rec, I)


def one(rng, rec, I, abbr, min_k):
    single = rng.random() < .4
    o = algs.solve(abbr, I, single, min_k)
    D, d, C, L = I.Dc, I.d, I.C, I.L
    st = {}
    if abbr == "ps":
        m = lambda: Plan(both(lambda rev: parallel(cw(D), D, d, C, L, min_k, rev, st), D, st))
    elif abbr == "ps2o":
        m = lambda: Plan([two_opt(r, D) for r in both(lambda rev: parallel(cw(D), D, d, C, L, min_k, rev, st), D, st)])
    elif abbr == "ss":
        m = lambda: Plan(model_ss(D, d, C, L, min_k, "closest", st))
    elif abbr == "gpl":
        m = lambda: model_gpl(D, d, C, L, min_k, (pi,) if single else (lam, pi), st)[:1]
    elif abbr == "ims":
        m = lambda: model_ims(D, d, C, L, min_k, (I.N - 1) // 7 + 5, st)[:1]
    else:
        m = lambda: model_gps(D, d, C, L, min_k, "M4", True, st)
    judge(rec, I, "%s single=%d" % (abbr, single), abbr, min_k, o, m, st)


def extra(rng, rec, I):
    """The documented parameters of the construction functions."""
    from verypy.classic_heuristics import gaskell_savings as G, paessens_savings as P
    from verypy.classic_heuristics import sequential_savings as S, suppression_savings as H
    D, d, C, L = I.Dc, I.d, I.C, I.L
    min_k = rng.random() < .4
    st = {}
    seeds = rng.choice(("closest", "farthest"))
    o = core.call(S.sequential_savings_init, D.copy(), list(d), C, L, min_k, seeds)
    judge(rec, I, "sequential from " + seeds, "ss-" + seeds, min_k, o, lambda: Plan(model_ss(D, d, C, L, min_k, seeds, st)), st)
    st = {}
    meth = rng.choice(("lambda", "pi", "both"))
    fs = {"lambda": (lam,), "pi": (pi,), "both": (lam, pi)}[meth]
    o = core.call(G.gaskell_savings_init, D.copy(), list(d), C, L, min_k, meth)
    judge(rec, I, "gaskell " + meth, "gpl-" + meth, min_k, o,
          (lambda: model_gpl(D, d, C, L, min_k, fs, st)[:1]) if meth == "both" else
          (lambda: Plan(model_gpl(D, d, C, L, min_k, fs, st)[1])), st)
    st = {}
    runs = rng.randint(1, 9)
    o = core.call(H.suppression_savings_init, D.copy(), list(d), C, L, min_k, runs)
    judge(rec, I, "suppression %d" % runs, "ims-n", min_k, o, lambda: model_ims(D, d, C, L, min_k, runs, st)[:1], st)
    st = {}
    do3 = rng.random() < .3
    par = rng.choice(("M4", [(round(rng.uniform(.1, 3), 2), round(rng.uniform(0, 1), 2)) for _ in range(rng.randint(1, 4))]))
    if I.N < 8 and rng.random() < .08:
        par = "M1"
    grid = [(.8 + .1 * a, .1 * b) for a in range(13) for b in range(11)] if par == "M1" else par
    o = core.call(P.paessens_savings_init, D.copy(), list(d), C, L, min_k, par, do3)
    judge(rec, I, "paessens %s 3opt=%d" % (par, do3), "gps-par", min_k, o, lambda: model_gps(D, d, C, L, min_k, grid, do3, st), st)


def judge(rec, I, name, key, min_k, o, model, st):
    tag = "%s minK=%d C=%s L=%s" % (name, min_k, I.C, I.L)
    if not o.ok:
        rec.bad("%s/error" % key, tag + ": " + o.why(), I.describe())
        return
    try:
        want = model()
    except Tie:
        rec.count("not judged: a tie decides")
        return
    sol = [int(x) for x in o.value]
    routes = oracle.routes_of(sol)
    rec.case((tag, repr(I.D.tolist()), repr(I.d)), I.N > 4 and bool(st), {"run": tag, "plan": sol})
    rec.count("judged " + key)
    if isinstance(want, Plan):
        if canon(routes) != canon(want):
            rec.bad("%s/plan" % key, "%s -> %s, the rule gives %s" % (tag, routes, want), I.describe())
    else:
        c, k = value(routes, I.Dc)
        if not any(abs(c - w[0]) <= 1e-6 * (1 + w[0]) and (not min_k or k == w[1]) for w in want):
            rec.bad("%s/value" % key, "%s -> %r with %d routes, the rule gives %r" % (tag, c, k, want), I.describe())
