"""Multi-run heuristics return the best of their trials under the objective."""
import math

from .. import algs, core, inst, oracle

CHUNKS = {"quick": 64, "thorough": 900}
MIN = {"quick": 1200, "thorough": 15000}
RULE = ("solvable instances of 1..11 customers in 13 layouts with capacity and/or cost limits, both objectives; each multi-run heuristic is "
        "called as a whole and then once for each of its trials through its documented parameters, and every candidate plan that a heuristic "
        "weighs against its best so far is recorded. The whole run has to equal the best of its trials (or not be worse, where there are "
        "more trials than those called) and no recorded candidate may be better than what is returned. Non-trivial: at least two trials "
        "with different values; distinct by instance, heuristic and objective")
ASSUMPTIONS = ["costs within rounding of each other are equal"]


def val(sol, D):
    sol = [int(x) for x in sol]
    r = oracle.routes_of(sol)
    return float(oracle.cost(sol, D)), len(r)


def better(a, b, min_k):
    if min_k and a[1] != b[1]:
        return a[1] < b[1]
    return a[0] < b[0] - 1e-7 * (1 + abs(b[0]))


def same(a, b, min_k):
    return not better(a, b, min_k) and not better(b, a, min_k)


class Watch(object):
    """Record what the heuristics' modules hand to is_better_sol."""

    def __init__(self, abbr):
        self.seen = []
        self.own = WATCHED.get(abbr, "")

    def __enter__(self):
        import sys
        from verypy import util
        self.f = getattr(util, "is_better_sol", None)
        self.mods = []
        if self.f is None:
            return self

        def spy(best_f, best_K, sol_f, sol_K, minimize_K):
            try:
                if sol_f is not None and sol_K is not None and math.isfinite(sol_f) and math.isfinite(sol_K):
                    self.seen.append((float(sol_f), int(sol_K)))
            except TypeError:
                pass
            return self.f(best_f, best_K, sol_f, sol_K, minimize_K)
        # only the heuristic's own comparisons: what it calls solves parts
        for name, m in list(sys.modules.items()):
            if name == "verypy.classic_heuristics." + self.own and getattr(m, "is_better_sol", None) is self.f:
                self.mods.append(m)
                m.is_better_sol = spy
        return self

    def __exit__(self, *a):
        for m in self.mods:
            m.is_better_sol = self.f
        return False


WATCHED = {"gpl": "paessens_savings", "gps": "gaskell_savings", "ims": "suppression_savings", "mj": "mole_jameson_insertion",
           "cmt": "cmt_2phase", "pn": "nearest_neighbor", "swp": "sweep", "wh": "wren_holliday_sweep", "gm": "gillet_miller_sweep",
           "gap": "gapvrp"}
NESTED = ("gpl", "mj", "pn", "swp", "gm", "ptl")     # the single run is one of the trials


def chunk(rng, idx, tier, rec):
    for n in range(8):
        I = inst.make(rng, nmin=1, nmax=rng.choice((5, 8, 11)))
        min_k = rng.random() < .5
        for abbr in ("gpl", "gps", "ims", "mj", "cmt", "pn", "swp", "wh", "gm", "gap", "ptl"):
            if abbr in ("gm", "wh") and I.N > 10 and n % 4:
                continue
            whole(rng, rec, I, abbr, min_k and abbr not in algs.NO_MIN_K)
        for f in (gaskell, paessens, suppression, sweeps, gillet, wren, mole, neighbour, gap):
            if f in (gillet, wren) and I.N > 9:
                continue
            f(rng, rec, I, min_k)


def whole(rng, rec, I, abbr, min_k):
    tag = "%s minK=%d C=%s L=%s" % (abbr, min_k, I.C, I.L)
    if algs.unsupported(abbr, I, min_k):
        return
    with Watch(abbr) as w:
        o = algs.solve(abbr, I, False, min_k)
    if not o.ok or o.value is None:
        if abbr == "gap" and o.ok and I.L or not o.ended:
            rec.count("no plan")
            return
        rec.bad("%s/error" % abbr, tag + ": " + o.why(), I.describe())
        return
    got = val(o.value, I.Dc)
    if abbr in WATCHED:
        rec.case((tag, repr(I.pts), repr(I.d), "watch"), len(set(w.seen)) > 1, {"run": tag, "candidates": w.seen[:6], "returned": got})
        rec.count("candidates watched", len(w.seen))
        for c in w.seen:
            if better(c, got, min_k):
                rec.bad("%s/candidate" % abbr, "%s -> %s, but it had %s" % (tag, got, c), I.describe())
                break
    if abbr in NESTED:
        s = algs.solve(abbr, I, True, min_k)
        if s.ok and s.value is not None:
            v = val(s.value, I.Dc)
            rec.case((tag, repr(I.pts), repr(I.d), "single"), v != got)
            rec.count("full and single runs compared")
            if better(v, got, min_k):
                rec.bad("%s/single" % abbr, "%s -> %s, its single run gives %s" % (tag, got, v), I.describe())


def trials(rec, I, key, name, min_k, full, parts, exact=True):
    """full(): the whole run; parts: one call per trial."""
    tag = "%s minK=%d C=%s L=%s" % (name, min_k, I.C, I.L)
    o = full()
    if not o.ended:
        rec.maybe("did not end")
        return
    if not o.ok:
        rec.bad("%s/error" % key, tag + ": " + o.why(), I.describe())
        return
    best, seen = None, set()
    for label, p in parts:
        q = p()
        if not q.ok:
            if not q.ended:
                rec.maybe("did not end")
                return
            rec.bad("%s/error" % key, "%s trial %s: %s" % (tag, label, q.why()), I.describe())
            return
        if q.value is None:
            continue
        v = val(q.value, I.Dc)
        seen.add((round(v[0], 6), v[1]))
        if best is None or better(v, best[0], min_k):
            best = (v, label)
    if o.value is None:
        if best is not None:
            rec.bad("%s/none" % key, "%s -> no plan, trial %s gives %s" % (tag, best[1], best[0]), I.describe())
        return
    got = val(o.value, I.Dc)
    rec.case((tag, repr(I.pts), repr(I.d)), len(seen) > 1, {"run": tag, "trials": sorted(seen)[:6], "returned": got})
    rec.count("trials of " + key, len(parts))
    if best is None:
        return
    if better(best[0], got, min_k):
        rec.bad("%s/worse" % key, "%s -> %s, trial %s gives %s" % (tag, got, best[1], best[0]), I.describe())
    elif exact and better(got, best[0], min_k):
        rec.bad("%s/other" % key, "%s -> %s, better than its best trial %s" % (tag, got, best), I.describe())


def gaskell(rng, rec, I, min_k):
    from verypy.classic_heuristics.gaskell_savings import gaskell_savings_init as f
    g = lambda m: lambda: core.call(f, I.Dc.copy(), list(I.d), I.C, I.L, min_k, m)
    trials(rec, I, "gaskell", "gaskell", min_k, g("both"), [(m, g(m)) for m in ("lambda", "pi")])


def paessens(rng, rec, I, min_k):
    from verypy.classic_heuristics.paessens_savings import paessens_savings_init as f
    do3 = rng.random() < .5
    par = [(round(rng.uniform(.1, 3), 2), round(rng.uniform(0, 1), 2)) for _ in range(rng.randint(1, 6))]
    g = lambda s: lambda: core.call(f, I.Dc.copy(), list(I.d), I.C, I.L, min_k, s, do3)
    trials(rec, I, "paessens", "paessens %s 3opt=%d" % (par, do3), min_k, g(list(par)), [(p, g([p])) for p in par])
    m4 = [(1.0, .1), (1.0, .5), (1.4, .0), (1.4, .5)]
    trials(rec, I, "paessens-M4", "paessens M4 3opt=%d" % do3, min_k, g("M4"), [(p, g([p])) for p in m4], False)


def suppression(rng, rec, I, min_k):
    from verypy.classic_heuristics.suppression_savings import suppression_savings_init as f
    g = lambda s: lambda: core.call(f, I.Dc.copy(), list(I.d), I.C, I.L, min_k, s)
    k = rng.randint(2, 9)
    trials(rec, I, "suppression", "suppression %d" % k, min_k, g(k), [(j, g(j)) for j in range(1, k)], False)


def _ways(rng):
    way = rng.choice(("cw", "ccw", "both"))
    return way, {"both": ["cw", "ccw"]}.get(way, [way])


def sweeps(rng, rec, I, min_k):
    from verypy.classic_heuristics.sweep import BEST_ALTERNATIVE, sweep_init as f
    way, dirs = _ways(rng)
    pts = [tuple(p) for p in I.pts]
    g = lambda w, s: lambda: core.call(f, pts, I.Dc.copy(), list(I.d), I.C, I.L, min_k, w, s)
    trials(rec, I, "sweep", "sweep " + way, min_k, g(way, BEST_ALTERNATIVE), [((w, s), g(w, [s])) for w in dirs for s in range(I.N - 1)])


def gillet(rng, rec, I, min_k):
    from verypy.classic_heuristics.sweep import BEST_ALTERNATIVE
    from verypy.classic_heuristics.gillet_miller_sweep import gillet_miller_init as f
    way, dirs = _ways(rng)
    pts = [tuple(p) for p in I.pts]
    g = lambda w, s: lambda: core.call(f, pts, I.Dc.copy(), list(I.d), I.C, I.L, min_k, w, s)
    trials(rec, I, "gillet-miller", "gm " + way, min_k, g(way, BEST_ALTERNATIVE), [((w, s), g(w, [s])) for w in dirs for s in range(I.N - 1)])


def wren(rng, rec, I, min_k):
    from verypy.classic_heuristics import wren_holliday_sweep as M
    way, dirs = _ways(rng)
    pts = [tuple(p) for p in I.pts]
    full = rng.random() < .7
    g = lambda w, s: lambda: core.call(M.wren_holliday_init, pts, I.Dc.copy(), list(I.d), I.C, I.L, min_k, s, w, full)
    trials(rec, I, "wren-holliday", "wh %s full=%d" % (way, full), min_k, g(way, M.BEST_ALTERNATIVE),
           [((w, s), g(w, s)) for w in dirs for s in range(I.N - 1)])
    # the best of four starts is one of all starts
    four = g(way, M.BEST_OF_FOUR)
    trials(rec, I, "wren-holliday-4", "wh best of four %s full=%d" % (way, full), min_k, g(way, M.BEST_ALTERNATIVE), [("four", four)], False)
    trials(rec, I, "wren-holliday-1", "wh least dense %s full=%d" % (way, full), min_k, four, [("least dense", g(way, M.LEAST_DENSE))], False)


def mole(rng, rec, I, min_k):
    from verypy.classic_heuristics.mole_jameson_insertion import mole_jameson_insertion_init as f
    g = lambda s: lambda: core.call(f, I.Dc.copy(), list(I.d), I.C, I.L, min_k, s)
    trials(rec, I, "mole-jameson", "mj", min_k, g("all"), [(s, g(s)) for s in ("proximity_ranking", "gaskell", "augumented_min_strain")])
    trials(rec, I, "mole-jameson-a", "mj augumented", min_k, g("augumented_min_strain"), [(s, g(s)) for s in ("min_strain", "clarke_wright")], False)
    trials(rec, I, "mole-jameson-g", "mj gaskell", min_k, g("gaskell"), [("clarke_wright", g("clarke_wright"))], False)


def neighbour(rng, rec, I, min_k):
    from verypy.classic_heuristics.nearest_neighbor import nearest_neighbor_init as f
    g = lambda k: lambda: core.call(f, I.Dc.copy(), list(I.d), I.C, I.L, k)
    o = g(1)()
    if not o.ok:
        return
    k = len(oracle.routes_of([int(x) for x in o.value]))
    trials(rec, I, "neighbour", "pn", False, lambda: algs.solve("pn", I, False, False), [(j, g(j)) for j in range(1, k + 1)])


def gap(rng, rec, I, min_k):
    from verypy.classic_heuristics.gapvrp import gap_init as f
    if not I.C and not I.L:
        return
    pts = [tuple(p) for p in I.pts]
    o = algs.solve("gap", I, True, True)
    if not o.ok or o.value is None:
        return
    K = len(oracle.routes_of([int(x) for x in o.value])) + rng.choice((0, 0, 1))
    K = min(K, I.N - 1)
    g = lambda opt: lambda: core.call(f, pts, I.Dc.copy(), list(I.d), I.C, I.L, I.st, K, min_k, opt, "cones", I.wtt)
    trials(rec, I, "gap", "gap K=%d" % K, min_k, g(True), [("one seed", g(False))], False)
