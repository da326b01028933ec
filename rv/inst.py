"""Instance generation: hostile and realistic CVRP instances, with the facts the
oracles need (solvable by construction)."""
import math
import random

import numpy as np


class Inst(object):
    """A problem instance. D is the plain matrix, Dc the one heuristics get."""
    __slots__ = ("pts", "D", "Dc", "d", "C", "L", "st", "wtt", "tags")

    def __init__(self, pts, D, d, C, L, st, wtt, tags):
        self.pts, self.D, self.d, self.C, self.L = pts, D, d, C, L
        self.st, self.wtt, self.tags = st, wtt, tags
        self.Dc = D if not st else service_matrix(D, st)

    @property
    def N(self):
        return len(self.D)

    def describe(self):
        return {"N": self.N, "points": None if self.pts is None else
                [list(map(float, p)) for p in self.pts],
                "D": np.asarray(self.D).tolist(), "D_dtype": str(self.D.dtype),
                "d": [float(x) if isinstance(x, float) else int(x) for x in self.d] if self.d is not None else None,
                "C": self.C, "L": self.L, "st": self.st, "wtt": self.wtt,
                "tags": list(self.tags)}


def service_matrix(D, st):
    """Independent model: half of the service time on each side of a customer
    visit, so that a route of k visits costs travel + k*st."""
    Dc = np.array(D, dtype=float)
    n = len(Dc)
    for i in range(n):
        for j in range(n):
            if i != j:
                Dc[i, j] += (st / 2.0 if i else 0.0) + (st / 2.0 if j else 0.0)
    if np.issubdtype(D.dtype, np.integer) and float(st / 2.0).is_integer():
        Dc = Dc.astype(D.dtype)
    return Dc


def dist(p, q):
    return math.sqrt((p[0] - q[0]) ** 2 + (p[1] - q[1]) ** 2)


def matrix(pts, integer):
    n = len(pts)
    D = np.zeros((n, n))
    for i in range(n):
        for j in range(n):
            if i != j:
                D[i, j] = dist(pts[i], pts[j])
    if integer:
        D = np.floor(D + 0.5).astype(int)
    return D


LAYOUTS = ("uniform", "cluster", "corner", "grid", "ring", "line", "dup", "atdepot", "far", "lattice",
           "twins", "tiny", "wide")


def layout(rng, kind, n):
    """n customers plus the depot (first)."""
    if kind == "uniform":
        return [(rng.uniform(0, 100), rng.uniform(0, 100)) for _ in range(n + 1)]
    if kind == "cluster":
        cs = [(rng.uniform(0, 100), rng.uniform(0, 100)) for _ in range(max(1, n // 4))]
        out = [(50.0, 50.0)]
        for _ in range(n):
            c = rng.choice(cs)
            out.append((c[0] + rng.gauss(0, 5), c[1] + rng.gauss(0, 5)))
        return out
    if kind == "corner":
        return [(0.0, 0.0)] + [(rng.uniform(5, 100), rng.uniform(5, 100)) for _ in range(n)]
    if kind == "grid":
        return [(5.0, 5.0)] + [(float(rng.randrange(0, 11)), float(rng.randrange(0, 11))) for _ in range(n)]
    if kind == "ring":
        off = rng.uniform(0, 6)
        return [(0.0, 0.0)] + [(50 * math.cos(off + 2 * math.pi * i / n), 50 * math.sin(off + 2 * math.pi * i / n))
                               for i in range(n)]
    if kind == "line":
        y = rng.choice([0.0, 10.0])
        return [(0.0, 0.0)] + [(rng.uniform(-50, 50), y) for _ in range(n)]
    if kind == "dup":
        base = [(rng.uniform(0, 100), rng.uniform(0, 100)) for _ in range(max(1, (n + 1) // 2))]
        return [(50.0, 50.0)] + [rng.choice(base) for _ in range(n)]
    if kind == "atdepot":
        out = [(50.0, 50.0)] + [(rng.uniform(0, 100), rng.uniform(0, 100)) for _ in range(n)]
        out[rng.randrange(1, n + 1)] = (50.0, 50.0)
        return out
    if kind == "far":
        out = [(50.0, 50.0)] + [(rng.uniform(40, 60), rng.uniform(40, 60)) for _ in range(n)]
        out[rng.randrange(1, n + 1)] = (900.0, 700.0)
        return out
    if kind == "lattice":
        k = rng.choice([2, 3, 4])
        return [(float(rng.randrange(k)), float(rng.randrange(k))) for _ in range(n + 1)]
    if kind == "twins":         # every node, the depot included, has another one at the same place
        base = [(rng.uniform(0, 100), rng.uniform(0, 100)) for _ in range(max(1, (n + 1) // 2))]
        out = [base[i % len(base)] for i in range(n + 1)]
        tail = out[1:]
        rng.shuffle(tail)
        return out[:1] + tail
    if kind == "tiny":
        return [(rng.uniform(0, 3), rng.uniform(0, 3)) for _ in range(n + 1)]
    if kind == "wide":
        if rng.random() < .4:
            return [(rng.uniform(-1e5, 1e5), rng.uniform(-1e5, 1e5)) for _ in range(n + 1)]
        # regular, in metres and turned: exact ties, large and irrational distances
        k, t, z = rng.random(), rng.uniform(0, 3), rng.choice([1e4, 1e5, 2e5])
        if k < .6:
            out = [(1.1 * rng.randrange(4), 1.1 * rng.randrange(4)) for _ in range(n + 1)]
        else:
            out = [(0, 0)] * (k < .8) + [(math.cos(2 * math.pi * i / n), math.sin(2 * math.pi * i / n)) for i in range(n + 1)]
        return [(z * (x * math.cos(t) - y * math.sin(t)), z * (x * math.sin(t) + y * math.cos(t))) for x, y in out[:n + 1]]
    raise ValueError(kind)


def demands(rng, kind, n):
    """A demand vector and a capacity it fits."""
    if kind == "unit":
        d = [1] * n
        return d, rng.randint(1, max(1, n))
    if kind == "mixed":
        d = [rng.randint(1, 30) for _ in range(n)]
        return d, max(max(d), int(sum(d) / rng.uniform(1.2, 4.0)))
    if kind == "tight":
        d = [rng.randint(15, 50) for _ in range(n)]
        return d, max(max(d), rng.choice([50, 60, 100]))
    if kind == "one_full":
        C = rng.randint(20, 60)
        d = [rng.randint(1, C // 2) for _ in range(n)]
        d[rng.randrange(n)] = C
        return d, C
    if kind == "frac":
        d = [rng.choice([0.1, 0.2, 0.3, 0.7, 1.1]) for _ in range(n)]
        return d, max(max(d), rng.choice([1.2, 2.1, 0.3 * rng.randint(4, 9)]))
    if kind == "realdem":
        d = [rng.uniform(0.5, 10) for _ in range(n)]
        return d, max(max(d), sum(d) / rng.uniform(1.2, 4))
    if kind == "zeros":
        d = [rng.choice([0, 0, 3, 7]) for _ in range(n)]
        return d, max(7, int(sum(d) / 2))
    if kind == "loose":
        d = [rng.randint(1, 9) for _ in range(n)]
        return d, sum(d) * 2
    if kind == "exactfill":
        C = rng.choice([10, 12, 20])
        d = []
        while len(d) < n:
            a = rng.randint(1, C - 1)
            d += [a, C - a]
        return d[:n], C
    raise ValueError(kind)


DEMANDS = ("unit", "mixed", "tight", "one_full", "frac", "realdem", "zeros", "loose", "exactfill")


def route_cost(route, D):
    return float(sum(D[route[i - 1], route[i]] for i in range(1, len(route))))


def make(rng, n=None, layout_kind=None, demand_kind=None, cons=None, integer=None,
         service=None, nmin=2, nmax=12, general=False):
    """A solvable instance: every customer fits alone in a vehicle."""
    n = n if n is not None else rng.randint(nmin, nmax)
    lk = layout_kind or ("uniform" if general else rng.choice(LAYOUTS))
    dk = demand_kind or rng.choice(("mixed", "tight", "realdem", "loose") if general else DEMANDS)
    integer = (rng.random() < .4) if integer is None else integer
    if general:
        integer = False
    pts = layout(rng, lk, n)
    D = matrix(pts, integer)
    dd, cap = demands(rng, dk, n)
    cons = cons or rng.choice(("C", "C", "C", "CL", "CL", "L", "none"))
    d = [0] + list(dd)
    if any(isinstance(x, float) for x in dd):
        d[0] = 0.0
    C = cap if "C" in cons else None
    st = None
    if service is None:
        service = "L" in cons and rng.random() < .35
    if service:
        st = rng.choice([2, 10, 4, 5, 7, 2.5, 10.0, 5.0]) if service is True else service
    Dc = D if not st else service_matrix(D, st)
    L = None
    if "L" in cons:
        far = max(float(Dc[0, i] + Dc[i, 0]) for i in range(1, n + 1))
        mode = rng.choice(("exact", "x1.2", "x1.5", "x2", "x3", "huge"))
        mul = {"exact": 1.0, "x1.2": 1.2, "x1.5": 1.5, "x2": 2.0, "x3": 3.0, "huge": 50.0}[mode]
        L = far * mul
        if L <= 0:
            L = 1.0
        if integer and mode != "exact" and not (st and Dc.dtype != D.dtype):
            L = int(L)
    wtt = "EUC_2D" if integer else "EXACT_2D"
    tags = (lk, dk, cons, "int" if integer else "float", "st" if st else "nost", "n%d" % n)
    return Inst([tuple(map(float, p)) for p in pts], D, d, C, L, st, wtt, tags)
