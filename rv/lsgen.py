"""States for the local search operators: matrices, feasible routes, limits."""
import itertools
import math

import numpy as np

from . import inst


def matrix(rng, n):
    """Symmetric matrix of depot + n nodes; returns D and its kind."""
    k = rng.choice(("points", "points", "intpoints", "dup", "randint", "randfloat", "smallint", "line", "grid", "lattice", "twins", "wide"))
    if k in ("points", "intpoints"):
        pts = inst.layout(rng, rng.choice(("uniform", "cluster", "ring")), n)
        return inst.matrix(pts, k == "intpoints"), k
    if k == "dup":
        return inst.matrix(inst.layout(rng, "dup", n), rng.random() < .5), k
    if k == "line":
        return inst.matrix(inst.layout(rng, "line", n), rng.random() < .5), k
    if k == "grid":
        return inst.matrix(inst.layout(rng, "grid", n), rng.random() < .7), k
    if k in ("lattice", "twins", "wide"):
        return inst.matrix(inst.layout(rng, k, n), rng.random() < .3), k
    D = np.zeros((n + 1, n + 1), dtype=float if k == "randfloat" else int)
    for i in range(n + 1):
        for j in range(i):
            v = rng.uniform(1, 60) if k == "randfloat" else rng.randint(1, 5 if k == "smallint" else 60)
            D[i, j] = D[j, i] = v
    return D, k


def cost(r, D):
    return sum(D[r[i - 1], r[i]] for i in range(1, len(r)))


class State(object):
    __slots__ = ("D", "d", "C", "L", "routes", "kind")


def settle(rng, r, D):
    """2-opt r, then disturb it a little."""
    better = True
    while better:
        better = False
        for q in nb_2opt(r):
            if cost(q, D) < cost(r, D) - tol(D):
                r, better = q, True
                break
    if len(r) > 4 and rng.random() < .8:
        i, j = sorted(rng.sample(range(1, len(r) - 1), 2))
        r = r[:i] + r[i:j + 1][::-1] + r[j + 1:]
    return r


def state(rng, n, nroutes=None, allow_empty=True, limits=None, settled=False):
    """Feasible routes over n customers with limits that are met."""
    s = State()
    s.D, s.kind = matrix(rng, n)
    if limits is None:
        limits = rng.choice(("none", "C", "C", "CL", "CL", "L"))
    cust = list(range(1, n + 1))
    rng.shuffle(cust)
    k = nroutes if nroutes is not None else rng.randint(1, max(1, min(4, n)))
    cuts = sorted(rng.sample(range(1, n), k - 1)) if k - 1 <= n - 1 and n > 1 else []
    parts = [cust[a:b] for a, b in zip([0] + cuts, cuts + [n])]
    while len(parts) < k:
        parts.append([])
    if allow_empty and rng.random() < .08 and k > 1:
        parts[rng.randrange(k)] = []
    s.routes = [[0] + p + [0] for p in parts]
    if settled:
        s.routes = [settle(rng, r, s.D) for r in s.routes]
    isint = np.issubdtype(s.D.dtype, np.integer)
    dk = rng.choice(("int", "int", "unit", "float", "frac", "zero"))
    if dk == "int":
        s.d = [0] + [rng.randint(1, 20) for _ in cust]
    elif dk == "unit":
        s.d = [0] + [1] * n
    elif dk == "float":
        s.d = [0.0] + [rng.uniform(.5, 9) for _ in cust]
    elif dk == "frac":
        s.d = [0.0] + [rng.choice((.1, .2, .3, .7)) for _ in cust]
    else:
        s.d = [0] + [rng.choice((0, 0, 4, 9)) for _ in cust]
    s.C = s.L = None
    if "C" in limits:
        load = max(sum(s.d[i] for i in r) for r in s.routes)
        s.C = load * rng.choice((1, 1, 1.15, 1.5, 3)) + rng.choice((0, 0, 1, 4))
        if dk in ("int", "unit", "zero"):
            s.C = int(s.C)
        if s.C <= 0:
            s.C = 1
    if "L" in limits:
        far = max([cost(r, s.D) for r in s.routes])
        s.L = far * rng.choice((1, 1, 1.05, 1.2, 2))
        if isint:
            s.L = int(s.L)
        if s.L <= 0:
            s.L = 1
    return s


def describe(s):
    return {"D": np.asarray(s.D).tolist(), "d": list(s.d), "C": s.C, "L": None if s.L is None else float(s.L),
            "routes": s.routes, "kind": s.kind}


def tol(D):
    return 1e-7 * (1.0 + float(np.max(D)) if len(D) else 1.0)


# ---- neighbourhoods of one route, by building the routes ------------------
def nb_2opt(r):
    for i in range(len(r) - 1):
        for j in range(i + 1, len(r) - 1):
            yield r[:i + 1] + r[i + 1:j + 1][::-1] + r[j + 1:]


def nb_3opt(r):
    m = len(r)
    for i in range(m - 1):
        for j in range(i + 1, m - 1):
            for k in range(j + 1, m - 1):
                h, a, b, t = r[:i + 1], r[i + 1:j + 1], r[j + 1:k + 1], r[k + 1:]
                for x, y in ((a, b), (b, a)):
                    for xx in (x, x[::-1]):
                        for yy in (y, y[::-1]):
                            yield h + xx + yy + t


def nb_relocate(r):
    for i in range(1, len(r) - 1):
        q = r[:i] + r[i + 1:]
        for j in range(1, len(q)):
            yield q[:j] + [r[i]] + q[j:]


def nb_exchange(r):
    for i in range(1, len(r) - 1):
        for j in range(i + 1, len(r) - 1):
            q = list(r)
            q[i], q[j] = q[j], q[i]
            yield q


# ---- neighbourhoods of several routes --------------------------------------
def nb_2optstar(r1, r2):
    for i in range(len(r1) - 1):
        for j in range(len(r2) - 1):
            yield r1[:i + 1] + r2[:j + 1][::-1], r1[i + 1:][::-1] + r2[j + 1:]
            yield r1[:i + 1] + r2[j + 1:], r2[:j + 1] + r1[i + 1:]


def nb_1point(r1, r2):
    for i in range(1, len(r1) - 1):
        for j in range(1, len(r2)):
            yield r1[:i] + r1[i + 1:], r2[:j] + [r1[i]] + r2[j:]


def nb_2point(r1, r2):
    for i in range(1, len(r1) - 1):
        for j in range(1, len(r2) - 1):
            yield r1[:i] + [r2[j]] + r1[i + 1:], r2[:j] + [r1[i]] + r2[j + 1:]


def nb_chain(r1, r2, r3):
    for i in range(1, len(r1) - 1):
        for j in range(1, len(r2) - 1):
            for k in range(1, len(r3)):
                yield (r1[:i] + r1[i + 1:], r2[:j] + [r1[i]] + r2[j + 1:], r3[:k] + [r2[j]] + r3[k:])


def clear(routes, s, margin):
    """Feasible beyond rounding doubts: exact for whole numbers, with a margin
    otherwise. None: too close to call."""
    verdict = True
    for r in routes:
        if s.C:
            q = sum(s.d[i] for i in r)
            whole = all(isinstance(x, int) for x in s.d) and isinstance(s.C, int)
            if q > s.C + (0 if whole else margin):
                return False
            if not whole and q > s.C - margin:
                verdict = None
        if s.L:
            l = cost(r, s.D)
            whole = np.issubdtype(s.D.dtype, np.integer) and float(s.L).is_integer()
            if l > s.L + (0 if whole else margin):
                return False
            if not whole and l > s.L - margin:
                verdict = None
    return verdict
