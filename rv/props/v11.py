"""Problem files are read as TSPLIB and the custom fields define them."""
import math
import os
import tempfile

import numpy as np

from .. import core

CHUNKS = {"quick": 48, "thorough": 480}
MIN = {"quick": 3000, "thorough": 30000}
RULE = ("generated instances of 1..13 customers written by an independent writer in every edge weight type and explicit format the reader "
        "documents, any depot node, shuffled sections and rows, odd blanks, line breaks inside matrices, number formats, tricky comments and "
        "names, optional fields; the read problem is compared with the instance that was written, and truncated matrices must be refused. "
        "Non-trivial: at least 2 customers; distinct by file content")
ASSUMPTIONS = ["explicit matrices are symmetric", "the header fields precede the sections, as in TSPLIB",
               "the service time section is used only when the depot is node 1 (the reader refuses it otherwise)"]
TYPES = ("MAX_2D", "MAN_2D", "EXACT_2D", "CEIL_2D", "FLOOR_2D", "EUC_2D", "EXPLICIT", "EXPLICIT", "EXPLICIT", "GEO", "ATT")
FORMATS = ("FULL_MATRIX", "LOWER_ROW", "LOWER_DIAG_ROW", "UPPER_ROW", "UPPER_DIAG_ROW", "LOWER_COL")


def geo_rad(x):
    deg = math.trunc(x)
    return 3.141592 * (deg + 5.0 * (x - deg) / 3.0) / 180.0


def expected(kind, a, b):
    dx, dy = a[0] - b[0], a[1] - b[1]
    if kind == "MAX_2D":
        return max(math.floor(abs(dx) + .5), math.floor(abs(dy) + .5))
    if kind == "MAN_2D":
        return math.floor(abs(dx) + abs(dy) + .5)
    e = math.sqrt(dx * dx + dy * dy)
    if kind == "EXACT_2D":
        return e
    if kind == "CEIL_2D":
        return math.ceil(e)
    if kind == "FLOOR_2D":
        return math.floor(e)
    if kind == "EUC_2D":
        return math.floor(e + .5)
    if kind == "ATT":
        r = math.sqrt((dx * dx + dy * dy) / 10.0)
        t = math.floor(r + .5)
        return t + 1 if t < r else t
    la, lo, lb, lp = geo_rad(a[0]), geo_rad(a[1]), geo_rad(b[0]), geo_rad(b[1])
    q1, q2, q3 = math.cos(lo - lp), math.cos(la - lb), math.cos(la + lb)
    return int(6378.388 * math.acos(max(-1.0, min(1.0, 0.5 * ((1.0 + q1) * q2 - (1.0 - q1) * q3)))) + 1.0)


def number(rng, v):
    if float(v).is_integer():
        return rng.choice(("%d" % v, "%d" % v, "%.1f" % v, "%.5e" % v))
    return rng.choice((repr(float(v)), "%.17e" % v))


def gap(rng):
    return rng.choice((" ", "  ", "\t", " \t "))


def chunk(rng, idx, tier, rec):
    tmp = tempfile.mkdtemp(prefix="rv-v11-")
    path = os.path.join(tmp, "p.vrp")
    try:
        for _ in range(1200):
            one(rng, path, rec)
    finally:
        for f in os.listdir(tmp):
            os.unlink(os.path.join(tmp, f))
        os.rmdir(tmp)


def one(rng, path, rec):
    from verypy import cvrp_io
    n = rng.randint(2, 14)
    kind = rng.choice(TYPES)
    fmt = rng.choice(FORMATS)
    depot = rng.choice((0, 0, n - 1, rng.randrange(n)))
    pick = rng.choice(("int", "half", "float", "neg"))
    xy = {"int": lambda: rng.randint(0, 60), "half": lambda: rng.randint(0, 40) / 2.0, "float": lambda: round(rng.uniform(0, 99), 4),
          "neg": lambda: rng.randint(-50, 50)}[pick]
    pts = [(xy(), xy()) for _ in range(n)]
    if kind == "GEO":
        pts = [(round(rng.uniform(-80, 80), 2), round(rng.uniform(-179, 179), 2)) for _ in range(n)]
        if rng.random() < .5:
            pts = [(float(rng.randint(-60, 60)), float(rng.randint(-120, 120))) for _ in range(n)]
    if rng.random() < .1:
        pts[-1] = pts[0]
    explicit = kind == "EXPLICIT"
    ival = rng.random() < .6
    M = [[0] * n for _ in range(n)]
    for i in range(n):
        for j in range(i):
            M[i][j] = M[j][i] = (rng.randint(0, 99) if ival else round(rng.uniform(0, 99), rng.choice((1, 2, 6)))) if explicit \
                else expected(kind, pts[i], pts[j])
    dem = [rng.choice((rng.randint(0, 40), rng.randint(0, 40), rng.randint(0, 400) / 10.0)) for _ in range(n)]
    dem[depot] = 0
    has_dem = rng.random() < .9
    C = rng.randint(1, 300) if rng.random() < .8 else None
    K = rng.randint(1, 9) if rng.random() < .3 else None
    L = rng.choice((rng.randint(1, 900), round(rng.uniform(1, 900), 2))) if rng.random() < .4 else None
    st = rng.choice((0, rng.randint(1, 30), round(rng.uniform(1, 30), 1))) if rng.random() < .4 else None
    svc = st is not None and st > 0 and rng.random() < .4
    shuffled_rows = rng.random() < .2

    def rows(vals):
        out = [gap(rng).join(["%d" % (i + 1)] + list(v)) for i, v in enumerate(vals)]
        if shuffled_rows:
            rng.shuffle(out)
        return [rng.choice(("", "", " ", "\t")) + r + rng.choice(("", "", " ")) for r in out]

    colon = rng.choice((": ", " : ", ":", " :\t"))
    head = [("NAME", rng.choice(("x-n12-k3", "DISTANCE test", "CAPACITY: 12", "P EOF"))), ("TYPE", rng.choice(("CVRP", "CVRP", "TSP"))),
            ("COMMENT", rng.choice(("none", "(Min no of trucks: 4, Optimal value: 247)", "MAX DISTANCE 20", "VEHICLES 7, SERVICE_TIME 3",
                                    "made by X, DIMENSION: 99", "EDGE_WEIGHT_TYPE : CEIL_2D"))),
            ("DIMENSION", "%d" % n), ("EDGE_WEIGHT_TYPE", kind)]
    if explicit:
        head.append(("EDGE_WEIGHT_FORMAT", fmt))
    elif rng.random() < .2:
        head.append(("EDGE_WEIGHT_FORMAT", "FUNCTION"))
    if C is not None:
        head.append(("CAPACITY", "%d" % C))
    if K is not None:
        head.append(("VEHICLES", "%d" % K))
    if L is not None:
        head.append(("DISTANCE", repr(L)))
    if st is not None and not svc:
        head.append(("SERVICE_TIME", repr(st)))
    if rng.random() < .3:
        head.append(("NODE_COORD_TYPE", "TWOD_COORDS"))
    if rng.random() < .5:
        rng.shuffle(head)
    secs = []
    truncated = False
    has_pts = not explicit or rng.random() < .4
    if has_pts:
        secs.append(["NODE_COORD_SECTION"] + rows([(number(rng, p[0]), number(rng, p[1])) for p in pts]))
    has_dd = not has_pts and rng.random() < .4
    if has_dd:
        secs.append(["DISPLAY_DATA_SECTION"] + rows([(number(rng, p[0]), number(rng, p[1])) for p in pts]))
    if has_dem:
        secs.append(["DEMAND_SECTION"] + rows([(number(rng, q),) for q in dem]))
    if depot or rng.random() < .8:
        secs.append(["DEPOT_SECTION", " %d" % (depot + 1)] + rng.choice(([" -1"], ["-1"], [])))
    if svc:
        secs.append(["SVC_TIME_SECTION"] + ["%d %s" % (i + 1, repr(0 if i == depot else st)) for i in range(n)])
    if explicit:
        pos = {"FULL_MATRIX": lambda: [(i, j) for i in range(n) for j in range(n)],
               "LOWER_ROW": lambda: [(i, j) for i in range(n) for j in range(i)],
               "LOWER_DIAG_ROW": lambda: [(i, j) for i in range(n) for j in range(i + 1)],
               "UPPER_ROW": lambda: [(i, j) for i in range(n) for j in range(i + 1, n)],
               "UPPER_DIAG_ROW": lambda: [(i, j) for i in range(n) for j in range(i, n)],
               "LOWER_COL": lambda: [(i, j) for j in range(n) for i in range(j + 1, n)]}[fmt]()
        vals = [number(rng, M[i][j]) for i, j in pos]
        if rng.random() < .25:
            cut = rng.choice((1, 1, 2, len(vals)))
            vals, truncated = vals[:-cut], True
        style = rng.choice(("natural", "wrap", "one"))
        lines = ["EDGE_WEIGHT_SECTION"]
        if style == "one":
            lines.append(" ".join(vals))
        elif style == "wrap":
            w = rng.randint(1, 7)
            lines += [gap(rng).join(vals[i:i + w]) for i in range(0, len(vals), w)]
        else:
            cur, last = [], None
            for (i, j), v in zip(pos, vals):
                key = j if fmt == "LOWER_COL" else i
                if last is not None and key != last:
                    lines.append(" ".join(cur))
                    cur = []
                cur.append(v)
                last = key
            lines.append(" ".join(cur))
        secs.append(lines)
    if rng.random() < .5:
        rng.shuffle(secs)
    out = [k + colon + v for k, v in head]
    for s in secs:
        out += s
    if rng.random() < .7 or svc:
        out.append("EOF")
    if rng.random() < .3:
        for _ in range(3):
            out.insert(rng.randint(0, len(out) - 1), rng.choice(("", "   ")))
    text = rng.choice(("\n", "\n", "\n", "\r\n")).join(out) + rng.choice(("", "\n", "\n\n"))
    with open(path, "w", newline="") as f:
        f.write(text)

    data = {"file": text}
    tag = "%s%s n=%d depot=%d%s" % (kind, "/" + fmt if explicit else "", n, depot + 1, " rows shuffled" if shuffled_rows else "")
    o = core.call(cvrp_io.read_TSPLIB_CVRP, path)
    rec.case(text, n > 2, {"file": tag, "matrix": repr(o.value.distance_matrix)[:200]} if o.ok else None)
    key = "%s%s" % (kind, "/" + fmt if explicit else "")
    if truncated:
        rec.count("short matrices")
        if o.ok or not o.ended:
            rec.bad("accepted-short/" + key, tag + ": a matrix with too few values was accepted", data)
        return
    if not o.ok:
        rec.bad("error/%s/%s" % (key, core.where(o.exc) if o.exc else "no-end"), "%s: %s" % (tag, o.why()), data)
        return
    rec.count("files " + kind)
    P = o.value
    order = [depot] + [i for i in range(n) if i != depot]
    if P.size != n - 1:
        rec.bad("size", "%s: size %r" % (tag, P.size), data)
    D = np.asarray(P.distance_matrix)
    if D.shape != (n, n):
        rec.bad("shape/" + key, "%s: matrix of shape %r" % (tag, D.shape), data)
        return
    for a in range(n):
        for b in range(n):
            want = M[order[a]][order[b]]
            slack = 1e-9 * (1 + abs(want))
            if abs(float(D[a, b]) - want) > slack and not near(kind, pts[order[a]], pts[order[b]], D[a, b]):
                rec.bad("distance/" + key, "%s: D[%d,%d]=%r, defined as %r" % (tag, a, b, D[a, b], want), data)
                return
    same = lambda u, v: abs(u - v) < 1e-9 * (1 + abs(v))
    got = P.customer_demands
    if has_dem != (got is not None) or (has_dem and not (len(got) == n and all(same(got[a], dem[order[a]]) for a in range(n)))):
        rec.bad("demands", "%s: demands %r, expected %r" % (tag, got, [dem[i] for i in order]), data)
    if P.capacity_constraint != C:
        rec.bad("capacity", "%s: capacity %r, expected %r" % (tag, P.capacity_constraint, C), data)
    if P.edge_weight_type != kind:
        rec.bad("type", "%s: type %r" % (tag, P.edge_weight_type), data)
    if kind != "GEO":
        for have, pp, what in ((has_pts, P.coordinate_points, "points"), (has_dd, P.display_coordinate_points, "display points")):
            if have and not (pp is not None and len(pp) == n and all(same(pp[a][k], pts[order[a]][k]) for a in range(n) for k in (0, 1))):
                rec.bad(what.replace(" ", "-"), "%s: %s %r, expected %r" % (tag, what, pp, [pts[i] for i in order]), data)
    o = core.call(cvrp_io.read_TSBLIB_additional_constraints, path)
    if not o.ok:
        rec.bad("extra-error/%s" % (core.where(o.exc) if o.exc else "no-end"), "%s: %s" % (tag, o.why()), data)
        return
    if tuple(o.value) != (K, L, st):
        rec.bad("extra", "%s: vehicles, cost limit and service time %r, expected %r" % (tag, tuple(o.value), (K, L, st)), data)


def near(kind, a, b, got):
    """Rounding types: the exact value sits on the rounding edge."""
    if kind in ("EXPLICIT", "EXACT_2D"):
        return False
    h = 1e-9
    for f in (1 - h, 1 + h):
        if kind != "GEO" and expected(kind, (a[0] * f, a[1] * f), (b[0] * f, b[1] * f)) == got:
            return True
    if kind == "GEO":
        la, lo, lb, lp = geo_rad(a[0]), geo_rad(a[1]), geo_rad(b[0]), geo_rad(b[1])
        q1, q2, q3 = math.cos(lo - lp), math.cos(la - lb), math.cos(la + lb)
        v = 6378.388 * math.acos(max(-1.0, min(1.0, 0.5 * ((1.0 + q1) * q2 - (1.0 - q1) * q3)))) + 1.0
        return abs(v - round(v)) < 1e-4 and abs(v - got) <= 1.001
    return False
