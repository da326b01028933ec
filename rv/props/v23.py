"""Generated problems and made-up coordinates are well formed."""
import math
import random

import numpy as np

from .. import core, lsgen

CHUNKS = {"quick": 32, "thorough": 320}
MIN = {"quick": 1000, "thorough": 10000}
RULE = ("random and regular generated problems over sizes 1..60, capacities, demand means and deviations (also far above the capacity), radii "
        "and generator states, recomputed from their definition; made-up coordinates for matrices of 2..14 nodes of 9 kinds, called twice "
        "with other uses of the random generators in between. Non-trivial: at least 2 customers; distinct by content")


def chunk(rng, idx, tier, rec):
    from verypy import cvrp_io, cvrp_ops
    for _ in range(300):
        n = rng.choice((1, 2, 3, 5, 8, 13, 20, 60))
        C = rng.choice((1, 5, 50, 100, 12.5))
        mu, sd = rng.choice((0, 1, 20, 200)), rng.choice((0, 5, 50))
        regular = rng.random() < .4
        R = rng.choice((200.0, 50.0, 1000.0))
        random.seed(rng.random())
        tag = "generate_CVRP(%d, %r, %r, %r, regular=%s, R=%r)" % (n, C, mu, sd, regular, R)
        o = core.call(cvrp_io.generate_CVRP, n, C, mu, sd, regular, R)
        if not o.ok:
            rec.bad("error/generate", tag + ": " + o.why())
            continue
        P = o.value
        pts, d, D = P.coordinate_points, P.customer_demands, np.asarray(P.distance_matrix)
        rec.case((tag, repr(pts)), n > 1, {"call": tag})
        rec.count("problems regular" if regular else "problems random")
        if P.size != n or len(pts) != n + 1 or len(d) != n + 1 or D.shape != (n + 1, n + 1) or P.capacity_constraint != C:
            rec.bad("size", "%s: N=%r, %d points, %d demands, matrix %s, C=%r" % (tag, P.size, len(pts), len(d), D.shape, P.capacity_constraint))
            continue
        if tuple(pts[0]) != (0, 0) or d[0] != 0:
            rec.bad("depot", "%s: depot at %r with demand %r" % (tag, pts[0], d[0]))
        if any(not (min(1, C) <= q <= C) for q in d[1:]):
            rec.bad("demand", "%s: demands %r" % (tag, d))
        for i in range(n + 1):
            for j in range(n + 1):
                e = math.hypot(pts[i][0] - pts[j][0], pts[i][1] - pts[j][1])
                if D[i, j] not in (math.floor(e + .5), math.floor(e * (1 + 1e-12) + .5), math.floor(e * (1 - 1e-12) + .5)):
                    rec.bad("distance", "%s: D[%d,%d]=%r for %r" % (tag, i, j, D[i, j], e))
        if regular:
            ang = sorted(math.atan2(y, x) % (2 * math.pi) for x, y in pts[1:])
            gaps = [(b - a) % (2 * math.pi) for a, b in zip(ang, ang[1:] + ang[:1])]
            if any(abs(math.hypot(x, y) - R) > 1e-6 * R for x, y in pts[1:]):
                rec.bad("radius", "%s: points %r" % (tag, pts))
            if n > 1 and any(abs(g - 2 * math.pi / n) > 1e-6 for g in gaps):
                rec.bad("even", "%s: gaps %r" % (tag, gaps))
    for _ in range(6):
        n = rng.randint(1, 13)
        D, kind = lsgen.matrix(rng, n)
        keep = D.copy()
        outs = []
        for _ in range(2):
            random.seed(rng.random())
            np.random.seed(rng.randrange(2 ** 31))
            np.random.random(rng.randrange(9))
            o = core.call(cvrp_ops.generate_missing_coordinates, D)
            if not o.ok:
                rec.bad("error/coordinates", "%d nodes (%s): %s" % (n + 1, kind, o.why()), {"D": D.tolist()})
                break
            outs.append(o.value)
        if len(outs) < 2:
            continue
        rec.case(("mds", D.tobytes()), n > 1)
        rec.count("made-up coordinates")
        (a, ta), (b, tb) = outs
        if len(a) != n + 1 or not np.all(np.isfinite(np.asarray(a, dtype=float))) or np.asarray(a).shape != (n + 1, 2):
            rec.bad("coordinates", "%d nodes (%s): coordinates %r" % (n + 1, kind, a), {"D": D.tolist()})
        if not np.array_equal(np.asarray(a), np.asarray(b)) or ta != tb:
            rec.bad("coordinates-differ", "%d nodes (%s): two calls differ" % (n + 1, kind), {"D": D.tolist()})
        if not np.array_equal(D, keep):
            rec.bad("coordinates-modified", "the matrix was changed", {"D": keep.tolist()})
        if ta != ("EUC_2D" if np.all(np.mod(keep, 1) == 0) else "EXACT_2D"):
            rec.bad("coordinates-type", "type %r for a %s matrix" % (ta, kind), {"D": keep.tolist()})
