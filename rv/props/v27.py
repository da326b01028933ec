"""The visualizers draw the problem, the search and the plan as they are."""
import collections
import importlib
import io
import logging
import math
import os
import re
import shutil
import subprocess
import sys
import tempfile

from .. import algs, core, inst, oracle

CHUNKS = {"quick": 64, "thorough": 960}
MIN = {"quick": 1000, "thorough": 10000}
RULE = ("drawings of random points, routes, rays and marks written by output_dot, and the drawings of whole visualizations fed with the debug "
        "output of the 7 visualized heuristics on instances of 2..14 customers; every file is parsed back and compared with the points, routes "
        "and plan it was made from. Graphviz and gifsicle are replaced by stand-ins that record the call. Non-trivial: a drawing with routes; "
        "distinct by instance, heuristic and frame")
VIS = {"ps": ("parallel_savings", "visualize_savings", "_process_savings_debug_line"),
       "si": ("cheapest_insertion", "visualize_cheapest_insertion", "_process_ci_debug_line"),
       "swp": ("sweep", "visualize_sweep", "_process_sweep_debug_line"),
       "gm": ("gillet_miller_sweep", "visualize_gillet_miller_sweep", "_process_gms_debug_line"),
       "cmt": ("cmt_2phase", "visualize_cmt", "_process_cmt_debug_line"),
       "gap": ("gapvrp", "visualize_gapvrp", "_process_gap_debug_line"),
       "lr3o": ("lr3opt", "visualize_lr3opt", "_process_lr3opt_debug_line")}
NODE = re.compile(r'^\s*n(\d+) \[(.*?)label="(\d+)" pos="(\S+?),(\S+?)!"\s*\];')
EDGE = re.compile(r"^\s*n(\d+)--n(\d+)(?: \[(.*)\])?;$")
RAYEND = re.compile(r'^\s*r(\d+) \[.*pos="(\S+?),(\S+?)!" \];')
RAY = re.compile(r"^\s*n0+--r(\d+) \[style=(\w+)\];")
POI = re.compile(r'^\s*poi(\d+) \[.*pos="(\S+?),(\S+?)!" \];')


class Drawing(object):
    def __init__(self, text):
        self.nodes, self.active, self.edges = collections.OrderedDict(), set(), collections.defaultdict(list)
        self.labels, self.ends, self.rays, self.pois, self.twice, self.title = {}, {}, {}, [], [], None
        lines = text.split("\n")
        self.closed = lines[0].startswith("graph G {") and text.rstrip().endswith("}")
        for s in lines:
            m = NODE.match(s)
            if m:
                i = int(m.group(1))
                if i in self.nodes:
                    self.twice.append(i)
                self.nodes[i] = (float(m.group(4)), float(m.group(5)))
                self.labels[i] = int(m.group(3))
                if "doublecircle" in m.group(2):
                    self.active.add(i)
                continue
            m = EDGE.match(s)
            if m:
                at = m.group(3) or ""
                c = re.search(r'color="(\w+)"', at)
                w = re.search(r'label="([^"]*)"', at)
                self.edges[c.group(1) if c else "black"].append((int(m.group(1)), int(m.group(2)), w.group(1) if w else None))
                continue
            m = RAYEND.match(s)
            if m:
                self.ends[int(m.group(1))] = (float(m.group(2)), float(m.group(3)))
                continue
            m = RAY.match(s)
            if m:
                self.rays[int(m.group(1))] = m.group(2)
                continue
            m = POI.match(s)
            if m:
                self.pois.append((float(m.group(2)), float(m.group(3))))
                continue
            if s.startswith('label="'):
                self.title = s[7:-1]


def legs(routes):
    return [(r[i - 1], r[i]) for r in routes for i in range(1, len(r))]


def und(es):
    return sorted(tuple(sorted(e[:2])) for e in es)


def near(a, b):
    return abs(a[0] - b[0]) <= 2e-6 and abs(a[1] - b[1]) <= 2e-6


def square(pts, extra, lo=-5.0, hi=5.0):
    """Where the points belong: moved and scaled alike in both directions."""
    xs, ys = [p[0] for p in pts + extra], [p[1] for p in pts + extra]
    span = max(max(xs) - min(xs), max(ys) - min(ys)) or 1.0
    return [((p[0] - min(xs)) * (hi - lo) / span + lo, (p[1] - min(ys)) * (hi - lo) / span + lo) for p in pts]


def nodes_ok(rec, d, pts, tag, data):
    if not d.closed:
        rec.bad("form", "%s: not a closed graph" % tag, data)
    if d.twice or sorted(d.nodes) != list(range(len(pts))):
        rec.bad("nodes", "%s: nodes %s drawn (twice %s) of %d" % (tag, sorted(d.nodes), d.twice, len(pts)), data)
        return False
    for i, p in enumerate(pts):
        if not near(d.nodes[i], p) or d.labels[i] != i:
            rec.bad("place", "%s: node %d labelled %r drawn at %s, belongs at %s" % (tag, i, d.labels[i], d.nodes[i], p), data)
            return False
    return True


def chunk(rng, idx, tier, rec):
    for _ in range(25):
        dot(rng, rec)
        normalize(rng, rec)
    old = os.getcwd()
    tmp = tempfile.mkdtemp(prefix="rv27")
    try:
        os.chdir(tmp)
        for _ in range(2):
            for a in VIS:
                whole(rng, rec, a, tmp)
    finally:
        os.chdir(old)
        shutil.rmtree(tmp, ignore_errors=True)


def dot(rng, rec):
    from verypy.visualizers.export_dot import output_dot
    n = rng.choice((1, 2, 5, 9, 10, 11, 30, 99, 100, 101))
    pts = square([(rng.uniform(-50, 80), rng.uniform(-9, 30)) for _ in range(n + 1)], [])

    def routes():
        c = rng.sample(range(1, n + 1), rng.randint(1, n))
        k = rng.randint(1, len(c))
        return [[0] + c[i::k] + [0] for i in range(k)]
    rays = [rng.uniform(-7, 7) for _ in range(rng.randint(0, 5))] if rng.random() < .6 else None
    args = dict(active_point_idxs=rng.sample(range(1, n + 1), rng.randint(0, min(3, n))) if rng.random() < .6 else None,
                rays=rays, active_ray_idxs=rng.sample(range(len(rays)), rng.randint(0, len(rays))) if rays else [],
                points_of_interest=[(rng.uniform(-5, 5), rng.uniform(-5, 5)) for _ in range(rng.randint(0, 4))],
                gray_routes=routes() if rng.random() < .5 else None, red_routes=routes() if rng.random() < .5 else None,
                black_routes=routes() if rng.random() < .7 else None, title=rng.choice((None, "START", "x=1, y=2")))
    D = inst.matrix([(x * 10, y * 10) for x, y in pts], rng.random() < .5) if rng.random() < .4 else None
    f = io.StringIO()
    o = core.call(output_dot, f, pts, D=D, **args)
    tag = "output_dot %d points" % (n + 1)
    data = dict({k: repr(v) for k, v in args.items()}, points=pts)
    if not o.ok:
        rec.bad("error/" + core.where(o.exc), "%s: %s" % (tag, o.why()), data)
        return
    d = Drawing(f.getvalue())
    rec.case(("dot", repr(args)), bool(args["black_routes"] or args["gray_routes"] or args["red_routes"]),
             {"drawing": tag, "edges": {k: len(v) for k, v in d.edges.items()}})
    if not nodes_ok(rec, d, pts, tag, data):
        return
    if d.active != set(args["active_point_idxs"] or []):
        rec.bad("active", "%s: active nodes %s drawn, given %s" % (tag, d.active, args["active_point_idxs"]), data)
    if (d.title or None) != args["title"]:
        rec.bad("title", "%s: title %r, given %r" % (tag, d.title, args["title"]), data)
    for color, key in (("gray", "gray_routes"), ("red", "red_routes"), ("black", "black_routes")):
        if und(d.edges[color]) != und(legs(args[key] or [])):
            rec.bad("edges", "%s: %s edges %s for routes %s" % (tag, color, d.edges[color], args[key]), data)
        for a, b, w in d.edges[color]:
            if (w is None) != (D is None) or (w is not None and w != "%.1f" % D[a, b]):
                rec.bad("length", "%s: edge %d-%d labelled %r" % (tag, a, b, w), data)
    if len(d.pois) != len(args["points_of_interest"]) or any(not near(p, q) for p, q in zip(d.pois, args["points_of_interest"])):
        rec.bad("marks", "%s: marks %s, given %s" % (tag, d.pois, args["points_of_interest"]), data)
    rays_ok(rec, d, pts, rays or [], args["active_ray_idxs"], tag, data)


def rays_ok(rec, d, pts, rays, active, tag, data):
    if sorted(d.rays) != list(range(len(rays))) or sorted(d.ends) != sorted(d.rays):
        rec.bad("rays", "%s: rays %s of %d" % (tag, sorted(d.rays), len(rays)), data)
        return
    xs, ys = [p[0] for p in pts], [p[1] for p in pts]
    box = (min(xs) - .2, max(xs) + .2, min(ys) - .2, max(ys) + .2)
    for i, alpha in enumerate(rays):
        if (d.rays[i] == "dashed") != (i in active):
            rec.bad("rays", "%s: ray %d drawn %s" % (tag, i, d.rays[i]), data)
        dx, dy = d.ends[i][0] - pts[0][0], d.ends[i][1] - pts[0][1]
        ln = math.hypot(dx, dy)
        if ln < .1 or abs(dx / ln - math.cos(alpha)) > 1e-4 or abs(dy / ln - math.sin(alpha)) > 1e-4:
            rec.bad("raydirection", "%s: ray %d at %r ends at %s" % (tag, i, alpha, d.ends[i]), data)
        x, y = d.ends[i]
        edge = min(abs(x - box[0]), abs(x - box[1]), abs(y - box[2]), abs(y - box[3]))
        if edge > 1e-4 or x < box[0] - 1e-4 or x > box[1] + 1e-4 or y < box[2] - 1e-4 or y > box[3] + 1e-4:
            rec.bad("rayclip", "%s: ray %d ends at %s, not on the frame %s" % (tag, i, d.ends[i], box), data)


def normalize(rng, rec):
    from verypy.visualizers.shared_visualize import get_normalization_params, normalize_to_rect
    n = rng.randint(1, 12)
    pts = inst.layout(rng, rng.choice(inst.LAYOUTS), n)
    pts = [tuple(map(float, p)) for p in pts]
    if rng.random() < .08:
        pts = [pts[0]] * len(pts)
    lo, hi = sorted((rng.uniform(-20, 20), rng.uniform(-20, 20)))
    keep = rng.random() < .6
    data = {"points": pts, "range": (lo, hi), "keep": keep}
    o = core.call(lambda: normalize_to_rect(pts, get_normalization_params(pts, (hi, lo) if rng.random() < .3 else (lo, hi), keep)))
    tag = "normalize %s to %s keep=%s" % (pts[:3], (lo, hi), keep)
    if not o.ok:
        rec.bad("error/" + core.where(o.exc), "%s: %s" % (tag, o.why()), data)
        return
    got = o.value
    rec.case(("norm", tag), len(set(pts)) > 1)
    if keep:
        want = square(pts, [], lo, hi)
    else:
        want = list(zip(*[[(v - min(c)) * (hi - lo) / ((max(c) - min(c)) or 1.0) + lo for v in c] for c in zip(*pts)]))
    if len(got) != len(pts) or any(abs(a - b) > 1e-6 * (1 + abs(b)) for p, q in zip(got, want) for a, b in zip(p, q)):
        rec.bad("normalize", "%s gives %s, belongs at %s" % (tag, got, want), data)
    if any(v < lo - 1e-6 or v > hi + 1e-6 for p in got for v in p):
        rec.bad("outside", "%s gives %s outside the range" % (tag, got), data)


def log_of(f):
    """What the heuristic logs at the most verbose level, as its command line prints it."""
    out = io.StringIO()
    h = logging.StreamHandler(out)
    names = {k: logging.getLevelName(k) for k in range(1, 10)}
    for k in range(1, 10):
        logging.addLevelName(k, "DEBUG")
    h.setFormatter(logging.Formatter("%(levelname)s:%(message)s"))
    root = logging.getLogger()
    old, hs = root.level, root.handlers[:]
    root.handlers[:] = [h]
    root.setLevel(logging.DEBUG - 3)
    try:
        o = core.call(f)
    finally:
        root.setLevel(old)
        root.handlers[:] = hs
        for k, v in names.items():
            logging.addLevelName(k, v)
    return o, out.getvalue()


def whole(rng, rec, a, tmp):
    from verypy.visualizers import shared_visualize as sv
    I = inst.make(rng, nmin=2, nmax=6 if a in ("gap", "lr3o") else 14, cons=rng.choice(("C", "C", "CL")), service=False)
    if sum(I.d) <= 0:
        I.d[1] = 1
    if algs.unsupported(a, I, False):
        return
    f = algs.get(a)
    o, text = log_of(lambda: f(list(I.pts), I.Dc.copy(), list(I.d), I.C, I.L, I.st, I.wtt, True, False))
    if not o.ok or not o.value:
        rec.count("run failed (judged by V01)")
        return
    sol = [int(x) for x in o.value]
    name, mod, cbn = VIS[a]
    # a fresh module, as each visualization is a process of its own
    for m in [m for m in sys.modules if m.startswith("verypy.visualizers.visualize_")]:
        del sys.modules[m]
    cb = getattr(importlib.import_module("verypy.visualizers." + mod), cbn)
    pts = [tuple(map(float, p)) for p in I.pts]
    out = "POINTS: %r\n%s\nSOLUTION: %r\n" % (pts, text, sol)
    keep, anim = rng.random() < .7, rng.random() < .6
    folder = os.path.join(tmp, "output", name)
    shutil.rmtree(os.path.join(tmp, "output"), ignore_errors=True)
    os.makedirs(folder)
    decoy = os.path.join(folder, "mine.dot")
    open(decoy, "w").write("keep me")
    calls = []
    real = subprocess.call

    def fake(args, *x, **k):
        calls.append(args)
        if isinstance(args, list) and "-o" in args:
            src, dst = args[-1], args[args.index("-o") + 1]
            open(dst, "w").write(open(src).read())
        return 0
    subprocess.call = fake
    try:
        r = core.call(sv.visualize_procedure, out, name, "x", make_anim=anim, keep_files=keep, process_debug_line_callback=cb)
    finally:
        subprocess.call = real
    tag = "visualize %s n=%d anim=%s keep=%s" % (name, I.N - 1, anim, keep)
    data = dict(I.describe(), solution=sol, heuristic=name)
    if not r.ok:
        rec.bad("error/%s" % (core.where(r.exc) if r.exc else "no-end"), "%s: %s" % (tag, r.why()), data)
        return
    if not os.path.exists(decoy):
        rec.bad("removed", "%s removed a file it had not made" % tag, data)
    else:
        os.remove(decoy)
    files = sorted(os.listdir(folder))
    if anim and not keep:
        if files:
            rec.bad("left", "%s left %s" % (tag, files[:5]), data)
        rec.case(("clean", tag, repr(pts)), False)
        frames = [c for c in calls if isinstance(c, list)]
        if not frames:
            rec.bad("noframes", "%s converted nothing" % tag, data)
        return
    extra = []
    for line in out.split("\n"):
        if "points = " in line:
            extra += [tuple(p) for p in eval(line.split("=")[-1])]
    want = square(pts, extra)
    dots = [x for x in files if x.endswith(".dot")]
    drawn = {os.path.basename(c[-1]) for c in calls if isinstance(c, list)}
    if drawn != set(dots):
        rec.bad("unconverted", "%s: drawings %s, converted %s" % (tag, dots, sorted(drawn)), data)
    finals = 0
    for x in dots:
        d = Drawing(open(os.path.join(folder, x)).read())
        t = "%s %s" % (tag, x)
        rec.case((t, repr(pts)), bool(d.edges), {"drawing": t, "edges": {k: len(v) for k, v in d.edges.items()}})
        if not nodes_ok(rec, d, want, t, data):
            return
        if x.endswith("_final.dot"):
            finals += 1
            if und(d.edges["black"]) != und(legs([[0] + q + [0] for q in oracle.routes_of(sol)])) or d.edges["gray"] or d.edges["red"]:
                rec.bad("final", "%s draws %s for the plan %s" % (t, dict(d.edges), sol), data)
        elif x.endswith("_initial.dot"):
            if d.edges:
                rec.bad("initial", "%s draws %s" % (t, dict(d.edges)), data)
        else:
            rec.count("steps " + name)
            deg = collections.Counter(v for e in d.edges["black"] for v in e[:2] if v)
            if any(v != 2 for v in deg.values()):
                rec.bad("step", "%s: completed routes visit %s" % (t, dict(deg)), data)
            if a == "ps":
                red = collections.Counter(v for e in d.edges["red"] for v in e[:2] if v)
                if any(v != 2 for v in red.values()) or set(red) & set(deg):
                    rec.bad("step", "%s: rejected route %s, completed routes %s" % (t, d.edges["red"], d.edges["black"]), data)
    if finals != (5 if anim else 1):
        rec.bad("frames", "%s has %d frames of the plan" % (tag, finals), data)
    rec.count("visualizations " + name)
