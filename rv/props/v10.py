"""TSP solvers: closed tours over the given nodes, true cost, optimal where promised."""
import itertools

from .. import core, fake, lsgen

fake.install()
CHUNKS = {"quick": 64, "thorough": 640}
MIN = {"quick": 2000, "thorough": 20000}
RULE = ("node selections of 2..12 nodes (with or without the depot, any order, already closed or not, whole matrix or a part of it) over 9 "
        "kinds of symmetric matrices; all TSP solvers of the library, the external ones through stand-in executables that read the files "
        "the library writes. Judged by recomputation, by a Held-Karp optimum and by the built 2-opt/3-opt neighbourhoods. "
        "Non-trivial: at least 4 nodes; distinct by solver, matrix and selection")
ASSUMPTIONS = ["LKH and ACOTSP are not available here: their wrappers run against stand-ins that follow the documented file formats",
               "the exact solver's relative gap (1e-4) is granted"]


def held_karp(D, nodes):
    n = len(nodes)
    if n < 2:
        return 0.0
    m = [[float(D[a, b]) for b in nodes] for a in nodes]
    best = {(1 << i, i): m[0][i] for i in range(1, n)}
    for size in range(2, n):
        for S in itertools.combinations(range(1, n), size):
            bits = sum(1 << i for i in S)
            for j in S:
                pb = bits ^ (1 << j)
                best[bits, j] = min(best[pb, k] + m[k][j] for k in S if k != j)
    full = sum(1 << i for i in range(1, n))
    return min(best[full, j] + m[j][0] for j in range(1, n))


def solvers():
    from verypy.tsp_solvers import tsp_solver_acotsp as aco
    from verypy.tsp_solvers import tsp_solver_fast as fast
    from verypy.tsp_solvers import tsp_solver_gurobi as gur
    from verypy.tsp_solvers import tsp_solver_lkh as lkh
    from verypy.tsp_solvers import tsp_solver_ropt as ropt
    return {"ropt": ropt.solve_tsp_ropt, "2opt": ropt.solve_tsp_2opt, "3opt": ropt.solve_tsp_3opt,
            "ropt_shuffled": lambda D, s: ropt.solve_tsp_ropt(D, s, do_shuffle=True),
            "gurobi": gur.solve_tsp_gurobi, "fast": fast.solve_tsp_fast, "lkh": lkh.solve_tsp_lkh, "acotsp": aco.solve_tsp_acotsp,
            "acotsp_ants": lambda D, s: aco.solve_tsp_acotsp(D, s, use_ants=True)}


def chunk(rng, idx, tier, rec):
    sol = solvers()
    for rep in range(80):
        n = rng.choice((1, 2, 3, 4, 5, 6, 7, 8, 9, 10))
        D, kind = lsgen.matrix(rng, n)
        k = rng.randint(2, n + 1)
        nodes = rng.sample(range(n + 1), k)
        if rng.random() < .6 and 0 in nodes:
            nodes.remove(0)
            nodes.insert(0, 0)
        opt = held_karp(D, nodes) if k <= 9 else None
        for name, f in sol.items():
            external = name in ("lkh", "acotsp", "acotsp_ants")
            if (external or name == "fast") and rep % 3:
                continue
            closed = not external and rng.random() < .3
            one(rec, name, f, D, nodes, closed, opt, external, kind)
    for _ in range(2):          # the fast solver hands larger tours to LKH
        n = rng.randint(20, 24)
        D, kind = lsgen.matrix(rng, n)
        one(rec, "fast", sol["fast"], D, list(range(n + 1)), False, None, True, kind)


def one(rec, name, f, D, nodes, closed, opt, external, kind):
    given = list(nodes) + ([nodes[0]] if closed else [])
    tag = "%s over %s (%s)" % (name, given, kind)
    data = {"solver": name, "nodes": given, "D": D.tolist()}
    o = core.call(f, D, list(given), _limit=100000000)
    rec.case((name, tuple(given), D.tobytes()), len(nodes) > 3, {"solver": tag, "answer": repr(o.value)})
    if not o.ok:
        rec.bad("error/%s/%s" % (name, core.where(o.exc) if o.exc else "no-end"), tag + ": " + o.why(), data)
        return
    rec.count("tours " + name)
    try:
        tour, cost = o.value
        tour = [int(x) for x in tour]
    except Exception:
        rec.bad("shape/" + name, "%s returned %r" % (tag, o.value), data)
        return
    if len(tour) < 2 or tour[0] != tour[-1] or sorted(tour[:-1]) != sorted(nodes):
        rec.bad("tour/" + name, "%s -> %s is not a closed tour over the nodes" % (tag, tour), data)
        return
    if not external and tour[0] != nodes[0]:
        rec.bad("start/" + name, "%s -> %s does not start at the first node" % (tag, tour), data)
    true = float(lsgen.cost(tour, D))
    eps = lsgen.tol(D)
    if name in ("lkh", "fast") and D.dtype.kind == "f":
        eps += len(tour) / 1000.0
    if name == "gurobi" or name == "fast":
        eps += 1e-5 * (1 + true)
    if abs(true - cost) > eps:
        rec.bad("cost/" + name, "%s -> %s reported at %r, true %r" % (tag, tour, cost, true), data)
    eps = lsgen.tol(D)
    order = float(lsgen.cost(list(nodes) + [nodes[0]], D))
    if name in ("ropt", "2opt", "3opt") and true > order + eps:
        rec.bad("worse/" + name, "%s -> %s costs %r, the given order %r" % (tag, tour, true, order), data)
    if opt is not None:
        if true < opt - eps:
            raise RuntimeError("oracle: tour %r below optimum %r" % (true, opt))
        if name == "gurobi" and true > opt + eps + 1.01e-4 * opt:
            rec.bad("notoptimal/" + name, "%s -> %s costs %r, optimum %r" % (tag, tour, true, opt), data)
    nbs = {"2opt": (lsgen.nb_2opt,), "3opt": (lsgen.nb_3opt,), "ropt": (lsgen.nb_3opt,), "ropt_shuffled": (lsgen.nb_3opt,)}.get(name, ())
    for nb in nbs:
        for q in nb(tour):
            if lsgen.cost(q, D) < true - 10 * eps:
                rec.bad("notlocal/" + name, "%s -> %s improves to %s" % (tag, tour, q), data)
                return
