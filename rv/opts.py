"""The documented options of the heuristics: one row per combination, each with a
thin caller. A row is (name, heuristic, f(I, min_k, rng) -> plan, flags)."""
import numpy as np


def _imp(mod):
    import importlib
    return importlib.import_module("verypy.classic_heuristics." + mod)


def rows():
    out = []

    def add(name, f, **fl):
        out.append((name, name.split()[0], f, fl))

    def d_of(I):
        return list(I.d)

    def pts(I):
        return [tuple(p) for p in I.pts]

    # ----- insertion
    def farthest_first(D, unrouted, rd):
        if rd is None:
            s = sorted((float(D[0, i]), (i,)) for i in unrouted)
            return s
    for k in (1, 2, 3, 7):
        for how in ("farthest", "closest", "strain", "call"):
            def f(I, m, rng, k=k, how=how):
                h = farthest_first if how == "call" else how
                return _imp("cheapest_insertion").cheapest_insertion_init(
                    I.Dc.copy(), d_of(I), I.C, I.L, m, k, h)
            add("ci routes=%d seeds=%s" % (k, how), f)
    for lm, mm in ((2.0, 1.0), (0.0, 1.0), (1.5, 0.5), (0.0, 0.0)):
        def f(I, m, rng, lm=lm, mm=mm):
            ci = _imp("cheapest_insertion")
            return ci.cheapest_insertion_init(
                I.Dc.copy(), d_of(I), I.C, I.L, m,
                insertion_strain_callback=lambda D, i, u, j: ci.parametrized_insertion_criteria(D, i, u, j, lm, mm))
        add("ci strain=%g,%g" % (lm, mm), f)
    for crit in ("proximity_ranking", "min_strain", "clarke_wright", "gaskell", "augumented_min_strain", "all"):
        def f(I, m, rng, crit=crit):
            return _imp("mole_jameson_insertion").mole_jameson_insertion_init(
                I.Dc.copy(), d_of(I), I.C, I.L, m, strain_criterion=crit)
        add("mj %s" % crit, f)
    # ----- cmt
    for seed in ("farthest", "closest", "biggest", "first"):
        for most in (True, False):
            for rep in (None, 1, 2, "K"):
                for retries in (None, 1, 3):
                    def f(I, m, rng, seed=seed, most=most, rep=rep, retries=retries):
                        import random
                        random.seed(rng.random())
                        return _imp("cmt_2phase").cmt_2phase_init(
                            I.Dc.copy(), d_of(I), I.C, I.L, m, phase1_seed_selection_method=seed,
                            phase2_choose_most_associated_route=most,
                            phase2_repeated_association_with_n_routes=rep, number_of_randomized_retries=retries)
                    add("cmt seeds=%s most=%s rep=%s retries=%s" % (seed, most, rep, retries), f)
    for la, mu in ((1.0, 1.0), (0.0, 0.0), (3.0, 2.0), (0.5, 0.5)):
        def f(I, m, rng, la=la, mu=mu):
            return _imp("cmt_2phase").cmt_2phase_init(I.Dc.copy(), d_of(I), I.C, I.L, m,
                                                      lambda_multiplier=la, mu_multiplier=mu)
        add("cmt lambda=%g mu=%g" % (la, mu), f)
    # ----- savings
    for s in ("lambda", "pi", "both"):
        def f(I, m, rng, s=s):
            return _imp("gaskell_savings").gaskell_savings_init(I.Dc.copy(), d_of(I), I.C, I.L, m, s)
        add("gps %s" % s, f)
    for s in ("M4", "M1", [(1.0, 0.0)], [(0.3, 2.0), (2.0, 0.3)]):
        for o3 in (True, False):
            def f(I, m, rng, s=s, o3=o3):
                return _imp("paessens_savings").paessens_savings_init(I.Dc.copy(), d_of(I), I.C, I.L, m, s, o3)
            add("gpl %s 3opt=%s" % (s, o3), f)
    for lp in ("auto", 1, 3, 1000):
        def f(I, m, rng, lp=lp):
            return _imp("suppression_savings").suppression_savings_init(I.Dc.copy(), d_of(I), I.C, I.L, m, lp)
        add("ims Lprime=%s" % lp, f, slow=lp == 1000)
    for how in ("farthest", "closest", "first", "last", "savings"):
        def f(I, m, rng, how=how):
            return _imp("sequential_savings").sequential_savings_init(I.Dc.copy(), d_of(I), I.C, I.L, m, how)
        add("ss seeds=%s" % how, f)
    # ----- nearest neighbour
    for k in (1, 2, 3, 6):
        for how in ("closest", "farthest", "nearest"):
            for end in (True, False):
                def f(I, m, rng, k=k, how=how, end=end):
                    return _imp("nearest_neighbor").nearest_neighbor_init(
                        I.Dc.copy(), d_of(I), I.C, I.L, k, how, end)
                add("sn routes=%d seeds=%s end=%s" % (k, how, end), f, no_min_k=True)
    for one in (True, False):
        for every in (True, False):
            for grp in ("balanced", "max_demand", "min_penalty"):
                def f(I, m, rng, one=one, every=every, grp=grp):
                    return _imp("tyagi_nearest_neighbor").tyagi_init(
                        I.Dc.copy(), d_of(I), I.C, I.L, one, every, grp)
                add("ty large=%s all=%s %s" % (one, every, grp), f, no_min_k=True)
    # ----- sweeps
    for how in (0, -1, -2, 1, "last"):
        for di in ("cw", "ccw", "both"):
            for tsp in (None, "2opt", "3opt"):
                def f(I, m, rng, how=how, di=di, tsp=tsp):
                    import verypy.tsp_solvers as t
                    fs = {None: None, "2opt": t.tsp_solver_ropt.solve_tsp_2opt,
                          "3opt": t.tsp_solver_ropt.solve_tsp_3opt}
                    return _imp("sweep").sweep_init(
                        pts(I), I.Dc.copy(), d_of(I), I.C, I.L, m, di, I.N - 1 if how == "last" else how, fs[tsp])
                add("swp seed=%s %s %s" % (how, di, tsp), f)
            def f(I, m, rng, how=how, di=di):
                return _imp("gillet_miller_sweep").gillet_miller_init(
                    pts(I), I.Dc.copy(), d_of(I), I.C, I.L, m, di, I.N - 1 if how == "last" else how)
            add("gm seed=%s %s" % (how, di), f)
    for how in ("LEAST_DENSE", "BEST_OF_FOUR", "BEST_ALTERNATIVE"):
        for di in ("cw", "ccw", "both"):
            for conv in (True, False):
                def f(I, m, rng, how=how, di=di, conv=conv):
                    w = _imp("wren_holliday_sweep")
                    return w.wren_holliday_init(pts(I), I.Dc.copy(), d_of(I), I.C, I.L, m, getattr(w, how), di, conv)
                add("wh %s %s conv=%s" % (how, di, conv), f)
    # ----- route first
    for gen in ("2opt", "3opt", "nn"):
        for own in ("2opt", "3opt"):
            def f(I, m, rng, gen=gen, own=own):
                import verypy.tsp_solvers as t
                r = t.tsp_solver_ropt
                fs = {"2opt": r.solve_tsp_2opt, "3opt": r.solve_tsp_3opt}
                return _imp("rfcs").route_first_cluster_second_init(
                    I.Dc.copy(), d_of(I), I.C, I.L, m, fs.get(gen, r.solve_tsp_3opt), fs[own], fs[own])
            add("rfcs gen=%s own=%s" % (gen, own), f)
    # ----- matching
    for w in (0.0, -1000.0, -1e6):
        for tsp in (None, "3opt"):
            def f(I, m, rng, w=w, tsp=tsp):
                kw = {}
                if tsp:
                    import verypy.tsp_solvers.tsp_solver_ropt as r
                    kw["solve_tsp"] = r.solve_tsp_3opt
                return _imp("matchingvrp").mbsa_init(I.Dc.copy(), d_of(I), I.C, I.L, m, W=w, **kw)
            add("mbsa W=%g tsp=%s" % (w, tsp), f)
    # ----- Lagrangean 3-opt*
    for lc, ll in ((None, None), (0.05, 0.05), (0.05, None), (None, 1.0), (10.0, 10.0)):
        for ini in ("tsp", "random"):
            for post in (True, False):
                def f(I, m, rng, lc=lc, ll=ll, ini=ini, post=post):
                    import random
                    random.seed(rng.random())
                    l = _imp("lr3opt")
                    return l.lr3opt_init(I.Dc.copy(), d_of(I), I.C, I.L, lc, ll,
                                         l._init_with_random if ini == "random" else l._init_with_tsp, post)
                add("lr3o l=%s,%s %s post=%s" % (lc, ll, ini, post), f, no_min_k=True)
    # ----- petal
    for rel in (True, False):
        for disc in (False, True, 1, 2, "auto"):
            for req, mn in ((None, None), (1, None), (3, None), (None, 2)):
                def f(I, m, rng, rel=rel, disc=disc, req=req, mn=mn):
                    return _imp("petalvrp").petal_init(
                        pts(I), I.Dc.copy(), d_of(I), I.C, I.L, None, m, rel, req, mn,
                        can_discard_multiple_customers=disc)
                add("ptl relax=%s discard=%s req=%s min=%s" % (rel, disc, req, mn), f)
    for ratio in (0.0, 0.5, 1.0):
        def f(I, m, rng, ratio=ratio):
            return _imp("petalvrp").petal_init(pts(I), I.Dc.copy(), d_of(I), I.C, I.L, None, m,
                                               restricted_route_ratio=ratio)
        add("ptl ratio=%g" % ratio, f)
    # ----- assignment
    for seed in ("cones", "kmeans", "large_demands", "ends_of_thoroughfares"):
        for opt in (True, False):
            for ada in (True, False):
                for inc in (True, False):
                    def f(I, m, rng, seed=seed, opt=opt, ada=ada, inc=inc):
                        return _imp("gapvrp").gap_init(
                            pts(I), I.Dc.copy(), d_of(I), I.C, I.L, I.st, None, m, opt, seed,
                            use_adaptive_L_constraint_weights=ada, increase_K_on_failure=inc)
                    add("gap seeds=%s best=%s adapt=%s inc=%s" % (seed, opt, ada, inc), f)
    return out
