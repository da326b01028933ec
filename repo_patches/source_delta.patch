From eadf0f4353246f52a1f9cd4636e2afe585077c03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:13:27 +0000
Subject: [PATCH 001/108] fix: nearest neighbor lists lost a customer when
 other nodes share its location

---
 verypy/classic_heuristics/nearest_neighbor.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/verypy/classic_heuristics/nearest_neighbor.py b/verypy/classic_heuristics/nearest_neighbor.py
index 5392fbf..39a2ae3 100644
--- a/verypy/classic_heuristics/nearest_neighbor.py
+++ b/verypy/classic_heuristics/nearest_neighbor.py
@@ -164,9 +164,11 @@ def nearest_neighbor_init(D, d, C, L=None,
     N = len(D)
     node_nearest_neighbors = [None]*N
     for i in range(N):
-        node_nearest_neighbors[i] = _PeekQueue( sorted(enumerate(D[i][:]),
-                                                        key=itemgetter(1)) )
-        node_nearest_neighbors[i].popleft() # pop reference to self
+        # leave out the reference to self (it is not necessarily the first one
+        #  if there are other nodes at the same location)
+        node_nearest_neighbors[i] = _PeekQueue( sorted(
+            ((j,D_ij) for j,D_ij in enumerate(D[i][:]) if j!=i),
+            key=itemgetter(1)) )
         
     # bookkeeping on the nodes that we have already served
     served = [False]*N
-- 
2.43.0


From ca0cf9bc797e1d86964cec0dee9b838abc32865e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:13:49 +0000
Subject: [PATCH 002/108] fix: MBSA crashed when all customers were merged to a
 single route

---
 verypy/classic_heuristics/matchingvrp.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/verypy/classic_heuristics/matchingvrp.py b/verypy/classic_heuristics/matchingvrp.py
index 1116b11..ec453c4 100644
--- a/verypy/classic_heuristics/matchingvrp.py
+++ b/verypy/classic_heuristics/matchingvrp.py
@@ -290,6 +290,8 @@ def mbsa_init(D, d, C, L, minimize_K=False, W=0.0, solve_tsp=default_solve_tsp,
         while True:
             ## Step 1: Evaluate the weights and solve the weighted matching prolbem
             
+            if not savings:
+                break # only one route left, no more merges to consider
             w_ij,x_ij_keys = zip(*savings)
             valid_matchings = any( w for w in w_ij if w!=W )
             if valid_matchings==0:
-- 
2.43.0


From 6b3dc466b22df622336a1a1a0645394a19b639bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:13:49 +0000
Subject: [PATCH 003/108] fix: MBSA looped forever when the best merge had a
 negative saving

---
 verypy/classic_heuristics/matchingvrp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/verypy/classic_heuristics/matchingvrp.py b/verypy/classic_heuristics/matchingvrp.py
index ec453c4..98cf8c3 100644
--- a/verypy/classic_heuristics/matchingvrp.py
+++ b/verypy/classic_heuristics/matchingvrp.py
@@ -310,7 +310,7 @@ def mbsa_init(D, d, C, L, minimize_K=False, W=0.0, solve_tsp=default_solve_tsp,
                 break
             
             if ignore_negative_savings and best_savings<0:
-                continue # do not allow merges that would make the solution worse
+                break    # do not allow merges that would make the solution worse
                          # (even if it would mean fewer routes)
     
             if __debug__:
-- 
2.43.0


From 591fee3eea998140597cfc1b46cacab9c53b8234 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:13:49 +0000
Subject: [PATCH 004/108] fix: Holmes-Parker suppression returned no solution
 for one customer

---
 verypy/classic_heuristics/suppression_savings.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/verypy/classic_heuristics/suppression_savings.py b/verypy/classic_heuristics/suppression_savings.py
index f69ff7a..a252244 100644
--- a/verypy/classic_heuristics/suppression_savings.py
+++ b/verypy/classic_heuristics/suppression_savings.py
@@ -77,6 +77,9 @@ def supression_savings_function(D, suppressed, savings_cache=None):
             savings_cache.sort(reverse=True)
             
     
+    if not savings_cache:
+        return savings_cache # only one customer, nothing to suppress
+        
     first_savings = savings_cache[0]
     suppress = (first_savings[2], first_savings[3])
     if __debug__:
@@ -112,7 +115,8 @@ def suppression_savings_init(D,d,C,L, minimize_K=False, Lprime="auto"):
         # according to the (limited) experimental data of the Holmes & Parker
         #  (1976), for best results this can grow linearly.
         Lprime = int(N/7)+5
-    Lprime = min(Lprime, int((N**2-N)/2))
+    # at least one iteration is needed to get a solution (e.g. if N==1)
+    Lprime = max(1, min(Lprime, int((N**2-N)/2)))
     
     best_sol = None
     best_f = None
-- 
2.43.0


From 1a92c43a8de5b236805a03fcb2f44c4e62dce754 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:13:49 +0000
Subject: [PATCH 005/108] fix: Tyagi heuristic crashed if there was only one
 customer

---
 verypy/classic_heuristics/tyagi_nearest_neighbor.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/verypy/classic_heuristics/tyagi_nearest_neighbor.py b/verypy/classic_heuristics/tyagi_nearest_neighbor.py
index 496d119..290ced5 100644
--- a/verypy/classic_heuristics/tyagi_nearest_neighbor.py
+++ b/verypy/classic_heuristics/tyagi_nearest_neighbor.py
@@ -306,6 +306,8 @@ def tyagi_init(D, d, C, L=None,
                                emerging_route_count=1,
                                forbidden_nodes=[single_route_candidate],
                                route_improvement_callback=interchange_variant)
+                if cndt_sol is None:
+                    continue # the candidate is the only customer
                                
                 cndt_K = cndt_sol.count(0)-1+1 #the single_route_candidate_node
                 if cndt_K>best_K:
-- 
2.43.0


From 139ddd764d2828e47278519ee4f23aee9b28b8fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:13:49 +0000
Subject: [PATCH 006/108] fix: Wren-Holliday single start crashed if there was
 only one customer

---
 verypy/classic_heuristics/wren_holliday_sweep.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/verypy/classic_heuristics/wren_holliday_sweep.py b/verypy/classic_heuristics/wren_holliday_sweep.py
index 90134a7..3c7d5cc 100644
--- a/verypy/classic_heuristics/wren_holliday_sweep.py
+++ b/verypy/classic_heuristics/wren_holliday_sweep.py
@@ -569,7 +569,7 @@ def wren_holliday_init(points, D, d, C, L=None, minimize_K=False,
             nodes = list(range(N-1))
             sweeps.extend( zip( nodes, [cur_dir]*len(nodes) ) )
         elif type(seed_node)==int:
-            sweeps.append( [seed_node, cur_dir] )
+            sweeps.append( [seed_node%(N-1), cur_dir] )
         
     ## PHASE 1 : "Generate ... initial solutions and choose the best"    
     initial_sols  = []
-- 
2.43.0


From 0e565996e4924da5186fa8cffa3eac80364f072a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:13:49 +0000
Subject: [PATCH 007/108] fix: GAP crashed with rounded distances and an odd
 service time

---
 verypy/classic_heuristics/gapvrp.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/verypy/classic_heuristics/gapvrp.py b/verypy/classic_heuristics/gapvrp.py
index a1f7f9a..85e28ff 100644
--- a/verypy/classic_heuristics/gapvrp.py
+++ b/verypy/classic_heuristics/gapvrp.py
@@ -773,6 +773,8 @@ def gap_init(points, D, d, C, L=None, st=None, K=None, minimize_K=True,
                     #  distances (the other half is already added to the D
                     #  prior to gapvrp_init)
                     halftst = int(st/2) if int_dists else st/2.0
+                    if not int_dists:
+                        S = S.astype('d') # halftst may not be integer
                     S[:,1:] += halftst
                 D_s = np.vstack( (D_0, S) )
         
-- 
2.43.0


From 9e9a0bc254e1616171e0e11f61f71240fa94482d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:14:17 +0000
Subject: [PATCH 008/108] fix: Wren-Holliday improvement cycled between the
 same solutions forever

---
 verypy/classic_heuristics/wren_holliday_sweep.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/verypy/classic_heuristics/wren_holliday_sweep.py b/verypy/classic_heuristics/wren_holliday_sweep.py
index 3c7d5cc..3bbce18 100644
--- a/verypy/classic_heuristics/wren_holliday_sweep.py
+++ b/verypy/classic_heuristics/wren_holliday_sweep.py
@@ -619,6 +619,7 @@ def wren_holliday_init(points, D, d, C, L=None, minimize_K=False,
         omitted_nodes = set()
         prev_Q_point_sol_f = None    
         prev_iteration_sol_f = None
+        visited_states = set()
         changed = False
         
         try:
@@ -721,6 +722,12 @@ def wren_holliday_init(points, D, d, C, L=None, minimize_K=False,
                         solution_changed_between_iterations = False
                 prev_iteration_sol_f = sol_f
                 
+                # "Delete" may worsen the solution, do not go around in circles
+                state = (deleted, tuple(tuple(rd.route) for rd in routes))
+                if state in visited_states:
+                    solution_changed_between_iterations = False
+                visited_states.add(state)
+                
                 if converging and (
                   (full_convergence and not changed) or
                   (not full_convergence and not deleted) or 
-- 
2.43.0


From bbf15df00bfa257236c6fe7498357e2885727916 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:21:10 +0000
Subject: [PATCH 009/108] fix: GAP estimated zero vehicles for instances with
 no demand or one customer

---
 verypy/classic_heuristics/gapvrp.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/verypy/classic_heuristics/gapvrp.py b/verypy/classic_heuristics/gapvrp.py
index 85e28ff..c216161 100644
--- a/verypy/classic_heuristics/gapvrp.py
+++ b/verypy/classic_heuristics/gapvrp.py
@@ -717,14 +717,14 @@ def gap_init(points, D, d, C, L=None, st=None, K=None, minimize_K=True,
     else:
         # start from the smallest K possible
         if C:
-            startK = int(ceil(sum(d)/C))
+            startK = max(1, int(ceil(sum(d)/C)))
         elif L:
             # find a lower bound by checking how many visits from the TSP
             #  tour need to add to have any chance of making this L feasible.
             _,tsp_f = solve_tsp(D, list(range(1,N)))
             shortest_depot_edges = list(D[0,1:])
             shortest_depot_edges.sort()
-            startK = int(ceil(tsp_f/L))
+            startK = max(1, int(ceil(tsp_f/L)))
             while True:
                 if tsp_f+sum(shortest_depot_edges[:startK*2])<=startK*L:
                     break
-- 
2.43.0


From c7e8a75a38d371e1781303e25a809ab8f7661224 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:21:18 +0000
Subject: [PATCH 010/108] fix: Petal heuristic (and listing all algorithms)
 failed on import without LKH

---
 verypy/classic_heuristics/petalvrp.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/verypy/classic_heuristics/petalvrp.py b/verypy/classic_heuristics/petalvrp.py
index 4ddd53d..de9b6e6 100644
--- a/verypy/classic_heuristics/petalvrp.py
+++ b/verypy/classic_heuristics/petalvrp.py
@@ -21,6 +21,7 @@ from signal import signal, SIGINT, default_int_handler
 from collections import namedtuple
 from math import ceil    
 from logging import log, DEBUG
+from sys import stderr
 
 from gurobipy import Model, GRB, GurobiError, quicksum
 
-- 
2.43.0


From 8253998adf1a5df56a281a24a393dc9f7086a00d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:25:56 +0000
Subject: [PATCH 011/108] fix: .opt files written by as_OPT_solution could not
 be read back

---
 verypy/cvrp_io.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/verypy/cvrp_io.py b/verypy/cvrp_io.py
index 115ba5e..5dcb08f 100644
--- a/verypy/cvrp_io.py
+++ b/verypy/cvrp_io.py
@@ -121,8 +121,7 @@ def read_OPT_CVRP(file_name):
         for l in f.readlines():
             if file_ext == ".opt":
                 if "route" in l.lower():
-                    if not opt_k:
-                        count_k+1
+                    count_k+=1
                     _, routestring = l.split(":")
                     p_idxs = [int(s) for s in routestring.split()]
                     first_node = True
@@ -132,7 +131,7 @@ def read_OPT_CVRP(file_name):
                         solution.append(p_idx)
                         first_node = False
                 if "cost" in l.lower():
-                    _, coststring = l.split()
+                    coststring = l.split()[-1]
                     
                     # tries to convert to int and if it fails to float
                     opt_f = None
@@ -145,7 +144,7 @@ def read_OPT_CVRP(file_name):
     if len(solution)>1:
         solution.append(0)
         
-    if count_k or not opt_k:
+    if not opt_k:
         opt_k = count_k
     elif opt_k!=count_k:
         print("WARNING: the vehicle count in file name and solution differ", file=stderr)
-- 
2.43.0


From e092bedcef16b231d14a424127b6ea36977fd947 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:25:56 +0000
Subject: [PATCH 012/108] fix: last customer got wrong distances if the depot
 was not the first node

---
 verypy/cvrp_io.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/verypy/cvrp_io.py b/verypy/cvrp_io.py
index 5dcb08f..9b322a2 100644
--- a/verypy/cvrp_io.py
+++ b/verypy/cvrp_io.py
@@ -384,10 +384,7 @@ def read_TSPLIB_CVRP(file_name):
         # make sure depot is the 0
         idx_0 = depot_ids[0]-1
         row_col_permutation = [idx_0]+list(range(0,idx_0))+list(range(idx_0+1,len(D)))
-        for i in range(N):
-            D[:,i] = D[row_col_permutation,i]
-        for i in range(N):
-            D[i,:] = D[i,row_col_permutation]
+        D = D[row_col_permutation,:][:,row_col_permutation]
         if demands is not None and len(demands)>0:
             demands = [demands[idx_0]]+demands[:idx_0]+demands[idx_0+1:]
         if points is not None and len(points)>0:
-- 
2.43.0


From 1e3ac72a775886ccf13910f4bf7e7cab4d53e395 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:25:56 +0000
Subject: [PATCH 013/108] fix: EUC_2D distances ending in .5 were not rounded
 up as TSPLIB defines

---
 verypy/cvrp_io.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/verypy/cvrp_io.py b/verypy/cvrp_io.py
index 9b322a2..08982d6 100644
--- a/verypy/cvrp_io.py
+++ b/verypy/cvrp_io.py
@@ -90,7 +90,7 @@ def calculate_D(pts, opts=None, tsplib_distances_type='EUC_2D'):
     elif tsplib_distances_type=='FLOOR_2D':
         postprocess = lambda D: np.floor(D).astype(int)
     elif tsplib_distances_type=='EUC_2D':
-        postprocess = lambda D: np.round(D).astype(int)
+        postprocess = lambda D: np.floor(D+0.5).astype(int)
     elif tsplib_distances_type=='ATT':
         pdtype = lambda v,w : _att(v, w)
     elif tsplib_distances_type=='GEO':
-- 
2.43.0


From 99aa0d788d3c26fd55f8bc90c11eb155e0b6c4b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:25:56 +0000
Subject: [PATCH 014/108] fix: SVC_TIME_SECTION could not be read

---
 verypy/cvrp_io.py | 21 +++++++++++++--------
 1 file changed, 13 insertions(+), 8 deletions(-)

diff --git a/verypy/cvrp_io.py b/verypy/cvrp_io.py
index 08982d6..ece0881 100644
--- a/verypy/cvrp_io.py
+++ b/verypy/cvrp_io.py
@@ -415,15 +415,20 @@ def read_TSBLIB_additional_constraints(custom_tsplib_file):
     with open(custom_tsplib_file) as fh:
         for l in fh.readlines():
             if reading_service_time_section:
-                nid, nst = l.split()
-                if "." in nst:
-                    nst = float(nst)
+                fields = l.split()
+                if len(fields)==2 and fields[0].isdigit():
+                    nid, nst = fields
+                    if "." in nst:
+                        nst = float(nst)
+                    else:
+                        nst = int(nst)
+                    # the depot (1) does not need service
+                    if int(nid)!=1:
+                        if ST is not None and nst!=ST:
+                            raise IOError("Only single (same) service time for all customers is supported")
+                        ST = nst
                 else:
-                    nst = int(nst)
-                if ST is not None and nst!=ST:
-                    raise IOError("Only single (same) service time for all customers is supported")
-                elif nid!=1:
-                    ST = nst
+                    reading_service_time_section = False
             if "DISTANCE" in l:
                 if "." in l:
                     L = float( l.split()[-1] )
-- 
2.43.0


From ca336aaecf06fcad60357aaada7e08917000e027 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:25:56 +0000
Subject: [PATCH 015/108] fix: demands of other nodes were written when saving
 a subset of nodes

---
 verypy/cvrp_io.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/verypy/cvrp_io.py b/verypy/cvrp_io.py
index ece0881..fee57ae 100644
--- a/verypy/cvrp_io.py
+++ b/verypy/cvrp_io.py
@@ -550,10 +550,10 @@ def write_TSPLIB_file(tsplib_file_path, D,
         if write_cvrp:
             problem_file.write("DEMAND_SECTION\n1 0\n")
             if d:
-                for i in range(2,len(d)+1):
-                    problem_file.write("%d %d\n"%(i, int(d[i-1])))
+                for i in range(2,len(selected_idxs)+1):
+                    problem_file.write("%d %d\n"%(i, int(d[selected_idxs[i-1]])))
             else:
-                for i in range(2,len(D)+1):
+                for i in range(2,len(selected_idxs)+1):
                     problem_file.write("%d 1\n"%i)
             problem_file.write("DEPOT_SECTION\n")
             problem_file.write("1\n")
-- 
2.43.0


From bd13ad0d25d54d61a9765803aa8d0f198791c690 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:25:56 +0000
Subject: [PATCH 016/108] fix: first_valid always failed with a TypeError

---
 verypy/util.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/verypy/util.py b/verypy/util.py
index b9a8fc9..6504f31 100644
--- a/verypy/util.py
+++ b/verypy/util.py
@@ -62,7 +62,7 @@ def totald(sol, d):
 def first_valid(l):
     """Returns the first non-None or otherwise valid (evals to true) item from
     the list, or None if no such item exists."""
-    return next((item for item in l if item), default=None)
+    return next((item for item in l if item), None)
     
 def is_better_sol(best_f, best_K, sol_f, sol_K, minimize_K):
     """Compares a solution against the current best and returns True if the
-- 
2.43.0


From 7c71ed1a92a6c8d039956bc627db78a75efb2b25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:25:56 +0000
Subject: [PATCH 017/108] fix: sol2edgeset had symmetric and asymmetric edges
 the wrong way around

---
 verypy/util.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/verypy/util.py b/verypy/util.py
index 6504f31..15c29a5 100644
--- a/verypy/util.py
+++ b/verypy/util.py
@@ -97,7 +97,7 @@ def sol2edgeset(sol, symmetric=True):
     edges = set()
     for i in range(0,len(sol)-1):
         j = i+1
-        if symmetric or sol[i]<sol[j]:
+        if not symmetric or sol[i]<sol[j]:
             edges.add( (sol[i], sol[j]) )
         else:
             edges.add( (sol[j], sol[i]) )
-- 
2.43.0


From f315b82b88e39bea8c52ee201b19d7f5cf7d9016 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:25:56 +0000
Subject: [PATCH 018/108] fix: half of an odd service time was truncated for
 real valued distances

---
 verypy/cvrp_ops.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/verypy/cvrp_ops.py b/verypy/cvrp_ops.py
index 916b462..1993e11 100644
--- a/verypy/cvrp_ops.py
+++ b/verypy/cvrp_ops.py
@@ -242,7 +242,7 @@ def D2D_c(D, st):
         halftst = tst/2.0
     else:
         D_c = np.copy(D)    
-        halftst = int(tst/2)
+        halftst = D.dtype.type(tst/2)
     
     D_c[1:,1:]+=tst
     D_c[0,:]+=halftst
-- 
2.43.0


From c40acb3abfd8d68a1efd6b99ac0bf9320ee300f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:25:56 +0000
Subject: [PATCH 019/108] fix: normalize_solution failed on a list of routes
 with an empty route

---
 verypy/cvrp_ops.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/verypy/cvrp_ops.py b/verypy/cvrp_ops.py
index 1993e11..886d4c4 100644
--- a/verypy/cvrp_ops.py
+++ b/verypy/cvrp_ops.py
@@ -53,6 +53,7 @@ def normalize_solution(sol):
     # Already in parts
     if hasattr(sol[0], '__len__'):
         routes = [_list_trim(route, 0) for route in sol]
+        routes = [route for route in routes if route]
     else:
         #print(sol
         routes = _list_split(sol, 0)
-- 
2.43.0


From 8bf8eafb9029780f9b4b4e0b55adc33630a122b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:25:56 +0000
Subject: [PATCH 020/108] fix: recursive search listed problems in nested
 folders many times

---
 verypy/shared_cli.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/verypy/shared_cli.py b/verypy/shared_cli.py
index 809eddf..5f96cf2 100644
--- a/verypy/shared_cli.py
+++ b/verypy/shared_cli.py
@@ -157,7 +157,7 @@ def read_and_solve_a_problem(problem_instance_path, with_algorithm_function,
 def get_a_problem_file_list(problem_paths, recursive=False):
     files_to_solve = []
     if recursive:
-        for problem_path in problem_paths:
+        for problem_path in list(problem_paths):
             for root, dirs, _ in walk(problem_path):
                 problem_paths += [path.join(root,d) for d in dirs]
 
-- 
2.43.0


From 0639ca56b5719b7674db7b9f74ca50b7178aba81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:25:56 +0000
Subject: [PATCH 021/108] fix: heuristics that need points did not accept them
 as a numpy array

---
 verypy/classic_heuristics/gapvrp.py              | 2 +-
 verypy/classic_heuristics/gillet_miller_sweep.py | 2 +-
 verypy/classic_heuristics/petalvrp.py            | 2 +-
 verypy/classic_heuristics/wren_holliday_sweep.py | 2 +-
 4 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/verypy/classic_heuristics/gapvrp.py b/verypy/classic_heuristics/gapvrp.py
index c216161..099f8bd 100644
--- a/verypy/classic_heuristics/gapvrp.py
+++ b/verypy/classic_heuristics/gapvrp.py
@@ -708,7 +708,7 @@ def gap_init(points, D, d, C, L=None, st=None, K=None, minimize_K=True,
     if seed_edge_weight_type=="EXPLICIT":
         seed_edge_weight_type = "EUC_2D" if int_dists else "EXACT_2D"
     
-    if not points:
+    if points is None or len(points)==0:
         raise ValueError("The algorithm requires 2D coordinates for the points")
     N = len(D)    
     if K:
diff --git a/verypy/classic_heuristics/gillet_miller_sweep.py b/verypy/classic_heuristics/gillet_miller_sweep.py
index e9a9925..d07e4ec 100644
--- a/verypy/classic_heuristics/gillet_miller_sweep.py
+++ b/verypy/classic_heuristics/gillet_miller_sweep.py
@@ -321,7 +321,7 @@ def gillet_miller_init(points, D, d, C, L=None, minimize_K=False,
                  - SMALLEST_ANGLE selects the (somewhat arbitary) customer
                     that has the smallest polar coordinate phi.
     """
-    if not points:
+    if points is None or len(points)==0:
         raise ValueError("The algorithm requires 2D coordinates for the points")
     
     return sweep_init(points, D, d, C, L, minimize_K,
diff --git a/verypy/classic_heuristics/petalvrp.py b/verypy/classic_heuristics/petalvrp.py
index de9b6e6..d46228a 100644
--- a/verypy/classic_heuristics/petalvrp.py
+++ b/verypy/classic_heuristics/petalvrp.py
@@ -667,7 +667,7 @@ def petal_init(points, D, d, C, L, K=None,
     or more depots to a number of delivery points. JORS, 23(3), 333-344.
     """
     
-    if not points:
+    if points is None or len(points)==0:
         raise ValueError("The algorithm requires 2D coordinates for the points")
     N = len(points)
     
diff --git a/verypy/classic_heuristics/wren_holliday_sweep.py b/verypy/classic_heuristics/wren_holliday_sweep.py
index 3bbce18..8f528f5 100644
--- a/verypy/classic_heuristics/wren_holliday_sweep.py
+++ b/verypy/classic_heuristics/wren_holliday_sweep.py
@@ -510,7 +510,7 @@ def wren_holliday_init(points, D, d, C, L=None, minimize_K=False,
     Research Society, 23(3), 333-344.
     """                      
     
-    if not points:
+    if points is None or len(points)==0:
         raise ValueError("The algorithm requires 2D coordinates for the points")
     N = len(D)
     
-- 
2.43.0


From 714152503234c1447e0587ff9602d8de160b2de2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:26:11 +0000
Subject: [PATCH 022/108] fix: post-optimization ignored the service time when
 checking route lengths

---
 verypy/VeRyPy.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/verypy/VeRyPy.py b/verypy/VeRyPy.py
index 5947bb6..75bde24 100644
--- a/verypy/VeRyPy.py
+++ b/verypy/VeRyPy.py
@@ -209,7 +209,7 @@ def main(overridden_args=None):
                     if not app_args.minimal_output:
                         print("Postoptimize with %s ..."%
                               ", ".join(app_args.local_search_operators),end="")
-                    sol = do_local_search(ls_ops, sol, D, d, C, L)
+                    sol = do_local_search(ls_ops, sol, D_c, d, C, L)
                     sol = cvrp_ops.normalize_solution(sol)
                         
                     if app_args.show_solution_cost:
-- 
2.43.0


From ec38d60689c7ab29544c9f87f147799d95dbf61b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:26:11 +0000
Subject: [PATCH 023/108] fix: -D ROUND crashed on current numpy versions

---
 verypy/VeRyPy.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/verypy/VeRyPy.py b/verypy/VeRyPy.py
index 75bde24..3013165 100644
--- a/verypy/VeRyPy.py
+++ b/verypy/VeRyPy.py
@@ -167,7 +167,7 @@ def main(overridden_args=None):
             D = np.floor(D)
             ewt = "FLOOR_2D"
         if app_args.dist_weight_format == "ROUND":
-            D = np.int(D)
+            D = np.floor(D+0.5)
             ewt = "EUC_2D"
             
         # Bake service time to D (if needed)
-- 
2.43.0


From 7bf2e4e311babcf89c6251e2cc56e641438712cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:26:11 +0000
Subject: [PATCH 024/108] fix: VeRyPy failed to report solutions of problems
 without a capacity

---
 verypy/VeRyPy.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/verypy/VeRyPy.py b/verypy/VeRyPy.py
index 3013165..2e7851e 100644
--- a/verypy/VeRyPy.py
+++ b/verypy/VeRyPy.py
@@ -253,7 +253,7 @@ def main(overridden_args=None):
                     tightness = (sum(d)/(C*sol_K))
                 if not bn in instance_data or sol_K<instance_data[bn][1]:
                     #"N K C tightness L st"
-                    instance_data[bn] = (N,sol_K,C,"%.3f"%tightness,L,st)
+                    instance_data[bn] = (N,sol_K,C,"%.3f"%tightness if C else None,L,st)
                     
                 shared_cli.print_problem_information(
                     points, D_c, d, C, L, st, tightness,
-- 
2.43.0


From f093b5e34b89f96f1165d065f2b23cb4517fcd47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:26:11 +0000
Subject: [PATCH 025/108] fix: collected results could not be printed if a
 problem was left unsolved

---
 verypy/VeRyPy.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/verypy/VeRyPy.py b/verypy/VeRyPy.py
index 2e7851e..4e5c1e0 100644
--- a/verypy/VeRyPy.py
+++ b/verypy/VeRyPy.py
@@ -298,7 +298,7 @@ def main(overridden_args=None):
             print(problem,end="")
             if PRINT_INSTANCE_DATA:            
                 print("\t",end="")
-                print("\t".join( str(e) for e in instance_data[problem] ),end="")
+                print("\t".join( str(e) for e in instance_data.get(problem, [None]*6) ),end="")
             for _, result in sorted(algo_results.items()):
                 print("\t", result,end="")
             print()
-- 
2.43.0


From d50543ee07a61d86dd3d7dc34f8f0ef6cdab14f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:30:12 +0000
Subject: [PATCH 026/108] fix: Petal heuristic never ended when minimizing the
 number of vehicles

---
 verypy/classic_heuristics/petalvrp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/verypy/classic_heuristics/petalvrp.py b/verypy/classic_heuristics/petalvrp.py
index d46228a..13a1a32 100644
--- a/verypy/classic_heuristics/petalvrp.py
+++ b/verypy/classic_heuristics/petalvrp.py
@@ -867,7 +867,7 @@ def petal_init(points, D, d, C, L, K=None,
                     ptl_set = PTL_SET.REDUCED
                 elif ptl_set == PTL_SET.REDUCED:
                     ptl_set = PTL_SET.EXTENDED
-                elif K_constraint:
+                elif K_constraint and K_constraint<N:
                     ptl_set = PTL_SET.RESTRICTED
                     K_constraint = K_constraint+1
                 else:
-- 
2.43.0


From cbbd08facc8b05c2916732bb9e13fe7d0ad72b0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:30:12 +0000
Subject: [PATCH 027/108] fix: Petal heuristic with one iteration returned
 solutions that left customers out

---
 verypy/classic_heuristics/petalvrp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/verypy/classic_heuristics/petalvrp.py b/verypy/classic_heuristics/petalvrp.py
index 13a1a32..391e921 100644
--- a/verypy/classic_heuristics/petalvrp.py
+++ b/verypy/classic_heuristics/petalvrp.py
@@ -936,7 +936,7 @@ def petal_init(points, D, d, C, L, K=None,
                 break
                 
             if required_iterations and iteration_counter>=required_iterations and\
-                not (min_iterations and iteration_counter<min_iterations):        
+                best_sol_feasible and not (min_iterations and iteration_counter<min_iterations):        
                 break # main iteration loop
         
             ## IMPROVEMENT PHASE 
-- 
2.43.0


From c540d6b1503e5784c4771dfdb69aa5242883eeac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:24 +0000
Subject: [PATCH 028/108] fix: 2-opt* returned wrong costs and demands for the
 new routes

---
 verypy/local_search/inter_route_operators.py | 32 +++++++++++---------
 1 file changed, 17 insertions(+), 15 deletions(-)

diff --git a/verypy/local_search/inter_route_operators.py b/verypy/local_search/inter_route_operators.py
index 7410fe1..8e08147 100644
--- a/verypy/local_search/inter_route_operators.py
+++ b/verypy/local_search/inter_route_operators.py
@@ -123,17 +123,18 @@ def do_2optstar_move(route1_data, route2_data, D, d=None,
                     r2_new_demand = route1_data.rwd_d[i+1]+route2_data.rwd_d[j+1]
                     if r1_new_demand-C_EPS>C or r2_new_demand-C_EPS>C:
                         constraint_violated = True
+                r1_new_cost = route1_data.fwd_l[i]+D[a,c]+route2_data.fwd_l[j]
+                r2_new_cost = route1_data.rwd_l[i+1]+D[b,d]+route2_data.rwd_l[j+1]
                 if not constraint_violated and L and (    
-                  route1_data.fwd_l[i]+D[a,c]+route2_data.fwd_l[j]-S_EPS>L or
-                  route1_data.rwd_l[i+1]+D[b,d]+route2_data.rwd_l[j+1]-S_EPS>L):
+                  r1_new_cost-S_EPS>L or r2_new_cost-S_EPS>L):
                     constraint_violated = True
                 
                 if not constraint_violated:
-                    # store segments, deltas, and demands
+                    # store segments, costs, and demands
                     best_move = (((None,i+1,1), (j,None,-1),
-                                  D[a,c]-D[a,b], r1_new_demand),
+                                  r1_new_cost, r1_new_demand),
                                  ((None,i,-1), (j+1,None,1),
-                                  D[b,d]-D[c,d], r2_new_demand))
+                                  r2_new_cost, r2_new_demand))
                     best_delta = delta
                     
                     if strategy==LSOPT.FIRST_ACCEPT:
@@ -158,17 +159,18 @@ def do_2optstar_move(route1_data, route2_data, D, d=None,
                     r2_new_demand = route1_data.rwd_d[i+1]+route2_data.fwd_d[j]
                     if r1_new_demand-C_EPS>C or r2_new_demand-C_EPS>C:
                         constraint_violated = True
+                r1_new_cost = route1_data.fwd_l[i]+D[a,d]+route2_data.rwd_l[j+1]
+                r2_new_cost = route1_data.rwd_l[i+1]+D[b,c]+route2_data.fwd_l[j]
                 if not constraint_violated and L and (
-                  route1_data.fwd_l[i]+D[a,d]+route2_data.rwd_l[j+1]-S_EPS>L or
-                  route1_data.rwd_l[i+1]+D[b,c]+route2_data.fwd_l[j]-S_EPS>L):
+                  r1_new_cost-S_EPS>L or r2_new_cost-S_EPS>L):
                     constraint_violated = True
                     
                 if not constraint_violated:
-                    # store segments, deltas, and demands
+                    # store segments, costs, and demands
                     best_move = (((None,i+1,1), (j+1,None,1),
-                                  D[a,d]-D[a,b], r1_new_demand),
+                                  r1_new_cost, r1_new_demand),
                                  ((None,i,-1), (j,None,-1),
-                                  D[b,c]-D[c,d], r2_new_demand))
+                                  r2_new_cost, r2_new_demand))
                     best_delta = delta
                     
                     if strategy==LSOPT.FIRST_ACCEPT:
@@ -180,22 +182,22 @@ def do_2optstar_move(route1_data, route2_data, D, d=None,
                 
     if best_move:
         # unpack the move
-        ((r1_sgm1, r2_sgm1, r1_delta, r1_new_demand),
-         (r1_sgm2, r2_sgm2, r2_delta, r2_new_demand)) = best_move
+        ((r1_sgm1, r2_sgm1, r1_new_cost, r1_new_demand),
+         (r1_sgm2, r2_sgm2, r2_new_cost, r2_new_demand)) = best_move
          
         return (
             # route 1
             RouteData(
                 route1_data.route[r1_sgm1[0]:r1_sgm1[1]:r1_sgm1[2]]+\
                 route2_data.route[r2_sgm1[0]:r2_sgm1[1]:r2_sgm1[2]],
-                route1_data.cost+r1_delta,
+                r1_new_cost,
                 r1_new_demand),
             # route 2
             RouteData(
                 route1_data.route[r1_sgm2[0]:r1_sgm2[1]:r1_sgm2[2]]+\
                 route2_data.route[r2_sgm2[0]:r2_sgm2[1]:r2_sgm2[2]],
-                route1_data.cost+r1_delta,
-                r1_new_demand),
+                r2_new_cost,
+                r2_new_demand),
             # delta
             best_delta)
  
-- 
2.43.0


From 4e0465864f57b2e77997f51e8ad71d18b1bd53b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:56 +0000
Subject: [PATCH 029/108] fix: redistribute inserted a node to many routes if
 the level was not met

---
 verypy/local_search/inter_route_operators.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/verypy/local_search/inter_route_operators.py b/verypy/local_search/inter_route_operators.py
index 8e08147..bb54f79 100644
--- a/verypy/local_search/inter_route_operators.py
+++ b/verypy/local_search/inter_route_operators.py
@@ -563,11 +563,9 @@ def do_redistribute_move(redisributed_route_data,
                 #print("REMOVEME:", "succesfully inserted %d to create %s"%(to_insert, new_rd2.route))
                 ansatz_route_data[rd2_ar_idx] = new_rd2
                 total_delta+=delta
-                if total_delta+S_EPS<best_delta:
-                    node_succesfully_inserted = True
-                    break
-                else:
-                    continue
+                # already inserted, so do not try it on the other routes
+                node_succesfully_inserted = total_delta+S_EPS<best_delta
+                break
                 
             if not node_succesfully_inserted:
                 all_succesfully_inserted = False
-- 
2.43.0


From 272fdea73daba7ab5796502091f0cda2acf3f46c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:24 +0000
Subject: [PATCH 030/108] fix: moving a node away could make the route violate
 the cost limit

---
 verypy/local_search/inter_route_operators.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/verypy/local_search/inter_route_operators.py b/verypy/local_search/inter_route_operators.py
index bb54f79..ae49657 100644
--- a/verypy/local_search/inter_route_operators.py
+++ b/verypy/local_search/inter_route_operators.py
@@ -252,6 +252,10 @@ def do_1point_move(route1_data, route2_data, D, d=None,
                       -D[remove_after,to_move]\
                       -D[to_move,remove_before]
         
+        # removing can make the route longer (no triangle inequality)
+        if L and r1_l+remove_delta-S_EPS>L:
+            continue
+        
         # capacity constraint feasibility check 
         if C and r2_d+d[to_move]-C_EPS>C:
             continue
@@ -620,6 +624,10 @@ def do_chain_move(route1_data, route2_data, route3_data, D, d=None,
                         -D[remove_after,to_move]\
                         -D[to_move,remove_before]
         
+        # removing can make the route longer (no triangle inequality)
+        if L and r1_l+remove_delta-S_EPS>L:
+            continue
+        
         for j in range(1,len(route2)-1):
             
             replace_after = route2[j-1]
-- 
2.43.0


From e5365f9885689b445c670a0a04870865d45a51c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:21 +0000
Subject: [PATCH 031/108] fix: LKH wrapper truncated the cost of tours with at
 most 3 nodes

---
 verypy/tsp_solvers/tsp_solver_lkh.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/verypy/tsp_solvers/tsp_solver_lkh.py b/verypy/tsp_solvers/tsp_solver_lkh.py
index b83880b..a54b829 100644
--- a/verypy/tsp_solvers/tsp_solver_lkh.py
+++ b/verypy/tsp_solvers/tsp_solver_lkh.py
@@ -45,7 +45,7 @@ def solve_tsp_lkh(D, selected_idxs,
         sol_f = 0
         for n in sol:
             if p is not None:
-                sol_f+=int(D[p,n])
+                sol_f+=D[p,n]
             p=n
         return sol, sol_f
 
-- 
2.43.0


From 28ed3d9fdea57b58b268c4f4ce3d68d76414746d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:21 +0000
Subject: [PATCH 032/108] fix: ACOTSP wrapper crashed on current numpy and when
 using the ants

---
 verypy/tsp_solvers/tsp_solver_acotsp.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/verypy/tsp_solvers/tsp_solver_acotsp.py b/verypy/tsp_solvers/tsp_solver_acotsp.py
index f28b6f1..43ef06d 100644
--- a/verypy/tsp_solvers/tsp_solver_acotsp.py
+++ b/verypy/tsp_solvers/tsp_solver_acotsp.py
@@ -69,7 +69,7 @@ def solve_tsp_acotsp(D, selected_idxs,
         return sol, sol_f
 
     # 1. Create a TSPLIB file
-    are_float_distances = issubclass(D.dtype.type, np.float)
+    are_float_distances = np.issubdtype(D.dtype.type, np.floating)
     if not are_float_distances:
         float_accuracy = None
     with NamedTemporaryFile( delete=False, suffix='.tsp') as tmpfile:
@@ -79,12 +79,12 @@ def solve_tsp_acotsp(D, selected_idxs,
                       float_to_int_precision=float_accuracy)
     
     # 2. Call acotsp
+    nul_f = open(os.devnull, 'w')
     if use_ants:
         # with defaults
         command = [ACOTSP_EXE_PATH, "--quiet", "-i", temp_problem_file_path]
     else:
         # use only local 2-opt+3-opt local search
-        nul_f = open(os.devnull, 'w')
         command = [ACOTSP_EXE_PATH,
                    "-r", "1", # one try is enough without ants (determnistic)
                    "-m", "1", # one (deteministic) ant is still needed 
-- 
2.43.0


From ecda545359b3b8e83b4222a3e85dc6bcf2046bdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:21 +0000
Subject: [PATCH 033/108] fix: shuffling a closed tour visited its end point
 twice

---
 verypy/tsp_solvers/tsp_solver_ropt.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/verypy/tsp_solvers/tsp_solver_ropt.py b/verypy/tsp_solvers/tsp_solver_ropt.py
index 7fce828..0a1cc69 100644
--- a/verypy/tsp_solvers/tsp_solver_ropt.py
+++ b/verypy/tsp_solvers/tsp_solver_ropt.py
@@ -25,6 +25,8 @@ def solve_tsp_ropt(D, selected_idxs,
     
     if do_shuffle:
         shuffled_idxs = list(selected_idxs[1:])
+        if shuffled_idxs and shuffled_idxs[-1]==endp:
+            shuffled_idxs.pop() # was already closed
         shuffle(shuffled_idxs)
         new_route = [endp]+shuffled_idxs+[endp]
     elif selected_idxs[-1]!=endp:
-- 
2.43.0


From 705ef10f018022698b479267e2aea668767595aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:57 +0000
Subject: [PATCH 034/108] fix: ATT distances were about a third of what TSPLIB
 defines

---
 verypy/cvrp_io.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/verypy/cvrp_io.py b/verypy/cvrp_io.py
index fee57ae..814f93d 100644
--- a/verypy/cvrp_io.py
+++ b/verypy/cvrp_io.py
@@ -73,7 +73,7 @@ def _geo(pt1, pt2):
 def _att(pt1,pt2):
     dx = pt1[0]-pt2[0]
     dy = pt1[1]-pt2[1]
-    r = sqrt(dx**2+dy**2)/10.0
+    r = sqrt((dx**2+dy**2)/10.0)
     t = int(r)
     return t+1 if t<r else t
 
-- 
2.43.0


From 5e02c8309350f3e0051c1684ee24ed20e7b3e525 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:57 +0000
Subject: [PATCH 035/108] fix: MAX_2D and MAN_2D distances were not rounded as
 TSPLIB defines

---
 verypy/cvrp_io.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/verypy/cvrp_io.py b/verypy/cvrp_io.py
index 814f93d..4efb8fe 100644
--- a/verypy/cvrp_io.py
+++ b/verypy/cvrp_io.py
@@ -83,8 +83,10 @@ def calculate_D(pts, opts=None, tsplib_distances_type='EUC_2D'):
     
     if tsplib_distances_type=='MAX_2D':
         pdtype = 'chebyshev'
+        postprocess = lambda D: np.floor(D+0.5).astype(int)
     elif tsplib_distances_type=='MAN_2D':
         pdtype = 'cityblock'
+        postprocess = lambda D: np.floor(D+0.5).astype(int)
     elif tsplib_distances_type=='CEIL_2D':
         postprocess = lambda D: np.ceil(D).astype(int)
     elif tsplib_distances_type=='FLOOR_2D':
-- 
2.43.0


From 2bd53c440da3f292c62e287eea881b5fda15e00a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:57 +0000
Subject: [PATCH 036/108] fix: a comment mentioning e.g. DISTANCE was read as a
 constraint

---
 verypy/cvrp_io.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/verypy/cvrp_io.py b/verypy/cvrp_io.py
index 4efb8fe..3a55ba1 100644
--- a/verypy/cvrp_io.py
+++ b/verypy/cvrp_io.py
@@ -416,6 +416,9 @@ def read_TSBLIB_additional_constraints(custom_tsplib_file):
     reading_service_time_section = False
     with open(custom_tsplib_file) as fh:
         for l in fh.readlines():
+            # a comment can mention the fields below
+            if l.split(":")[0].strip() in ("NAME", "COMMENT"):
+                continue
             if reading_service_time_section:
                 fields = l.split()
                 if len(fields)==2 and fields[0].isdigit():
-- 
2.43.0


From 3410bbe9f7fe9f9e2a43c329125000052f13fadd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:39 +0000
Subject: [PATCH 037/108] fix: node numbers were ignored so lines not in order
 were mixed up

---
 verypy/cvrp_io.py | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/verypy/cvrp_io.py b/verypy/cvrp_io.py
index 3a55ba1..f6ebdcd 100644
--- a/verypy/cvrp_io.py
+++ b/verypy/cvrp_io.py
@@ -106,6 +106,15 @@ def calculate_D(pts, opts=None, tsplib_distances_type='EUC_2D'):
     else:
         return postprocess(cdist(pts, opts, pdtype))
 
+def _in_node_order(values, node_ids):
+    """ The lines of a section start with the number of the node, and they can
+    be in any order. Sort the values if the numbering is the usual 1,2,3..."""
+    value_of = dict(zip(node_ids, values))
+    numbering = [str(i+1) for i in range(len(values))]
+    if len(node_ids)==len(values) and set(value_of)==set(numbering):
+        return [value_of[i] for i in numbering]
+    return values
+
 def read_OPT_CVRP(file_name):    
     solution = [0]
     opt_f = None
@@ -214,6 +223,7 @@ def read_TSPLIB_CVRP(file_name):
         edge_weight_format = None
         
         depot_ids = []
+        points_ids, dd_points_ids, demands_ids = [], [], []
         
         for l in fh.readlines():
             line = l.strip()
@@ -339,6 +349,7 @@ def read_TSPLIB_CVRP(file_name):
                         
                         points[section_pos][0] = x
                         points[section_pos][1] = y
+                        points_ids.append( coords[0] )
                         section_pos+=1
                     elif  section == 'DISPLAY_DATA_SECTION':
                         coords = line.split()
@@ -346,11 +357,13 @@ def read_TSPLIB_CVRP(file_name):
                         y = float( coords [2] )
                         dd_points[section_pos][0] = x
                         dd_points[section_pos][1] = y
+                        dd_points_ids.append( coords[0] )
                         section_pos+=1
                     elif  section == 'DEMAND_SECTION':
                         demand = line.split()
                         c = float( demand[1] )
                         demands[section_pos] = c # pylint: disable=unsupported-assignment-operation
+                        demands_ids.append( demand[0] )
                         section_pos+=1
                     elif  section == 'DEPOT_SECTION': 
                         value = int(line)
@@ -372,6 +385,13 @@ def read_TSPLIB_CVRP(file_name):
             #print edge_weight_format, ij_section_pos 
             raise IOError("Explicit distance matrix did not have enough values")
     
+    if points is not None:
+        points = _in_node_order(points, points_ids)
+    if dd_points is not None:
+        dd_points = _in_node_order(dd_points, dd_points_ids)
+    if demands is not None:
+        demands = _in_node_order(demands, demands_ids)
+    
     if D_needs_update:
         D = calculate_D(points, None, edge_weight_type )
     
-- 
2.43.0


From 1456aa9e47305c87455e854f87d8e856c81500b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:39 +0000
Subject: [PATCH 038/108] fix: fractions of demands, capacity and cost limit
 were lost when saving

---
 verypy/cvrp_io.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/verypy/cvrp_io.py b/verypy/cvrp_io.py
index f6ebdcd..9226039 100644
--- a/verypy/cvrp_io.py
+++ b/verypy/cvrp_io.py
@@ -242,7 +242,7 @@ def read_TSPLIB_CVRP(file_name):
                 elif 'DIMENSION' in field:
                     N = int(value)-1 # depot excluded
                 elif 'CAPACITY' in field:
-                    C = int(value)
+                    C = float(value) if "." in value else int(value)
                 elif 'EDGE_WEIGHT_TYPE' in field:
                     edge_weight_type = value.strip()
                     if edge_weight_type not in ["MAX_2D", "MAN_2D", "EXACT_2D",
@@ -536,6 +536,10 @@ def as_OPT_solution(cost, sol):
 
     return opt_str
 
+def _number_str(value):
+    """ Integers as such, but do not truncate the decimals of other values. """
+    return "%d"%value if value==int(value) else repr(float(value))
+
 def write_TSPLIB_file(tsplib_file_path, D,
                       d=None, C=None, L=None, selected_idxs=None,
                       float_to_int_precision=None):
@@ -551,11 +555,13 @@ def write_TSPLIB_file(tsplib_file_path, D,
         if write_cvrp:
             problem_file.write("TYPE: CVRP\n")
             if C:
-                problem_file.write("CAPACITY: %d\n"%C)
+                problem_file.write("CAPACITY: %s\n"%_number_str(C))
             else:
                 problem_file.write("CAPACITY: %d\n"%len(D))
             if L:
-                problem_file.write("DISTANCE: %d\n"%L)
+                if float_to_int_precision is not None:
+                    L = L*float_to_int_precision
+                problem_file.write("DISTANCE: %s\n"%_number_str(L))
         else:    
             problem_file.write("TYPE: TSP\n")
         problem_file.write("COMMENT: temporary CVRP or TSP problem\n")
@@ -576,7 +582,7 @@ def write_TSPLIB_file(tsplib_file_path, D,
             problem_file.write("DEMAND_SECTION\n1 0\n")
             if d:
                 for i in range(2,len(selected_idxs)+1):
-                    problem_file.write("%d %d\n"%(i, int(d[selected_idxs[i-1]])))
+                    problem_file.write("%d %s\n"%(i, _number_str(d[selected_idxs[i-1]])))
             else:
                 for i in range(2,len(selected_idxs)+1):
                     problem_file.write("%d 1\n"%i)
-- 
2.43.0


From 25208eabfae78c0539eb388a98139babeafbda0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:05 +0000
Subject: [PATCH 039/108] fix: fraction of the service time was lost with
 integer distances

---
 verypy/cvrp_ops.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/verypy/cvrp_ops.py b/verypy/cvrp_ops.py
index 886d4c4..b2f6054 100644
--- a/verypy/cvrp_ops.py
+++ b/verypy/cvrp_ops.py
@@ -240,6 +240,7 @@ def D2D_c(D, st):
     tst = D.dtype.type(st)
     if float(tst)!=float(st) or float(tst/2)!=float(st/2.0):
         D_c = D.astype('d')
+        tst = float(st)
         halftst = tst/2.0
     else:
         D_c = np.copy(D)    
-- 
2.43.0


From 78fd29ca15f81ff56e4e26637c185bb649e55b40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:17 +0000
Subject: [PATCH 040/108] fix: additional constraints could not be read without
 blank after the colon

---
 verypy/cvrp_io.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/verypy/cvrp_io.py b/verypy/cvrp_io.py
index 9226039..dc5a6a9 100644
--- a/verypy/cvrp_io.py
+++ b/verypy/cvrp_io.py
@@ -439,6 +439,8 @@ def read_TSBLIB_additional_constraints(custom_tsplib_file):
             # a comment can mention the fields below
             if l.split(":")[0].strip() in ("NAME", "COMMENT"):
                 continue
+            # the blanks around the colon are optional
+            l = l.replace(":", " ")
             if reading_service_time_section:
                 fields = l.split()
                 if len(fields)==2 and fields[0].isdigit():
-- 
2.43.0


From d8a459c599b35f25bcf549984d235d097f9cb672 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:17 +0000
Subject: [PATCH 041/108] fix: empty line ended the service time section

---
 verypy/cvrp_io.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/verypy/cvrp_io.py b/verypy/cvrp_io.py
index dc5a6a9..0581653 100644
--- a/verypy/cvrp_io.py
+++ b/verypy/cvrp_io.py
@@ -454,7 +454,7 @@ def read_TSBLIB_additional_constraints(custom_tsplib_file):
                         if ST is not None and nst!=ST:
                             raise IOError("Only single (same) service time for all customers is supported")
                         ST = nst
-                else:
+                elif fields:
                     reading_service_time_section = False
             if "DISTANCE" in l:
                 if "." in l:
-- 
2.43.0


From a4a3d8c46d90ceb7de82f004687ac6d62f074e45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:36 +0000
Subject: [PATCH 042/108] fix: indexing OrderedDictSet after adding could give
 wrong elements

---
 verypy/util.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/verypy/util.py b/verypy/util.py
index 15c29a5..aaa9a3c 100644
--- a/verypy/util.py
+++ b/verypy/util.py
@@ -166,9 +166,9 @@ class OrderedDictSet:
         del self.ods[element]
         self.keylist = None # needs update
     def add(self, element):
-        self.ods[element] = None
-        if self.keylist:
+        if self.keylist is not None and element not in self.ods:
             self.keylist.append(element) # avoid full update
+        self.ods[element] = None
     def difference_update(self, collection):
         for element in collection:
             self.ods.pop(element, None)
-- 
2.43.0


From 2ba40a7b28349a240ef92347221ee68bd6b4a8fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:00 +0000
Subject: [PATCH 043/108] fix: half of an odd service time was truncated for
 integer distances

---
 verypy/cvrp_ops.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/verypy/cvrp_ops.py b/verypy/cvrp_ops.py
index b2f6054..20c9004 100644
--- a/verypy/cvrp_ops.py
+++ b/verypy/cvrp_ops.py
@@ -238,7 +238,7 @@ def D2D_c(D, st):
         raise ValueError("Service time not set")
     
     tst = D.dtype.type(st)
-    if float(tst)!=float(st) or float(tst/2)!=float(st/2.0):
+    if float(tst)!=float(st) or float(D.dtype.type(st/2.0))!=float(st/2.0):
         D_c = D.astype('d')
         tst = float(st)
         halftst = tst/2.0
-- 
2.43.0


From ef2fc991ed1b13499249fe2f34a0022ad841276d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:02:00 +0000
Subject: [PATCH 044/108] fix: decision variables almost zero were taken as
 selected

---
 verypy/classic_heuristics/gapvrp.py      | 2 +-
 verypy/classic_heuristics/matchingvrp.py | 4 ++--
 verypy/classic_heuristics/petalvrp.py    | 2 +-
 3 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/verypy/classic_heuristics/gapvrp.py b/verypy/classic_heuristics/gapvrp.py
index 099f8bd..777ed45 100644
--- a/verypy/classic_heuristics/gapvrp.py
+++ b/verypy/classic_heuristics/gapvrp.py
@@ -76,7 +76,7 @@ def _decision_variables_to_assignments(m, Y_ik, N, K):
     for k in range(K):
         route_nodes = []
         for i in range(1, N):
-            if Y_ik_values[i,k]:
+            if Y_ik_values[i,k] > 0.5: # the solver has an integrality tolerance
                 route_nodes.append(i)
         assignments.append(route_nodes)
     return assignments
diff --git a/verypy/classic_heuristics/matchingvrp.py b/verypy/classic_heuristics/matchingvrp.py
index 98cf8c3..fa85c12 100644
--- a/verypy/classic_heuristics/matchingvrp.py
+++ b/verypy/classic_heuristics/matchingvrp.py
@@ -91,10 +91,10 @@ def _mmp_solve(w1_ij, x_ij_keys, n, w2_ij = None):
     if m.Status == GRB.OPTIMAL:
         if w2_ij==None:
             max_wt, max_merge = max( (w1_ij[k], x_ij_keys[k])
-                                      for k, v in enumerate(m.X) if v )
+                                      for k, v in enumerate(m.X) if v > 0.5 )
         else:
             max_wt, _, max_merge = max( (w1_ij[k], w2_ij[k], x_ij_keys[k])
-                                      for k, v in enumerate(m.X) if v )
+                                      for k, v in enumerate(m.X) if v > 0.5 )
             
         return max_wt, max_merge[0], max_merge[1]
     elif m.Status == GRB.TIME_LIMIT:
diff --git a/verypy/classic_heuristics/petalvrp.py b/verypy/classic_heuristics/petalvrp.py
index 391e921..2212c79 100644
--- a/verypy/classic_heuristics/petalvrp.py
+++ b/verypy/classic_heuristics/petalvrp.py
@@ -365,7 +365,7 @@ def _decision_variables_to_petals(X, active_ptls, relaxed_ptls):
             # relaxed solution has additional decision variables for choosing
             #  which constraints to relax, skip them
             break
-        if v:
+        if v > 0.5: # the solver has an integrality tolerance
             if j<nactive:
                 r_w_idx = (list(active_ptls.routes[j]), j)
             else:
-- 
2.43.0


From 40b6652ba9b0cd35ca7c629c25c0e0d946ffd834 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:02:00 +0000
Subject: [PATCH 045/108] fix: GAP crashed if all customers are at the same
 location and there is no capacity

---
 verypy/classic_heuristics/gapvrp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/verypy/classic_heuristics/gapvrp.py b/verypy/classic_heuristics/gapvrp.py
index 777ed45..9b6108d 100644
--- a/verypy/classic_heuristics/gapvrp.py
+++ b/verypy/classic_heuristics/gapvrp.py
@@ -349,7 +349,7 @@ def _sweep_seed_points(points, D, d, C, K, trial=0):
     
     depot_x = points[0][0]
     depot_y = points[0][1]
-    for k, grouped_cone in enumerate(grouped_cones):
+    for k, grouped_cone in enumerate(grouped_cones[:K]):
         if __debug__:
             log(DEBUG-3," ===========================================")
             log(DEBUG-3," #%d %s"%(k, str(grouped_cone)))
-- 
2.43.0


From 448ae404b3bbcabc4506d204f9c4f6ed410ffdaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:02:00 +0000
Subject: [PATCH 046/108] fix: Petal routes could violate the cost limit when a
 visit was removed

---
 verypy/classic_heuristics/petalvrp.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/verypy/classic_heuristics/petalvrp.py b/verypy/classic_heuristics/petalvrp.py
index 2212c79..c6588b3 100644
--- a/verypy/classic_heuristics/petalvrp.py
+++ b/verypy/classic_heuristics/petalvrp.py
@@ -852,6 +852,10 @@ def petal_init(points, D, d, C, L, K=None,
                                          "multiple times and remove those "+
                                          "visits that are unnecessary")
                         sol_feasible = _remove_multiserved(chosen_ptl_routes, D)
+                        # Without triangle inequality (e.g., due to rounding)
+                        #  leaving a visit out may make the route more costly.
+                        if L and any(objf(r,D)-S_EPS>L for r in chosen_ptl_routes):
+                            sol_feasible = False
                     else:
                         # Once the first feasible solution is found, we no longer 
                         #  accept infeasible ones!
@@ -971,6 +975,8 @@ def petal_init(points, D, d, C, L, K=None,
                     ird.update_node_set()
                     ird.normalize()
                     tuple_r = tuple(ird.route)
+                    if L and ird.cost-S_EPS>L:
+                        continue # D does not follow the triangle inequality
                     if len(tuple_r)>2 and tuple_r not in seen_ptls:
                         relaxed_ptls.routes.append( ird.route )
                         relaxed_ptls.costs.append( ird.cost ) 
-- 
2.43.0


From 95db6c8429e2f888e1a365f954b04125b1fe7d00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:31 +0000
Subject: [PATCH 047/108] fix: interrupted savings merge could serve customers
 twice

---
 verypy/classic_heuristics/parallel_savings.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/verypy/classic_heuristics/parallel_savings.py b/verypy/classic_heuristics/parallel_savings.py
index 6b14a5f..db950f9 100644
--- a/verypy/classic_heuristics/parallel_savings.py
+++ b/verypy/classic_heuristics/parallel_savings.py
@@ -168,9 +168,9 @@ def parallel_savings_init(D, d, C, L=None, minimize_K=False,
             # all future references to right_route are to merged route
             endnode_to_route[ routes[right_route][-1] ] = left_route
             
-            # merge with list concatenation
-            routes[left_route].extend( routes[right_route] )
-            routes[right_route] = None
+            # merge with list concatenation (in one go, if interrupted)
+            routes[left_route], routes[right_route] = \
+                routes[left_route]+routes[right_route], None
             
             if __debug__:
                 dbg_sol = routes2sol(routes)
-- 
2.43.0


From 3930e17690e6074a2573ba386a666cdb709d3506 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:31 +0000
Subject: [PATCH 048/108] fix: savings heuristics swallowed an interruption
 without a solution

---
 verypy/classic_heuristics/gaskell_savings.py     | 2 +-
 verypy/classic_heuristics/paessens_savings.py    | 2 +-
 verypy/classic_heuristics/suppression_savings.py | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/verypy/classic_heuristics/gaskell_savings.py b/verypy/classic_heuristics/gaskell_savings.py
index 508bda8..11fcedb 100644
--- a/verypy/classic_heuristics/gaskell_savings.py
+++ b/verypy/classic_heuristics/gaskell_savings.py
@@ -97,9 +97,9 @@ def gaskell_savings_init(D,d,C,L, minimize_K=False, savings_method="both"):
             sol = parallel_savings_init(D,d,C,L,minimize_K,sav_f)
         except KeyboardInterrupt as e:  #or SIGINT
             # lambda or pi was interrupted
+            interrupted = True
             if len(e.args)>0 and type(e.args[0]) is list:
                 sol = e.args[0]
-                interrupted = True
         if sol:
             sol_f = objf(sol, D)
             sol_K = sol.count(0)-1
diff --git a/verypy/classic_heuristics/paessens_savings.py b/verypy/classic_heuristics/paessens_savings.py
index 46b60ef..439efde 100644
--- a/verypy/classic_heuristics/paessens_savings.py
+++ b/verypy/classic_heuristics/paessens_savings.py
@@ -115,9 +115,9 @@ def paessens_savings_init(D,d,C,L, minimize_K=False,
             sol = without_empty_routes(sol)
         except KeyboardInterrupt as e: # or SIGINT
             # some parameter combination was interrupted
+            interrupted = True
             if len(e.args)>0 and type(e.args[0]) is list:
                 sol = e.args[0]
-                interrupted = True
         if sol:
             sol_f = objf(sol, D)
             sol_K = sol.count(0)-1
diff --git a/verypy/classic_heuristics/suppression_savings.py b/verypy/classic_heuristics/suppression_savings.py
index a252244..1f9c476 100644
--- a/verypy/classic_heuristics/suppression_savings.py
+++ b/verypy/classic_heuristics/suppression_savings.py
@@ -139,9 +139,9 @@ def suppression_savings_init(D,d,C,L, minimize_K=False, Lprime="auto"):
             sol_f = objf(sol, D)
             sol_K = sol.count(0)-1
         except KeyboardInterrupt as e: # or SIGINT
+            interrupted = True
             if len(e.args)>0 and type(e.args[0]) is list:
                 sol = e.args[0]
-                interrupted = True
         if sol:
             sol_f = objf(sol, D)
             sol_K = sol.count(0)-1
-- 
2.43.0


From 8f81278d501d054623858dd766725a77e767f4f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:13 +0000
Subject: [PATCH 049/108] fix: interrupted sequential savings could serve a
 customer twice

---
 verypy/classic_heuristics/sequential_savings.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/verypy/classic_heuristics/sequential_savings.py b/verypy/classic_heuristics/sequential_savings.py
index 85fb182..88260dd 100644
--- a/verypy/classic_heuristics/sequential_savings.py
+++ b/verypy/classic_heuristics/sequential_savings.py
@@ -201,9 +201,10 @@ def sequential_savings_init(D, d, C, L=None, minimize_K=False,
     except KeyboardInterrupt:
         interrupted_solution = solution
         if emerging_route_nodes:
-            emerging_route_nodes.append(0)
-            interrupted_solution+=emerging_route_nodes
-        interrupted_solution+=routes2sol([n] for n in unrouted)[1:]
+            interrupted_solution+=[n for n in emerging_route_nodes if n!=0]+[0]
+        # note: a customer may be already on the emerging route but not removed
+        interrupted_solution+=routes2sol([n] for n in unrouted
+                                         if n not in interrupted_solution)[1:]
         raise KeyboardInterrupt(interrupted_solution)
                  
     return solution
-- 
2.43.0


From 0ccb18cb0d6288b38ae84bcb6e9cf1e026592454 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:13 +0000
Subject: [PATCH 050/108] fix: interrupted cheapest insertion could serve
 customers twice or not at all

---
 verypy/classic_heuristics/cheapest_insertion.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/verypy/classic_heuristics/cheapest_insertion.py b/verypy/classic_heuristics/cheapest_insertion.py
index 0b73663..dd1d7ad 100644
--- a/verypy/classic_heuristics/cheapest_insertion.py
+++ b/verypy/classic_heuristics/cheapest_insertion.py
@@ -402,9 +402,12 @@ def cheapest_insertion_init(D, d, C, L=None, minimize_K=False,
     
                 route_datas[route_index] = rd            
     except KeyboardInterrupt:  #or SIGINT
-        interrupted_sol = [0]+_EmergingRouteData.export_solution(route_datas)\
+        # note: a route may be already completed but not replaced with a new one
+        interrupted_sol = [0]+_EmergingRouteData.export_solution(
+                                [rd for rd in route_datas
+                                 if not any(rd is crd for crd in complete_routes)])\
                           +_EmergingRouteData.export_solution(complete_routes)
-        interrupted_sol.extend( routes2sol([n] for n in unrouted
+        interrupted_sol.extend( routes2sol([n] for n in range(1,len(D))
                                            if n not in interrupted_sol)[1:] )
         raise KeyboardInterrupt(interrupted_sol)
                               
-- 
2.43.0


From 0255009ce0e7241f1132e5a1a7804a9da1f12fe5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:13 +0000
Subject: [PATCH 051/108] fix: interrupted Mole & Jameson could contain an
 infeasible route

---
 .../classic_heuristics/mole_jameson_insertion.py | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/verypy/classic_heuristics/mole_jameson_insertion.py b/verypy/classic_heuristics/mole_jameson_insertion.py
index cacc096..e8d39a1 100644
--- a/verypy/classic_heuristics/mole_jameson_insertion.py
+++ b/verypy/classic_heuristics/mole_jameson_insertion.py
@@ -52,15 +52,20 @@ __status__ = "Development"
 
 def _try_insert_2opt_and_update(insertion, rd, D, L, minimize_K):
     
-    inserted = rd.route.insert(insertion.customer, insertion.before_node)   
-    #print("inserting", insertion, "resulting to", list(rd.route))
-
     ## keep the route 2-optimal
     # unfortunately we cannot do local_search.py do_2opt_move on the reoute,
     #  because it is an dllist. However, as the route is kept 2-optimal, it 
     #  is probable that not all search attempts lead to updating the route,
     #  so convert and udpate only as needed.
-    route_2opt_improved = list(rd.route)
+    # Note: do not touch the route itself before the insertion is accepted, as
+    #  the route is in the solution if the algorithm gets interrupted.
+    route_2opt_improved = []
+    node = rd.route.first
+    while node is not None:
+        if node==insertion.before_node:
+            route_2opt_improved.append(insertion.customer)
+        route_2opt_improved.append(node.value)
+        node = node.next
     total_delta = insertion.cost_delta
     applied_2opt_moves = False
     while True:
@@ -81,12 +86,10 @@ def _try_insert_2opt_and_update(insertion, rd, D, L, minimize_K):
             if __debug__:
                 log(DEBUG-2,("Rejecting insertion of n%d "%insertion.customer)+
                             ("as it is expected make solution worse."))
-            rd.route.remove(inserted) # reverse the change
             return False, None
     
     if L and rd.cost+total_delta-S_EPS > L:
         # The L constraint cannot be satisfied, even with 2-opt
-        rd.route.remove(inserted) # reverse the change
         return False, None
     
     rd.cost += total_delta
@@ -122,6 +125,7 @@ def _try_insert_2opt_and_update(insertion, rd, D, L, minimize_K):
         return True, new_edges
     
     else:
+        inserted = rd.route.insert(insertion.customer, insertion.before_node)
         new_edges = [ (insertion.after_node, inserted), (inserted, insertion.before_node) ]
         return True, new_edges
 
-- 
2.43.0


From 4362d256f3ab011b311faa54f739ab0174f0f14c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:13 +0000
Subject: [PATCH 052/108] fix: Mole & Jameson swallowed an interruption without
 a solution

---
 verypy/classic_heuristics/mole_jameson_insertion.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/verypy/classic_heuristics/mole_jameson_insertion.py b/verypy/classic_heuristics/mole_jameson_insertion.py
index e8d39a1..3d71299 100644
--- a/verypy/classic_heuristics/mole_jameson_insertion.py
+++ b/verypy/classic_heuristics/mole_jameson_insertion.py
@@ -272,9 +272,9 @@ def mole_jameson_insertion_init(D, d, C, L=None, minimize_K=False,
             
         except KeyboardInterrupt as e: #or SIGINT
             # some of the strain function insertion runs was interrupted
+            interrupted = True
             if len(e.args)>0 and type(e.args[0]) is list:
                 sol = e.args[0]
-                interrupted = True
            
         if sol:
             sol_f = objf(sol, D)
-- 
2.43.0


From e09cd18fe57f4408842e3f8d92f471ecb0e5c15a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:31 +0000
Subject: [PATCH 053/108] fix: interrupted nearest neighbor failed or served
 customers twice

---
 verypy/classic_heuristics/nearest_neighbor.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/verypy/classic_heuristics/nearest_neighbor.py b/verypy/classic_heuristics/nearest_neighbor.py
index 39a2ae3..9762274 100644
--- a/verypy/classic_heuristics/nearest_neighbor.py
+++ b/verypy/classic_heuristics/nearest_neighbor.py
@@ -260,8 +260,9 @@ def nearest_neighbor_init(D, d, C, L=None,
                         log(DEBUG-1, "Constraint violated, storing route #%d as %s (%.2f)"%
                             (k,str(current_route), objf(current_route,D)))
                     
-                    sol.extend( current_route[1:] )
+                    # (release first, to not store the route twice if interrupted)
                     route_nodes[k] = None
+                    sol.extend( current_route[1:] )
                     # Did not add a node (as there was no capacity left)
                     #  do not increment k, as it is still the turn of this
                     #  route to get a new node.
@@ -319,7 +320,9 @@ def nearest_neighbor_init(D, d, C, L=None,
             if sol:
                 unroutedr = [[n] for n in range(N)
                              if (n not in sol)]
-                if sol and len(sol)>1:
+                if not unroutedr:
+                    interrupted_sol = sol
+                elif sol and len(sol)>1:
                     interrupted_sol = sol[:-1]+routes2sol( unroutedr )
                 else:
                     interrupted_sol = routes2sol( unroutedr )
-- 
2.43.0


From 50f60c909bb08d286bdea55ee1348493a658da34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:18 +0000
Subject: [PATCH 054/108] fix: interrupted CMT79 could fail or leave customers
 out

---
 verypy/classic_heuristics/cmt_2phase.py | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/verypy/classic_heuristics/cmt_2phase.py b/verypy/classic_heuristics/cmt_2phase.py
index acdca43..a072a9b 100644
--- a/verypy/classic_heuristics/cmt_2phase.py
+++ b/verypy/classic_heuristics/cmt_2phase.py
@@ -57,16 +57,16 @@ def _first_seed(D, d, unrouted):
     return unrouted[0]
 
 def _farthest_seed(D, d, unrouted):
-    largest_D_0l_unrouted_idx = int(np.argmax( D[[0], unrouted] ))
+    largest_D_0l_unrouted_idx = int(np.argmax( D[[0], list(unrouted)] ))
     return unrouted[largest_D_0l_unrouted_idx]
 
 def _closest_seed(D, d, unrouted):
-    largest_D_0l_unrouted_idx = int(np.argmin( D[[0], unrouted] ))
+    largest_D_0l_unrouted_idx = int(np.argmin( D[[0], list(unrouted)] ))
     return unrouted[largest_D_0l_unrouted_idx]
 
 def _biggest_seed(D, d, unrouted):
     npd = np.array(d)
-    largest_d_unrouted_idx = int(np.argmax(npd[unrouted]))
+    largest_d_unrouted_idx = int(np.argmax(npd[list(unrouted)]))
     return unrouted[largest_d_unrouted_idx]
 
 def _phase_one(lambda_multiplier, D,d,C,L, seed_f, rr):
@@ -110,9 +110,10 @@ def _phase_one(lambda_multiplier, D,d,C,L, seed_f, rr):
             
             ## Step 2: Compute savings
             
-            s_vals = (D[[0],unrouted]+lambda_multiplier*
-                      D[unrouted,[route_seed_k]]).tolist()
-            savings = list(zip(s_vals, unrouted))
+            unrouted_l = list(unrouted)
+            s_vals = (D[[0],unrouted_l]+lambda_multiplier*
+                      D[unrouted_l,[route_seed_k]]).tolist()
+            savings = list(zip(s_vals, unrouted_l))
             savings.sort()
             for best_saving, i in savings:
                 ## Step 3: insert until feasibility is broken
@@ -179,7 +180,7 @@ def _phase_one(lambda_multiplier, D,d,C,L, seed_f, rr):
             total_cost += route_cost
             sol+=route
     except KeyboardInterrupt:  #or SIGINT
-        interrupted_sol = sol+routes2sol([n] for n in unrouted if n not in sol)
+        interrupted_sol = sol+routes2sol([n] for n in range(1,N) if n not in sol)
         raise KeyboardInterrupt(interrupted_sol)
         
     sol+=[0]
@@ -274,7 +275,7 @@ def _phase_two(mu_multiplier,route_seeds, D,d,C,L, rr,
             ## Step 2.1: Choose a (any) route to add customers to.        
         
             # some nodes may have been routed, update these
-            eps_unrouted = eps[:,unrouted_nodes]
+            eps_unrouted = eps[:,list(unrouted_nodes)]
             
             ## Step 1.2: Associate each node to a route
             # note: the assignments cannot be calculated beforehand, as we do 
@@ -397,7 +398,7 @@ def _phase_two(mu_multiplier,route_seeds, D,d,C,L, rr,
                                                   route_l_updated) #cost state
     except KeyboardInterrupt: #or SIGINT
         rs_sol, _ = _routestates2solution(routes, D)
-        interrupted_sol = rs_sol[:-1]+routes2sol([n] for n in unrouted_nodes
+        interrupted_sol = rs_sol[:-1]+routes2sol([n] for n in range(1,N)
                                                 if n not in rs_sol)
         raise KeyboardInterrupt(interrupted_sol)
     
-- 
2.43.0


From f80495bcced8676dd2452c1ecab8522422a3c0b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:18 +0000
Subject: [PATCH 055/108] fix: interrupted matching based savings failed with a
 KeyError

---
 verypy/classic_heuristics/matchingvrp.py | 24 +++++++++++++++---------
 1 file changed, 15 insertions(+), 9 deletions(-)

diff --git a/verypy/classic_heuristics/matchingvrp.py b/verypy/classic_heuristics/matchingvrp.py
index fa85c12..e075bec 100644
--- a/verypy/classic_heuristics/matchingvrp.py
+++ b/verypy/classic_heuristics/matchingvrp.py
@@ -146,6 +146,13 @@ def _calculate_savings(rs1,rs2,demand_cache,tsp_cache,W,D,d,C,L,solve_tsp):
         -s1s2_len
     return s
 
+def _get_greedy_sol(nodes, cache, D):
+    # a fallback for the routes the TSP solver did not have time to solve
+    if not nodes in cache:
+        greedy_routing = [0]+[n for n in nodes if n!=0]+[0]
+        cache[nodes] = (greedy_routing, objf(greedy_routing, D))
+    return cache[nodes]
+
 def _geedy_merge(D, d, C, L, W, savings, route_sets, tsp_cache, demand_cache):
     """ This is not the part of the main algorithm proper but a greedy fallback 
     the procedure relies on in case of an interrupt. It simply uses the 
@@ -172,7 +179,7 @@ def _geedy_merge(D, d, C, L, W, savings, route_sets, tsp_cache, demand_cache):
             nodes_ij = nodes_i.union(nodes_j)
             
             if nodes_ij not in tsp_cache:
-                greedy_routing = [0]+list(nodes_ij)+[0]
+                greedy_routing = [0]+[n for n in nodes_ij if n!=0]+[0]
                 greedy_f = objf(greedy_routing, D)
                 if not L or greedy_f-S_EPS<L:
                     # remember for the next stage
@@ -198,15 +205,14 @@ def _geedy_merge(D, d, C, L, W, savings, route_sets, tsp_cache, demand_cache):
             # get nodes, TSP chain, demand, and lenght for both routes
             nodes_i = route_sets[route_i]
             nodes_j = route_sets[route_j]
-            chain_i = tsp_cache[nodes_i][0][1:-1]
-            l_i = tsp_cache[nodes_i][1]
-            d_i = _get_demand(nodes_i, demand_cache, d)        
-            chain_j = tsp_cache[nodes_j][0][1:-1]
-            l_j = tsp_cache[nodes_j][1]
-            d_j = _get_demand(nodes_j, demand_cache, d)
+            route_sol_i, l_i = _get_greedy_sol(nodes_i, tsp_cache, D)
+            chain_i = route_sol_i[1:-1]
+            route_sol_j, l_j = _get_greedy_sol(nodes_j, tsp_cache, D)
+            chain_j = route_sol_j[1:-1]
             
             # check constraints
-            if C and d_i+d_j-C_EPS>C: continue
+            if C and _get_demand(nodes_i, demand_cache, d)\
+                    +_get_demand(nodes_j, demand_cache, d)-C_EPS>C: continue
             na, nb, nc, nd = chain_i[0], chain_i[-1], chain_j[0], chain_j[-1]
             alt_costs = [l_i+l_j+D[nb,nc]-D[nb,0]-D[nc,0], #ab-cd
                          l_i+l_j+D[na,nc]-D[na,0]-D[nc,0], #ba-cd
@@ -231,7 +237,7 @@ def _geedy_merge(D, d, C, L, W, savings, route_sets, tsp_cache, demand_cache):
     greedy_solution = []
     for nodes in route_sets:
         if isinstance(nodes, int): continue
-        greedy_solution +=tsp_cache[nodes][0][:-1]
+        greedy_solution += _get_greedy_sol(nodes, tsp_cache, D)[0][:-1]
     greedy_solution.append(0)
     return greedy_solution 
         
-- 
2.43.0


From 44b50340ae6dd089cd84014f46df2d08d7969a43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:43 +0000
Subject: [PATCH 056/108] fix: Petal swallowed an interruption or passed on an
 infeasible solution

---
 verypy/classic_heuristics/petalvrp.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/verypy/classic_heuristics/petalvrp.py b/verypy/classic_heuristics/petalvrp.py
index c6588b3..a81bdfd 100644
--- a/verypy/classic_heuristics/petalvrp.py
+++ b/verypy/classic_heuristics/petalvrp.py
@@ -874,7 +874,7 @@ def petal_init(points, D, d, C, L, K=None,
                 elif K_constraint and K_constraint<N:
                     ptl_set = PTL_SET.RESTRICTED
                     K_constraint = K_constraint+1
-                else:
+                elif not interrupted:
                     return best_sol
                 continue
             
@@ -993,7 +993,7 @@ def petal_init(points, D, d, C, L, K=None,
             break #the main loop
                 
     if interrupted:
-        raise KeyboardInterrupt(best_sol)
+        raise KeyboardInterrupt(best_sol if best_sol_feasible else None)
         
     return best_sol 
         
-- 
2.43.0


From c8dda2ac262084151045fccfa8ca5f30b2eae09e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:43 +0000
Subject: [PATCH 057/108] fix: route first cluster second did not find the
 optimal partition

---
 verypy/classic_heuristics/rfcs.py | 26 ++++++++++++++++----------
 1 file changed, 16 insertions(+), 10 deletions(-)

diff --git a/verypy/classic_heuristics/rfcs.py b/verypy/classic_heuristics/rfcs.py
index 429679b..226d86b 100644
--- a/verypy/classic_heuristics/rfcs.py
+++ b/verypy/classic_heuristics/rfcs.py
@@ -69,9 +69,7 @@ def _partition_to_routes_with_cost_matrix(D, d, C, L, giant_tour,
         while True:
             cum_demand = 0.0
             
-            v_idx = u_idx+1
-            if v_idx==gtl:
-                v_idx = 0
+            v_idx = (u_idx+1)%gtl
                 
             # remember prev route to make local search initial solution better 
             #  (and thus, convergence faster)
@@ -99,11 +97,12 @@ def _partition_to_routes_with_cost_matrix(D, d, C, L, giant_tour,
                 next_split[u_idx,v_idx] = v_idx
                 
                 # leave out the last node of the giant tour (same as the first)
+                # (and stop after all of the customers are on the same route)
+                if v_idx==u_idx:
+                    break
                 v_idx+=1
                 if v_idx==gtl:
                     v_idx = 0
-                if v_idx==u_idx:
-                    break
             
             # leave out the last node of the giant tour (same as the first)
             u_idx+=1
@@ -116,11 +115,18 @@ def _partition_to_routes_with_cost_matrix(D, d, C, L, giant_tour,
     #  note that we cannot use floyd_warshall from scipy.sparse.csgraph, as 
     #  this initializes the i==i to 0, which is exactly the distance we are 
     #  interested in!
-    for i in range(N):
-        for j in range(N):
-            for k in range(N):
-                if sequence_D[i,j] > sequence_D[i,k]+sequence_D[k,j]:
-                    sequence_D[i,j] = sequence_D[i,k]+sequence_D[k,j]
+    # The intermediate k has to be in the outermost loop, and it has to be on the
+    #  way from i to j (or the customers in between would be visited twice).
+    for k in range(gtl):
+        for i in range(gtl):
+            sequence_D_ik = sequence_D[i,k]
+            if sequence_D_ik==np.inf:
+                continue
+            # from k onwards to j, until back at i
+            for j_steps in range(1,(i-k)%gtl+1):
+                j = (k+j_steps)%gtl
+                if sequence_D[i,j] > sequence_D_ik+sequence_D[k,j]:
+                    sequence_D[i,j] = sequence_D_ik+sequence_D[k,j]
                     next_split[i,j] = next_split[i,k]
     
     # build a solution based on the Floyd's algorithm *next* matrix for the 
-- 
2.43.0


From d6ec1d046e391c860aaebe4f75745acee2a0a159 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:07 +0000
Subject: [PATCH 058/108] fix: interrupted route first cluster second crashed
 or was infeasible

---
 verypy/classic_heuristics/rfcs.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/verypy/classic_heuristics/rfcs.py b/verypy/classic_heuristics/rfcs.py
index 226d86b..8145a97 100644
--- a/verypy/classic_heuristics/rfcs.py
+++ b/verypy/classic_heuristics/rfcs.py
@@ -132,6 +132,8 @@ def _partition_to_routes_with_cost_matrix(D, d, C, L, giant_tour,
     # build a solution based on the Floyd's algorithm *next* matrix for the 
     #  least cost tour, 
     best_start_idx = np.argmin(sequence_D.diagonal())
+    if interrupted and sequence_D[best_start_idx,best_start_idx]==np.inf:
+        raise KeyboardInterrupt() # too early, there is no solution to pass on
     sol = [0]
     sol_K = 0
     sol_f = 0.0
@@ -151,10 +153,8 @@ def _partition_to_routes_with_cost_matrix(D, d, C, L, giant_tour,
             if u_idx+1 == gtl:
                 u_idx = -1
             route[-1] = giant_tour[u_idx+1]
-            if not interrupted:
-                route, _ = partition_tsp_opt_algo(D, route)
-            else:
-                route.append(0)
+            # (needed also when interrupted, or L constr. could be violated)
+            route, route_cost = partition_tsp_opt_algo(D, route)
             u_idx+=1
         
         if not interrupted:
-- 
2.43.0


From 6a79a6aaa038bf3867c3b90eaa2915db3fa84d8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:42:34 +0000
Subject: [PATCH 059/108] fix: ties in cheapest insertion were broken by the
 memory addresses

---
 verypy/classic_heuristics/cheapest_insertion.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/verypy/classic_heuristics/cheapest_insertion.py b/verypy/classic_heuristics/cheapest_insertion.py
index dd1d7ad..38a87b1 100644
--- a/verypy/classic_heuristics/cheapest_insertion.py
+++ b/verypy/classic_heuristics/cheapest_insertion.py
@@ -18,6 +18,7 @@ from builtins import range
 
 from collections import namedtuple
 from heapq import heappush, heappop
+from itertools import count
 from logging import log, DEBUG, WARNING
 
 from verypy.util import objf, routes2sol
@@ -50,6 +51,7 @@ class _EmergingRouteData:
     constructed in the same place. """
     def __init__(self, seed_customers, D, d):
         self.potential_insertions = []
+        self.insertion_counter = count() # used to break ties
         if seed_customers:
             lroute = [0]+seed_customers+[0]
             self.route = dllist(lroute)
@@ -123,7 +125,7 @@ def _new_potential_insertions(unrouted, D, d, C, L, rd, after, before,
         #sorting_key = (-strain, +D[after.value, customer]
         #                        +D[customer, before.value], -customer)
         
-        heappush( rd.potential_insertions, (sorting_key, id(insertion), insertion) )
+        heappush( rd.potential_insertions, (sorting_key, next(rd.insertion_counter), insertion) )
       
 
 def _seems_valid_insertion(insertion, route_current_d, unrouted, D, d, C):  
-- 
2.43.0


From c0151e4be54f0cc8fc5c5c1de71744e3ebd90081 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:45:18 +0000
Subject: [PATCH 060/108] fix: interrupted Gillett & Miller left the distance
 matrix changed

---
 verypy/classic_heuristics/gillet_miller_sweep.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/verypy/classic_heuristics/gillet_miller_sweep.py b/verypy/classic_heuristics/gillet_miller_sweep.py
index d07e4ec..050a477 100644
--- a/verypy/classic_heuristics/gillet_miller_sweep.py
+++ b/verypy/classic_heuristics/gillet_miller_sweep.py
@@ -48,12 +48,14 @@ def _shortest_path_through_nodes(D, from_node, to_node, through_nodes):
         return [from_node,to_node], D[from_node, to_node]
 
     old_path_end_distance = D[from_node, to_node]
-    D[from_node, to_node] = 0.0
-    D[to_node, from_node] = 0.0
-    route,cost = solve_tsp(D, [from_node]+list(through_nodes)+[to_node])
-    # restore original weights
-    D[from_node, to_node] = old_path_end_distance
-    D[to_node, from_node] = old_path_end_distance
+    try:
+        D[from_node, to_node] = 0.0
+        D[to_node, from_node] = 0.0
+        route,cost = solve_tsp(D, [from_node]+list(through_nodes)+[to_node])
+    finally:
+        # restore original weights (also if interrupted)
+        D[from_node, to_node] = old_path_end_distance
+        D[to_node, from_node] = old_path_end_distance
     
     # contingency plan for the special case where there are nodes that overlap 
     #  the depot. Check for it and fix it with a simple swap if needed.
-- 
2.43.0


From e14b80dffcc404d0799a157c8e8c6b2279f61306 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:07:38 +0000
Subject: [PATCH 061/108] fix: the savings heuristics changed the caller's
 array of demands

---
 verypy/classic_heuristics/parallel_savings.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/verypy/classic_heuristics/parallel_savings.py b/verypy/classic_heuristics/parallel_savings.py
index db950f9..f766bfd 100644
--- a/verypy/classic_heuristics/parallel_savings.py
+++ b/verypy/classic_heuristics/parallel_savings.py
@@ -92,7 +92,7 @@ def parallel_savings_init(D, d, C, L=None, minimize_K=False,
     
     ## 1. make route for each customer
     routes = [[i] for i in range(1,N)]
-    route_demands = d[1:] if C else [0]*N
+    route_demands = list(d[1:]) if C else [0]*N
     if L: route_costs = [D[0,i]+D[i,0] for i in range(1,N)]
     
     try:
-- 
2.43.0


From a6cc4b859c7bc9c8b174bbaff17cb44690c2d0a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:22:33 +0000
Subject: [PATCH 062/108] fix: --forbid crashed on unknown and capitalized
 algorithm names

---
 verypy/VeRyPy.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/verypy/VeRyPy.py b/verypy/VeRyPy.py
index 4e5c1e0..5c9f0cf 100644
--- a/verypy/VeRyPy.py
+++ b/verypy/VeRyPy.py
@@ -105,9 +105,9 @@ def main(overridden_args=None):
     # get algorithms
     algos = get_algorithms(app_args.active_algorithms)
     if app_args.forbid_algorithms:
-        forbidden_algos = [algo_name_aliases[algo_name]
+        forbidden_algos = [algo_name_aliases[algo_name.lower()]
                            for algo_name in app_args.forbid_algorithms
-                           if (algo_name in app_args.forbid_algorithms)]
+                           if (algo_name.lower() in algo_name_aliases)]
         algos = [a for a in algos if (a[0] not in forbidden_algos)]
 
     # get primary objective
-- 
2.43.0


From d5079d3d3e28fbe75940abeb2f29a93ccfa34689 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:22:33 +0000
Subject: [PATCH 063/108] fix: the improvement of the post-optimization was off
 by a factor of 100

---
 verypy/VeRyPy.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/verypy/VeRyPy.py b/verypy/VeRyPy.py
index 5c9f0cf..ca957fe 100644
--- a/verypy/VeRyPy.py
+++ b/verypy/VeRyPy.py
@@ -218,7 +218,7 @@ def main(overridden_args=None):
                         ls_sol_q = cvrp_ops.recalculate_objective(sol, D)
                     if ls_sol_q<sol_q:
                         if not app_args.minimal_output:
-                            print(" improved by %.2f%%."%(1-ls_sol_q/sol_q))
+                            print(" improved by %.2f%%."%(100.0*(1-ls_sol_q/sol_q)))
                         sol_q = ls_sol_q
                         sol_K = sol.count(0)-1
                     else:
-- 
2.43.0


From 54d95f75c0f9351ce62b623e397fa95ada560712 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:22:33 +0000
Subject: [PATCH 064/108] fix: algorithms selected with many aliases were run
 many times

---
 verypy/__init__.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/verypy/__init__.py b/verypy/__init__.py
index 4070a7d..6381d2b 100644
--- a/verypy/__init__.py
+++ b/verypy/__init__.py
@@ -184,4 +184,6 @@ def get_algorithms(names='all'):
                 algos.append( ("lr3o",)+get_lr3opt_algorithm() )  
         else:
             print(algo_name, "is not a valid algorithm name", file=sys.stderr)
-    return algos
+    # an algorithm may have been selected many times (e.g. by its aliases)
+    return [algo for i, algo in enumerate(algos)
+            if algo[0] not in [other[0] for other in algos[:i]]]
-- 
2.43.0


From b00f1e8a9b9aa3e49b32d5cfa1cc6fecbe0e0236 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:22:33 +0000
Subject: [PATCH 065/108] fix: the results were lost if the post-optimization
 was interrupted

---
 verypy/VeRyPy.py | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/verypy/VeRyPy.py b/verypy/VeRyPy.py
index ca957fe..7caa4ff 100644
--- a/verypy/VeRyPy.py
+++ b/verypy/VeRyPy.py
@@ -209,8 +209,19 @@ def main(overridden_args=None):
                     if not app_args.minimal_output:
                         print("Postoptimize with %s ..."%
                               ", ".join(app_args.local_search_operators),end="")
-                    sol = do_local_search(ls_ops, sol, D_c, d, C, L)
-                    sol = cvrp_ops.normalize_solution(sol)
+                    try:
+                        sol = do_local_search(ls_ops, sol, D_c, d, C, L)
+                        sol = cvrp_ops.normalize_solution(sol)
+                    except (KeyboardInterrupt, Exception) as e:
+                        # keep the solution of the heuristic
+                        if type(e) is KeyboardInterrupt:
+                            interrupted = True
+                            if not app_args.minimal_output:
+                                print("WARNING: Interrupted postoptimizing %s with %s"%
+                                      (bn, algo_abbreviation), file=sys.stderr)
+                        elif not app_args.minimal_output:
+                            print("ERROR: Failed to postoptimize %s with %s because %s"%
+                                  (bn, algo_abbreviation, str(e) ), file=sys.stderr)
                         
                     if app_args.show_solution_cost:
                         ls_sol_q = cvrp_ops.recalculate_objective(sol, D_c)
-- 
2.43.0


From 226ab866a61de669ad3a886e3d98e869d206c7d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:22:33 +0000
Subject: [PATCH 066/108] fix: collected results mixed up columns and problems
 with the same name

---
 verypy/VeRyPy.py | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/verypy/VeRyPy.py b/verypy/VeRyPy.py
index 7caa4ff..6413171 100644
--- a/verypy/VeRyPy.py
+++ b/verypy/VeRyPy.py
@@ -262,9 +262,9 @@ def main(overridden_args=None):
                 tightness = None
                 if C and sol_K:
                     tightness = (sum(d)/(C*sol_K))
-                if not bn in instance_data or sol_K<instance_data[bn][1]:
+                if not (bn,pfn) in instance_data or sol_K<instance_data[bn,pfn][1]:
                     #"N K C tightness L st"
-                    instance_data[bn] = (N,sol_K,C,"%.3f"%tightness if C else None,L,st)
+                    instance_data[bn,pfn] = (N,sol_K,C,"%.3f"%tightness if C else None,L,st)
                     
                 shared_cli.print_problem_information(
                     points, D_c, d, C, L, st, tightness,
@@ -281,7 +281,8 @@ def main(overridden_args=None):
                 print("\n")
                 
             short_algo_name = algo_name
-            results[bn][short_algo_name] = sol_q
+            # there can be problems with the same name in different folders
+            results[bn,pfn][short_algo_name] = sol_q
             
             if interrupted:
                 break # algo loop
@@ -295,9 +296,12 @@ def main(overridden_args=None):
         print("\n")
         print_title = True
         ls_label = "+".join(ls_algo_names)
+        # an interruption leaves some of the problems without all of the results
+        short_algo_names = sorted(set(algo_name for algo_results in results.values()
+                                      for algo_name in algo_results))
         for problem, algo_results in sorted(results.items()):
             algo_names = [ "%s+%s"%(algo_name,ls_label) if ls_algo_names else (algo_name)\
-                           for algo_name in sorted(algo_results.keys())]
+                           for algo_name in short_algo_names]
             
             if print_title:
                 instance_fields = "instance\t"
@@ -306,12 +310,12 @@ def main(overridden_args=None):
                     instance_fields+="N\tK*\tC\ttightness\tL\tst\t"
                 print(instance_fields+"\t".join(algo_names))
                 print_title=False
-            print(problem,end="")
+            print(problem[0],end="")
             if PRINT_INSTANCE_DATA:            
                 print("\t",end="")
                 print("\t".join( str(e) for e in instance_data.get(problem, [None]*6) ),end="")
-            for _, result in sorted(algo_results.items()):
-                print("\t", result,end="")
+            for algo_name in short_algo_names:
+                print("\t", algo_results.get(algo_name, "-"),end="")
             print()
     sys.stdout.flush()
     sys.stderr.flush()
-- 
2.43.0


From 249e4ba5d7b301673b5170f67072ab8c4570d5d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:22:34 +0000
Subject: [PATCH 067/108] fix: the command lines of the heuristics crashed if
 no solution was found

---
 verypy/shared_cli.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/verypy/shared_cli.py b/verypy/shared_cli.py
index 5f96cf2..c08f9e9 100644
--- a/verypy/shared_cli.py
+++ b/verypy/shared_cli.py
@@ -136,7 +136,7 @@ def read_and_solve_a_problem(problem_instance_path, with_algorithm_function,
                 best_sol = sol
                 best_f = sol_f
                 best_K = sol_K
-            if best_of_n>1 and verbosity>=1:
+            if best_sol and best_of_n>1 and verbosity>=1:
                 print("SOLUTION QUALITY %d of %d: %.2f"%
                       (repeat_n+1,best_of_n, objf(best_sol, D_c)))
             if print_measured_time or verbosity>=1:
@@ -152,6 +152,10 @@ def read_and_solve_a_problem(problem_instance_path, with_algorithm_function,
     if interrupted:
         raise KeyboardInterrupt()
     
+    if not best_sol:
+        print("WARNING: No solution was found", file=sys.stderr)
+        return None, None, None, elapsed
+    
     return best_sol, objf(best_sol, D), objf(best_sol, D_c), elapsed
     
 def get_a_problem_file_list(problem_paths, recursive=False):
@@ -309,7 +313,8 @@ def cli(init_name, init_desc, init_f):
             if interrupted:
                 break
                 
-        print_solution_statistics(best_sol, D, D_c, d, C, L, st, verbosity=verbosity)
+        if best_sol:
+            print_solution_statistics(best_sol, D, D_c, d, C, L, st, verbosity=verbosity)
     
     problem_file_list = get_a_problem_file_list([sys.argv[-1]])
     if not problem_file_list or "-h" in sys.argv or "--help" in sys.argv:
-- 
2.43.0


From a6b7f967dc3f2c26762718d0753aa666530d6aae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:22:34 +0000
Subject: [PATCH 068/108] fix: the TSP command line compared real costs for
 equality

---
 verypy/shared_cli.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/verypy/shared_cli.py b/verypy/shared_cli.py
index c08f9e9..48a63e2 100644
--- a/verypy/shared_cli.py
+++ b/verypy/shared_cli.py
@@ -240,7 +240,8 @@ def tsp_cli(tsp_f_name, tsp_f):
         tsp_o = objf(tsp_sol,D)
         print("SOLUTION:", str(tsp_sol))
         print("COST:", tsp_o)  
-        assert(tsp_f==tsp_o)
+        # (external solvers work with rounded distances)
+        assert(abs(tsp_f-tsp_o)<=1e-3*max(1.0, abs(tsp_o)))
     else:
         print("usage: tsp_solver_%s.py TSPLIB_file.tsp"%tsp_f_name, file=sys.stderr)
          
-- 
2.43.0


From 29837adee368e23ee502afe83f6c9383445c5e77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:36:57 +0000
Subject: [PATCH 069/108] fix: a merge that makes the plan worse ended the
 savings procedure with other criteria

---
 verypy/classic_heuristics/parallel_savings.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/verypy/classic_heuristics/parallel_savings.py b/verypy/classic_heuristics/parallel_savings.py
index f766bfd..24abd5e 100644
--- a/verypy/classic_heuristics/parallel_savings.py
+++ b/verypy/classic_heuristics/parallel_savings.py
@@ -112,7 +112,9 @@ def parallel_savings_init(D, d, C, L=None, minimize_K=False,
             if ignore_negative_savings:
                 cw_saving = D[i,0]+D[0,j]-D[i,j]
                 if cw_saving<0.0:
-                    break
+                    # the list may be ordered by some other savings criterion,
+                    #  so there can still be merges that do improve
+                    continue
                 
             left_route = endnode_to_route[i]
             right_route = endnode_to_route[j]
-- 
2.43.0


From 2f566e818e4413a751221c7ac4c1ecb92af40e3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:38:58 +0000
Subject: [PATCH 070/108] fix: Tyagi's interchange took the last instead of the
 best improving one

---
 verypy/classic_heuristics/tyagi_nearest_neighbor.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/verypy/classic_heuristics/tyagi_nearest_neighbor.py b/verypy/classic_heuristics/tyagi_nearest_neighbor.py
index 290ced5..803eb43 100644
--- a/verypy/classic_heuristics/tyagi_nearest_neighbor.py
+++ b/verypy/classic_heuristics/tyagi_nearest_neighbor.py
@@ -150,6 +150,8 @@ def route_end_interchange(route, route_d, route_l, D, d, C, L,
               (not C and L and l_delta<best_l_delta)):
             # insert last_added back!
             to_add_back_idx = to_remove_idx
+            if C: best_d_delta = d_delta
+            else: best_l_delta = l_delta
     
     ## Found an improving interchange, now push the node to be removed back to 
     # the unrouted nodes. 
-- 
2.43.0


From 3e7e454ae78de7ba9f4586960bd38a20284eeed4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:39:28 +0000
Subject: [PATCH 071/108] fix: closest and farthest were swapped in the seeding
 of the nearest neighbour routes

---
 verypy/classic_heuristics/nearest_neighbor.py       | 8 ++++----
 verypy/classic_heuristics/tyagi_nearest_neighbor.py | 2 +-
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/verypy/classic_heuristics/nearest_neighbor.py b/verypy/classic_heuristics/nearest_neighbor.py
index 9762274..c812140 100644
--- a/verypy/classic_heuristics/nearest_neighbor.py
+++ b/verypy/classic_heuristics/nearest_neighbor.py
@@ -87,9 +87,9 @@ def get_seed_node(seed_mode, D, node_nearest_neighbors, served):
     N = len(node_nearest_neighbors)
     seed_node = None
     while True:
-        if seed_mode=='farthest':
+        if seed_mode=='closest':
             seed_node  = node_nearest_neighbors[0].popleft()[0]
-        elif seed_mode=='closest':
+        elif seed_mode=='farthest':
             seed_node  = node_nearest_neighbors[0].popright()[0]
         elif seed_mode=='nearest':
             nearest_distance = float('inf')
@@ -118,7 +118,7 @@ def get_seed_node(seed_mode, D, node_nearest_neighbors, served):
             
 def nearest_neighbor_init(D, d, C, L=None, 
                           emerging_route_count=1,
-                          initialize_routes_with="farthest",
+                          initialize_routes_with="closest",
                           add_only_to_end=False,
                           forbidden_nodes=None,
                           route_improvement_callback=None):
@@ -134,7 +134,7 @@ def nearest_neighbor_init(D, d, C, L=None,
     * L is the optional constraint for the maximum route length/duration/cost.
     
     * emerging_route_count sets how many routes are constructed in parallel
-    * initialize_routes_with can be "farthest" (default) or "closest", which
+    * initialize_routes_with can be "closest" (default) or "farthest", which
        selects if the unrouted node farthest from the depot or closest to the
        depot is used to initialize the emerging route. Can also be "nearest", 
        and then the route is initialized with the two unrouted nearest 
diff --git a/verypy/classic_heuristics/tyagi_nearest_neighbor.py b/verypy/classic_heuristics/tyagi_nearest_neighbor.py
index 803eb43..53c1257 100644
--- a/verypy/classic_heuristics/tyagi_nearest_neighbor.py
+++ b/verypy/classic_heuristics/tyagi_nearest_neighbor.py
@@ -45,7 +45,7 @@ __maintainer__ = "Jussi Rasku"
 __email__ = "jussi.rasku@gmail.com"
 __status__ = "Development"
 
-TYAGI_SEED_METHOD = "farthest"
+TYAGI_SEED_METHOD = "closest"
 
 def _calculate_penalty(sol_or_route, D, d, C):
     penalty = 0
-- 
2.43.0


From 142d78636353fb479e00edefd707131e792c4ad4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:39:44 +0000
Subject: [PATCH 072/108] fix: seeding nearest neighbour routes with nearest
 pairs failed when all were served

---
 verypy/classic_heuristics/nearest_neighbor.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/verypy/classic_heuristics/nearest_neighbor.py b/verypy/classic_heuristics/nearest_neighbor.py
index c812140..9944f52 100644
--- a/verypy/classic_heuristics/nearest_neighbor.py
+++ b/verypy/classic_heuristics/nearest_neighbor.py
@@ -108,6 +108,8 @@ def get_seed_node(seed_mode, D, node_nearest_neighbors, served):
                 if D[i,nearest] < nearest_distance:
                     seed_node  = i
                     nearest_distance = D[i,nearest]
+            if seed_node is None:
+                raise IndexError # all nodes are already served
         else:
             raise ValueError("Only 'farthest', 'closest', and "+
                              "'nearest' route initialization "+
-- 
2.43.0


From 158ee447b5358f1610d353a56ed6e2c13cbec866 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:50:19 +0000
Subject: [PATCH 073/108] fix: the sweep took the wrong customer off a too long
 last route

---
 verypy/classic_heuristics/sweep.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/verypy/classic_heuristics/sweep.py b/verypy/classic_heuristics/sweep.py
index 6e9c5bb..9a322a1 100644
--- a/verypy/classic_heuristics/sweep.py
+++ b/verypy/classic_heuristics/sweep.py
@@ -226,15 +226,22 @@ def do_one_sweep(N, D, d, C, L, routing_algo,
                 log(DEBUG-3, "Got TSP solution %s (%.2f)"%(str(tsp_sol),tsp_cost))
                      
             if L:
+                # if all are swept, the last one (at sweep_pos) is in the route
+                #  and it is the first one to be removed
+                end_pos = sweep_pos if sweep_node!=None else\
+                          _step(sweep_pos, step_inc, max_sweep_idx)
                 L_feasible_pos = _ensure_L_feasible(D, d, C, L, 
-                    current_route, sweep_pos, step_inc, max_sweep_idx, routed, 
+                    current_route, end_pos, step_inc, max_sweep_idx, routed, 
                     sweep_pos_to_node_idx, routing_algo)
                 current_route_cost_upper_bound = current_route.cost
                 
-                if L_feasible_pos!=sweep_pos:
+                if L_feasible_pos!=end_pos:
                     sweep_pos = L_feasible_pos  
                     if sweep_node!=None:
                         sweep_node = sweep_pos_to_node_idx(sweep_pos)
+                    else:
+                        # step to the first one of the removed nodes next
+                        sweep_pos = _step(sweep_pos, -step_inc, max_sweep_idx)
                     # route is full if L constraint was violated
                     route_complete = True
                     route_interesting = False
-- 
2.43.0


From d7256ad3658de9171282ff10d43eb08033534c45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:07:59 +0000
Subject: [PATCH 074/108] fix: route seeds fail on problems without any demand

---
 verypy/classic_heuristics/gapvrp.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/verypy/classic_heuristics/gapvrp.py b/verypy/classic_heuristics/gapvrp.py
index 9b6108d..6fe4160 100644
--- a/verypy/classic_heuristics/gapvrp.py
+++ b/verypy/classic_heuristics/gapvrp.py
@@ -275,7 +275,9 @@ def _sweep_seed_points(points, D, d, C, K, trial=0):
                         cone_fraction = min(1.0, (group_target-group_cum)/d[prev_node_i])
                     cone_wt = cone_fraction*d[prev_node_i]
                 else:
-                    cone_fraction = min(1.0, (group_target-group_cum)/(D[prev_node_i,i]))
+                    cone_fraction = 1.0
+                    if D[prev_node_i,i]!=0:
+                        cone_fraction = min(1.0, (group_target-group_cum)/(D[prev_node_i,i]))
                     cone_wt = cone_fraction*D[prev_node_i,i]
                 
                 group_cum+=cone_wt
@@ -290,8 +292,9 @@ def _sweep_seed_points(points, D, d, C, K, trial=0):
                     else:
                         log(DEBUG-3,"Node %d, added %.2f %% of cost (%.2f)" %\
                             (prev_node_i, cone_fraction*100, 0.5*D[prev_node_i,i]))
+                    # there may be nothing to share between the groups 
                     log(DEBUG-2,"Group %.2f %% full"%\
-                        (group_cum/group_target*100.0))
+                        (group_cum/group_target*100.0 if group_target else 100.0))
                     # pylint: enable=bad-string-format-type
                                     
                 if (group_target-group_cum)<EPS:  
-- 
2.43.0


From 60d11d7a24a98d02bf7cac5d0ca3689a59ffe593 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:08:34 +0000
Subject: [PATCH 075/108] fix: emerging route improvement of the sweep needs
 not both C and L

---
 verypy/classic_heuristics/gillet_miller_sweep.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/verypy/classic_heuristics/gillet_miller_sweep.py b/verypy/classic_heuristics/gillet_miller_sweep.py
index 050a477..e870c4b 100644
--- a/verypy/classic_heuristics/gillet_miller_sweep.py
+++ b/verypy/classic_heuristics/gillet_miller_sweep.py
@@ -153,7 +153,7 @@ def _improvement_callback(route_data, callback_datastructures,
     
     ## G&M Step 9    
     
-    if not ((L and D2-S_EPS<L) and (C and D2_demand-C_EPS<=C)):
+    if (L and D2-S_EPS>L) or (C and D2_demand-C_EPS>C):
         if __debug__:
             log(DEBUG-2,"G&M Step 9, rejecting replacement of KII=n%d with JJX=n%d"%
                   (to_remove_node_KII, candidate_node_JJX))
@@ -257,12 +257,12 @@ def _improvement_callback(route_data, callback_datastructures,
         D5_route_nodes.add(candidate_node_JII)
         D5_route,D5 = solve_tsp(D, list(D5_route_nodes))
         D5_demand = D2_demand+d[candidate_node_JII] if C else 0  
-        if not ((L and D5-S_EPS<L) and (C and D5_demand-C_EPS<=C)):
+        if (L and D5-S_EPS>L) or (C and D5_demand-C_EPS>C):
             if __debug__:
                 log(DEBUG-2, "G&M Step 13, rejecting replacement of KII=n%d with JJX=n%d and JII=n%d"%
                     (to_remove_node_KII, candidate_node_JJX, candidate_node_JII))
                 log(DEBUG-3, "  which would have formed a route %s (%.2f)"%(str(D5_route),D5))
-                if D5_demand-C_EPS>C:
+                if (C and D5_demand-C_EPS>C):
                     log(DEBUG-3," violating the capacity constraint")
                 else:
                     log(DEBUG-3," violating the maximum route cost constraint")
-- 
2.43.0


From d09cf7a351d5222b11e32781550e753a1330116e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:54:35 +0000
Subject: [PATCH 076/108] fix: parallel insertion crashed with more emerging
 routes than customers

---
 verypy/classic_heuristics/cheapest_insertion.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/verypy/classic_heuristics/cheapest_insertion.py b/verypy/classic_heuristics/cheapest_insertion.py
index 38a87b1..cfb1ccc 100644
--- a/verypy/classic_heuristics/cheapest_insertion.py
+++ b/verypy/classic_heuristics/cheapest_insertion.py
@@ -306,8 +306,11 @@ def cheapest_insertion_init(D, d, C, L=None, minimize_K=False,
     else:
         raise ValueError("Unknown route initialization method '%s'"%initialize_routes_with)
         
-    route_datas = [_initialize_new_route(seed_customers, unrouted, D, d)
-                   for k in range(emerging_route_count)]
+    route_datas = []
+    for k in range(emerging_route_count):
+        if not unrouted:
+            break # there are fewer customers than emerging routes
+        route_datas.append( _initialize_new_route(seed_customers, unrouted, D, d) )
     if __debug__:
         for ri, rd in enumerate(route_datas):
             log(DEBUG, "Initialized a new route #%d %s"%(ri, str(list(rd.route))))
-- 
2.43.0


From 07103c273390b536adeda4f2bf71f26e3b5868b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:54:35 +0000
Subject: [PATCH 077/108] fix: seeding sequential savings with savings crashed
 with one customer

---
 verypy/classic_heuristics/sequential_savings.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/verypy/classic_heuristics/sequential_savings.py b/verypy/classic_heuristics/sequential_savings.py
index 88260dd..8bc9469 100644
--- a/verypy/classic_heuristics/sequential_savings.py
+++ b/verypy/classic_heuristics/sequential_savings.py
@@ -98,8 +98,8 @@ def sequential_savings_init(D, d, C, L=None, minimize_K=False,
         seed_customers = sum(
             (clarke_wright_savings(unrouted, i, D) for i in range(1,N)), [])
         seed_customers.sort()
-        _,_,_,seed_customers = zip(*seed_customers)
-        seed_customers = list(seed_customers)
+        # if there is only one customer there are no savings
+        seed_customers = list(unrouted)+[j for _,_,_,j in seed_customers]
     elif callable(initialize_routes_with):
         seed_customers = initialize_routes_with(D)
     else:
-- 
2.43.0


From 1956a8d115de91f54940dfb8fd59dfce90f787da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:54:35 +0000
Subject: [PATCH 078/108] fix: GAP crashed on a violated cost limit without the
 adaptive weights

---
 verypy/classic_heuristics/gapvrp.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/verypy/classic_heuristics/gapvrp.py b/verypy/classic_heuristics/gapvrp.py
index 6fe4160..8681eab 100644
--- a/verypy/classic_heuristics/gapvrp.py
+++ b/verypy/classic_heuristics/gapvrp.py
@@ -788,6 +788,7 @@ def gap_init(points, D, d, C, L=None, st=None, K=None, minimize_K=True,
                 solved = False
                 sol_K = 0
                 take_next_seed = False
+                corrective_action = "try with another seed = %d"%(seed_trial+1)
                 try:
                     # Distribute the nodes to vehicles using the approxmate 
                     # service costs in D_s and by solving it as GAP
-- 
2.43.0


From 649e6aa4dfd14652d2d5c9dbea522d57d7a37e68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:54:35 +0000
Subject: [PATCH 079/108] fix: large demand seeds of GAP crashed on the second
 trial

---
 verypy/classic_heuristics/gapvrp.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/verypy/classic_heuristics/gapvrp.py b/verypy/classic_heuristics/gapvrp.py
index 8681eab..5ba9d23 100644
--- a/verypy/classic_heuristics/gapvrp.py
+++ b/verypy/classic_heuristics/gapvrp.py
@@ -530,7 +530,8 @@ def _large_demand_seed_points(points, D, d, C, K, trial=0):
         not_over_half_idxs = np.where( ~candidate_d_mask )[0].tolist()
         sorted_d = [(d[i], i) for i in not_over_half_idxs]
         sorted_d.sort(reverse=True)
-        sorted_d_idxs = list(zip(*sorted_d))[1]
+        # the depot is not a candidate
+        sorted_d_idxs = [i for _, i in sorted_d if i!=0]
         additional_large_d_idxs = sorted_d_idxs[max(0, trial-N):min(N,trial)]
         candidate_d_idxs+=additional_large_d_idxs
         candidate_d_mask[additional_large_d_idxs] = True
-- 
2.43.0


From 2bb1cae4cfe3896da18feb4a353cc6901d495a3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:54:35 +0000
Subject: [PATCH 080/108] fix: thoroughfare seeds of GAP crashed on few,
 duplicate or scattered nodes

---
 verypy/classic_heuristics/gapvrp.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/verypy/classic_heuristics/gapvrp.py b/verypy/classic_heuristics/gapvrp.py
index 5ba9d23..252a265 100644
--- a/verypy/classic_heuristics/gapvrp.py
+++ b/verypy/classic_heuristics/gapvrp.py
@@ -431,17 +431,18 @@ def _end_of_thoroughfares_seed_points(points, D, d, C, K, trial=0):
     
     # use a heuristic to get eps that finds all 2. closest nodes and 
     #  uses the median distance of those as the eps
-    N = len(d)
+    N = len(D)
     nnD = produce_nn_list(D)
-    nn = 2+trial%2+int(trial/4)
+    nn = min(2+trial%2+int(trial/4), N-1)
     nn2l = [nnS[nn][0] for nnS in nnD]
     nn2l.sort()
     min_size = 3#+int(trial/2)
-    eps = nn2l[int(N/2)]
+    # eps has to be positive even if the nodes are at the same location
+    eps = max(float(nn2l[int(N/2)]), S_EPS)
 
     ## Get non-core DBSCAN points    
     if __debug__:
-        log(DEBUG-2,"Doing DBSCAN with eps =", eps, " min_size =",min_size)
+        log(DEBUG-2,"Doing DBSCAN with eps = %.2f min_size = %d"%(eps, min_size))
     db = DBSCAN(eps=eps, min_samples=min_size).fit(points)   
     outliers_mask = db.labels_ == -1
     clustered_mask = db.labels_ != -1
@@ -493,6 +494,8 @@ def _end_of_thoroughfares_seed_points(points, D, d, C, K, trial=0):
                     log(DEBUG-3, "Ran out of core and non-core nodes, select %d seed nodes from outlier nodes %s"%
                         (K-len(seeds), str(candidate_idxs)))
             
+            if not candidate_idxs and candidate_mask is not outliers_mask:
+                continue # there may be no core nodes
         # maximize the distance to other seeds and depot
         if not seeds:
             D_to_seeds = D[selected_seeds_mask,candidate_mask]
-- 
2.43.0


From 9e2700ecaa2bc5e45849ba48d18bdb3c8ef78b2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:57:40 +0000
Subject: [PATCH 081/108] fix: seeding GAP crashed if K is increased over the
 customer count

---
 verypy/classic_heuristics/gapvrp.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/verypy/classic_heuristics/gapvrp.py b/verypy/classic_heuristics/gapvrp.py
index 252a265..8ad5362 100644
--- a/verypy/classic_heuristics/gapvrp.py
+++ b/verypy/classic_heuristics/gapvrp.py
@@ -385,8 +385,11 @@ def _kmeans_seed_points(points, D, d, C, K, trial=0):
     node point cluster centers using k-Means clustering."""
     
     from sklearn.cluster import KMeans
-    kmeans = KMeans(n_clusters=K, random_state=trial).fit(points[1:])
-    return kmeans.cluster_centers_.tolist()
+    # K may be temporarely larger than the number of customers
+    n_clusters = min(K, len(points)-1)
+    kmeans = KMeans(n_clusters=n_clusters, random_state=trial).fit(points[1:])
+    seeds = kmeans.cluster_centers_.tolist()
+    return seeds+[list(points[0])]*(K-n_clusters)
     
 def _end_of_thoroughfares_seed_points(points, D, d, C, K, trial=0):
     """A seed point generation function that automates the human assisted 
@@ -569,6 +572,10 @@ def _large_demand_seed_points(points, D, d, C, K, trial=0):
             candidate_d_mask[0]=False
             candidate_d_idxs = np.where(candidate_d_mask)[0].tolist()
             select_from_non_large = True
+            if not candidate_d_idxs:
+                # K is temporarely larger than the number of customers
+                seeds.append( points[0] )
+                continue
             
             if __debug__:
                 log(DEBUG-2,"Ran out of nodes with large demand, select %d seed nodes from rest of the nodes %s using inter seed distances weighted by the node demand"%
-- 
2.43.0


From 9e68bcf42170414b594449cbd2fea612dfaf256e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:20:57 +0000
Subject: [PATCH 082/108] fix: naive 2-opt* crashed on an undefined feasibility
 check

---
 verypy/local_search/naive_implementations.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/verypy/local_search/naive_implementations.py b/verypy/local_search/naive_implementations.py
index 6bcad14..c3ca13d 100644
--- a/verypy/local_search/naive_implementations.py
+++ b/verypy/local_search/naive_implementations.py
@@ -225,7 +225,7 @@ def do_naive_2optstar_move(solution,D,d,C,L,
 
          
                 if delta+S_EPS<best_delta:
-                    if fast_constraint_check(ansatz_sol,D,demands,C,L):
+                    if _naive_constraint_check(ansatz_sol,D,demands,C,L):
                         best_delta = delta
                         best_sol = ansatz_sol
                         
-- 
2.43.0


From 6ea28fea3b813ec977075a21e39cd180f9b04f67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:20:57 +0000
Subject: [PATCH 083/108] fix: naive relocate and exchange ignored the
 requested best_delta

---
 verypy/local_search/naive_implementations.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/verypy/local_search/naive_implementations.py b/verypy/local_search/naive_implementations.py
index c3ca13d..33a9b04 100644
--- a/verypy/local_search/naive_implementations.py
+++ b/verypy/local_search/naive_implementations.py
@@ -388,7 +388,7 @@ def do_naive_relocate_move(solution,D,d,C,L,
     return _apply_as_intra_route(do_naive_1point_move,
                                  solution,D,d,C,L,
                                  strategy=strategy,
-                                 best_delta=None)
+                                 best_delta=best_delta)
 
 def do_naive_2point_move(solution,D,d,C,L,
                            strategy=LSOPT.BEST_ACCEPT,
@@ -455,7 +455,7 @@ def do_naive_exchange_move(solution,D,d,C,L,
     return _apply_as_intra_route(do_naive_2point_move,
                                  solution,D,d,C,L,
                                  strategy=strategy,
-                                 best_delta=None)
+                                 best_delta=best_delta)
     
 def do_naive_local_search(ls_ops, sol, D, d, C, L = None,
                           operator_strategy=LSOPT.FIRST_ACCEPT,
-- 
2.43.0


From 96313f1983df874428908d77a90ac6f0c399b7c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:20:57 +0000
Subject: [PATCH 084/108] fix: naive local search went on after max_iterations
 was reached

---
 verypy/local_search/naive_implementations.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/verypy/local_search/naive_implementations.py b/verypy/local_search/naive_implementations.py
index 33a9b04..0723651 100644
--- a/verypy/local_search/naive_implementations.py
+++ b/verypy/local_search/naive_implementations.py
@@ -484,8 +484,8 @@ def do_naive_local_search(ls_ops, sol, D, d, C, L = None,
             
             sol = new_sol            
             iteration += 1
-            if max_iterations and iteration==max_iterations:
-                break
+            if max_iterations and iteration>=max_iterations:
+                return sol
     return sol
 
         
-- 
2.43.0


From b6855d165e67155a2e7727dc9390842cce164c3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:41:30 +0000
Subject: [PATCH 085/108] fix: savings visualization crashed if the first merge
 is rejected

---
 verypy/visualizers/visualize_savings.py | 44 +++++++++++++++----------
 1 file changed, 26 insertions(+), 18 deletions(-)

diff --git a/verypy/visualizers/visualize_savings.py b/verypy/visualizers/visualize_savings.py
index 5c163a0..ea4eb99 100644
--- a/verypy/visualizers/visualize_savings.py
+++ b/verypy/visualizers/visualize_savings.py
@@ -45,26 +45,34 @@ def _process_savings_debug_line(line, normalization_parameters, currentK,
             if right_merge_node in r:
                 right_route_idx = ri
         
+        # before the first merge the customers are still on their own routes
+        left_route = [0,left_merge_node,0] if left_route_idx is None else\
+                     complete_routes[left_route_idx]
+        right_route = [0,right_merge_node,0] if right_route_idx is None else\
+                      complete_routes[right_route_idx]
+        
         # make the merged route
         
-        if complete_routes[left_route_idx][1]==left_merge_node and\
-           complete_routes[right_route_idx][1]==right_merge_node:
-            infeasible_routes[:]=[ complete_routes[left_route_idx][:0:-1]+
-                                   complete_routes[right_route_idx][1:] ]
-        elif complete_routes[left_route_idx][1]==left_merge_node and\
-             complete_routes[right_route_idx][-2]==right_merge_node:
-            infeasible_routes[:]=[ complete_routes[left_route_idx][:0:-1]+
-                                   complete_routes[right_route_idx][-2::-1] ]
-        elif complete_routes[left_route_idx][-2]==left_merge_node and\
-             complete_routes[right_route_idx][1]==right_merge_node:
-            infeasible_routes[:]=[ complete_routes[left_route_idx][:-1]+
-                                   complete_routes[right_route_idx][1:] ]
-        elif complete_routes[left_route_idx][-2]==left_merge_node and\
-             complete_routes[right_route_idx][-2]==right_merge_node:
-            infeasible_routes[:]=[ complete_routes[left_route_idx][:-1]+
-                                   complete_routes[right_route_idx][-2::-1] ]
-        complete_routes[left_route_idx] = []
-        complete_routes[right_route_idx] = []
+        if left_route[1]==left_merge_node and\
+           right_route[1]==right_merge_node:
+            infeasible_routes[:]=[ left_route[:0:-1]+
+                                   right_route[1:] ]
+        elif left_route[1]==left_merge_node and\
+             right_route[-2]==right_merge_node:
+            infeasible_routes[:]=[ left_route[:0:-1]+
+                                   right_route[-2::-1] ]
+        elif left_route[-2]==left_merge_node and\
+             right_route[1]==right_merge_node:
+            infeasible_routes[:]=[ left_route[:-1]+
+                                   right_route[1:] ]
+        elif left_route[-2]==left_merge_node and\
+             right_route[-2]==right_merge_node:
+            infeasible_routes[:]=[ left_route[:-1]+
+                                   right_route[-2::-1] ]
+        if left_route_idx is not None:
+            complete_routes[left_route_idx] = []
+        if right_route_idx is not None:
+            complete_routes[right_route_idx] = []
         
         #print "REMOVEME", left_route_idx, right_route_idx, infeasible_routes
         
-- 
2.43.0


From d6efd00cf5a86800c520d9213222bcb0ea96d1f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:41:30 +0000
Subject: [PATCH 086/108] fix: drawing points that are on a line or on a single
 point crashed

---
 verypy/visualizers/shared_visualize.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/verypy/visualizers/shared_visualize.py b/verypy/visualizers/shared_visualize.py
index 7ee08d4..606db50 100644
--- a/verypy/visualizers/shared_visualize.py
+++ b/verypy/visualizers/shared_visualize.py
@@ -288,6 +288,12 @@ def get_normalization_params(pts, to_range, keep_aspect_ratio=False):
         rangex = max(rangex, rangey)
         rangey = rangex
     
+    # all points on a line (or on a single point)
+    if rangex==0:
+        rangex = 1
+    if rangey==0:
+        rangey = 1
+    
     return (minx,miny,rangex,rangey,minr,ranger)
     
 def normalize_to_rect(pts, normalization_params):
-- 
2.43.0


From 9e499ca2e93f16bbc56f6a802108f3097e26055b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:58:55 +0000
Subject: [PATCH 087/108] fix: LR3OPT with L never ended if all nodes have a
 coincident node

---
 verypy/classic_heuristics/lr3opt.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/verypy/classic_heuristics/lr3opt.py b/verypy/classic_heuristics/lr3opt.py
index 597eb2c..82d610b 100644
--- a/verypy/classic_heuristics/lr3opt.py
+++ b/verypy/classic_heuristics/lr3opt.py
@@ -292,6 +292,10 @@ def lr3opt_init(D, d, C, L,
             closest_neighbor_D = D.copy()
             np.fill_diagonal(closest_neighbor_D, max_D)
             lambdas[1] = np.average(closest_neighbor_D.min(axis=0))/(10*max_D)
+            # If every node shares its location with some other node the 
+            #  multiplier would be 0, and doubling it does not tighten anything.
+            if lambdas[1]==0:
+                lambdas[1] = np.average(D)/(10*max_D)
 
         if __debug__:
             log(DEBUG, "Start from initial solution %s (%.2f), and with l1=%.2f, l2=%.2f"%
-- 
2.43.0


From 17159c5c10f59bdc9593cd9413b3f4d38d46da64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:08:14 +0000
Subject: [PATCH 088/108] fix: LR3OPT checked the wrong multiplier when looking
 for an infinite one

---
 verypy/classic_heuristics/lr3opt.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/verypy/classic_heuristics/lr3opt.py b/verypy/classic_heuristics/lr3opt.py
index 82d610b..2e71c7a 100644
--- a/verypy/classic_heuristics/lr3opt.py
+++ b/verypy/classic_heuristics/lr3opt.py
@@ -348,7 +348,7 @@ def lr3opt_init(D, d, C, L,
                         lambda_at_inf = lambdas[0]==float('inf')
                     if lambdas[1] is not None:
                         lambdas[1] = lambdas[1]*2
-                        lambda_at_inf = lambda_at_inf or lambdas[0]==float('inf')
+                        lambda_at_inf = lambda_at_inf or lambdas[1]==float('inf')
                     if __debug__:
                         log(DEBUG-1, "No improving moves left, increasing lambda to l1=%.2f, l2=%.2f"%
                             ((0 if lambdas[0] is None else lambdas[0]),
-- 
2.43.0


From 5da9255391ad491e946220b21b28c432182d3afc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:08:14 +0000
Subject: [PATCH 089/108] fix: LR3OPT could cycle forever on amplified rounding
 errors

---
 verypy/classic_heuristics/lr3opt.py | 23 ++++++++++++++++++++---
 1 file changed, 20 insertions(+), 3 deletions(-)

diff --git a/verypy/classic_heuristics/lr3opt.py b/verypy/classic_heuristics/lr3opt.py
index 2e71c7a..050dfb4 100644
--- a/verypy/classic_heuristics/lr3opt.py
+++ b/verypy/classic_heuristics/lr3opt.py
@@ -61,6 +61,13 @@ def _check_lr3opt_move(D, C, L, removed_weights, best_delta,
     i,j,k are changed but that would mean duplication of the do_3optstar_move
     code, which was not preferable."""
     
+    # The rounding errors are relative to the weights, and in the penalties they 
+    #  get multiplied by the lambdas. Make sure they are not taken for an 
+    #  improvement (it can go on forever).
+    eps = max(S_EPS, S_EPS*removed_weights)
+    C_pen_eps = S_EPS*lambdas[0]*C if C else None
+    L_pen_eps = S_EPS*lambdas[1]*L if L else None
+    
     ## Calculate the penalties that are lifted
     removed_penalties = 0
     if C:
@@ -68,34 +75,40 @@ def _check_lr3opt_move(D, C, L, removed_weights, best_delta,
         if ldepot_12:
             if route_d-C_EPS>C:
                 removed_penalties+=(route_d-C)*lambdas[0]
+                eps = max(eps, C_pen_eps)
             route_d = cum_d[2]+cum_d[3]
         else:
             route_d+=cum_d[3]
         if ldepot_34:
             if route_d-C_EPS>C:
                 removed_penalties+=(route_d-C)*lambdas[0]
+                eps = max(eps, C_pen_eps)
             route_d = cum_d[4]+cum_d[5]
         else:
             route_d += cum_d[5]
         if route_d-C_EPS>C:
             removed_penalties+=(route_d-C)*lambdas[0]
+            eps = max(eps, C_pen_eps)
         
     if L:
         route_l = cum_l[0]+cum_l[1]+D[end_n[0],end_n[1]]
         if ldepot_12:
             if route_l-S_EPS>L:
                 removed_penalties+=(route_l-L)*lambdas[1]
+                eps = max(eps, L_pen_eps)
             route_l = cum_l[2]+cum_l[3]+D[end_n[2],end_n[3]]
         else:
             route_l+=cum_l[3]+D[end_n[2],end_n[3]]
         if ldepot_34:
             if route_l-S_EPS>L:
                 removed_penalties+=(route_l-L)*lambdas[1]
+                eps = max(eps, L_pen_eps)
             route_l = cum_l[4]+cum_l[5]+D[end_n[4],end_n[5]]
         else:
             route_l += cum_l[5]+D[end_n[4],end_n[5]]
         if route_l-S_EPS>L:
             removed_penalties+=(route_l-L)*lambdas[1]
+            eps = max(eps, L_pen_eps)
     
     ## Calculate the delta (still missing the move induced penalties)
     added_weights = D[end_n[edges[0][0]], end_n[edges[0][1]]]+\
@@ -105,7 +118,7 @@ def _check_lr3opt_move(D, C, L, removed_weights, best_delta,
     
     ## Calculate the move induced Lagrangian relaxation penalties
     # Note that the move has to have some potential to be an improvement.
-    if (delta+S_EPS<best_delta):
+    if (delta+eps<best_delta):
         
         prev_edge = [None,None]
         route_d = 0
@@ -128,14 +141,16 @@ def _check_lr3opt_move(D, C, L, removed_weights, best_delta,
                 if C:
                     if route_d-C_EPS>C:
                         delta += (route_d-C)*lambdas[0]
+                        eps = max(eps, C_pen_eps)
                     route_d = cum_d[curr_edge[0]] 
                 if L:
                     if route_l-S_EPS>L:
                         delta += (route_l-L)*lambdas[1]
+                        eps = max(eps, L_pen_eps)
                     route_l = cum_l[curr_edge[0]]
                 
                 # abort poor moves early
-                if (delta+S_EPS>=best_delta):
+                if (delta+eps>=best_delta):
                     return None
             if C:
                 route_d += cum_d[curr_edge[1]]
@@ -148,9 +163,11 @@ def _check_lr3opt_move(D, C, L, removed_weights, best_delta,
         #  route induces any penalties.
         if C and route_d-C_EPS>C:
             delta += (route_d-C)*lambdas[0]
+            eps = max(eps, C_pen_eps)
         if L and route_l-S_EPS>L:
             delta += (route_l-L)*lambdas[1]
-        if (delta+S_EPS<best_delta):
+            eps = max(eps, L_pen_eps)
+        if (delta+eps<best_delta):
             return delta
         
     # was not an improving move
-- 
2.43.0


From 610d34e9b0af0b27099bff1fc26be621468f13e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:27:56 +0000
Subject: [PATCH 090/108] fix: route first cluster second preferred cost over
 the number of routes on ties

---
 verypy/classic_heuristics/rfcs.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/verypy/classic_heuristics/rfcs.py b/verypy/classic_heuristics/rfcs.py
index 8145a97..30de579 100644
--- a/verypy/classic_heuristics/rfcs.py
+++ b/verypy/classic_heuristics/rfcs.py
@@ -236,7 +236,9 @@ def route_first_cluster_second_init(D, d, C, L=None, minimize_K=False,
     if __debug__:
         log(DEBUG, "TSP tour solution %s (%.2f)"%(str(giant_tour_sol),giant_tour_l))
         
-    route_cost_constant = giant_tour_l if minimize_K else 0.0    
+    # One route less has to outweigh any difference in the cost (the solution
+    #  has at most 2*(N-1) edges).
+    route_cost_constant = 2.0*N*np.max(D)+1.0 if minimize_K else 0.0    
     return _partition_to_routes_with_cost_matrix(D, d, C, L,
                                 giant_tour_sol, route_cost_constant, 
                                 partition_tsp_opt_algo, route_tsp_opt_algo)
-- 
2.43.0


From 5a375eb8ee7433bee00c95fcdab71e9503a100b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:57:36 +0000
Subject: [PATCH 091/108] fix: local search could cycle forever if the
 distances are large

---
 verypy/config.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/verypy/config.py b/verypy/config.py
index e8f5251..50440c5 100644
--- a/verypy/config.py
+++ b/verypy/config.py
@@ -10,7 +10,9 @@ exe_ext = ".exe" if name == 'nt' else ""
 
 DEBUG_VERBOSITY = 3
 
-COST_EPSILON = 1e-10
+# Has to be above the rounding errors (relative to the distances, e.g. in meters)
+#  or the local search may cycle forever.
+COST_EPSILON = 1e-8
 CAPACITY_EPSILON = 1e-10
 
 # how many seconds we give to a MIP solver
-- 
2.43.0


From 520603c83a4ca0e57f5af1abaf2bb56b05b147a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:42:00 +0000
Subject: [PATCH 092/108] fix: assignment heuristic failed with
 UnboundLocalError on an unknown seed method

---
 verypy/classic_heuristics/gapvrp.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/verypy/classic_heuristics/gapvrp.py b/verypy/classic_heuristics/gapvrp.py
index 8ad5362..bad6371 100644
--- a/verypy/classic_heuristics/gapvrp.py
+++ b/verypy/classic_heuristics/gapvrp.py
@@ -717,6 +717,8 @@ def gap_init(points, D, d, C, L=None, st=None, K=None, minimize_K=True,
         seed_f = _large_demand_seed_points
     if seed_method=="ends_of_thoroughfares":
         seed_f = _end_of_thoroughfares_seed_points
+    if seed_method not in ("cones", "kmeans", "large_demands", "ends_of_thoroughfares"):
+        raise ValueError("Unknown seed initialization method '%s'"%str(seed_method))
     
     int_dists = issubclass(D.dtype.type, np.integer)
     if seed_edge_weight_type=="EXPLICIT":
-- 
2.43.0


From 18299544477a3b218ff62ae7901dafaa8a8315b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:42:00 +0000
Subject: [PATCH 093/108] fix: Mole and Jameson silently returned nothing for
 an unknown strain criterion

---
 verypy/classic_heuristics/mole_jameson_insertion.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/verypy/classic_heuristics/mole_jameson_insertion.py b/verypy/classic_heuristics/mole_jameson_insertion.py
index 3d71299..978fbd0 100644
--- a/verypy/classic_heuristics/mole_jameson_insertion.py
+++ b/verypy/classic_heuristics/mole_jameson_insertion.py
@@ -252,6 +252,9 @@ def mole_jameson_insertion_init(D, d, C, L=None, minimize_K=False,
                 ( _create_new_criteria_function(lm=alm,mm=1.0),
                    "strain" if  alm-1.0==1.0 else "farthest" ) )
             
+    if not callback_configurations:
+        raise ValueError("Unknown strain criterion '%s'"%str(strain_criterion))
+            
     ## Find the best solution among the active strain criterions        
     best_sol = None
     best_f = None
-- 
2.43.0


From f01bb309f763d4ece344f1af6b68ffbbee87f206 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:42:00 +0000
Subject: [PATCH 094/108] fix: sweep failed with UnboundLocalError on an
 unknown seed node

---
 verypy/classic_heuristics/sweep.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/verypy/classic_heuristics/sweep.py b/verypy/classic_heuristics/sweep.py
index 9a322a1..eb4693c 100644
--- a/verypy/classic_heuristics/sweep.py
+++ b/verypy/classic_heuristics/sweep.py
@@ -473,6 +473,8 @@ def sweep_init(coordinates, D, d, C, L=None, minimize_K=False,
     elif type(seed_node) is list:
         # we interpret it as a node idx
         starts = seed_node
+    else:
+        raise ValueError("Unknown seed_node '%s'"%str(seed_node))
      
     ## Make sure there is a valid route improvement method
     if routing_algo is None:
-- 
2.43.0


From d4d91b6e2aa5369bc1b2149cd7824c5e35fbd048 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:42:00 +0000
Subject: [PATCH 095/108] fix: Wren and Holliday silently returned nothing for
 an unknown seed node

---
 verypy/classic_heuristics/wren_holliday_sweep.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/verypy/classic_heuristics/wren_holliday_sweep.py b/verypy/classic_heuristics/wren_holliday_sweep.py
index 8f528f5..f21817d 100644
--- a/verypy/classic_heuristics/wren_holliday_sweep.py
+++ b/verypy/classic_heuristics/wren_holliday_sweep.py
@@ -570,6 +570,8 @@ def wren_holliday_init(points, D, d, C, L=None, minimize_K=False,
             sweeps.extend( zip( nodes, [cur_dir]*len(nodes) ) )
         elif type(seed_node)==int:
             sweeps.append( [seed_node%(N-1), cur_dir] )
+        else:
+            raise ValueError("Unknown seed_node '%s'"%str(seed_node))
         
     ## PHASE 1 : "Generate ... initial solutions and choose the best"    
     initial_sols  = []
-- 
2.43.0


From a9f95f308d4ced12c84ff74904d55b7bbb70ab93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:31:50 +0000
Subject: [PATCH 096/108] fix: two phase heuristic failed with
 UnboundLocalError on an unknown seed method

---
 verypy/classic_heuristics/cmt_2phase.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/verypy/classic_heuristics/cmt_2phase.py b/verypy/classic_heuristics/cmt_2phase.py
index a072a9b..3eae65f 100644
--- a/verypy/classic_heuristics/cmt_2phase.py
+++ b/verypy/classic_heuristics/cmt_2phase.py
@@ -509,6 +509,9 @@ def cmt_2phase_init(D, d, C, L=None, minimize_K=False,
         seed_f = _closest_seed
     elif phase1_seed_selection_method=="biggest":
         seed_f = _biggest_seed
+    else:
+        raise ValueError("Unknown phase1_seed_selection_method '%s'"%
+                         str(phase1_seed_selection_method))
     
     rr = number_of_randomized_retries 
 
-- 
2.43.0


From ac134a153dbeecf0012dd5029398829067525e20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:03:04 +0000
Subject: [PATCH 097/108] fix: matching based savings solved no matching: a
 route could be paired with many others

---
 verypy/classic_heuristics/matchingvrp.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/verypy/classic_heuristics/matchingvrp.py b/verypy/classic_heuristics/matchingvrp.py
index e075bec..ea63692 100644
--- a/verypy/classic_heuristics/matchingvrp.py
+++ b/verypy/classic_heuristics/matchingvrp.py
@@ -52,10 +52,12 @@ __status__ = "Development"
     
 def _mmp_add_cnts_sum(m, x_ij, x_ij_keys, w_ij, n):
     ## constraints
+    # a route can be matched with at most one other route, whichever way around 
+    #  the pair is given (x_ij has only one variable for each pair)
     for k in range(0,n):
-        active_vars = x_ij.sum(k,'*')
-        if active_vars.size()>0:
-            m.addConstr( active_vars == 1, "m_%d"%k )
+        m.addConstr( x_ij.sum(k,'*')+x_ij.sum('*',k) <= 1, "m_%d"%k )
+    # all routes are matched (if there is an odd number of them, all but one)
+    m.addConstr( x_ij.sum() == n//2, "m_all" )
 
 def _mmp_solve(w1_ij, x_ij_keys, n, w2_ij = None):
     """A helper function that solves a weighted maximum matching problem.
-- 
2.43.0


From ea1e3842f1ed82c3b2aa7ebf4242b8d7652b4cca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:10:46 +0000
Subject: [PATCH 098/108] fix: assignment heuristic used the depot as the first
 seed and never its last seed

---
 verypy/classic_heuristics/gapvrp.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/verypy/classic_heuristics/gapvrp.py b/verypy/classic_heuristics/gapvrp.py
index bad6371..e4b6273 100644
--- a/verypy/classic_heuristics/gapvrp.py
+++ b/verypy/classic_heuristics/gapvrp.py
@@ -122,7 +122,8 @@ def _solve_gap(N, D_s, d, C, K, L=None, L_ctr_multipiler=1.0):
     Y_ik_keys = [(i,k) for k in range(K) for i in range(1,N)]
     
     # delivery cost approximation coefficients for the objective function
-    insertion_cost = {(i,k): D_s[0,i]+D_s[k,i]-D_s[k,0] \
+    #  (note that the first row of D_s is that of the depot)
+    insertion_cost = {(i,k): D_s[0,i]+D_s[k+1,i]-D_s[k+1,0] \
                               for i,k in Y_ik_keys}
                                   
     # variables and the objective
-- 
2.43.0


From 91434b56b64eea0644fd31fd4faf942a970a4bcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:20:44 +0000
Subject: [PATCH 099/108] fix: matching based savings stopped when the only
 feasible merges save nothing

---
 verypy/classic_heuristics/matchingvrp.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/verypy/classic_heuristics/matchingvrp.py b/verypy/classic_heuristics/matchingvrp.py
index ea63692..75d715a 100644
--- a/verypy/classic_heuristics/matchingvrp.py
+++ b/verypy/classic_heuristics/matchingvrp.py
@@ -301,8 +301,8 @@ def mbsa_init(D, d, C, L, minimize_K=False, W=0.0, solve_tsp=default_solve_tsp,
             if not savings:
                 break # only one route left, no more merges to consider
             w_ij,x_ij_keys = zip(*savings)
-            valid_matchings = any( w for w in w_ij if w!=W )
-            if valid_matchings==0:
+            valid_matchings = any( w!=W for w in w_ij )
+            if not valid_matchings:
                 break
             
             s_ij = None
-- 
2.43.0


From 7f8ecc366e2a3077524f71ad7a7558b767d2ca68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:14:04 +0000
Subject: [PATCH 100/108] fix: exporting a VRPH solution from the GUI failed
 and left an empty file

---
 verypy/VeRyPyGui.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/verypy/VeRyPyGui.py b/verypy/VeRyPyGui.py
index 7ae6fcd..34cd055 100644
--- a/verypy/VeRyPyGui.py
+++ b/verypy/VeRyPyGui.py
@@ -74,7 +74,7 @@ class VeRyPyGuiApp:
             if splitext(filename)[1].lower()==".opt":
                 wf.write(as_OPT_solution(self.solution_cost, self.solution))
             else:
-                wf.write(as_VRPH_solution(self.solution))
+                wf.write(" ".join(str(n) for n in as_VRPH_solution(self.solution)))
 
     def create_gui(self):
         self.root = tk.Tk()
-- 
2.43.0


From bb40fa5afc74cd311d8f8e53d875e30966bec157 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:14:04 +0000
Subject: [PATCH 101/108] fix: exporting from the GUI before solving failed
 after reporting it

---
 verypy/VeRyPyGui.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/verypy/VeRyPyGui.py b/verypy/VeRyPyGui.py
index 34cd055..2a8c0a1 100644
--- a/verypy/VeRyPyGui.py
+++ b/verypy/VeRyPyGui.py
@@ -62,6 +62,7 @@ class VeRyPyGuiApp:
         if not self.solution:
             tk.messagebox.showerror(title="VeRyPy export error",
                 message="There is no solution to export.\nPress solve first.")
+            return
 
         filetypes = (
             ('OPT file', '*.opt'),
-- 
2.43.0


From 48f559239dc63d3afa446291ebc0f9378c7a8747 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:14:04 +0000
Subject: [PATCH 102/108] fix: cancelling a file dialog of the GUI failed

---
 verypy/VeRyPyGui.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/verypy/VeRyPyGui.py b/verypy/VeRyPyGui.py
index 2a8c0a1..b697a2e 100644
--- a/verypy/VeRyPyGui.py
+++ b/verypy/VeRyPyGui.py
@@ -41,7 +41,7 @@ class VeRyPyGuiApp:
             title='Open a problem file',
             filetypes=filetypes)
 
-        if exists(filename):
+        if filename and exists(filename):
             store_in_entry.delete(0, tk.END)
             store_in_entry.insert(0, filename)
 
@@ -71,6 +71,9 @@ class VeRyPyGuiApp:
         filename = filedialog.asksaveasfilename(
             title='Save a solution file',
             filetypes=filetypes)
+        if not filename:
+            return # the dialog was cancelled
+
         with open(filename, 'w') as wf:
             if splitext(filename)[1].lower()==".opt":
                 wf.write(as_OPT_solution(self.solution_cost, self.solution))
-- 
2.43.0


From 1783327860f8a22187bd53bf99aa51aa7252d249 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:14:39 +0000
Subject: [PATCH 103/108] fix: the GUI only started on Windows and in the
 source folder because of its icon

---
 verypy/VeRyPyGui.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/verypy/VeRyPyGui.py b/verypy/VeRyPyGui.py
index b697a2e..6ee4fe7 100644
--- a/verypy/VeRyPyGui.py
+++ b/verypy/VeRyPyGui.py
@@ -6,7 +6,7 @@ try:
 except ImportError:
     import tkinter.filedialog as filedialog
     import tkinter as tk
-from os.path import exists, splitext
+from os.path import abspath, dirname, exists, join, splitext
 
 from verypy import get_algorithms
 from verypy.shared_cli import read_and_solve_a_problem
@@ -131,7 +131,10 @@ class VeRyPyGuiApp:
         export_button.grid(row=0, column=1)
 
 
-        self.root.iconbitmap("doc/logo_nodes.ico")
+        try:
+            self.root.iconbitmap(join(dirname(dirname(abspath(__file__))), "doc", "logo_nodes.ico"))
+        except tk.TclError:
+            pass # only decoration: not installed or a format not supported
     
     def run(self):
         self.root.mainloop()
-- 
2.43.0


From c3c297e01cfece0f8535dedcff9a3614d7512ab4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:15:07 +0000
Subject: [PATCH 104/108] fix: the command line of a single heuristic accepted
 pickled problems but could not read them

---
 verypy/shared_cli.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/verypy/shared_cli.py b/verypy/shared_cli.py
index 48a63e2..084f55a 100644
--- a/verypy/shared_cli.py
+++ b/verypy/shared_cli.py
@@ -14,6 +14,7 @@ from time import time
 from os import path, walk
 from glob import glob
 import logging
+import pickle
 
 import verypy.cvrp_ops as cvrp_ops
 import verypy.cvrp_io as cvrp_io
@@ -90,8 +91,12 @@ def read_and_solve_a_problem(problem_instance_path, with_algorithm_function,
     for different algorithms) is made."""
     
     pfn = problem_instance_path
-    N, points, dd_points, d, D, C, ewt = cvrp_io.read_TSPLIB_CVRP(pfn)
-    required_K, L, st = cvrp_io.read_TSBLIB_additional_constraints(pfn)
+    if pfn[-7:].lower()==".pickle":
+        with open(pfn, "rb") as pf:
+            N, points, dd_points, d, D, C, ewt, required_K, L, st = pickle.load(pf)
+    else:
+        N, points, dd_points, d, D, C, ewt = cvrp_io.read_TSPLIB_CVRP(pfn)
+        required_K, L, st = cvrp_io.read_TSBLIB_additional_constraints(pfn)
     
     # model service time with the distance matrix
     D_c = cvrp_ops.D2D_c(D, st) if st else D
-- 
2.43.0


From b03a27098f90e3df60fe2e6befbef845e429e788 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:26:13 +0000
Subject: [PATCH 105/108] fix: a service time section of a problem was read as
 if the depot was always the node 1

---
 verypy/cvrp_io.py | 24 +++++++++++++++++++-----
 1 file changed, 19 insertions(+), 5 deletions(-)

diff --git a/verypy/cvrp_io.py b/verypy/cvrp_io.py
index 0581653..6af10ff 100644
--- a/verypy/cvrp_io.py
+++ b/verypy/cvrp_io.py
@@ -433,6 +433,9 @@ def read_TSBLIB_additional_constraints(custom_tsplib_file):
     K = None
     L = None
     ST = None
+    depot_id = 1
+    service_times = {}
+    reading_depot_section = False
     reading_service_time_section = False
     with open(custom_tsplib_file) as fh:
         for l in fh.readlines():
@@ -449,13 +452,15 @@ def read_TSBLIB_additional_constraints(custom_tsplib_file):
                         nst = float(nst)
                     else:
                         nst = int(nst)
-                    # the depot (1) does not need service
-                    if int(nid)!=1:
-                        if ST is not None and nst!=ST:
-                            raise IOError("Only single (same) service time for all customers is supported")
-                        ST = nst
+                    service_times[int(nid)] = nst
                 elif fields:
                     reading_service_time_section = False
+            if reading_depot_section:
+                fields = l.split()
+                if len(fields)==1 and fields[0].isdigit():
+                    depot_id = int(fields[0])
+                elif fields:
+                    reading_depot_section = False
             if "DISTANCE" in l:
                 if "." in l:
                     L = float( l.split()[-1] )
@@ -470,6 +475,15 @@ def read_TSBLIB_additional_constraints(custom_tsplib_file):
                 K = int( l.split()[-1] )
             if "SVC_TIME_SECTION" in l:
                 reading_service_time_section = True
+            if "DEPOT_SECTION" in l:
+                reading_depot_section = True
+    
+    for nid, nst in service_times.items():
+        # the depot does not need service
+        if nid!=depot_id:
+            if ST is not None and nst!=ST:
+                raise IOError("Only single (same) service time for all customers is supported")
+            ST = nst
                     
     return K, L, ST
  
-- 
2.43.0


From a2c3c2d828f8fee37fd36a4d7bdbcd63194db838 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:05:33 +0000
Subject: [PATCH 106/108] fix: sweep accepted only arrays, not lists, of polar
 coordinates

---
 verypy/classic_heuristics/sweep.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/verypy/classic_heuristics/sweep.py b/verypy/classic_heuristics/sweep.py
index eb4693c..d861677 100644
--- a/verypy/classic_heuristics/sweep.py
+++ b/verypy/classic_heuristics/sweep.py
@@ -445,7 +445,7 @@ def sweep_init(coordinates, D, d, C, L=None, minimize_K=False,
         sweep = get_sweep_from_cartesian_coordinates(coordinates)
     elif len(coordinates)==3 and (len(coordinates[0])==len(coordinates[1])==len(coordinates[2])):
         # it is not necessarily to sweep to contain all nodes in D and d
-        sweep = coordinates
+        sweep = np.asarray(coordinates)
     else:
         raise ValueError("The coordinates need to be (x,y) or (phi,rho,node_index,sweep_index_for_node-1). Not "+str(coordinates))
         
-- 
2.43.0


From b8dea28a7a068707c77ed53f170ec19a157fd200 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:05:33 +0000
Subject: [PATCH 107/108] fix: sweep over a part of the customers failed when
 trying all starts

---
 verypy/classic_heuristics/sweep.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/verypy/classic_heuristics/sweep.py b/verypy/classic_heuristics/sweep.py
index d861677..d50b0b0 100644
--- a/verypy/classic_heuristics/sweep.py
+++ b/verypy/classic_heuristics/sweep.py
@@ -466,7 +466,7 @@ def sweep_init(coordinates, D, d, C, L=None, minimize_K=False,
     elif seed_node==SMALLEST_ANGLE:
         starts = [0]
     elif seed_node==BEST_ALTERNATIVE:
-        starts = list(range(0,N-1))
+        starts = list(range(0,len(sweep[2])))
     elif type(seed_node) is int:
         # we interpret it as a node idx
         starts = [np.where(sweep[2]==abs(seed_node)%N)[0][0]]
-- 
2.43.0


From ba12819211d0c68308ff79d09d66a35c2aa79370 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:31:19 +0000
Subject: [PATCH 108/108] fix: Wren and Holliday stopped before the local
 search had converged

---
 verypy/classic_heuristics/wren_holliday_sweep.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/verypy/classic_heuristics/wren_holliday_sweep.py b/verypy/classic_heuristics/wren_holliday_sweep.py
index f21817d..982dc38 100644
--- a/verypy/classic_heuristics/wren_holliday_sweep.py
+++ b/verypy/classic_heuristics/wren_holliday_sweep.py
@@ -444,6 +444,7 @@ def disentangle_heuristic(routes,sweep,node_phis,D,C,d,L):
                 if len(omitted)==0 and disentange_improves:
                     routes[rd1_idx] = et_routes[0]
                     routes[rd2_idx] = et_routes[1]
+                    improvement_found = True
                     
                     # The routes were updated, update also the ranges
                     r1_phis = node_phis[et_routes[0].route[1:-1]]
@@ -620,7 +621,6 @@ def wren_holliday_init(points, D, d, C, L=None, minimize_K=False,
         deleted = True
         omitted_nodes = set()
         prev_Q_point_sol_f = None    
-        prev_iteration_sol_f = None
         visited_states = set()
         changed = False
         
@@ -718,16 +718,16 @@ def wren_holliday_init(points, D, d, C, L=None, minimize_K=False,
                 
                      
                 ## "Has situation changed in interation?" ##
+                # Compare the solutions (not the costs at the Q-point, as the
+                #  operations after it change the solution too). "Delete" may
+                #  worsen the solution, do not go around in circles with it.
                 solution_changed_between_iterations = True
-                if prev_iteration_sol_f:
-                    if prev_iteration_sol_f == sol_f:
-                        solution_changed_between_iterations = False
-                prev_iteration_sol_f = sol_f
-                
-                # "Delete" may worsen the solution, do not go around in circles
                 state = (deleted, tuple(tuple(rd.route) for rd in routes))
                 if state in visited_states:
-                    solution_changed_between_iterations = False
+                    if deleted:
+                        deleted = False
+                    else:
+                        solution_changed_between_iterations = False
                 visited_states.add(state)
                 
                 if converging and (
-- 
2.43.0

