#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the texts live here to keep them readable)."""
import json, os
P = []
def p(id, title, statement, over, quant, why, files, mech, state=None, observe=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    a["hook_needed"] = None
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": quant}, "why_tests_cant": why, "anchors": a})
H = "verypy/classic_heuristics/"
LS = "verypy/local_search/"
ALLH = [H + f for f in ("parallel_savings.py gaskell_savings.py sequential_savings.py paessens_savings.py suppression_savings.py "
        "cawlip_savings.py cheapest_insertion.py mole_jameson_insertion.py matchingvrp.py cmt_2phase.py nearest_neighbor.py "
        "tyagi_nearest_neighbor.py sweep.py wren_holliday_sweep.py gillet_miller_sweep.py rfcs.py gapvrp.py petalvrp.py lr3opt.py").split()]

p("V01", "Every heuristic ends with a complete and feasible plan",
  "For every problem in which each customer alone fits the vehicle capacity and the route cost limit, each of the library's heuristics ends, without an error, "
  "with a plan that starts and ends at the depot, visits every customer exactly once, and in which no route exceeds the capacity or the route cost limit (where given). "
  "The only exceptions are options a heuristic declares unsupported by raising an error before solving (minimizing vehicles in the nearest neighbour and Lagrangean heuristics, generalized assignment without any limit), "
  "and the generalized assignment heuristic, which may report that it found no plan when a route cost limit is set.",
  ["inputs", "configurations"],
  "Every heuristic, cost or vehicle objective, single or full run; any number of customers; integer or real distances and demands; coincident, collinear or far away customers; "
  "capacity and/or cost limit or neither; service times; tight or loose limits.",
  "The tests solve a handful of fixed benchmark files; the defects are in combinations of limits, ties, sizes and options that those files do not have.",
  ALLH + ["verypy/__init__.py"],
  [("constraint checks of each heuristic", H), ("capacity and cost epsilons", "verypy/config.py")],
  observe=["return value of the heuristic called through the algorithm list"])

p("V02", "An interrupted heuristic hands back either nothing or a usable plan",
  "If a user interrupts (Ctrl-C) a heuristic at any moment, the interruption reaches the caller as a KeyboardInterrupt, never as another error and never swallowed, "
  "and the plan handed over with it (if any) is a complete and feasible one: it starts and ends at the depot, serves each customer exactly once, "
  "and each of its routes respects the capacity and the route cost limit. The problem data of the caller is as it was before the call.",
  ["crash_points", "inputs"],
  "Every point of the run at which the interpreter can deliver an interrupt, for every heuristic and every solvable problem.",
  "No test interrupts a heuristic; every delivery point is a different execution.",
  ALLH + ["verypy/VeRyPy.py", "verypy/shared_cli.py"],
  [("KeyboardInterrupt handlers carrying the best plan so far", H)],
  observe=["the exception that leaves the heuristic and its payload"])

p("V03", "The heuristics are deterministic and do not remember earlier calls",
  "Calling a heuristic again with equal inputs gives exactly the same plan, whatever was solved in between, in whichever order, in this or another process, "
  "and whatever the state of the global random number generator or the hash seed is. An interrupted or failed call in between makes no difference either.",
  ["histories", "inputs", "schedules"],
  "All sequences of calls to the heuristics and operators, over all problems; all hash seeds and random states.",
  "Tests call each heuristic once per file in a fixed order in one process.",
  ALLH + ["verypy/util.py", LS + "__init__.py"],
  [("insertion ordered sets instead of hash ordered ones", "verypy/util.py OrderedDictSet"), ("explicit tie breaking", H)])

p("V04", "Solving never modifies the caller's problem data",
  "The coordinates, the distance matrix, the demands and any plan or route passed to a heuristic, a local search operator, a local search run, a TSP solver or a solution utility have the same contents after the call as before it, "
  "also when the call ends with an error or is interrupted.",
  ["inputs", "crash_points"],
  "All public entry points, lists as well as arrays as inputs, all problems, and interruptions at any moment.",
  "Tests build the inputs anew for each call and never look at them afterwards.",
  ALLH + [LS + "intra_route_operators.py", LS + "inter_route_operators.py", LS + "solution_operators.py", LS + "__init__.py", "verypy/cvrp_ops.py", "verypy/util.py"],
  [("copies of routes and matrices", H), ("slicing instead of in-place edits", LS)])

p("V05", "Moves inside a route keep its customers and report their gain exactly",
  "A 2-opt, 3-opt, relocate or exchange move applied to a route returns either nothing or a route with the same end points and the same customers, together with a cost change that equals the true cost of the new route minus that of the old one and is lower than the requested level (zero if none was requested). "
  "It returns nothing only if no move of its neighbourhood is that good, and the best-accept strategy returns a move of which there is no better one in the neighbourhood.",
  ["inputs"],
  "All routes (also with coincident nodes), symmetric distance matrices (metric or not, integer or real), strategies and requested levels.",
  "Tests use a few routes on a few point sets; neighbourhoods are large and their corner positions are rarely the improving ones.",
  [LS + "intra_route_operators.py"],
  [("delta formulas and segment concatenation", LS + "intra_route_operators.py do_*_move")])

p("V06", "Moves between routes keep customers, limits and the books in order",
  "A move between routes (2-opt*, one and two point move, chain, insert, redistribute) returns either nothing or new routes that together serve exactly the customers that were given to it, all starting and ending at the depot, respecting the capacity and the route cost limit whenever the given routes did. "
  "The reported cost change equals the true one (for insertions: of the receiving routes) and is lower than the requested level, and each returned route carries its own true cost and, with a capacity, its own true demand.",
  ["inputs"],
  "All sets of feasible routes, symmetric matrices (metric or not), limits exactly met or slack, strategies, requested levels and recombination levels.",
  "The tests check the resulting routes of single moves on small examples, never the returned costs and demands that later moves rely on, and hardly ever tight limits.",
  [LS + "inter_route_operators.py", "verypy/routedata.py"],
  [("constraint checks on deltas", LS + "inter_route_operators.py"), ("cost and demand of the returned routes", LS + "inter_route_operators.py")])

p("V07", "Moves between routes are found whenever they exist",
  "A move operator between routes (2-opt*, one and two point move, chain, insertion of one customer) returns nothing only if no move of its neighbourhood that respects the limits improves on the requested level. "
  "With the best-accept strategy, no feasible move of the neighbourhood is better than the returned one.",
  ["inputs"],
  "All sets of feasible routes incl. one customer and empty ones, symmetric matrices, limits, strategies and levels; moves whose feasibility or gain hinges on rounding errors excluded.",
  "Absence of a move cannot be seen from examples where one is found; it needs the whole neighbourhood.",
  [LS + "inter_route_operators.py"],
  [("enumeration loops and pruning", LS + "inter_route_operators.py do_*_move")])

p("V08", "The whole-plan 3-opt* move is sound and complete",
  "The 3-opt* move applied to a feasible plan returns either nothing or a plan that serves the same customers exactly once from the depot, respects the capacity and the route cost limit, and whose cost differs from the old one by exactly the reported, requested improvement. "
  "It returns nothing only if no feasible reconnection of any three edges of the plan is that good, and with best-accept none is better than the one returned.",
  ["inputs"],
  "All feasible plans with one or more routes, symmetric matrices, tight or loose limits, both strategies and requested levels.",
  "The sixteen reconnections times the positions of depots between the cut points make thousands of cases; tests exercise few of them with tight limits.",
  [LS + "solution_operators.py"],
  [("move table and segment recipes", LS + "solution_operators.py MOVES_3OPTSTAR"), ("cumulative demand and cost feasibility check", LS + "solution_operators.py")])

p("V09", "Local search ends in a feasible plan that is no worse and locally optimal",
  "A local search with any set of improvement operators and any combination of operator and iteration strategies, started from a feasible plan, ends with a feasible plan that serves the same customers and costs no more. "
  "When it is not cut short by an iteration limit, none of the given operators can improve the result any more; each of its accepted moves lowers the cost. "
  "The strategies do what is documented: with best-accept everywhere a round makes the single best move of all operators, with first-accept iteration that of the first operator that has one, and repeated-accept leaves an operator only when it finds nothing any more.",
  ["inputs", "histories", "configurations"],
  "All operator sets and orders, strategies, feasible plans (also with routes that become empty on the way), symmetric matrices, limits met exactly or slack.",
  "The bookkeeping of already searched route combinations only fails after particular sequences of moves and emptied routes.",
  [LS + "__init__.py", LS + "intra_route_operators.py", LS + "inter_route_operators.py", "verypy/routedata.py"],
  [("book of searched combinations and its invalidation", LS + "__init__.py at_lsop_optimal"), ("route cost and demand carried from move to move", "verypy/routedata.py")],
  state=[("route data", "cost and demand of each current route", LS + "__init__.py")])

p("V10", "TSP solvers return a closed tour over exactly the given nodes, at its true cost",
  "Each TSP solver returns a closed tour that starts and ends at the first given node (for an external solver: is closed), visits every given node exactly once, and is reported with its true cost. "
  "The exact solver's tour is of minimum cost, the 2-opt and 3-opt solvers' tours cannot be improved by the respective move, and no solver returns a tour that costs more than visiting the nodes in the given order does, when it improves that order.",
  ["inputs"],
  "All subsets and orders of nodes (closed or not, one node upwards), symmetric matrices with coincident nodes, integer or real.",
  "Solvers are only exercised indirectly by the heuristics on a few benchmark files.",
  ["verypy/tsp_solvers/tsp_solver_ropt.py", "verypy/tsp_solvers/tsp_solver_gurobi.py", "verypy/tsp_solvers/tsp_solver_lkh.py", "verypy/tsp_solvers/tsp_solver_acotsp.py", "verypy/tsp_solvers/tsp_solver_fast.py"],
  [("r-opt loop", "verypy/tsp_solvers/tsp_solver_ropt.py"), ("subtour elimination", "verypy/tsp_solvers/tsp_solver_gurobi.py"), ("external solver file exchange", "verypy/tsp_solvers/tsp_solver_lkh.py, tsp_solver_acotsp.py")])

p("V11", "Problem files are read as TSPLIB and the custom fields define them",
  "Reading a problem file gives the instance that the file describes: number of customers, coordinates, demands, capacity, the distance between every two nodes as the edge weight type and format define it, the depot first whichever node it is in the file, "
  "and the vehicle count, route cost limit and service time of the additional fields. Layout of the file (blanks, line breaks inside matrices, section order) makes no difference, and an explicit matrix with too few values is refused.",
  ["inputs"],
  "All distance types and matrix formats, depot positions, field spellings with and without blanks around the colon, integer and real values.",
  "The test files cover two of the distance types with the depot first.",
  ["verypy/cvrp_io.py"],
  [("field and section parsing", "verypy/cvrp_io.py read_TSPLIB_CVRP"), ("distance functions", "verypy/cvrp_io.py calculate_D"), ("additional constraints", "verypy/cvrp_io.py read_TSBLIB_additional_constraints")])

p("V12", "What the library writes it can read back unchanged",
  "A problem written to a file and read back has the same distances (to the chosen precision), demands, capacity and route cost limit, for the nodes that were selected and in the selected order. "
  "A plan written in the solution format and read back has the same routes in the same order, cost (to two decimals) and number of vehicles, and the VRPH encoding of a plan determines its routes.",
  ["inputs"],
  "All integer demands and limits, integer and real matrices, node selections, plans with any number of routes, whole and fractional costs.",
  "No test writes and reads.",
  ["verypy/cvrp_io.py"],
  [("writers and reader", "verypy/cvrp_io.py write_TSPLIB_file, as_OPT_solution, read_OPT_CVRP, as_VRPH_solution")])

p("V13", "The feasibility check, objective and normalization agree with the definition",
  "The feasibility check reports coverage, capacity and route cost of a plan exactly as a check from the definition of the problem does, wherever in the cyclic plan the listing starts; the objective of a plan is the sum of its edges whichever way the plan is given. "
  "Normalizing a plan yields the same routes up to direction and order in a canonical form: equal for any two listings of the same plan, unchanged when normalized again, and equally good and feasible.",
  ["inputs"],
  "All plans, feasible or not in any of the three respects, giant tours (rotated, with repeated depots) and lists of routes, symmetric matrices, limits present or not.",
  "Tests call these as the judge of the heuristics and so never feed them plans that are wrong in particular ways.",
  ["verypy/cvrp_ops.py", "verypy/util.py"],
  [("validate_solution_feasibility", "verypy/cvrp_ops.py"), ("normalize_solution, recalculate_objective", "verypy/cvrp_ops.py")])

p("V14", "Savings heuristics follow the published savings construction rule",
  "On problems without ties, the parallel, sequential, Gaskell, generalized (Paessens) and suppression savings heuristics produce the plans that a straightforward execution of their published rules produces: "
  "repeatedly merge at the largest remaining saving (of the criterion in use) whose two customers are still at the ends of different routes that fit together within the limits, leaving out merges that make the plan costlier unless "
  "vehicles are minimized (the sequential rule: for one route at a time; the best over the published parameter values, or suppressed merges, for the multi-run ones). CAWLIP's plan is that of the parallel rule with each route improved by 2-opt, best move first.",
  ["inputs"],
  "All tie-free problems with Euclidean distances, capacity and/or route cost limits, both objectives.",
  "Replication tests compare published totals of a few benchmark problems, which many wrong rules reach too.",
  [H + "parallel_savings.py", H + "sequential_savings.py", H + "gaskell_savings.py", H + "paessens_savings.py", H + "suppression_savings.py", H + "cawlip_savings.py"],
  [("savings functions and merge loop", H + "parallel_savings.py")])

p("V15", "Nearest neighbour, insertion and sweep heuristics follow their published rules",
  "On problems without ties, the nearest neighbour heuristics extend a route with the unserved customer nearest to the one added last, at the cheaper end of the route, and when it does not fit start a new route from the unserved customer "
  "nearest to the depot (parallel version: the best over the numbers of emerging routes). The cheapest insertion heuristics make the feasible insertion that their criterion ranks first, starting each route with the farthest unserved customer; Mole and Jameson's does so for each of its criteria, with the growing route kept 2-optimal, "
  "moves single customers and gives away the emptiest route as long as that helps, and returns the best plan. "
  "The sweep heuristic serves the customers in polar order around the depot, closing a route when the next customer does not fit, and takes the best of the starting positions and directions. "
  "The interchange of Tyagi's heuristic makes the feasible replacement that raises the load of the route the most. The documented starting and direction options do what they are named after.",
  ["inputs"],
  "All tie-free problems with Euclidean distances, capacity and/or route cost limits, published default options.",
  "Any feasible plan passes the smoke tests; only a model of the rule tells which plan it should be.",
  [H + "nearest_neighbor.py", H + "cheapest_insertion.py", H + "mole_jameson_insertion.py", H + "sweep.py"],
  [("neighbour lists", H + "nearest_neighbor.py"), ("insertion criteria", H + "cheapest_insertion.py"), ("polar sort and sweep", H + "sweep.py")])

p("V16", "The chosen objective decides which plan a multi-run heuristic returns",
  "A heuristic that tries several parameter values, starts or vehicle counts returns the best of the plans it would return for each of them under the chosen objective: the lowest cost, or, when minimizing vehicles, the fewest routes and then the lowest cost. "
  "A full run is therefore never worse under the objective than the single run of the same heuristic where the single run is one of its trials.",
  ["inputs", "configurations"],
  "All solvable problems, both objectives, the parametrized savings, sweep, insertion and petal heuristics.",
  "Tests look at one objective value per file and cannot see that a better trial was thrown away.",
  ["verypy/util.py", H + "gaskell_savings.py", H + "paessens_savings.py", H + "sweep.py", H + "mole_jameson_insertion.py", H + "wren_holliday_sweep.py", H + "gillet_miller_sweep.py", H + "gapvrp.py", H + "cmt_2phase.py"],
  [("is_better_sol and the best-so-far records", "verypy/util.py")])

p("V17", "Route-first-cluster-second splits its giant tour optimally",
  "Given the giant tour of its TSP solver, the route-first-cluster-second heuristic returns a partition of that tour into consecutive feasible routes whose total cost no other partition of the tour (starting at the depot) into consecutive feasible routes undercuts; "
  "when minimizing vehicles no partition uses fewer routes, nor as few at lower cost.",
  ["inputs"],
  "All problems and giant tours, capacity and/or route cost limits.",
  "Optimality over all partitions needs an independent computation for every input.",
  [H + "rfcs.py"],
  [("shortest path over feasible route arcs", H + "rfcs.py")])

p("V18", "Service times are charged once per customer",
  "With a service time, the cost of any route in the distance matrix used for solving equals its travel distance plus the service time for each visited customer, whatever the types and parity of the distances and the service time are; the distance matrix itself is left alone. "
  "Hence a route cost limit bounds the total of travel and service in every plan the library returns.",
  ["inputs"],
  "All symmetric matrices (integer and real), all positive service times (odd, even, fractional), all routes.",
  "Only one benchmark family with an even integer service time is ever read.",
  ["verypy/cvrp_ops.py", "verypy/VeRyPy.py", "verypy/shared_cli.py", H + "gapvrp.py"],
  [("D2D_c", "verypy/cvrp_ops.py")])

p("V19", "The command line reports what was really found",
  "For every problem and selected heuristic, the command line prints a plan, its number of routes, its cost or length and its feasibility that all agree with a recomputation from the problem file and with each other, in every output mode; "
  "post-optimization never makes a plan worse or infeasible, the reported plan is the one the heuristic gives for that file and options, and every selected problem is solved exactly once by each selected heuristic that is not forbidden. "
  "A heuristic that fails on a problem is reported as failed and never as a feasible plan, and does not keep the others from being run and reported; an interrupted heuristic is reported as interrupted, with the plan it handed over if there is one, and ends the run after the report. Each row of the collected results belongs to one problem file, also when files in different folders have the same name or the run was interrupted. A log file holds the debug output the console shows, and asking for help or the list of heuristics solves nothing.",
  ["inputs", "configurations", "fault_sequences"],
  "All problem files, directories and lists, all option combinations of output, objective, rounding and post-optimization, with capacity and/or cost limit and service time.",
  "No test runs the command line.",
  ["verypy/VeRyPy.py", "verypy/shared_cli.py", "verypy/cvrp_ops.py"],
  [("solve and report loop", "verypy/VeRyPy.py main"), ("problem file list", "verypy/shared_cli.py"), ("statistics", "verypy/shared_cli.py print_solution_statistics")])

p("V20", "Conversions between plan encodings and the shared containers are faithful",
  "Converting between giant tours, lists of routes, edge sets and route records loses and adds nothing but empty routes: customers, their order and the route boundaries stay, costs and demands and their running totals are those of the routes. "
  "The ordered set behaves as a set that iterates and indexes in insertion order through any sequence of operations, and the plan comparison is a strict preference by the chosen objective.",
  ["inputs", "histories"],
  "All plans with any pattern of empty routes, all symmetric matrices, all operation sequences.",
  "Tests use the conversions in passing on well-formed plans.",
  ["verypy/util.py", "verypy/routedata.py"],
  [("sol2routes, routes2sol, sol2edgeset", "verypy/util.py"), ("OrderedDictSet index cache", "verypy/util.py"), ("cumulative data", "verypy/routedata.py")])

p("V21", "Equivalent statements of a problem get equivalent plans",
  "Multiplying all distances and the route cost limit, or all demands and the capacity, by a power of two leaves the routes of every heuristic whose rules use only their proportions as they are; moving all coordinates leaves the cost of sweep based plans as it is, "
  "so do quarter turns and mirroring for the full sweep, and renumbering the customers for the constructive heuristics, on problems without ties. Giving the same numbers in other containers, number types or memory layouts does not change a plan, and adding a limit that no plan could exceed does not change its cost.",
  ["inputs"],
  "All tie-free problems; scale factors that are powers of two; all container and number types the interfaces accept.",
  "Needs pairs of related inputs; tests have single inputs.",
  ALLH,
  [("comparisons on differences of distances only", H)])

p("V22", "Improvement phases never spoil what they start from",
  "The savings heuristics with 2-opt or 3-opt routes never return a plan that costs more, or has more routes, than their construction alone gives, nor does post-optimization of any heuristic's plan, which changes nothing when repeated. "
  "In the plans of heuristics that re-optimize their routes no improving move of that kind is left within any route (3-opt: two-phase, Gillett and Miller, generalized savings, route-first-cluster-second, Tyagi, matching based, assignment and Lagrangean heuristics and routed sweeps; 2-opt: savings with 2-opt, Mole and Jameson, Wren and Holliday), the Lagrangean heuristic leaves no feasible improving 3-opt* move of the plan, and a fully converged Wren and Holliday plan has no improving relocation of a customer within or between routes (or to a new route, if the number of routes is not minimized) and no improving pair (chain) move over three routes.",
  ["inputs", "configurations"],
  "All solvable problems, both objectives, single and full runs, all operator sets and strategies of the post-optimization.",
  "A lost improvement leaves a feasible plan that tests accept.",
  [H + "cawlip_savings.py", H + "paessens_savings.py", H + "mole_jameson_insertion.py", H + "gillet_miller_sweep.py", H + "wren_holliday_sweep.py", H + "sweep.py", H + "cmt_2phase.py", H + "lr3opt.py", H + "tyagi_nearest_neighbor.py", H + "matchingvrp.py", H + "rfcs.py", H + "gapvrp.py"],
  [("improvement loops", H)])

p("V23", "Generated problems and coordinates are well formed",
  "A generated random problem has the requested number of customers, the depot at the origin without demand, every demand between one and the capacity, and the rounded Euclidean distances of its coordinates; the regular variant puts the customers evenly on a circle of the given radius. "
  "Coordinates made up for a problem that has only distances are one finite point per node and the same on every call.",
  ["inputs"],
  "All sizes, capacities, demand distributions and random states; all symmetric distance matrices.",
  "Random generation is never tested.",
  ["verypy/cvrp_io.py", "verypy/cvrp_ops.py"],
  [("generate_CVRP", "verypy/cvrp_io.py"), ("generate_missing_coordinates", "verypy/cvrp_ops.py")])

p("V24", "Every documented option of a heuristic gives a complete and feasible plan",
  "Whatever documented option values a heuristic function is called with, alone or combined (seed methods, numbers of parallel routes, directions, criteria, multipliers, strategies, solvers, numbers of trials and iterations, relaxations, required number of routes), it ends and returns a plan that serves every customer exactly once within the capacity and cost limits. "
  "A required number of routes is not exceeded by the assignment heuristic, forbidden customers and only they are left out by the nearest neighbour heuristic, a sweep over a part of the customers serves exactly these, options documented to mean the same (named or given as functions, cartesian or polar coordinates, named start or its index) give the same plan, and unknown values of options with a closed list are refused with a ValueError. "
  "Documented exceptions: the assignment heuristic may return no plan under a cost limit or with a required number of routes, and needs a limit to start from.",
  ["inputs", "configurations"],
  "All solvable problems and all combinations of documented option values.",
  "Tests call the heuristics with their defaults and with the few settings of the published experiments.",
  ALLH,
  [("documented parameters of the *_init functions", H)])

p("V25", "The educational operators find the best move, and their search an optimum",
  "The naive 2-opt, relocate, exchange, one point, two point and 2-opt* operators return nothing exactly if no feasible move of their kind improves the plan by more than asked for; otherwise a plan of the same customers within the limits whose change in cost is what they report, the best one of the whole plan (relocate and exchange: of every route) if the best is asked for. "
  "They leave the plan they are given as it is. "
  "The naive local search applies its operators until none of them improves the plan, loses none of the moves made, and stops when the maximum number of iterations is reached.",
  ["inputs", "configurations", "histories"],
  "All feasible plans, symmetric matrices, limits, strategies, levels and operator sequences.",
  "They are only used to compare random samples with the optimized operators, and the same slip in both would go unnoticed.",
  ["verypy/local_search/naive_implementations.py"],
  [("do_naive_*_move, do_naive_local_search", "verypy/local_search/naive_implementations.py")])

p("V26", "Time limits and failures of the solver never turn into a bad plan",
  "Whichever call of the mixed integer solver runs into its time limit, fails, or is interrupted, a heuristic that uses it either reports that (GurobiError for limits and failures, KeyboardInterrupt for an interruption, which also ends the search at once and may carry a complete and feasible plan) or returns a plan that serves every customer exactly once within all limits; it does not fail in another way, and it ends. "
  "The exact TSP solver reports them likewise, and never passes off an unfinished tour.",
  ["fault_sequences", "inputs", "configurations"],
  "All problems, options, solver calls and kinds of fault.",
  "Solver limits and failures do not occur on the small problems of the tests.",
  [H + "gapvrp.py", H + "petalvrp.py", H + "matchingvrp.py", "verypy/tsp_solvers/tsp_solver_gurobi.py"],
  [("_solve_gap", H + "gapvrp.py"), ("_solve_set_covering", H + "petalvrp.py"), ("solve_tsp_gurobi", "verypy/tsp_solvers/tsp_solver_gurobi.py")])

p("V27", "Drawings show the problem, the search and the plan as they are",
  "A drawing has every node exactly once, labelled with its number and placed where its coordinates belong (moved into the drawing area and scaled, by the same factor in both directions if asked for), exactly the legs of the routes it is given in their colours and with their lengths, the marked nodes and points, and each ray from the depot in its direction up to the frame. "
  "Visualizing the debug output of a heuristic never fails, ends with exactly the plan it found, and never draws a customer on two completed routes; files it has not made are left alone.",
  ["inputs", "histories"],
  "All problems with coordinates, routes, rays and marks, and all runs of the visualized heuristics.",
  "There are no tests of the visualizers.",
  ["verypy/visualizers/export_dot.py", "verypy/visualizers/shared_visualize.py"],
  [("output_dot", "verypy/visualizers/export_dot.py"), ("visualize_procedure, normalize_to_rect", "verypy/visualizers/shared_visualize.py")])

p("V28", "Two phase, petal, assignment, matching, Lagrangean heuristics follow their rules",
  "The matching based savings heuristic merges, at each step, the best saving pair of a matching of the routes with the largest total saving (ties by the smallest other savings of the two) and ends when no feasible merge saves (or, minimizing routes, is possible). "
  "The two phase heuristic returns the better of the plan that grows one route at a time around its seed and the plan that gives customers to the seeds by regret. "
  "The petal heuristic's plan costs no more than the best partition into feasible petals (with few enough routes if asked for), and no single customer can be moved for less; its first iteration is exactly the best partition over the petals it allows. "
  "The assignment heuristic returns the best of its trials, each a best assignment of customers to its seeds routed optimally, starts with the fewest vehicles that can carry the demand and adds one at a time, and puts its seeds where the chosen method says. "
  "Every step of the Lagrangean heuristic lowers the cost plus multiplier times excess demand and length of the routes by exactly what it reports; the documented initial multipliers are doubled when no 3-opt* move lowers it any more, and the first feasible such plan is returned. "
  "On the examples of the publications they, and the other heuristics whose results are documented, give the published costs.",
  ["inputs", "configurations"],
  "All problems, options and both objectives, except where a tie or a tolerance of the solver decides.",
  "The rule has to be compared with a model of it on many small problems; tests compare a few published instances.",
  [H + "cmt_2phase.py", H + "petalvrp.py", H + "gapvrp.py", H + "matchingvrp.py"],
  [("mbsa_init, _mmp_solve", H + "matchingvrp.py"), ("_phase_one, _phase_two", H + "cmt_2phase.py"), ("petal_init, _solve_set_covering", H + "petalvrp.py"),
   ("gap_init, _sweep_seed_points", H + "gapvrp.py")])

p("V29", "The window and solving from a file show, return and save what was found",
  "Solving a problem file with a heuristic calls it with exactly the problem of the file (also a pickled one) and the options asked for, as often as asked for, and returns the best of the plans by the chosen objective with its true length and its true cost including service times, or nothing if nothing was found; an interruption ends it. "
  "The window opens anywhere, offers every heuristic, solves the chosen file with the chosen heuristic exactly once, and shows the cost and number of routes of that plan; failures and missing files are reported and leave the last plan as it is. "
  "Export writes the shown plan with its cost in the chosen format to the chosen file only; without a plan, or when a dialog is cancelled, nothing changes and nothing is written.",
  ["inputs", "histories", "configurations"],
  "All problem files and all sequences of choosing, solving and exporting.",
  "There are no tests of the window or of solving from files.",
  ["verypy/VeRyPyGui.py", "verypy/shared_cli.py"],
  [("VeRyPyGuiApp", "verypy/VeRyPyGui.py"), ("read_and_solve_a_problem", "verypy/shared_cli.py")])

if __name__ == "__main__":
    out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
    with open(out, "w") as f:
        for x in P:
            assert len(x["title"]) <= 80, x["title"]
            f.write(json.dumps(x) + "\n")
    print(len(P))
