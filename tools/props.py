"""Writes properties.jsonl (kept as a script so that the entries stay uniform)."""
import json
import os

AZP = "region/p_regions/azp.py"
AU = "region/p_regions/azp_util.py"
UT = "region/util.py"
CG = "region/csgraph_utils.py"
OB = "region/objective_function.py"
EX = "region/p_regions/exact.py"
MX = "region/max_p_regions/exact.py"
MH = "region/max_p_regions/heuristics.py"
SK = "region/skater/skater.py"
P = []


def add(id, title, statement, over, quant, why, files, mech, observe=()):
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": quant}, "why_tests_cant": why,
              "anchors": {"files": files,
                          "mechanism": [{"name": a, "where": b} for a, b in mech],
                          "observe_at": list(observe), "hook_needed": None}})


I, S, H, C = "inputs", "schedules", "histories", "configurations"

add("C01", "AZP returns a valid regionalization",
    "Fitting AZP labels every area, uses exactly the requested number of regions, and every "
    "region is spatially contiguous, whatever the attributes and the random choices, from given "
    "feasible initial labels or from a generated start, on connected and disconnected maps. The "
    "attributes and the initial labels passed in are not modified, and n_regions is set.",
    [I, S], "all contiguity graphs, attributes / dissimilarities, numbers of regions, initial "
    "labels, random draw sequences",
    "The tests fit one 2x3 grid with one seedless run; a move that breaks contiguity needs a "
    "particular graph, order of draws and dissimilarity.",
    [AZP, UT, CG], [("contiguity test before a move", AZP + " AZP._azp_connected_component"),
                    ("initial solution", UT + " generate_initial_sol")],
    ["labels_", "n_regions"])
add("C02", "AZP and its tabu variants never worsen the objective",
    "Started from given initial labels, AZP, AZPBasicTabu and AZPReactiveTabu return labels whose "
    "objective value is not greater than that of the initial labels, whatever the dissimilarities "
    "and the random choices.",
    [I, S], "all graphs, initial labels, dissimilarities, random draws, tabu parameters",
    "The tests compare with one known optimum of one map.",
    [AZP, AU, OB], [("only non-worsening moves are allowed", AU + " AllowMoveAZP"),
                    ("incremental objective", OB + " ObjectiveFunctionPairwise.update")],
    ["labels_"])
add("C03", "AZP ends in a local optimum",
    "When no move AZP considers leaves the objective exactly unchanged, the labels AZP returns "
    "cannot be improved by moving a single area to a neighbouring region such that its old region "
    "stays contiguous and nonempty.",
    [I, S], "all graphs, initial labels, tie-free dissimilarities, random draws",
    "A too early stop shows only for particular dissimilarities and draws; the tests' map has one "
    "obvious optimum.",
    [AZP, AU], [("repeat until no improving move is made", AZP + " AZP._azp_connected_component")],
    ["labels_"])
add("C04", "Simulated annealing returns a valid regionalization",
    "Fitting AZPSimulatedAnnealing with a finite max_iterations and sensible parameters returns, "
    "and its labels name exactly the requested number of regions, label every area, and every "
    "region is contiguous, for all attributes and random choices, on connected and disconnected "
    "maps.",
    [I, S, C], "all graphs, dissimilarities, random draws (indices and acceptance numbers), "
    "parameter values",
    "The tests fit one grid; a sequence of accepted worsening moves is not controlled by them.",
    [AZP, AU], [("annealing loop", AZP + " AZPSimulatedAnnealing._azp_connected_component"),
                ("acceptance", AU + " AllowMoveAZPSimulatedAnnealing")], ["labels_"])
add("C05", "Simulated annealing accepts by the Metropolis rule and cools down",
    "A move that does not increase the objective is always made; a move that increases it by d at "
    "temperature T is made if and only if the random number drawn for it from [0, 1) is less than "
    "exp(-d/T). The temperature is the initial one in the first round and is multiplied by the "
    "cooling factor for every further round, and a round ends once the given number of worsening "
    "moves was made.",
    [I, S, H], "all move histories, differences, acceptance numbers",
    "No test looks at which moves were accepted, let alone at the temperature.",
    [AU, AZP], [("acceptance probability", AU + " AllowMoveAZPSimulatedAnnealing.__call__"),
                ("cooling", AZP + " AZPSimulatedAnnealing")],
    ["the sequence of labels between evaluations of the objective"])
add("C06", "Basic tabu search terminates with a valid regionalization",
    "Fitting AZPBasicTabu terminates for all attributes, ties included, and all positive tabu "
    "lengths and repetition limits; its labels name exactly the requested number of regions, label "
    "every area, and every region is contiguous, on connected and disconnected maps.",
    [I, S, C], "all graphs, dissimilarities, draws, tabu lengths, repetition limits",
    "Endless loops and emptied regions need ties or tabu moves that the tests' single map lacks.",
    [AZP], [("visited solutions", AZP + " AZPBasicTabu._azp_connected_component"),
            ("moves that keep contiguity", AZP + " AZPTabu")], ["labels_"])
add("C07", "Reactive tabu search returns a valid regionalization",
    "Fitting AZPReactiveTabu with positive max_iterations and nonnegative k1 and k2 does not fail; "
    "its labels name exactly the requested number of regions, label every area, and every region "
    "is contiguous, on connected and disconnected maps, for all attributes and random choices.",
    [I, S, C], "all graphs, dissimilarities, draws, max_iterations, k1, k2",
    "The reactive steps (cycles, escape moves) need particular dissimilarities; the reactive tests "
    "fail at the pinned commit for an unrelated reason.",
    [AZP], [("possible moves", AZP + " AZPReactiveTabu._azp_connected_component")], ["labels_"])
add("C08", "A tabu move is not made unless it improves the objective",
    "During a fit of AZPBasicTabu with tabu length t, a move that takes back one of the last t "
    "attempted moves (the same area back to the region it left) is only made when it strictly "
    "lowers the objective.",
    [I, H], "all move histories, dissimilarities with ties",
    "No test observes the moves.",
    [AZP], [("tabu list", AZP + " AZPTabu._make_move")],
    ["the sequence of labels between evaluations of the objective"])
add("C09", "The incremental objective equals the change of the full objective",
    "For every objective function, the value update(area, region, labels, attr) returns is the "
    "objective of the labels after moving the area minus the objective before, for every partition "
    "and every region other than the area's own, and for every metric, center and reduction the "
    "class accepts. Neither update nor evaluating the objective leaves labels or attributes changed.",
    [I], "all partitions, attributes, dissimilarities, moves",
    "A doctest evaluates one call of each class.",
    [OB], [("pairwise difference", OB + " ObjectiveFunctionPairwise.update"),
           ("center difference", OB + " ObjectiveFunctionCenter.update")], ["return values"])
add("C10", "Objective functions compute their definition",
    "The pairwise objective is the sum of the dissimilarities of all unordered pairs of areas that "
    "share a region; the center objective reduces the reduced distances of each region's areas to "
    "the region's center. Both depend only on the partition, not on the names or the type of the "
    "labels, and metrics named by a string are the documented ones.",
    [I, C], "all partitions, label values, attributes, metric names",
    "Two doctests with one partition each.",
    [OB, UT], [("objective", OB), ("metric names", UT + " get_metric_function")],
    ["return values"])
add("C11", "Feasibility checks accept exactly the feasible solutions",
    "The feasibility check accepts labels if and only if every region is contiguous and, when a "
    "number of regions is given, the number of distinct labels equals it; otherwise it raises "
    "ValueError (or yields False in the boolean form). Connectivity, neighbour and submatrix "
    "queries on the adjacency matrix agree with the graph.",
    [I], "all graphs and label vectors of the bounded size, all requested numbers",
    "The tests check three labelings of one map.",
    [UT, CG], [("assert_feasible", UT), ("is_connected, sub_adj_matrix, neighbors", CG)],
    ["exception or return value"])
add("C12", "Generated initial solutions are feasible",
    "For every map and every number of regions between the number of its connected components and "
    "the number of areas, the initial-solution generator yields for each component the labels of "
    "contiguous regions, with labels outside the component marked, and all components together "
    "have exactly the requested number of distinct regions. For other numbers it raises ValueError.",
    [I, S], "all graphs, numbers of regions, random draws, spanning trees",
    "No test calls the generator with a given number of components and draws.",
    [UT, CG], [("cutting a spanning tree", UT + " generate_initial_sol / _randomly_divide_"
                "connected_graph")], ["yielded arrays"])
add("C13", "Exact p-regions solutions are valid regionalizations",
    "Whenever the p-regions problem is feasible, fitting PRegionsExact with the flow, order or tree "
    "method succeeds, and its labels label every area, name exactly the requested number of regions "
    "and every region is contiguous, whatever optimal solution the solver returns.",
    [I, C], "all graphs, dissimilarities, numbers of regions, three models, all solver solutions",
    "The tests solve one map per method with one solver run.",
    [EX], [("flow, order, tree model", EX)], ["labels_"])
add("C14", "Exact p-regions solutions are optimal",
    "The labels PRegionsExact returns have a total intra-region pairwise dissimilarity not greater "
    "than that of any other partition of the areas into the requested number of contiguous regions, "
    "for the flow, the order and the tree model.",
    [I, C], "all graphs, nonnegative dissimilarities, numbers of regions, all optimal solver "
    "solutions",
    "The tests know the optimum of one map.",
    [EX], [("objective and constraints of the models", EX)], ["labels_"])
add("C15", "Exact models refuse problems without solution",
    "When no partition into the requested number of contiguous regions exists, or no partition "
    "whose regions all reach the threshold, or the solver reports anything but an optimal solution, "
    "the exact models raise an exception instead of returning labels, and "
    "arguments out of range (number of regions not positive or above the number of areas, unknown "
    "method or solver) raise ValueError.",
    [I, C], "all graphs, thresholds, numbers of regions, methods",
    "No test asks for an impossible solution.",
    [EX, MX, UT], [("status of the solver", UT), ("argument checks", EX)], ["exceptions"])
add("C16", "Exact max-p solutions are feasible with the most regions, then least dissimilar",
    "The labels MaxPRegionsExact returns label every area with contiguous regions that each reach "
    "the threshold in the spatially extensive attribute; no feasible partition has more regions, "
    "and none with as many regions has a smaller total intra-region pairwise dissimilarity.",
    [I, C], "all graphs, spatially extensive attributes, thresholds, dissimilarities, optimal "
    "solver solutions",
    "The tests solve one map with one threshold.",
    [MX], [("order-based max-p model", MX), ("weight of the number of regions", MX)], ["labels_"])
add("C17", "The max-p heuristic returns a feasible solution",
    "Whenever the threshold can be reached, the labels of MaxPRegionsHeu label every area with "
    "contiguous regions that each reach the threshold in every spatially extensive attribute, with "
    "nonnegative spatially extensive attributes, for every local search (AZP, simulated annealing, "
    "tabu) and all random choices.",
    [I, S, C], "all graphs, attributes, thresholds, draws, local searches",
    "The tests run one map; a move below the threshold needs particular attributes and draws.",
    [MH, AU], [("growing regions and assigning enclaves", MH),
               ("threshold guard", AU + " AllowMoveAZPMaxPRegions")], ["labels_"])
add("C18", "The threshold guard allows exactly the moves that keep both regions feasible",
    "The guard of the max-p local search allows a move only if the donor region without the area "
    "and the recipient region with it still reach the threshold in all spatially extensive "
    "attributes, negative values included, provided both did before; and then the decorated "
    "strategy alone decides. A refused move is not passed on to the decorated strategy, and no "
    "local search makes a move that its strategy has refused or was not asked about.",
    [I], "all labels, attributes (any sign, several attributes), thresholds, moves, decorated "
    "strategies",
    "No test calls the guard.",
    [AU], [("threshold guard", AU + " AllowMoveAZPMaxPRegions.__call__")],
    ["return value", "calls of the decorated strategy"])
add("C19", "The max-p heuristic keeps its best candidate",
    "MaxPRegionsHeu returns a solution with as many regions as the best of the partitions grown in "
    "its construction phase, every one of these best partitions is improved by the local search, and "
    "its objective value is not greater than that of any partition with that number of regions that "
    "came out of the local search (nor that entered it, if the local search never worsens).",
    [I, S], "all graphs, attributes, draws, max_it",
    "The candidates are internal to a run; tests see only the final labels.",
    [MH], [("keeping the best partition", MH + " fit_from_scipy_sparse_matrix")], ["labels_"])
add("C20", "SKATER regions are contiguous, counted and no smaller than the quorum",
    "A fit of SKATER yields contiguous regions with at least quorum areas each, exactly the "
    "requested number of them unless it warns that no further cut is possible, in which case no "
    "cut of an edge of the remaining forest satisfies the quorum; islands are handled as requested "
    "(counted towards or in addition to the number). Components of a disconnected map "
    "that are smaller than the quorum raise ValueError.",
    [I, C], "all graphs, data / dissimilarities, numbers of clusters, quorums, island options",
    "The tests fit one data set and look at one count.",
    [SK], [("spanning forest", SK + " fit"), ("cuts", SK + " find_cut, make_cut")],
    ["current_labels_", "minimum_spanning_forest_", "warnings"])
add("C21", "SKATER cuts a minimum spanning forest greedily by score",
    "The forest SKATER starts from spans every component with the least total dissimilarity, every "
    "cut removes the edge whose removal gives the least score among those that satisfy the quorum, "
    "and the score of labels is the reduction of the reduced dissimilarities of each region's "
    "areas to its center, infinite if a region is below the quorum.",
    [I], "all graphs, data, dissimilarity and affinity functions, reductions, centers, label values",
    "The tests check one fit.",
    [SK], [("minimum spanning forest", SK + " fit"), ("best cut", SK + " find_cut"),
           ("score", SK + " score")], ["current_labels_", "score"])
add("C22", "All input representations give the same result",
    "For the same map, attributes, initial labels and random seed, fitting from a sparse matrix, a "
    "dictionary, a networkx graph, a W object or a GeoDataFrame gives the same labels for each area "
    "for every estimator, whatever the order in which nodes, keys or neighbours are given.",
    [I, C], "all graphs, node orders, attribute values, representations, estimators",
    "The tests use a map whose representations all list the areas in sorted order.",
    [AZP, EX, MX, MH, UT], [("fit_from_* methods", "all estimators"), ("conversions", UT)],
    ["labels_"])
add("C23", "The random state determines the result",
    "Constructing an AZP, a tabu, an annealing or a max-p heuristic estimator with a random_state "
    "and fitting it twice this way with the same arguments gives the same labels, whatever "
    "random numbers were drawn before.",
    [S, H], "all seeds' draw sequences, dissimilarities, graphs",
    "The tests never fit twice.",
    [AZP, MH], [("random.seed", AZP + " AZP.__init__"), ("random.seed", MH)], ["labels_"])
add("C24", "A fit does not depend on earlier fits",
    "Fitting an estimator again, on the same or on another problem, gives the labels a new "
    "estimator would give for the same draws: no state of earlier fits (visited solutions, tabu "
    "lists, thresholds, attributes, iteration counts) carries over.",
    [H, I], "sequences of two fits, dissimilarities, draws",
    "The tests fit each estimator once.",
    [AZP, AU, MH, SK], [("reset at the start of a fit", "all estimators")], ["labels_"])
add("C25", "Invalid arguments are rejected",
    "Infeasible initial labels, numbers of regions that cannot be reached, unknown metrics, "
    "solvers, methods, contiguity types and attribute specifications, and parameter values outside "
    "their documented range raise ValueError (or the documented exception) and leave the "
    "estimator's labels_ unset; valid arguments are accepted.",
    [I, C], "all argument values of the bounded kind",
    "The tests pass only valid arguments.",
    [AZP, AU, EX, MX, UT], [("argument checks", "constructors and fit methods")], ["exceptions"])
add("C26", "Conversion helpers preserve the data",
    "The helpers that turn dictionaries, graphs, region lists and data frame columns into arrays "
    "and adjacency matrices return for every area exactly the value or neighbours given for it, in "
    "the order of the sorted (or requested) keys, for scalar and iterable values, any key types, "
    "and any insertion order; they do not modify their arguments.",
    [I], "all graphs, key orders, values, numbers of attributes",
    "The doctests use sorted keys and complete dictionaries.",
    [UT], [("array_from_*, scipy_sparse_matrix_from_dict, dict_from_graph_attr", UT)],
    ["return values"])
add("C27", "The tabu searches take the best admissible move in every step",
    "AZPBasicTabu and AZPReactiveTabu make the best move in every step. Admissible are the moves "
    "of an area to a neighbouring region that keep the area's old region contiguous and nonempty. "
    "The first move in a component has the least objective change of all admissible ones, and is "
    "made whenever it lowers the objective. Every further move is best among the admissible ones "
    "that do not take back a recent move (basic: one of the last t); basic takes a move back only "
    "if no other admissible move keeps the objective from rising, reactive never takes back the "
    "move it has just made, and moves at random only after a repeated cycle. The result is no "
    "worse than any solution before the last move.",
    [I, S, H], "all graphs, dissimilarities, objective functions, initial labels, tabu lengths",
    "The tests only look at the final labels of one small grid, which any descent reaches.",
    [AZP], [("best move", AZP + " AZPBasicTabu / AZPReactiveTabu _azp_connected_component"),
            ("tabu list", AZP + " AZPTabu._make_move")], ["labels_", "moves"])
add("C28", "Max-p grows regions greedily and leaves no usable enclave",
    "In the construction phase of the max-p heuristic every region is grown from one area by adding, "
    "as long as it is below the threshold, the least dissimilar (in total, to all areas of the "
    "region) of the neighbouring areas that are not in a region yet. Grown regions are disjoint, "
    "contiguous and reach the threshold, no connected set of the areas left over does, and these "
    "enclaves join, one after the other, the least dissimilar of the regions they border on, which "
    "neither splits, merges nor creates regions.",
    [I, S], "all graphs, dissimilarities, spatially extensive attributes, thresholds, draws",
    "The tests look at the regions that come out of the local search on one small grid.",
    [MH], [("grow_regions, find_best_area", MH), ("assign_enclaves, find_best_region_idx", MH)],
    ["grow_regions", "the labels handed to the local search"])
add("C29", "SKATER divides one region at a time and records it with trace",
    "With trace=True a SKATER fit records the connected components of the map with an infinite "
    "score, and then, for every cut, the labels after it and the cut with its score: each labeling "
    "divides exactly one region of the one before into two contiguous ones, by cutting an edge "
    "between neighbours, the recorded score is score() of the labeling under the chosen reduction "
    "and center, and the last labeling is the result. A later fit starts a new trace. make_cut cuts "
    "exactly the given edge (from the fitted forest unless another is given) and raises "
    "OptimizeWarning, leaving the forest alone, if the score is infinite, as find_cut(make=True) "
    "does when there is no admissible cut.",
    [I, H], "all graphs, dissimilarities, reductions, centers, quorums, numbers of clusters",
    "The tests never ask for a trace and never call make_cut.",
    [SK], [("trace", SK + " fit"), ("cut", SK + " make_cut")],
    ["_trace", "current_labels_", "minimum_spanning_forest_"])
add("C30", "AZP asks its move strategy about every possible move and obeys it",
    "With any AllowMoveStrategy passed to AZP: start_new_component is called exactly once for each "
    "connected component, with its areas, their attributes, their initial labels and the objective "
    "function; the strategy is asked only about moves of an area to a region it borders on that keep "
    "the area's old region contiguous and nonempty, always with the current labels; a region's turn "
    "does not end before it was offered every such area since the last move; exactly the allowed "
    "moves are made; and the result is a valid regionalization into the requested number of regions.",
    [I, S], "all graphs, initial labels, answers of the strategy, random draws",
    "The tests only use the built-in strategies.",
    [AZP, AU], [("moves offered", AZP + " AZP._azp_connected_component"),
                ("start_new_component", AZP + " AZP.fit_from_scipy_sparse_matrix")],
    ["AllowMoveStrategy.__call__", "labels_"])

root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(root, "properties.jsonl"), "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps(p) + "\n")
print(len(P), "properties")
