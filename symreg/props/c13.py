"""Exact p-regions solutions are valid regionalizations."""
import numpy as np

from .. import common as K
from .. import exact as X
from .. import heur as H

OPTIONS = dict(path_seconds=120, validate=1)


def cubes(tier, seed):
    T = tier == "thorough"
    out = []

    def add(**k):
        k["edges"] = H.norm(k["edges"])
        if 0 < k["p"] <= k["n"] and X.feasible(k):
            out.append(k)
    for n in (1, 2, 3):
        for es in K.classes(n, False):
            for p in range(1, n + 1):
                for m in X.METHODS:
                    add(n=n, edges=K.shuffled(es, n, seed), p=p, method=m, zero=True)
    for es in K.classes(4, False):
        for p in (1, 2, 3, 4):
            for m in X.METHODS:
                add(n=4, edges=K.shuffled(es, 4, seed), p=p, method=m, zero=True)
    # five areas, arbitrary dissimilarities on all but a few pairs fixed
    some = (K.path_graph(5), K.star(5), ((0, 3), (1, 4), (2, 4))) if not T else K.classes(5, False)
    for es in some:
        for p in (2, 3, 4):
            for m in X.METHODS:
                add(n=5, edges=K.shuffled(es, 5, seed), p=p, method=m, free=2 if not T else 4)
    # no dissimilarity anywhere on graphs with a longer cycle
    for es in (K.cycle(4) + ((3, 4),), K.cycle(5), K.cycle(4) + ((1, 4), (3, 4))):
        for p in (1, 2):
            for m in X.METHODS if T or p == 1 else ("tree",):
                add(n=5, edges=K.shuffled(es, 5, seed), p=p, method=m, zero=True)
    return out


def harness(c, cube):
    n = cube["n"]
    metric = K.Metric(c, K.ids(n, cube.get("k", 1)),
                      fixed={e: 0 for e in K.all_edges(n)} if cube.get("zero") else
                      K.fix_all_but(n, cube["free"], cube.get("fs", 0), 4))
    model, ok, labels = X.fit(c, cube, metric)
    if not ok:
        return
    lab = K.check_regionalization(c, labels, n, K.nbrs(n, cube["edges"]), cube["p"],
                                  "PRegionsExact (%s)" % cube["method"])
    c.reach(cube["method"])
    c.record(lab)


FUNCS = ["PRegionsExact.fit_from_scipy_sparse_matrix", "_flow", "_order", "_tree",
         "assert_solved", "array_from_region_list"]
BOUNDS = {
    "quick": "every graph on 1-4 areas up to the order of its areas (one seeded order), every "
             "number of regions for which the problem is feasible, all three models, no "
             "dissimilarity anywhere, so that every feasible solution of the model is an optimal "
             "one the solver may return; three graphs on 5 areas with two arbitrary "
             "dissimilarities and the others fixed, three with a cycle of 4 or 5 and none",
    "thorough": "as quick, with every graph on 5 areas and four arbitrary dissimilarities",
}
ASSUME = ["the solver returns status Optimal with integral values that satisfy the model it was "
          "given and are optimal (which of the optimal ones is arbitrary), or status Infeasible "
          "if there is none"]
REACH = ["flow", "order", "tree"]
