"""Exact p-regions solutions are optimal."""
import numpy as np

from .. import common as K
from .. import exact as X
from .. import heur as H

OPTIONS = dict(path_seconds=120, validate=1)


def cubes(tier, seed):
    T = tier == "thorough"
    out = []

    def add(**k):
        k["edges"] = H.norm(k["edges"])
        if 0 < k["p"] <= k["n"] and len(X.feasible(k)) > 1:
            out.append(k)
    for n in (3, 4):
        for es in K.classes(n, False):
            for p in range(1, n):
                for m in X.METHODS:
                    add(n=n, edges=K.shuffled(es, n, seed), p=p, method=m)
    for es in (K.path_graph(5), K.cycle(5), K.star(5), K.cycle(4) + ((1, 4),)) if not T \
            else K.classes(5, False):
        for p in (2, 3, 4):
            for m in X.METHODS:
                add(n=5, edges=K.shuffled(es, 5, seed), p=p, method=m, free=6 if T else 4)
    return out


def harness(c, cube):
    n = cube["n"]
    metric = K.Metric(c, K.ids(n, cube.get("k", 1)),
                      fixed=K.fix_all_but(n, cube["free"], cube.get("fs", 0), 4)
                      if "free" in cube else None)
    model, ok, labels = X.fit(c, cube, metric)
    if not ok:
        return
    lab = K.plain(labels, n)
    c.check(lab is not None, "the result does not label every area")
    mine = K.pairwise(c, metric, lab)
    c.check(c.both(*[c.le(mine, K.pairwise(c, metric, q)) for q in X.feasible(cube)]),
            "labels %s of the %s model are not optimal" % (lab, cube["method"]))
    c.reach(cube["method"])
    c.record(lab)


FUNCS = ["PRegionsExact.fit_from_scipy_sparse_matrix", "_flow", "_order", "_tree",
         "assert_solved", "array_from_region_list"]
BOUNDS = {
    "quick": "every graph on 3-4 areas up to the order of its areas (one seeded order), every "
             "number of regions with more than one feasible partition, all three models, all "
             "dissimilarities arbitrary; path, cycle, star and square with a tail on 5 areas with four arbitrary "
             "dissimilarities and the others fixed",
    "thorough": "as quick, with every graph on 5 areas and six arbitrary dissimilarities",
}
ASSUME = ["the solver returns status Optimal with integral values that satisfy the model it was "
          "given and are optimal (which of the optimal ones is arbitrary), or status Infeasible "
          "if there is none", "dissimilarities are real numbers >= 0, symmetric"]
REACH = ["flow", "order", "tree"]
