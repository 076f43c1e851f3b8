"""Exact models refuse problems without solution."""
from .. import common as K
from .. import exact as X
from .. import heur as H

OPTIONS = dict(path_seconds=60, validate=2)
STATUSES = (-3, -2, -1, 0)      # PuLP: undefined, unbounded, infeasible, not solved


def cubes(tier, seed):
    T = tier == "thorough"
    out = []

    def add(**k):
        k["edges"] = H.norm(k["edges"])
        out.append(k)
    for n in (1, 2, 3, 4) if not T else (1, 2, 3, 4, 5):
        for es in K.classes(n, False):
            es = K.shuffled(es, n, seed)
            for m in X.METHODS:
                for p in range(-1, n + 2):
                    if n < 4 or p < 1 or p > n or not X.feasible(dict(n=n, edges=es, p=p)):
                        add(kind="p", n=n, edges=es, p=p, method=m, free=1 if n > 2 else 0)
    for m in X.METHODS:
        for p in (1.5, "2", None, -0.5, (2,)):
            add(kind="p", n=3, edges=K.path_graph(3), p=p, method=m, free=0)
        for s in STATUSES:
            for n, es in ((3, K.path_graph(3)), (4, K.cycle(4))):
                add(kind="p", n=n, edges=es, p=2, method=m, free=1, status=s)
    for m in ("flo", "", "tree ", "exact", None, 1, ("flow",)):
        add(kind="p", n=3, edges=K.path_graph(3), p=2, method=m, free=0)
    for s in ("cbcc", "", "scip", None, 1, ("cbc",)):
        for m in X.METHODS:
            add(kind="p", n=3, edges=K.path_graph(3), p=2, method=m, free=0, solver=s)
        add(kind="max", n=3, edges=K.path_graph(3), sp=(1, 1, 1), th=1, free=0, solver=s)
    for n in (1, 2, 3):
        for es in K.classes(n, False):
            es = K.shuffled(es, n, seed)
            add(kind="max", n=n, edges=es, sp=(None,) * n, th=None, free=0, flat=n % 2, smin=0)
            add(kind="max", n=n, edges=es, sp=(None,) * n, th=None, free=0, smin=-4)
            if n == 3:
                add(kind="max", n=n, edges=es, sp=((1, None), (2, 1), (None, 2)), th=(2, None),
                    free=0)
    for s in STATUSES:
        add(kind="max", n=3, edges=K.path_graph(3), sp=(None, 1, 2), th=2, free=0, status=s)
    for es in K.classes(4, False):
        es = K.shuffled(es, 4, seed)
        add(kind="max", n=4, edges=es, sp=(1, None, 2, 0), th=None, free=0)
    return out


def harness(c, cube):
    n, edges = cube["n"], cube["edges"]
    metric = K.Metric(c, K.ids(n), fixed=K.fix_all_but(n, cube["free"], 1, 4), bound=300,
                      unit=True)
    if "status" in cube:
        c.notes["status"] = cube["status"]
    solver = cube.get("solver", "cbc")
    refuse = "status" in cube
    bad = solver != "cbc"
    if cube["kind"] == "p":
        p = cube["p"]
        bad = bad or type(p) is not int or not 1 <= p <= n or cube["method"] not in X.METHODS
        if not bad:
            refuse = refuse or not X.feasible(cube)
        model, ok, res = X.fit(c, cube, metric, allow=Exception, solver=solver)
        what = "%r regions, method %r, solver %r" % (p, cube["method"], solver)
    else:
        sp, th, reaches = X.spatial(c, cube)
        if bad or refuse:
            possible = False
        else:
            possible = c.either(*[c.both(*[reaches(b) for b in K.blocks(q)])
                                  for q in K.all_valid(n, edges)])
        model, ok, res = X.fit_maxp(c, cube, metric, sp, th, allow=Exception, solver=solver)
        if not bad and not refuse:
            if ok:
                c.check(possible, "labels %s although no region can reach the threshold" % (
                    K.plain(res, n),))
                c.reach("accepted")
            else:
                c.check(c.neg(possible), "solvable problem refused: %r" % res)
                c.reach("refused")
            c.record(ok)
            return
        what = "solver %r" % solver
    if bad:
        c.check(not ok and isinstance(res, ValueError),
                "%s: %s instead of a ValueError" % (what, "labels" if ok else repr(res)))
        c.reach("bad argument")
    elif refuse:
        c.check(not ok, "%s: labels although there is no solution" % what)
        c.reach("refused")
    else:
        c.check(ok, "%s: solvable problem refused: %r" % (what, res))
        c.reach("accepted")
    if bad or refuse:
        c.check(model.labels_ is None, "%s: labels_ is set after the exception" % what)
    c.record(ok)


FUNCS = ["PRegionsExact.fit_from_scipy_sparse_matrix", "PRegionsExact._check_method", "_flow",
         "_order", "_tree", "MaxPRegionsExact.fit_from_scipy_sparse_matrix", "check_solver",
         "assert_solved"]
BOUNDS = {
    "quick": "every graph on 1-4 areas up to the order of its areas, every number of regions from "
             "-1 to one more than the areas, all three models, with up to one arbitrary "
             "dissimilarity; for max-p, every graph on 1-3 areas with arbitrary spatially "
             "extensive attributes (from -4 or 0) and threshold > 0, on 4 with one arbitrary and "
             "an arbitrary threshold; given unknown methods, solvers and kinds of numbers; every "
             "status other than optimal",
    "thorough": "as quick, with 5 areas",
}
ASSUME = ["the solver reports status Optimal with an optimal solution if there is one and another "
          "status otherwise; the variables then hold any values between 0 and 1"]
REACH = ["refused", "accepted", "bad argument", "model infeasible", "no optimum reported"]
