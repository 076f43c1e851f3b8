"""Exact max-p solutions: feasible, most regions, then least dissimilar."""
from .. import common as K
from .. import exact as X
from .. import heur as H

OPTIONS = dict(path_seconds=120, validate=1)


def cubes(tier, seed):
    T = tier == "thorough"
    out = []

    def add(**k):
        k["edges"] = H.norm(k["edges"])
        out.append(k)
    for n in (1, 2, 3):
        for es in K.classes(n, False):
            es = K.shuffled(es, n, seed)
            add(n=n, edges=es, sp=(None,) * n, th=None, flat=n == 2)
    # fewer regions would be less dissimilar
    add(n=4, edges=K.path_graph(4), sp=(5, 1, 2, 5), th=3, flat=1)
    add(n=4, edges=K.cycle(4), sp=(5, 1, 2, 5), th=3, free=3, fs=seed)
    add(n=5, edges=((0, 1), (1, 2), (2, 4), (3, 4), (0, 3)), sp=(5, 1, 2, 1, 2), th=3,
        D=((1, 2), (3, 4)))
    add(n=5, edges=K.path_graph(5), sp=(5, 1, 1, 1, 5), th=3, D=((1, 3),), flat=1)
    # two spatially extensive attributes, one threshold each or one for both
    for es in K.classes(3, False):
        es = K.shuffled(es, 3, seed)
        add(n=3, edges=es, sp=((None, 2), (1, 3), (2, None)), th=(2, 3), free=1, fs=seed)
        add(n=3, edges=es, sp=((1, None), (4, 2), (2, 1)), th=(None, 2), free=2, fs=seed)
        add(n=3, edges=es, sp=((None, 2), (1, 3), (2, 1)), th=2, free=1, fs=seed, pair=True)
    # 4 areas: all or most dissimilarities arbitrary
    SP = ((1, 2, 3, 1), (2, 0, 1, 3), (1, 1, 1, 1), (5, 1, 0, 2))
    for i, es in enumerate(K.classes(4)):
        d = {} if T or len(es) < 5 else dict(free=4, fs=seed)
        for j in range(4 if T else 1):
            add(n=4, edges=K.shuffled(es, 4, seed), sp=SP[(i + j) % 4], th=2 + i % 2, flat=i % 2,
                **d)
    # arbitrary spatially extensive attributes
    for i, es in enumerate(K.classes(4)):
        if not T and len(es) > 5:
            continue
        add(n=4, edges=K.shuffled(es, 4, seed), sp=(1, None, 2, None), th=2, free=1 if not T else 4,
            fs=seed)
    for n, es in H.DISCONNECTED:
        if n == 4:
            add(n=n, edges=es, sp=(1, 2, None, 3), th=2, free=2, fs=seed)
    if T:
        for es in (K.path_graph(5), K.star(5), K.cycle(5)):
            add(n=5, edges=K.shuffled(es, 5, seed), sp=(1, 2, 1, 3, 1), th=3, free=2, fs=seed)
    return out


def harness(c, cube):
    n, edges = cube["n"], cube["edges"]
    fixed = None
    if "free" in cube:
        fixed = K.fix_all_but(n, cube["free"], cube.get("fs", 0), 4)
    if "D" in cube:
        fixed = {e: 0 for e in K.all_edges(n) if e not in cube["D"]}
    metric = K.Metric(c, K.ids(n, cube.get("k", 1)), fixed=fixed, bound=300, unit=True)
    # the problem has a solution
    allq = K.all_valid(n, edges)
    adj = K.nbrs(n, edges)
    sp, th, reaches = X.spatial(c, cube)
    c.assume(c.either(*[c.both(*[reaches(b) for b in K.blocks(q)]) for q in allq]))
    model, ok, labels = X.fit_maxp(c, cube, metric, sp, th)
    if not ok:
        return
    lab = K.plain(labels, n)
    c.check(lab is not None, "the result does not label every area")
    c.check(K.contiguous(lab, adj), "a region is not contiguous, labels %s" % (lab,))
    B = K.blocks(lab)
    c.check(c.both(*[reaches(b) for b in B]), "a region is below the threshold: %s" % (lab,))
    mine = K.pairwise(c, metric, lab)
    for q in allq:
        p = max(q) + 1
        if p < len(B):
            continue
        fits = c.both(*[reaches(b) for b in K.blocks(q)])
        if p > len(B):
            c.check(c.neg(fits), "%d regions %s where %d are possible" % (len(B), lab, p))
        else:
            c.check(c.implies(fits, c.le(mine, K.pairwise(c, metric, q))),
                    "labels %s are more dissimilar than %s" % (lab, q))
    c.reach("solved")
    if len(B) > 1:
        c.reach("several regions")
    c.record(lab)


FUNCS = ["MaxPRegionsExact.fit_from_scipy_sparse_matrix", "assert_solved"]
BOUNDS = {
    "quick": "every graph on 1-3 areas up to the order of its areas with arbitrary attributes: all "
             "spatially extensive values >= 0, the threshold > 0 and all dissimilarities; with two "
             "spatially extensive attributes 1-2 values of them or a threshold arbitrary; every "
             "connected graph on 4 areas with 2-6 arbitrary dissimilarities and given spatially "
             "extensive attributes, or two arbitrary ones of those and 1-2 dissimilarities; "
             "disconnected graphs on 4; only problems that have a solution",
    "thorough": "as quick with more given attributes, all dissimilarities arbitrary, 5 areas",
}
ASSUME = ["the solver returns status Optimal with integral values that satisfy the model it was "
          "given and are optimal (which of the optimal ones is arbitrary), or status Infeasible "
          "if there is none", "dissimilarities are 0 or sum to between 0.01 and 10000, each at "
          "most 300", "real arithmetic instead of floating point"]
REACH = ["solved", "several regions"]
