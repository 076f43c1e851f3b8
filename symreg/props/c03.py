"""Without ties, the result of AZP is a local optimum."""
from .. import common as K
from .. import heur as H

OPTIONS = dict(path_seconds=40, validate=2)


def cubes(tier, seed):
    T = tier == "thorough"
    return H.spread(tier, seed, "azp",
                    wins=((1, 1), (2, 2), (4, 4)) if not T else H.windows(10, 2),
                    abstract=(K.cycle(4), ((0, 1), (1, 2), (2, 0), (2, 3)))) + \
        H.large(tier, seed, algo="azp")


def harness(c, cube):
    def objective(r):
        if cube.get("abstract"):
            o = H.Abstract(c, r.attr)
            up = o.update

            def update(*a):
                d = up(*a)
                c.assume(d != 0)
                return d
            o.update = update
            return o

        def hook(area, region, labels, d):
            c.assume(d != 0)
        return K.spy_objective(c, r.metric, update_hook=hook)
    r = H.Run(c, cube, objective)
    model = H.make("azp")
    ok, labels = K.guarded(c, lambda: r.fit(model), "fit")
    if not ok:
        return
    lab = K.plain(labels, r.n)
    c.check(lab is not None, "the result does not label every area")
    conds = []
    for a in range(r.n):
        donor = [i for i in range(r.n) if lab[i] == lab[a] and i != a]
        if not donor or not K.connected_set(donor, r.adj):
            continue
        for to in sorted({lab[b] for b in r.adj[a]} - {lab[a]}):
            new = [to if i == a else lab[i] for i in range(r.n)]
            if cube.get("abstract"):
                cmp_ = K.components(r.n, r.edges)
                s = [i for i in range(r.n) if cmp_[i] == cmp_[a]]
                d0 = r.obj.val([lab[i] for i in s], r.attr[s])
                d1 = r.obj.val([new[i] for i in s], r.attr[s])
            else:
                d0 = sum((r.metric.d(a, i) for i in donor), 0)
                d1 = sum((r.metric.d(a, i) for i in range(r.n) if lab[i] == to), 0)
            conds.append(c.le(d0, d1))
    if conds:
        c.reach("moves to compare with")
        c.check(c.both(*conds), "an improving feasible move is left, labels %s" % (lab,))
    c.record(lab)


FUNCS = ["AZP.fit_from_scipy_sparse_matrix", "AZP._azp_connected_component",
         "AllowMoveAZP", "ObjectiveFunctionPairwise"]
BOUNDS = {
    "quick": "all 6 connected graphs on 4 areas (p = 2, 3), all graphs on 3 areas, disconnected "
             "graphs on 4-5 areas, selected graphs on 5-6 areas; every tie-free nonnegative "
             "dissimilarity on <= 4 areas, 3 free entries on 5-6; arbitrary tie-free objective "
             "functions on two graphs; random draws arbitrary in windows of 1 draw"
             "; four maps of 11-20 areas, up to 10 regions, with 2 free dissimilarities",
    "thorough": "as quick with windows of 2 draws, all 21 graphs on 5 areas, 5 free entries",
}
ASSUME = ["no move that AZP evaluates leaves the objective exactly unchanged (ties may end the "
          "search early by design)", "real arithmetic instead of floating point",
          "random draws outside the window follow a fixed policy"]
REACH = ["moves to compare with"]
