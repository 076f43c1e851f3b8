"""AZP and its tabu variants never return a worse solution than they started with."""
from .. import common as K
from .. import heur as H

OPTIONS = dict(path_seconds=40, validate=2)
K4 = tuple(K.all_edges(4))
C4 = K.cycle(4)


def cubes(tier, seed):
    T = tier == "thorough"
    out = H.spread(tier, seed, "azp", wins=((1, 1), (3, 3)) if not T else H.windows(8, 2),
                   abstract=(C4, ((0, 1), (1, 2), (2, 0), (2, 3))))
    out += H.spread(tier, seed, "basic", wins=((1, 1),), tabu=2, reps=2, steps=4000,
                    abstract=(C4,), free4=4)
    out += H.spread(tier, seed + 1, "reactive", wins=((1, 1),), maxit=5, k1=0, k2=1, steps=4000,
                    abstract=(C4,), free4=4)
    out += H.spread(tier, seed + 2, "reactive", wins=((1, 2),), maxit=8, k1=0, k2=0, steps=4000,
                    three=False, disc=False, big=False, free4=3)
    out += H.large(tier, seed, algo="azp")
    out += H.large(tier, seed, 0, algo="basic", tabu=3, reps=1, steps=60000)
    out += H.large(tier, seed, 1, algo="basic", tabu=12, reps=2, steps=60000)
    out += H.large(tier, seed, algo="reactive", maxit=12, k1=1, k2=1, steps=60000)
    return out


def harness(c, cube):
    r = H.Run(c, cube)
    model = H.make(cube)
    ok, labels = K.guarded(c, lambda: r.fit(model), "fit")
    if not ok:
        return
    lab = K.plain(labels, r.n)
    c.check(lab is not None, "the result does not label every area")
    if K.canon(lab) != K.canon(r.lab0):
        c.reach("moved " + cube["algo"])
    if cube.get("abstract"):
        cmp_ = K.components(r.n, r.edges)
        for k in set(cmp_):
            a = [i for i in range(r.n) if cmp_[i] == k]
            v1 = r.obj.val([lab[i] for i in a], r.attr[a])
            v0 = r.obj.val([r.lab0[i] for i in a], r.attr[a])
            c.check(c.le(v1, v0), "the objective has become worse: %s -> %s" % (r.lab0, lab))
    else:
        c.check(c.le(K.pairwise(c, r.metric, lab), K.pairwise(c, r.metric, r.lab0)),
                "the objective has become worse: %s -> %s" % (r.lab0, lab))
    c.record(lab)


FUNCS = ["AZP.fit_from_scipy_sparse_matrix", "AZP._azp_connected_component",
         "AZPBasicTabu._azp_connected_component", "AZPReactiveTabu._azp_connected_component",
         "AllowMoveAZP", "ObjectiveFunctionPairwise", "separate_components"]
BOUNDS = {
    "quick": "3 algorithms; all 6 connected graphs on 4 areas (p = 2, 3), all graphs on 3 areas, "
             "disconnected graphs on 4-5 areas, selected graphs on 5-6 areas; dissimilarities: "
             "every nonnegative symmetric matrix on <= 4 areas for AZP, 3-4 free entries and "
             "the others fixed at seeded integers elsewhere; arbitrary objective functions on "
             "two graphs; random draws arbitrary in windows of 1-2 draws; tabu length 2, "
             "reactive: <= 8 iterations"
             "; four maps of 11-20 areas, up to 10 regions, with 2 free dissimilarities",
    "thorough": "as quick with all entries free on 4 areas, more windows, all 21 graphs on 5 "
                "areas with 5 free entries",
}
ASSUME = ["real arithmetic instead of floating point",
          "random draws outside the window follow a fixed policy",
          "sparse indexing and connected_components are modelled (validated against scipy)"]
REACH = ["moved azp", "moved basic", "moved reactive"]
