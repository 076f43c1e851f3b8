"""AZP yields a valid regionalization."""
import numpy as np

from .. import common as K
from .. import heur as H

OPTIONS = dict(path_seconds=40, validate=2)


def cubes(tier, seed):
    T = tier == "thorough"
    out = []

    def add(**k):
        k["edges"] = H.norm(k["edges"])
        out.append(k)
    for i, es in enumerate(K.classes(4)):
        es = K.shuffled(es, 4, seed)
        for p in (2, 3):
            for w in (H.windows(12, 2) if T else [(1, 1), (2, 2), (3, 3), (4, 5), (6, 6)]):
                add(n=4, edges=es, p=p, win=w, pol=(i + w[0]) % 4, style=(i + p) % 3)
    add(n=4, edges=K.shuffled(K.path_graph(4), 4, seed), p=4)
    add(n=4, edges=K.cycle(4), p=1)
    add(n=4, edges=K.star(4), p=1, init=False)
    add(n=3, edges=K.path_graph(3), p=3, init=False, win=(1, 4))
    for p in (1, 2, 3):
        for es in K.graphs(3):
            add(n=3, edges=es, p=p, win=(1, 4 if not T else 7))
    add(n=1, edges=(), p=1)
    add(n=1, edges=(), p=1, init=False)
    for n, es in H.DISCONNECTED:
        es = H.norm(es)
        m = H.ncomp(n, es)
        for p in range(m, n + 1):
            add(n=n, edges=es, p=p, win=(1, 3), style=p % 3)
            add(n=n, edges=es, p=p, win=(1, 2), pol="last", init=False)
    # the generated initial solution
    for es in K.classes(4):
        for p in (2, 3):
            for w in (((1, 2), (6, 7)) if not T else H.windows(18, 3)):
                add(n=4, edges=es, p=p, win=w, init=False, pol=p - 1)
    # any objective function at all
    for es in K.classes(4):
        for p in (2, 3):
            add(n=4, edges=K.shuffled(es, 4, seed + 1), p=p, win=(1, 1) if not T else (1, 2),
                abstract=True)
    # larger graphs: some of the dissimilarities fixed, fewer free draws
    big = [(5, K.path_graph(5)), (5, K.cycle(5)), (5, K.star(5)), (6, K.grid(2, 3)),
           (5, ((0, 1), (1, 2), (2, 0), (2, 3), (3, 4)))]
    for n, es in big:
        for p in (2, 3, n - 1):
            for q in range(2 if not T else 4):
                add(n=n, edges=K.shuffled(es, n, seed), p=p, inits=(q + p, 3 if n == 5 else 4),
                    win=(q + 1, q + 1) if not T else (q + 1, q + 2), pol=q, k=1 + q % 2,
                    free=4 if not T else 6, fs=seed + q)
    out += H.large(tier, seed) + H.large(tier, seed, init=False, start=8)
    if T:
        for es in K.classes(5):
            for p in (2, 3, 4):
                for w in H.windows(6, 2):
                    add(n=5, edges=K.shuffled(es, 5, seed), p=p, win=w, pol=w[0], inits=(w[0], 3))
    return out


def harness(c, cube):
    r = H.Run(c, cube)
    model = H.make("azp")
    a0, i0 = r.attr.copy(), None if r.init is None else r.init.copy()
    via = ("csr", "fit", "flat")[cube.get("style", 0)] if cube.get("k", 1) == 1 else "csr"
    ok, labels = K.guarded(c, lambda: r.fit(model, via), "AZP.fit")
    if not ok:
        return
    lab = K.check_regionalization(c, labels, r.n, r.adj, r.p, "AZP")
    c.check(model.n_regions == r.p, "n_regions is %r" % (model.n_regions,))
    c.check(np.array_equal(r.attr, a0), "the attributes passed in have been modified")
    if i0 is not None:
        c.check(np.array_equal(r.init, i0), "the initial labels passed in have been modified")
        if lab is not None and K.canon(lab) != K.canon(i0.tolist()):
            c.reach("moved")
    if cube["n"] > 1 and not r.metric.memo and not cube.get("abstract"):
        c.reach("no dissimilarity needed")
    c.record(lab)


FUNCS = ["AZP.fit_from_scipy_sparse_matrix", "AZP._azp_connected_component",
         "AllowMoveAZP", "ObjectiveFunctionPairwise", "generate_initial_sol",
         "assert_feasible", "separate_components", "sub_adj_matrix", "is_connected",
         "neighbors"]
BOUNDS = {
    "quick": "all 6 connected graphs on 4 areas up to isomorphism (labelled by the seed), all "
             "graphs on 3 areas, 7 disconnected graphs, selected graphs on 5 and 6 areas; all or "
             "every third initial partition; every nonnegative symmetric dissimilarity "
             "(reals), on 4 areas also every objective function; random draws: arbitrary within "
             "a window of 1-4 consecutive draws (windows cover the first 8 on 4 areas), fixed "
             "policy outside"
             "; four maps of 11-20 areas, up to 10 regions, with 2 free dissimilarities",
    "thorough": "as quick with wider and later windows, all 21 connected graphs on 5 areas",
}
ASSUME = ["real arithmetic instead of floating point",
          "random.randrange returns any index; outside the window a fixed policy",
          "scipy.sparse indexing is modelled on the entries dict; connected_components by "
          "exact closure (both validated against scipy in concrete runs)"]
REACH = ["moved"]
