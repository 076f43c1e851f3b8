"""Simulated annealing yields a valid regionalization."""
import numpy as np

from .. import common as K
from .. import heur as H

OPTIONS = dict(path_seconds=40, validate=2)


def cubes(tier, seed):
    T = tier == "thorough"
    out = []
    U = [(1, 3), (2, 4), (4, 6), (6, 8)]
    if T:
        U = [(a, a + 4) for a in (1, 2, 4, 6, 9)]
    pols = ["r", "ra", "a", "rra"]

    def add(**k):
        k["edges"] = H.norm(k["edges"])
        k["algo"] = "sa"
        k.setdefault("steps", 4000)
        i = len(out)
        k.setdefault("uwin", U[i % 4])
        k.setdefault("upol", pols[i % 4])
        if not T and len(k["edges"]) > 3:       # fewer free acceptance numbers
            a = k["uwin"][0]
            k["uwin"] = (a, a + (1 if a == 1 else 0))
        out.append(k)
    for i, es in enumerate(K.classes(4)):
        es = K.shuffled(es, 4, seed)
        for p in (2, 3):
            for q, w in enumerate([(1, 1), (3, 3)] if not T else H.windows(12, 2)):
                add(n=4, edges=es, p=p, win=w, pol=(i + w[0]) % 4, style=(i + p) % 3,
                    maxit=1 + (i + q) % 2, term=1 + (i + p + q) % 2, nonmoving=1, reps=1,
                    free=2 if not T else 4, fs=seed + i + q, uwin=U[(i + p + q) % len(U)],
                    inits=((i + q) % 2, 2) if not T else (0, 1))
    for es in K.graphs(3):
        for p in (2, 3):
            add(n=3, edges=es, p=p, win=(1, 1 if not T else 4), maxit=2, term=2,
                nonmoving=2 if T else 1, reps=1 if not T else 2)
    for n, es in H.DISCONNECTED:
        es = H.norm(es)
        for p in range(H.ncomp(n, es), n):
            add(n=n, edges=es, p=p, win=(1, 2), style=p % 3, maxit=2, term=1, nonmoving=1, reps=1,
                free=2 if not T else 4, fs=seed)
    # generated initial solution
    for es in K.classes(4):
        add(n=4, edges=es, p=2, win=(1, 1), init=False, pol=1, maxit=1, free=1, fs=seed)
    add(n=1, edges=(), p=1)
    add(n=3, edges=K.path_graph(3), p=1)
    add(n=3, edges=K.path_graph(3), p=3, init=False, win=(1, 2), maxit=2)
    # arbitrary objective
    for es in K.classes(4)[:3 if not T else 6]:
        add(n=4, edges=K.shuffled(es, 4, seed + 1), p=2, win=(1, 1), abstract=True, maxit=1,
            inits=(1, 3), term=3, uwin=(1, 1))
    # larger graphs
    big = [(5, K.cycle(5)), (5, K.star(5)), (6, K.grid(2, 3)),
           (5, ((0, 1), (1, 2), (2, 0), (2, 3), (3, 4)))]
    for n, es in big:
        for p in (2, 3):
            for q in range(2 if not T else 6):
                add(n=n, edges=K.shuffled(es, n, seed), p=p, inits=(q + p, 4 if n == 5 else 7),
                    win=(q + 1, q + 1), pol=q, free=1 if not T else 3, fs=seed + q,
                    maxit=1 + q % 2, term=1 + q, reps=1)
    for q, d in enumerate(H.large(tier, seed, free=0) + H.large(tier, seed, 1, init=False, free=0)):
        if d["n"] == 20 and not T:
            if not d.get("init", True):
                continue
            q, d = 0, dict(d, grown=d["grown"][:1])
        add(**dict(d, maxit=1 + q % 2, term=3, nonmoving=1, reps=1, steps=100000, uwin=(q, q + (q % 2))))
    return out


def harness(c, cube):
    r = H.Run(c, cube)
    model = H.make(cube)
    a0, i0 = r.attr.copy(), None if r.init is None else r.init.copy()
    ok, labels = K.guarded(c, lambda: r.fit(model), "fit")
    if not ok:
        return
    lab = K.check_regionalization(c, labels, r.n, r.adj, r.p, "AZPSimulatedAnnealing")
    c.check(np.array_equal(r.attr, a0), "the attributes passed in have been modified")
    if i0 is not None:
        c.check(np.array_equal(r.init, i0), "the initial labels passed in have been modified")
        if lab is not None and K.canon(lab) != K.canon(i0.tolist()):
            c.reach("moved")
    if any(True for _ in c.rng_memo if _[-1] == "u"):
        c.reach("acceptance number drawn")
    c.record(lab)


FUNCS = ["AZPSimulatedAnnealing.fit_from_scipy_sparse_matrix", "AllowMoveAZPSimulatedAnnealing",
         "AZP._azp_connected_component", "assert_feasible", "separate_components",
         "generate_initial_sol", "ObjectiveFunctionPairwise"]
BOUNDS = {
    "quick": "all 6 connected graphs on 4 areas (p = 2, 3), all graphs on 3 areas, 7 disconnected "
             "graphs, selected graphs on 5-6 areas; max_iterations <= 2, 1-3 annealing moves per "
             "round, 1-2 rounds without moves; 3 free dissimilarities on 4 areas (all on 3), the "
             "others seeded integers; acceptance numbers: every real in [0, 1); index draws "
             "arbitrary in windows of 1-2 draws"
             "; four maps of 11-20 areas, up to 10 regions, with fixed dissimilarities",
    "thorough": "as quick with 5 free dissimilarities, all initial partitions, more windows",
}
ASSUME = ["exp() is an increasing positive function with exp(0) = 1",
          "real arithmetic instead of floating point",
          "index draws outside the window follow a fixed policy", "max_iterations is finite"]
REACH = ["moved", "acceptance number drawn"]
