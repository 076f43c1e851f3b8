"""The random state determines the result."""
import random
import warnings

import numpy as np

from .. import common as K
from .. import exact as X
from .. import heur as H
from .. import maxp as M

OPTIONS = dict(path_seconds=60, validate=2)
SEEDS = (0, 1, "", "state", b"s", 10 ** 9, -5)
BETWEEN = ("nothing", "draws", "seed", "fit", "numpy", "unseeded")


def cubes(tier, seed):
    T = tier == "thorough"
    out = []

    def add(**k):
        k["edges"] = H.norm(k["edges"])
        k["s"] = len(out) % len(SEEDS)
        k["between"] = len(out) % len(BETWEEN)
        k["before"] = (len(out) // 2) % 3
        out.append(k)
    for i, es in enumerate(K.classes(4)):
        es = K.shuffled(es, 4, seed)
        for j, a in enumerate(("azp", "basic", "reactive", "sa")):
            for q in range(2 if not T else 4):
                w = (q + 1, q + 1) if not T else (q + 1, q + 2)
                add(est=a, n=4, edges=es, p=2 + (i + j + q) % 2 if a != "sa" else 2,
                    win=w, pol=1 + (i + q) % 3, free=2 - (a == "sa"), fs=seed + i + q,
                    init=(i + j + q) % 3 == 0, style=q % 3, uwin=(1, 1), reps=1, maxit=3)
        for q, a in enumerate(("none", "azp", "basic", "sa")):
            if not T and (q + i) % 2 and a != "none":
                continue
            add(est="maxp", n=4, edges=es, algo=a, win=(1 + i % 3, 1 + i % 3), pol=1 + i % 3,
                free=2 - (a == "sa"), fs=seed + q, sp=[((2, 1, 2, 1), 3), ((1, 2, 1, 3), 3),
                                                        ((1, 1, 1, 1), 2)][i % 3][0],
                th=(3, 3, 2)[i % 3], max_it=1 + i % 2, uwin=(1, 1), reps=1, maxit=1, lin=(1,))
    for q, (n, es) in enumerate(H.DISCONNECTED):
        nc = H.ncomp(n, es)
        for j, a in enumerate(("azp", "basic", "reactive", "sa")):
            if n == 3 or ((q + j) % 2 and not T):
                continue
            add(est=a, n=n, edges=es, p=min(nc + 1, n - 1), win=(1, 2), pol=1 + j % 3, free=1,
                fs=seed + q, init=False, style=0, uwin=(1, 1), reps=1, maxit=2)
    for q, (n, es) in enumerate(((5, K.cycle(5)), (6, K.grid(2, 3)), (5, K.path_graph(5)))):
        for j, a in enumerate(("azp", "basic", "reactive")):
            add(est=a, n=n, edges=es, p=2 + j % 2, win=(1 + j, 2 + j), pol=1 + j, free=1,
                fs=seed + q, init=False, style=0, uwin=(1, 1), reps=1, maxit=2)
    for q, (n, es) in enumerate(H.LARGE):
        nc = H.ncomp(n, es)
        for j, a in enumerate(("azp", "basic", "reactive", "maxp")):
            add(est=a, n=n, edges=K.shuffled(es, n, seed + j), p=nc + 2 + 6 * ((q + j) % 2),
                win=(4 + 3 * j + q,) * 2, pol=1 + (q + j) % 3, free=1, fs=seed + q, mod=97,
                init=bool((q + j) % 2), style=q % 3, uwin=(1, 1), reps=1, maxit=3, max_it=1,
                algo="azp", sp=tuple(1 + (5 * x + j) % 3 for x in range(n)), th=2 if nc > 1 else 5,
                steps=100000)
    # the default objective and metric
    for q, es in enumerate(K.graphs(3) + [K.path_graph(4), K.star(4)]):
        for j, a in enumerate(("azp", "basic")):
            n = 3 if q < len(K.graphs(3)) else 4
            add(est=a, n=n, edges=es, p=2, win=(1, 2), pol=1 + q % 3, default=True, init=False,
                style=0, reps=1)
    return out


def other(c, what):
    """Something random that happens before or in between."""
    if what == "draws":
        for _ in range(3):
            random.random()
            random.randrange(5)
    elif what == "seed":
        random.seed(77)
        random.randrange(3)
    elif what == "unseeded":
        random.seed()
        random.randrange(4)
    elif what == "numpy":
        np.random.seed(3)
        np.random.randint(7)
    elif what == "fit":
        from region.p_regions.azp import AZP, AZPBasicTabu
        rows = K.ids(3, 1)
        for cls, kw in ((AZPBasicTabu, dict(tabu_length=1, repetitions_before_termination=1)),
                        (AZP, {})):
            m = cls(random_state=123, **kw)
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                m.fit_from_scipy_sparse_matrix(K.csr(3, ((0, 1), (1, 2))), rows, 2)


def harness(c, cube):
    from region.max_p_regions.heuristics import MaxPRegionsHeu
    est, n = cube["est"], cube["n"]
    edges = tuple(map(tuple, cube["edges"]))
    s = SEEDS[cube["s"]]
    c.window = tuple(cube["win"])
    c.policy = cube["pol"]
    if "uwin" in cube:
        c.unit_window, c.unit_policy = tuple(cube["uwin"]), "ra"
    maxp = est == "maxp"
    init = None
    if cube.get("default"):
        attr = K.array2d(c, [[c.real("a%d" % i, group="scaleA")] if i < 2 else [c.scaled(float(i * 3 % 4), "scaleA")]
                             for i in range(n)])
        kw = {}
    else:
        attr = K.ids(n, 1)
        metric = K.Metric(c, attr, fixed=K.fix_all_but(n, cube["free"], cube.get("fs", 0),
                                                  cube.get("mod", 8)))
        kw = dict(objective_func=K.spy_objective(c, metric))
    if cube.get("init"):
        parts = K.valid_partitions(n, edges, cube["p"]) if n < 9 else \
            [K.grown_partition(n, edges, cube["p"], q) for q in (1, 2)]
        init = H.relabelled(parts[c.choose(len(parts), "init")], cube["style"])
    if maxp:
        sp = np.array([[float(x)] for x in cube["sp"]])

    def once():
        if maxp:
            search = None
            if cube["algo"] != "none":
                search = H.make(cube, seed=s)
            m = MaxPRegionsHeu(local_search=search, random_state=s)
            m.fit_from_scipy_sparse_matrix(M.real_csr(n, edges), attr, sp, cube["th"],
                                           max_it=cube["max_it"], **kw)
        else:
            m = H.make(dict(cube, algo=est), seed=s)
            m.fit_from_scipy_sparse_matrix(
                K.csr(n, edges), attr, cube["p"],
                initial_labels=None if init is None else init.copy(), **kw)
        return K.plain(m.labels_, n)

    def fit(what):
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            ok, lab = K.guarded(c, once, what)
        return lab if ok else None
    other(c, ("nothing", "draws", "numpy")[cube["before"]])
    one = fit("the first fit")
    if one is None:
        return
    other(c, BETWEEN[cube["between"]])
    c.reach(BETWEEN[cube["between"]])
    two = fit("the second fit")
    c.check(two == one, "random_state=%r gives the labels %s and, another time (%s in between), %s"
            % (s, one, BETWEEN[cube["between"]], two))
    c.reach(est)
    c.record(one)


FUNCS = ["__init__ and fit_from_scipy_sparse_matrix of AZP, AZPSimulatedAnnealing, AZPBasicTabu, "
         "AZPReactiveTabu, MaxPRegionsHeu", "generate_initial_sol",
         "distribute_regions_among_components", "_randomly_divide_connected_graph"]
BOUNDS = {
    "quick": "connected graphs on 4 areas up to isomorphism, disconnected ones on 4-5 areas, cycle, "
             "path and 2x3 grid; p in {2, 3}; one or two arbitrary random draws, the others by a "
             "fixed rule; 1-2 arbitrary dissimilarities (with the default objective: 2 arbitrary "
             "attribute values); seven seeds (0, negative, empty, str, bytes); six kinds of events "
             "in between"
             "; four given maps of 11-20 areas with 3-11 regions, one arbitrary dissimilarity and one arbitrary draw",
    "thorough": "as quick with two arbitrary draws and all combinations of algorithm and graph",
}
ASSUME = ["the random generator is an unknown function of the seed and the number of draws since "
          "seeding", "real arithmetic instead of floating point"]
REACH = ["azp", "basic", "reactive", "sa", "maxp"] + list(BETWEEN)
