"""All input representations give the same result."""
import copy
import warnings

import numpy as np

from .. import common as K
from .. import heur as H
from .. import reps as R

OPTIONS = dict(path_seconds=60, validate=2)


def cubes(tier, seed):
    T = tier == "thorough"
    out = []

    def add(**k):
        k["edges"] = H.norm(k["edges"])
        if not T and k["est"] in ("sa", "azp", "reactive"):    # the long ones
            dense = len(k["edges"]) > k["n"]
            if k["est"] == "sa" or dense:
                k["win"] = (1, 1)
            k["free"] = 1 if k["est"] == "sa" else min(k["free"], 2)
            if k["est"] == "sa" and dense:
                k["p"] = 2
        if k not in out:
            out.append(k)
    V = range(6)
    for i, es in enumerate(K.classes(4)):
        es = K.shuffled(es, 4, seed)
        for j, a in enumerate(("azp", "basic", "reactive", "sa")):
            for v in (V if T else ((i + j) % 6, (i + 2 * j + 3) % 6)):
                p = 2 + (i + v) % 2
                add(est=a, n=4, edges=es, p=p, v=v, k=1 + (i + j) % 2, win=(1 + v % 2, 1 + v % 2),
                    free=2, fs=seed + i, pol=v % 4, init=bool((i + j + v) % 3), style=v % 3,
                    uwin=(1, 1), reps=1)
        for v in (V if T else (i % 6, (i + 3) % 6)):
            sp = [((2, 1, 3, 1), 3), ((1, 2, 1, 2), 2)][i % 2]
            add(est="maxp", n=4, edges=es, v=v, k=1 + v % 2, win=(1, 2), free=2, fs=seed + i,
                sp=sp[0], th=sp[1], m=1 + (i + v) % 2, pol=v % 4, max_it=1 + v % 2)
    for n, es in H.DISCONNECTED:
        if n == 4:
            for j, a in enumerate(("azp", "sa", "basic")):
                add(est=a, n=n, edges=es, p=H.ncomp(n, es) + (j + n) % 2 if H.ncomp(n, es) < n else n,
                    v=j + 1, k=1, win=(1, 2), free=1, fs=seed + j, pol=j, init=j != 1, style=j,
                    uwin=(1, 1), reps=1)
    for i, es in enumerate(K.classes(3)):
        for j, m in enumerate(("flow", "order", "tree")):
            for v in V if T else (i + j, i + j + 3):
                add(est="exact", n=3, edges=K.shuffled(es, 3, seed + v), p=2, method=m, v=v,
                    k=1 + v % 2)
        for v in (1, 2, 3) if not T else V:
            add(est="maxpexact", n=3, edges=K.shuffled(es, 3, seed + v), v=v, k=1 + v % 2,
                sp=((1, 2, 1), (2, 1, 2))[v % 2], th=2, m=1 + v % 2, free=3, fs=0)
    for i, es in enumerate(K.classes(4)):
        for v in ((i + 1) % 6,) if not T else V:
            add(est="exact", n=4, edges=K.shuffled(es, 4, seed + v), p=2 + i % 2,
                method=("flow", "order", "tree")[i % 3], v=v, k=1, free=2, fs=seed + i)
    for i, cells in enumerate(R.POLY):
        n, rook, queen = R.polyomino(cells)
        for j, cont in enumerate(("rook", "queen", "Queen", "ROOK")):
            es = rook if cont.lower() == "rook" else queen
            nc = H.ncomp(n, es)
            for e, a in enumerate(("azp", "sa", "maxp", "exact", "maxpexact", "reactive")):
                if (i + j + e) % 3 and not T:
                    continue
                if a == "maxpexact" and n > 3:
                    continue
                p = max(nc, 2)
                if a == "exact" and n > 3:
                    d = dict(free=1)
                elif a == "maxp" or "exact" in a:
                    d = {}
                else:
                    d = dict(init=bool((i + e) % 2), free=3)
                add(est=a, n=n, edges=es, p=p, v=i + e, k=1 + e % 2, win=(1, 1),
                    fs=seed + i, pol=i % 4, style=e % 3, uwin=(1, 1), reps=1, cells=cells,
                    cont=cont, method=("flow", "tree", "order")[(i + j) % 3],
                    sp=(2, 1, 2, 1)[:n] if nc == 1 else (3, 3, 3), th=2, m=1 + i % 2, max_it=1,
                    **{**dict(free=2), **d})
    # more than ten areas
    for i, (n, es) in enumerate(H.LARGE):
        nc = H.ncomp(n, es)
        for j, a in enumerate(("azp", "basic", "reactive", "maxp")):
            v = (1, 2, 4, 5, 0, 3)[(i + j) % 6]
            add(est=a, n=n, edges=K.shuffled(es, n, seed + j) if n % 4 else es,
                p=nc + 2 + 6 * ((i + j) % 2), v=v, k=1 + (i + j) % 2,
                win=(3 + i + j,) * 2, free=int(n < 20), fs=seed + i, mod=97, pol=(i + j) % 4,
                init=bool((i + j) % 2 or n == 20) and a != "maxp", style=(i + j) % 3, uwin=(1, 1),
                reps=1, maxit=3, max_it=1,
                sp=tuple(1 + (5 * x + j) % 3 for x in range(n)), th=2 if nc > 1 else 5, m=1 + i % 2,
                steps=100000,
                **({"cells": tuple((x % {12: 4, 20: 5}[n], x // {12: 4, 20: 5}[n])
                                   for x in range(n)), "cont": "rook"} if n % 4 == 0 else {}))
    return out


def snap(x):
    """Something that tells whether an argument has been changed."""
    t = type(x).__name__
    if isinstance(x, dict):
        return [(k, snap(v)) for k, v in x.items()]
    if isinstance(x, np.ndarray):
        return (x.shape, repr(x.tolist()))
    if t == "Graph":
        return (list(x.nodes), [(n, snap(dict(d))) for n, d in x.nodes(data=True)],
                [(a, b, dict(d)) for a, b, d in x.edges(data=True)])
    if t == "W":
        return (x.id_order, x.neighbors, x.weights, x.transform)
    if t == "GeoDataFrame":
        return x.to_string()
    if t == "csr_matrix":
        return x.toarray().tolist()
    return repr(x)


def harness(c, cube):
    est, n, v, k = cube["est"], cube["n"], cube["v"], cube["k"]
    edges = tuple(map(tuple, cube["edges"]))
    cells = cube.get("cells")
    m = R.Map(n, edges, cells and [tuple(x) for x in cells])
    attr = K.ids(n, k)
    fixed = K.fix_all_but(n, cube["free"], cube.get("fs", 0), cube.get("mod", 8)) if "free" in cube else None
    metric = K.Metric(c, attr, fixed=fixed)
    c.window = tuple(cube["win"]) if "win" in cube else None
    c.policy = cube.get("pol", 0)
    if "uwin" in cube:
        c.unit_window, c.unit_policy = tuple(cube["uwin"]), "r"
    obj = K.spy_objective(c, metric)
    maxp = est in ("maxp", "maxpexact")
    exact = est in ("exact", "maxpexact")
    c.notes["mipmemo"] = {}
    init = None
    if cube.get("init"):
        parts = K.valid_partitions(n, edges, cube["p"]) if n < 9 else \
            [K.grown_partition(n, edges, cube["p"], q) for q in (1, 2)]
        init = H.relabelled(parts[c.choose(len(parts), "init")], cube["style"])
    sp = th = None
    if maxp:
        sp = np.array([[float(x)] * cube["m"] for x in cube["sp"]])
        th = cube["th"] if cube["m"] == 1 else np.array([float(cube["th"])] * cube["m"])

    def make():
        if est == "maxp":
            from region.max_p_regions.heuristics import MaxPRegionsHeu
            return MaxPRegionsHeu(random_state=1)
        if est == "exact":
            from region.p_regions.exact import PRegionsExact
            return PRegionsExact()
        if est == "maxpexact":
            from region.max_p_regions.exact import MaxPRegionsExact
            return MaxPRegionsExact()
        return H.make(dict(cube, algo=est))
    kw = {}
    if exact:
        kw["metric"] = metric
        if est == "exact":
            kw["method"] = cube["method"]
    else:
        kw["objective_func"] = obj
    if est == "maxp":
        kw["max_it"] = cube["max_it"]

    def run(name, what, args, initial=None, **more):
        model = make()
        f = getattr(model, name, None)
        if f is None:
            return None
        if initial is not None:
            more["initial_labels"] = initial
        everything = list(args) + [initial]
        before = [snap(x) for x in everything]
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            ok, _ = K.guarded(c, lambda: f(*args, **kw, **more), "%s from %s" % (name, what))
        if not ok:
            return None
        c.check([snap(x) for x in everything] == before,
                "%s from %s modified its arguments" % (name, what))
        lab = K.plain(model.labels_, n)
        c.check(lab is not None, "%s from %s does not label every area" % (name, what))
        return lab
    tail = (sp, th) if maxp else (cube["p"],)
    ref = run("fit_from_scipy_sparse_matrix", "csr", (m.csr(), attr) + tail,
              None if init is None else init.copy())
    if ref is None:
        return

    def same(lab, what):
        if lab is None:
            return
        if exact:       # ties between optimal solutions are the solver's to break
            c.check(len(set(lab)) == len(set(ref)) and K.contiguous(lab, m.adj),
                    "%s: %s instead of %s" % (what, lab, ref))
            c.check(c.eq(K.pairwise(c, metric, lab), K.pairwise(c, metric, ref)),
                    "%s: %s instead of %s" % (what, lab, ref))
        else:
            c.check(lab == ref, "%s: labels %s instead of %s" % (what, lab, ref))
        c.reach(what.split()[0])
    ini = None if init is None else init.copy()
    same(run("fit", "csr", (m.csr(), attr) + tail, ini), "csr")
    if k == 1:
        same(run("fit_from_scipy_sparse_matrix", "flat", (m.csr(), attr[:, 0]) + tail, ini),
             "csr, flat attributes")
    # a dict
    d_init = None if init is None else m.values(init, v, flat=True)
    d_tail = (m.values(sp, v), th) if maxp else tail
    same(run("fit_from_dict", "dict", (m.dict(v), m.values(attr, v)) + d_tail, d_init),
         "dict %d" % v)
    # networkx: attributes on the nodes or in a dict
    cols = {"x%d" % j: attr[:, j].tolist() for j in range(k)}
    scol = {"s%d" % j: sp[:, j].tolist() for j in range(cube["m"])} if maxp else {}
    extra = {"lab": init.tolist()} if init is not None else {}
    g = m.graph(v, **cols, **scol, **extra)
    names = list(cols) if k > 1 or v % 2 else "x0"
    g_tail = ((list(scol) if len(scol) > 1 or v % 2 else "s0"), th) if maxp else tail
    same(run("fit_from_networkx", "graph", (g, names) + g_tail, "lab" if extra else None),
         "graph %d" % v)
    same(run("fit_from_networkx", "graph and dicts", (g, m.values(attr, v)) + d_tail, d_init),
         "graph %d and dicts" % v)
    # W
    same(run("fit_from_w", "W", (m.w(v), attr) + tail, ini), "W %d" % v)
    if cells:
        gdf = m.gdf(v, **cols, **scol)
        names = list(cols) if k > 1 or v % 2 else "x0"
        g_tail = ((list(scol) if len(scol) > 1 or v % 2 else "s0"), th) if maxp else tail
        more = {"contiguity": cube["cont"]} if cube["cont"] != "rook" or v % 2 else {}
        same(run("fit_from_geodataframe", "gdf", (gdf, names) + g_tail, ini, **more), "gdf %d" % v)
    c.record(ref)


FUNCS = ["fit_from_dict, fit_from_networkx, fit_from_w, fit_from_geodataframe, fit of AZP, its tabu "
         "variants, AZPSimulatedAnnealing, PRegionsExact, MaxPRegionsExact, MaxPRegionsHeu",
         "array_from_dict_values", "scipy_sparse_matrix_from_dict", "scipy_sparse_matrix_from_w",
         "dict_from_graph_attr", "array_from_graph", "array_from_graph_or_dict",
         "array_from_df_col", "w_from_gdf"]
BOUNDS = {
    "quick": "connected graphs on 3-4 areas up to order, disconnected ones on 4, seven polyominoes "
             "of 3-4 squares (rook and queen); two of six naming/order variants each (int, "
             "negative, string, tuple, float names; permuted nodes, keys, edges and neighbours); "
             "2-3 arbitrary dissimilarities (all for the exact models on 3 areas), one or two "
             "attributes, one arbitrary random draw, with and without initial labels"
             "; four given maps of 11-20 areas (two grids also as GeoDataFrames of squares) with 3-11 regions for AZP, the tabu variants and the max-p heuristic, one arbitrary dissimilarity and one arbitrary draw",
    "thorough": "as quick with all six variants",
}
ASSUME = ["the random generator is a function of the seed and the number of draws",
          "the MIP solver returns any optimal solution, the same one for the same model "
          "(whatever the order of its parts); exact models are compared by their objective value", "real arithmetic instead of floating point"]
REACH = ["csr", "csr,", "dict", "graph", "W", "gdf"]
