"""A fit does not depend on earlier fits."""
import warnings

import numpy as np

from .. import common as K
from .. import heur as H
from .. import maxp as M
from .. import skater as S

OPTIONS = dict(path_seconds=60, validate=2)
FIRST = ("same", "other", "small", "failed", "island", "twice", "maxp", "chain")


def cubes(tier, seed):
    T = tier == "thorough"
    out = []

    def add(**k):
        k["edges"] = H.norm(k["edges"])
        if not T and k["est"] == "sa" and len(k["edges"]) > 3:      # the long ones
            k["maxit"] = 2
            k["init"] = k["first"] == "failed"
        if k not in out:
            out.append(k)
    for i, es in enumerate(K.classes(4)):
        es = K.shuffled(es, 4, seed)
        for j, a in enumerate(("azp", "basic", "reactive", "sa")):
            for q in range(len(FIRST)):
                if not T and (q + i) % (2 if a != "sa" else 3):
                    continue
                p = 2 + (i + j + q // 2) % 2 if a != "sa" else 2
                add(est=a, n=4, edges=es, p=p, first=FIRST[q],
                    win=(1, 1) if not T else (1, 2), pol=1 + (i + q) % 3, free=2 - (a == "sa"),
                    fs=seed + i + q, init=FIRST[q] == "failed" or (i + q // 2) % 3 != 0,
                    style=q % 3, uwin=(1, 1), reps=1 + (q + i) % 2, maxit=3, tabu=1 + (q + i) % 3,
                    k1=(i + j) % 2, k2=1)
        for q, a in enumerate(("none", "azp", "basic", "sa", "reactive")):
            for f, first in enumerate(("same", "other", "small", "fit", "twice", "failed")):
                if first == "fit" and a == "none" or (not T and (q + i + f) % 5):
                    continue
                add(est="maxp", n=4, edges=es, algo=a, first=first, win=(1 + i % 3, 1 + i % 3),
                    pol=1 + i % 3, free=2 - (a == "sa"), fs=seed + q,
                    sp=[(2, 1, 2, 1), (1, 2, 1, 3), (1, 1, 1, 1)][i % 3], th=(3, 3, 2)[i % 3],
                    max_it=1 + i % 2, uwin=(1, 1), reps=1, maxit=2, p=2)
    for q, (n, es) in enumerate(H.DISCONNECTED):
        nc = H.ncomp(n, es)
        for j, a in enumerate(("azp", "basic", "reactive", "sa")):
            if n == 3 or ((q + j) % 2 and not T):
                continue
            add(est=a, n=n, edges=es, p=min(nc + 1, n - 1), first=("same", "other")[q % 2],
                win=(1, 2), pol=1 + j % 3, free=1, fs=seed + q, init=False, style=0, uwin=(1, 1),
                reps=1, maxit=2)
    for i, es in enumerate(K.classes(3)):
        for j, m in enumerate(("flow", "order", "tree")):
            for f, first in enumerate(("other", "small", "failed", "same")):
                if T or (i + j + f) % 2:
                    add(est="exact", n=3, edges=es, p=2, method=m, first=first, free=2, fs=i)
        for f, first in enumerate(("other", "small", "failed")):
            if T or (i + f) % 2:
                add(est="maxpexact", n=3, edges=es, first=first, sp=((1, 2, 1), (2, 1, 2))[i % 2],
                    th=2, free=2, fs=i)
    for i, es in enumerate(K.classes(4, False)):
        es = K.shuffled(es, 4, seed)
        c = H.ncomp(4, es)
        for f, first in enumerate(("same", "other", "small", "failed", "twice", "score", "data",
                                   "map")):
            if not T and (i + f) % 2 and (first not in ("data", "map") or c > 1):
                continue
            add(est="skater", n=4, edges=es, p=max(c, 2 + (i + f) % 2), first=first,
                free=2 - (first in ("data", "map") and len(es) > 3 and not T), fs=seed + i, mod=3 + 5 * (f % 2), islands="increase",
                quorum=1 + (i + f) % 2 if c == 1 else 1)
    # more than ten areas
    for i, (n, es) in enumerate(H.LARGE):
        nc = H.ncomp(n, es)
        for j, a in enumerate(("azp", "basic", "reactive", "maxp")):
            for f in range(2 if not T else 6):
                first = FIRST[(i + 3 * j + 4 * f) % 8] if a != "maxp" else \
                    ("other", "small", "twice", "fit", "same")[(i + 2 * f) % 5]
                add(est=a, n=n, edges=K.shuffled(es, n, seed + j), p=nc + 2 + 6 * ((i + j) % 2),
                    first=first, win=(2 + i + j,) * 2, free=int(n < 20), fs=seed + i, mod=97,
                    pol=1 + (i + j) % 3, init=first == "failed" or bool((i + j + f) % 2),
                    style=(i + j) % 3, uwin=(1, 1), reps=1 + i % 2, maxit=3, tabu=1 + 3 * f, k1=1, k2=1,
                    algo=("azp", "basic")[i % 2], max_it=1, th=2 if nc > 1 else 4,
                    sp=tuple(1 + (5 * x + j) % 3 for x in range(n)), steps=100000)
    for i, d in enumerate(S.large(tier, seed, start=3)):
        for f in range(2 if not T else 5):
            add(est="skater", first=("same", "other", "small", "data", "map", "twice",
                                     "failed")[(i + 3 * f) % 7], **d)
    return out


OTHER = ((4, ((0, 1), (1, 2), (2, 3), (3, 0)), 3), (3, ((0, 1), (1, 2)), 2),
         (5, ((0, 3), (3, 1), (2, 4)), 3))


class Problem:
    """The data of one fit."""

    def __init__(self, c, cube, n, edges, p, prefix, fixed, k=1, base=0.0):
        self.n, self.p, self.edges = n, p, tuple(map(tuple, edges))
        self.rows = K.ids(n, k) + base
        self.metric = K.Metric(c, self.rows, fixed=fixed, prefix=prefix)
        self.obj = K.spy_objective(c, self.metric)
        self.init = None
        self.sp = np.array([[float(cube.get("sp", (1,) * n)[i % 4 if n > 3 else i]
                                   if i < len(cube.get("sp", (1,) * n)) else 1)]
                            for i in range(n)])
        self.th = cube.get("th", 2)


def harness(c, cube):
    if cube["est"] == "skater":
        return h_skater(c, cube)
    from region.max_p_regions.exact import MaxPRegionsExact
    from region.max_p_regions.heuristics import MaxPRegionsHeu
    from region.p_regions.exact import PRegionsExact
    est, n, first = cube["est"], cube["n"], cube["first"]
    edges = tuple(map(tuple, cube["edges"]))
    exact = est in ("exact", "maxpexact")
    maxp = est in ("maxp", "maxpexact")
    c.notes["mipmemo"] = {}
    c.window = tuple(cube["win"]) if "win" in cube else None
    c.policy = cube.get("pol", 0)
    if "uwin" in cube:
        c.unit_window, c.unit_policy = tuple(cube["uwin"]), "ra"
    main = Problem(c, cube, n, edges, cube.get("p"), "D",
                   K.fix_all_but(n, cube["free"], cube.get("fs", 0), cube.get("mod", 8)))
    if cube.get("init") and est != "maxp":
        parts = K.valid_partitions(n, edges, cube["p"]) if n < 9 else \
            [K.grown_partition(n, edges, cube["p"], q) for q in (1, 2)]
        main.init = H.relabelled(parts[c.choose(len(parts), "init")], cube["style"])

    def const(on, oe, op, seed):
        o = Problem(c, cube, on, oe, op, "E", K.fix_all_but(on, 0, seed), base=0.0)
        return o

    def new():
        if est == "maxp":
            return MaxPRegionsHeu(local_search=search(), random_state=1)
        if est == "exact":
            return PRegionsExact()
        if est == "maxpexact":
            return MaxPRegionsExact()
        return H.make(dict(cube, algo=est))

    def search():
        return None if cube["algo"] == "none" else H.make(cube, seed=2)

    def fit(m, q, init=None, p=None):
        csr = M.real_csr(q.n, q.edges)
        if est == "exact":
            m.fit_from_scipy_sparse_matrix(csr, q.rows, p or q.p, method=cube["method"],
                                           metric=q.metric)
        elif est == "maxpexact":
            m.fit_from_scipy_sparse_matrix(csr, q.rows, q.sp, q.th, metric=q.metric)
        elif est == "maxp":
            m.fit_from_scipy_sparse_matrix(csr, q.rows, q.sp, q.th, max_it=cube["max_it"],
                                           objective_func=q.obj)
        else:
            m.fit_from_scipy_sparse_matrix(csr, q.rows, p or q.p, initial_labels=init,
                                           objective_func=q.obj)

    def labels(m, q):
        return K.plain(m.labels_, q.n)

    def run(f, what, allow=()):
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            return K.guarded(c, f, what, allow=allow)

    def init():
        return None if main.init is None else main.init.copy()
    start = init()

    # what a new estimator gives
    fresh = new()
    c.rng_seed("second")
    ok, _ = run(lambda: fit(fresh, main, init()), "the fit of a new estimator")
    if not ok:
        return
    want, want_raw = labels(fresh, main), np.array(fresh.labels_)
    if first == "chain":        # go on from the result
        start = np.array(fresh.labels_)
        again = new()
        c.rng_seed("third")
        ok, _ = run(lambda: fit(again, main, start.copy()), "the fit of a new estimator")
        if not ok:
            return
        want = labels(again, main)
    # the history
    m = new()
    c.rng_seed("first")
    keep = None
    if first in ("same", "twice", "chain"):
        if first == "chain":
            c.rng_seed("second")
        for _ in range(1 + (first == "twice")):
            if not run(lambda: fit(m, main, init()), "a fit before")[0]:
                return
        if first == "chain":
            start = m.labels_
    elif first == "other":
        o = const(n, K.cycle(n) if n > 3 else edges, max(H.ncomp(n, K.cycle(n)), n - 2), 5)
        if not run(lambda: fit(m, o), "a fit before")[0]:
            return
    elif first == "small":
        o = const(3, ((0, 1), (1, 2)), 2, 6)
        if exact:
            o = const(2, ((0, 1),), 1, 6)
        if not run(lambda: fit(m, o), "a fit before")[0]:
            return
    elif first == "island":
        o = const(5, ((0, 3), (3, 1), (2, 4)), 3, 7)
        if not run(lambda: fit(m, o), "a fit before")[0]:
            return
    elif first == "maxp":       # it has been the local search of the heuristic
        o = const(4, K.cycle(4), 2, 8)
        o.th = 2

        def heu():
            h = MaxPRegionsHeu(local_search=m, random_state=3)
            h.fit_from_scipy_sparse_matrix(M.real_csr(o.n, o.edges), o.rows, o.sp, o.th, max_it=1,
                                           objective_func=o.obj)
        if not run(heu, "a fit of the max-p heuristic before")[0]:
            return
    elif first == "fit":        # the local search has been used on its own
        o = const(4, K.cycle(4), 3, 9)
        if not run(lambda: m.local_search.fit_from_scipy_sparse_matrix(
                M.real_csr(4, o.edges), o.rows, 3, objective_func=o.obj), "a fit before")[0]:
            return
    elif first == "failed":
        def bad():
            if est == "exact":
                fit(m, main, p=n + 1)
            elif est == "maxpexact" or est == "maxp":
                o = const(n, (), 2, 4)
                o.sp, o.th = o.sp * 0 + 1, 99
                fit(m, o)
            else:
                lab = np.array([0, 1] + [0] * (n - 2))
                if K.contiguous(lab.tolist(), K.nbrs(n, edges)):
                    fit(m, main, p=n + 1)
                else:
                    fit(m, main, lab, p=2)
        run(bad, "a fit that fails", allow=(Exception,))
    kept = getattr(m, "labels_", None)
    copy = None if kept is None else np.array(kept)
    # the second fit
    c.rng_seed("third" if first == "chain" else "second")
    ok, _ = run(lambda: fit(m, main, start if first == "chain" else start), "the second fit")
    if not ok:
        return
    got = labels(m, main)
    c.check(got is not None, "labels after the second fit: %r" % (m.labels_,))
    if exact:
        c.check(len(set(got)) == len(set(want)),
                "%s: %s after another fit, %s without" % (first, got, want))
        c.check(K.contiguous(got, K.nbrs(n, edges)),
                "%s: %s after another fit, %s without" % (first, got, want))
        c.check(c.eq(K.pairwise(c, main.metric, got), K.pairwise(c, main.metric, want)),
                "%s: %s after another fit, %s without" % (first, got, want))
    else:
        c.check(got == want, "%s: labels %s after another fit, %s by a new estimator"
                % (first, got, want))
    if copy is not None and copy.dtype != object:
        c.check(np.array_equal(np.array(kept), copy),
                "the second fit modified the labels of the first")
    c.check(np.array_equal(np.array(fresh.labels_), want_raw) ,
            "a fit modified the labels of another estimator")
    c.reach(first)
    c.reach(est)
    c.record(want)


class By_sign:
    """One dissimilarity for two maps: the attributes of the second are negative."""

    def __init__(self, pos, neg):
        self.pos, self.neg = pos, neg

    def __call__(self, X, Y=None, **kw):
        return (self.neg if float(np.asarray(X).reshape(-1)[0]) < 0 else self.pos)(X, Y, **kw)


def h_skater(c, cube):
    first, n = cube["first"], cube["n"]
    m = S.Map(c, cube)
    fresh = m.forest()
    ok, res, ws = m.fit(fresh, cube["p"])
    if not ok:
        return
    want = K.plain(fresh.current_labels_, n)
    keep, copy = fresh.current_labels_, np.array(fresh.current_labels_)
    sf = m.forest()
    if first == "same" or first == "twice":
        for _ in range(1 + (first == "twice")):
            if not m.fit(sf, cube["p"])[0]:
                return
    elif first == "other":
        if not m.fit(sf, n)[0]:
            return
    elif first == "score":
        def f():
            m.fit(sf, max(m.ncomp, 2))
            return sf.score(m.data, labels=np.array([0, 0, 1, 1]))
        if not K.guarded(c, f, "score")[0]:
            return
    elif first == "small":
        o = dict(cube, n=3, edges=((0, 1), (1, 2)), free=0, p=2, fs=3)
        q = S.Map(c, o)
        q.metric = sf.metric = K.Metric(c, q.data, gap=True, prefix="E",
                                        fixed=K.fix_all_but(3, 0, 3))
        q.metric.lift = True
        q.metric.others = cube.get("others")
        sf2 = m.forest(dissimilarity=m.metric)
        both = sf2.metric
        sf2.metric = q.metric
        if not q.fit(sf2, 2)[0]:
            return
        sf2.metric = both
        sf = sf2
    elif first in ("data", "map"):
        # as many areas with other attributes, on the same map or another
        q = S.Map(c, dict(cube, edges=cube["edges"] if first == "data" else K.cycle(n), free=0,
                          fs=11))
        q.data = -q.data
        q.metric = K.Metric(c, q.data, gap=True, prefix="E", fixed=S.fixed(dict(cube, free=0, fs=11)))
        q.metric.lift = True
        q.metric.others = cube.get("others")
        sf = m.forest(dissimilarity=By_sign(m.metric, q.metric))
        if not q.fit(sf, cube["p"])[0]:
            return
    elif first == "failed":
        K.guarded(c, lambda: sf.fit(2, m.w, m.data, quorum=n + 1, islands="nonsense"), "fit",
                  allow=(Exception,))
    ok, res, ws = m.fit(sf, cube["p"])
    if not ok:
        return
    got = K.plain(sf.current_labels_, n)
    c.check(K.canon(got) == K.canon(want), "%s: labels %s after another fit, %s by a new estimator"
            % (first, got, want))
    c.check(S.forest_edges(sf.minimum_spanning_forest_) ==
            S.forest_edges(fresh.minimum_spanning_forest_), "another forest after another fit")
    c.check(np.array_equal(keep, copy), "a fit modified the labels of another one")
    c.reach(first)
    c.reach("skater")
    c.record(want)


FUNCS = ["fit_from_scipy_sparse_matrix of AZP, AZPSimulatedAnnealing, AZPBasicTabu, "
         "AZPReactiveTabu, PRegionsExact, MaxPRegionsExact, MaxPRegionsHeu", "AZPTabu.reset_tabu",
         "AllowMoveAZPSimulatedAnnealing.reset", "Spanning_Forest.fit"]
BOUNDS = {
    "quick": "one or two earlier fits of ten kinds (the same problem, other dissimilarities, a "
             "smaller map, as large a map with other attributes, a disconnected one, a fit that "
             "raises, as the local search of the max-p heuristic, going on from the result of the "
             "first); connected graphs on 4 areas up to isomorphism, disconnected ones on 4-5, 3 "
             "for the exact models; 1-2 arbitrary dissimilarities, one arbitrary random draw"
             "; four given maps of 11-20 areas with 3-11 regions (no exact models), one arbitrary dissimilarity and one arbitrary draw",
    "thorough": "all combinations of graph, algorithm and earlier fit, two arbitrary draws",
}
ASSUME = ["both fits see the same stream of random numbers", "the MIP solver returns any optimal "
          "solution, the same one for the same model; exact models are compared by their objective "
          "value", "real arithmetic instead of floating point"]
REACH = ["azp", "basic", "reactive", "sa", "maxp", "exact", "maxpexact", "skater"] + list(FIRST) + \
    ["fit", "score", "data", "map"]
