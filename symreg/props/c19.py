"""The max-p heuristic keeps its best candidate."""
import numpy as np

from .. import common as K
from .. import heur as H
from .. import maxp as M

OPTIONS = dict(path_seconds=40, validate=2)


def cubes(tier, seed):
    T = tier == "thorough"
    out = []

    def add(**k):
        k["edges"] = H.norm(k["edges"])
        out.append(k)
    SP3 = ((1, 1, 2), (2, 1, 3))
    for es in K.classes(3):
        for sp in SP3:
            for it in (1, 2, 3):
                add(n=3, edges=K.shuffled(es, 3, seed), sp=sp, th=2, max_it=it, algo="stub",
                    win=(1, 6))
    SP = ((1, 2, 2, 3), (2, 1, 1, 2), (3, 1, 2, 1), (1, 1, 1, 1))
    TH = (3, 2, 3, 2)
    for i, es in enumerate(K.classes(4)):
        for q in range(2 if not T else 4):
            k = (i + q) % 4
            for w in ((1, 2), (4, 5), (7, 8)) + (((10, 11),) if T else ()):
                add(n=4, edges=K.shuffled(es, 4, seed + q), sp=SP[k], th=TH[k], max_it=2 + q % 2,
                    algo="stub", win=w, pol=(i + w[0]) % 4, outs=3 - q % 2 if not T else 4,
                    free=4 - q % 2 if not T else 4, fs=seed + i)
            for a in ("azp", "basic", "reactive"):
                add(n=4, edges=K.shuffled(es, 4, seed + q), sp=SP[k], th=TH[k], max_it=2 + q % 2,
                    algo=a, free=2 if not T else 3, fs=seed + i + q, win=(1 + i % 3, 2 + i % 3),
                    pol=(i + q) % 4, reps=1)
            add(n=4, edges=K.shuffled(es, 4, seed + q), sp=SP[k], th=TH[k], max_it=2, algo="sa",
                free=0, fs=seed + i + q, win=(1 + i % 3, 2 + i % 3), pol=(i + q) % 4,
                uwin=(1 + q, 1 + q))
            if q == 0 and i < (3 if not T else 6):
                add(n=4, edges=K.shuffled(es, 4, seed + q), sp=SP[k], th=TH[k], max_it=2,
                    algo="stub", win=(1, 2), pol=i % 4, outs=3, abstract=True)
                add(n=4, edges=K.shuffled(es, 4, seed + q), sp=SP[k], th=TH[k], max_it=2,
                    algo=("azp", "basic", "reactive")[i % 3], win=(1, 1), pol=i % 4, reps=1,
                    abstract=True)
    big = ((5, K.path_graph(5)), (5, K.cycle(5)), (6, K.grid(2, 3)), (5, ((0, 3), (3, 1), (2, 4))))
    for i, (n, es) in enumerate(big):
        for q in range(2 if not T else 5):
            for j, a in enumerate(("stub", "azp", "basic")):
                add(n=n, edges=K.shuffled(es, n, seed + q), sp=(1, 2, 1, 3, 2, 1)[:n], th=3, max_it=3,
                    algo=a, free=2 if a == "stub" else 1, fs=seed + q,
                        win=(1 + 3 * q, 2 + 3 * q - (n > 5)),
                    pol=(i + j + q) % 4, outs=2, reps=1)
    for q, d in enumerate(M.large(tier, seed, sym=False)):
        add(**dict(d, algo=("azp", "basic", "reactive")[q % 3], reps=1, maxit=8, max_it=3, tabu=3))
    for d in out:
        d["steps"] = None
    return out


def subsumes(lab, partition):
    """Is every region of the partial partition inside a region of its own?"""
    names = []
    for b in partition:
        s = {lab[int(x)] for x in b}
        if len(s) != 1:
            return False
        names += list(s)
    return len(set(names)) == len(names)


def harness(c, cube):
    from region.max_p_regions.heuristics import MaxPRegionsHeu
    grown, entered, left = [], [], []
    holder = {}

    class Rec(MaxPRegionsHeu):
        def grow_regions(self, *a, **k):
            res = super().grow_regions(*a, **k)
            grown.append([frozenset(int(x) for x in b) for b in res[0]])
            return res

    def plain(labels):
        return tuple(float(x) for x in np.asarray(labels, float).tolist())

    n = cube["n"]
    if cube["algo"] == "stub":
        class Search:
            def __init__(self):
                self.allow_move_strategy = object()
                self.labels_ = None

            def fit_from_scipy_sparse_matrix(self, adj, attr, n_regions, initial_labels=None,
                                             objective_func=None, **kw):
                entered.append(plain(initial_labels))
                r = holder["run"]
                parts = [q for q in K.valid_partitions(n, r.edges, int(n_regions))
                         if all(r.reaches(b) for b in K.blocks(q))]
                m = cube.get("outs")
                if m:       # a few of them, other ones for every call
                    parts = [parts[(3 * len(left) + 5 * i) % len(parts)]
                             for i in range(min(m, len(parts)))]
                q = parts[c.choose(len(parts), "searched")]
                self.labels_ = np.array(q)
                left.append(plain(q))
            fit = fit_from_scipy_sparse_matrix
        search = Search()
    else:
        search = H.make(cube, seed=2)
        base = type(search)

        class Search(base):
            def fit_from_scipy_sparse_matrix(self, adj, attr, n_regions, initial_labels=None,
                                             *a, **kw):
                entered.append(plain(initial_labels))
                super().fit_from_scipy_sparse_matrix(adj, attr, n_regions, initial_labels, *a, **kw)
                left.append(plain(self.labels_))
        search.__class__ = Search
    r = holder["run"] = M.Run(c, cube, model=Rec, search=search)
    lab = r.fit()
    if lab is None:
        return
    if len(entered) != len(left) or not entered:
        c.reach("not observable")
        return
    p = len(set(lab))
    if grown:
        most = max(len(g) for g in grown)
        c.check(p == most, "%d regions although a partition with %d was grown" % (p, most))
        for g in grown:
            if len(g) == most:
                c.check(any(subsumes(e, g) for e in entered),
                        "the grown partition %s with the most regions was not improved by the "
                        "local search" % ([sorted(b) for b in g],))
        if len({len(g) for g in grown}) > 1:
            c.reach("different numbers of regions")

    def value(q):
        if cube.get("abstract"):
            return r.obj.val(np.array(q), r.attr)
        return K.pairwise(c, r.metric, q)
    mine = value(lab)
    cands = left + (entered if cube["algo"] in ("azp", "basic", "reactive") else [])
    for q in sorted(set(cands)):
        if len(set(q)) == p:
            c.check(c.le(mine, value(q)),
                    "the result %s is worse than %s, which %s the local search"
                    % (lab, q, "came out of" if q in left else "entered"))
    if len({K.canon(q) for q in left if len(set(q)) == p}) > 1:
        c.reach("several candidates")
    c.reach(cube["algo"])
    c.record(lab)


FUNCS = ["MaxPRegionsHeu.fit_from_scipy_sparse_matrix", "grow_regions", "assign_enclaves",
         "array_from_region_list", "the local searches (see C01, C04, C06, C07)"]
BOUNDS = {
    "quick": "connected graphs on 3-4 areas and given ones on 5-6, fixed spatially extensive "
             "attributes and threshold; 1-3 partitions grown; the local search a stub that returns "
             "one of 2-3 arbitrary feasible partitions (all on 3 areas) under 2-4 (all on 3 "
             "areas) arbitrary dissimilarities or an arbitrary objective, or AZP, tabu, annealing with up to 2 arbitrary "
             "dissimilarities; two consecutive arbitrary random draws"
             "; four maps of 11-20 areas with one arbitrary dissimilarity",
    "thorough": "as quick with more graphs orders, windows and free dissimilarities",
}
ASSUME = ["random draws outside the window follow a fixed policy",
          "real arithmetic instead of floating point",
          "grown partitions are observed at MaxPRegionsHeu.grow_regions"]
REACH = ["stub", "azp", "basic", "reactive", "sa", "several candidates",
         "different numbers of regions"]
