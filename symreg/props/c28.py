"""The construction phase of the max-p heuristic."""
import numpy as np

from .. import common as K
from .. import heur as H
from .. import maxp as M

OPTIONS = dict(path_seconds=40, validate=2)


def cubes(tier, seed):
    T = tier == "thorough"
    out = []

    def add(**k):
        k["edges"] = H.norm(k["edges"])
        k.setdefault("max_it", 1)
        out.append(k)
    for n in (1, 2, 3):
        for es in K.classes(n, False):
            add(n=n, edges=K.shuffled(es, n, seed), sp=(None,) * n, th=None, win=(1, 6))
    SP = ((1, None, 2, 2), (None, 3, 1, 1), ((2, 1), (1, None), (3, 0), (1, 2)), (2, 1, None, 4),
          (1, 1, 1, 1), (2, 0, 1, 3))
    TH = (3, None, (2, 1), 4, 2, 3)
    for i, es in enumerate(K.classes(4)):
        for q in range(4 if not T else 12):
            k = (i + q) % 6
            for w in ((1, 2), (3, 4), (5, 6)):
                add(n=4, edges=K.shuffled(es, 4, seed + q), sp=SP[k], th=TH[k], win=w,
                    pol=(i + q + w[0]) % 4)
            if q % 3 == 0:
                add(n=4, edges=K.shuffled(es, 4, seed + q), sp=SP[k], th=TH[k], pol=q % 4,
                    win=(3 + q, 3 + q), max_it=2 + i % 2, free=1, fs=seed + q, mod=3)
    for n, es in H.DISCONNECTED:
        if n >= 4:
            for q in range(2 if not T else 4):
                add(n=n, edges=K.shuffled(es, n, seed + q), sp=(2, 1, 3, None, 1)[:n], th=1 + q % 3,
                    win=(1 + 2 * q, 2 + 2 * q), pol=q % 4, free=4, fs=seed + q, mod=3)
    BIG = ((5, K.path_graph(5)), (5, K.cycle(5)), (5, K.star(5)), (6, K.grid(2, 3)),
           (5, ((0, 1), (1, 2), (2, 0), (2, 3), (3, 4))), (6, K.star(6)),
           (7, ((0, 1), (1, 2), (2, 3), (3, 4), (4, 5), (5, 6), (1, 5), (0, 3))))
    for i, (n, es) in enumerate(BIG):
        for q in range(4 if not T else 8):
            sp = (1, 2, None, 2, 1, 3, 1)[:n] if (i + q) % 2 else (2, 1, 1, 4, 1, 1, 2)[:n]
            add(n=n, edges=K.shuffled(es, n, seed + q), sp=sp, th=3 + (i + q) % 3,
                free=3 if not T else 5, fs=seed + q, mod=(8, 3, 2)[q % 3],
                win=(1 + q, 2 + q) if n < 6 else (1 + q, 1 + q), pol=(i + q) % 4,
                max_it=1 + (q == 3))
    for d in M.large(tier, seed):
        add(**dict(d, free=3))
    return out


def harness(c, cube):
    from region.max_p_regions.heuristics import MaxPRegionsHeu
    grown, entered = [], []

    class Rec(MaxPRegionsHeu):
        def grow_regions(self, *a, **k):
            res = super().grow_regions(*a, **k)
            grown.append(([[int(x) for x in b] for b in res[0]], [int(x) for x in res[1]]))
            return res

    class Search:
        """Takes the solutions as they come out of the construction phase."""

        def __init__(self):
            self.allow_move_strategy = object()
            self.labels_ = None

        def fit_from_scipy_sparse_matrix(self, adj, attr, n_regions, initial_labels=None, **kw):
            entered.append(tuple(float(x) for x in np.asarray(initial_labels, float).tolist()))
            self.labels_ = np.array(initial_labels)
        fit = fit_from_scipy_sparse_matrix

    r = M.Run(c, cube, model=Rec, search=Search())
    lab = r.fit()
    if lab is None:
        return
    r.check_feasible(lab)
    if not grown or not entered:
        c.reach("not observable")
        return
    most = max(len(g) for g, _ in grown)
    for g, rest in grown:
        c.check(sorted(sum(g, rest)) == list(range(r.n)),
                "the regions %s and enclaves %s are no partition of the areas" % (g, rest))
        for b in g:
            c.check(bool(b) and K.connected_set(b, r.adj), "the grown region %s is not contiguous"
                    % (b,))
            c.check(r.reaches(b), "the grown region %s is below the threshold" % (b,))
        for e in parts(rest, r.adj):
            c.check(c.neg(r.reaches(e)),
                    "the enclaves %s reach the threshold but were left over: %s" % (e, g))
            c.reach("enclaves")
        free = set(range(r.n))
        for b in g:
            greedy(c, r, b, free)
            free -= set(b)
    keep = [(g, e) for g, e in grown if len(g) == most]
    for res in dict.fromkeys(entered):
        forms = []
        for g, rest in keep:
            names = [{res[x] for x in b} for b in g]
            if all(len(s) == 1 for s in names) and len(set.union(*names)) == len(g) and \
                    set(res) == set.union(*names):
                forms.append(enclaves(c, r, g, rest, res))
        c.check(bool(forms), "the regions of %s are not those that were grown (or a region of its "
                "own is made of enclaves): %s" % (res, keep))
        c.check(c.either(*forms), "the enclaves of %s did not join the least dissimilar "
                "neighbouring regions: %s" % (keep, res))
    c.record(lab)


def parts(areas, adj):
    """Connected components of a set of areas."""
    left, out = set(areas), []
    while left:
        todo, comp = [left.pop()], []
        while todo:
            x = todo.pop()
            comp.append(x)
            new = left & set(adj[x])
            left -= new
            todo += new
        out.append(sorted(comp))
    return out


def dis(r, a, block):
    tot = 0
    for b in sorted(block):
        tot = tot + r.metric.d(a, b)
    return tot


def greedy(c, r, region, free):
    """There is an area from which the region was grown by least dissimilar neighbours."""
    full = frozenset(region)
    memo = {full: True}

    def explain(s):
        if s not in memo:
            cands = sorted({y for x in s for y in r.adj[x]} & free - s)
            ways = []
            for a in cands:
                if a in full:
                    sub = explain(s | {a})
                    if sub is not False:
                        ways.append(c.both(sub, *[c.le(dis(r, a, s), dis(r, o, s))
                                                  for o in cands if o != a]))
            memo[s] = c.both(c.neg(r.reaches(sorted(s))), c.either(*ways)) if ways else False
        return memo[s]
    ways = [explain(frozenset([a])) for a in sorted(full)]
    c.check(c.either(*[w for w in ways if w is not False]),
            "the region %s was not grown by the least dissimilar of the neighbouring areas among "
            "%s until it reached the threshold" % (sorted(full), sorted(free)))
    if len(full) > 1 and len(free) > len(full):
        c.reach("grown with a choice")


def enclaves(c, r, grown, rest, res):
    """Is there an order in which every enclave joined its least dissimilar neighbour region?"""
    name = {res[b[0]]: set(b) for b in grown}
    memo = {frozenset(rest): True}
    wide = [False]

    def explain(done):
        if done not in memo:
            now = {k: b | {x for x in done if res[x] == k} for k, b in name.items()}
            ways = []
            for a in rest:
                if a in done:
                    continue
                near = [k for k, b in now.items() if b & set(r.adj[a])]
                if res[a] in near:
                    sub = explain(done | {a})
                    wide[0] = wide[0] or len(near) > 1
                    if sub is not False:
                        ways.append(c.both(sub, *[c.le(dis(r, a, now[res[a]]), dis(r, a, now[k]))
                                                  for k in near if k != res[a]]))
            memo[done] = c.either(*ways) if ways else False
        return memo[done]
    f = explain(frozenset())
    if wide[0]:
        c.reach("enclaves with a choice")
    return f


FUNCS = ["MaxPRegionsHeu.fit_from_scipy_sparse_matrix", "grow_regions", "find_best_area",
         "assign_enclaves", "find_best_region_idx", "array_from_region_list"]
BOUNDS = {
    "quick": "all graphs on 1-3 areas with all dissimilarities, spatially extensive attributes, "
             "the threshold and all random draws arbitrary; connected graphs on 4 areas with all "
             "dissimilarities and up to 2 attributes / thresholds arbitrary; disconnected ones on 4-5 areas "
             "and seven on 5-7 with 3-4 dissimilarities arbitrary; two (one on 6-7) consecutive "
             "arbitrary draws; 1-3 partitions grown"
             "; four maps of 11-20 areas with one arbitrary spatially extensive value and three dissimilarities",
    "thorough": "as quick with more orders, windows and free dissimilarities",
}
ASSUME = ["random draws outside the window follow a fixed policy",
          "real arithmetic instead of floating point",
          "spatially extensive attributes are not negative",
          "grown partitions are observed at MaxPRegionsHeu.grow_regions, the assigned ones at the "
          "local search"]
REACH = ["enclaves", "grown with a choice", "enclaves with a choice"]
