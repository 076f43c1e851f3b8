"""SKATER regions are contiguous, counted and no smaller than the quorum."""
import numpy as np

from .. import common as K
from .. import heur as H
from .. import skater as S

OPTIONS = dict(path_seconds=40, validate=2)


def cubes(tier, seed):
    T = tier == "thorough"
    out = []

    def add(**k):
        k["edges"] = H.norm(k["edges"])
        out.append(k)
    QS = (None, 1, 2, 3)
    for n in (1, 2, 3):
        for es in K.classes(n, False):
            es = K.shuffled(es, n, seed)
            c = H.ncomp(n, es)
            for p in list(range(1, n + 1)) + [np.inf]:
                for q in (None, 1, 2) if n > 1 else (None, 1):
                    for isl in ("increase", "ignore"):
                        if isl == "ignore" and (p < c or c == 1):
                            continue
                        add(n=n, edges=es, p=p, islands=isl, **({} if q is None else {"quorum": q}))
    for i, es in enumerate(K.classes(4, False)):
        es = K.shuffled(es, 4, seed)
        c = H.ncomp(4, es)
        for j, p in enumerate((1, 2, 3, np.inf)):
            q = QS[(i + j) % 4]
            isl = ("increase", "ignore", "Ignore", "INCREASE")[(i + 2 * j + j // 2) % 4]
            if isl.lower() == "ignore" and p < c:
                isl = "increase"
            add(n=4, edges=es, p=p, islands=isl, free=3 if not T else 6, fs=seed + i, mod=3 + 5 * (j % 2),
                transform="br"[(i + j) % 2], trace=bool(i % 2), k=1 + j % 2,
                **({} if q is None else {"quorum": q}))
        add(n=4, edges=es, p=max(c, 2 + i % 2), islands="ignore", nodata=True, quorum=1 + i % 2)
    big = [(5, K.path_graph(5)), (5, K.cycle(5)), (5, K.star(5)), (6, K.grid(2, 3)),
           (5, ((0, 3), (3, 1), (2, 4))), (6, ((0, 2), (2, 4), (0, 4), (1, 3), (3, 5))),
           (7, ((0, 1), (1, 2), (2, 3), (3, 4), (4, 5), (5, 6), (1, 5), (0, 3)))]
    for i, (n, es) in enumerate(big):
        for j, (p, q) in enumerate(((2, 2), (3, 1), (np.inf, 2), (4, 2), (2, 3))):
            if n == 7 and j == 1 and not T:
                continue
            add(n=n, edges=K.shuffled(es, n, seed + j), p=p, quorum=q, free=1 if not T else 3,
                fs=seed + i + j, mod=2 + 6 * (j % 2), islands=("increase", "ignore")[(i + j) % 2]
                if p >= H.ncomp(n, es) else "increase", k=1 + j % 2, steps=100000,
                transform="rb"[(i + j) % 2])
    out += S.large(tier, seed)
    return out


def harness(c, cube):
    m = S.Map(c, cube)
    n, q = m.n, m.quorum
    sf = m.forest()
    d0 = m.data.copy()
    small = any(m.comp.count(k) < q for k in set(m.comp))
    ok, res, ws = m.fit(sf, cube["p"], allow=(ValueError,) if small else ())
    if small:
        if m.ncomp > 1:
            c.check(not ok, "no ValueError although a component is smaller than the quorum")
            c.reach("rejected")
            return
        if not ok:
            return              # the whole map is smaller than the quorum
        q = -np.inf
    c.check(np.array_equal(m.data, d0), "the data passed in have been modified")
    lab = K.plain(sf.current_labels_, n)
    c.check(lab is not None, "the result does not label every area: %r" % (sf.current_labels_,))
    if lab is None:
        return
    c.check(K.contiguous(lab, m.adj), "a region is not contiguous: %s" % (lab,))
    c.check(all(len(b) >= q for b in K.blocks(lab)), "a region is below the quorum %s: %s" % (q, lab))
    fe = S.forest_edges(sf.minimum_spanning_forest_)
    c.check(K.canon(K.components(n, fe)) == K.canon(lab),
            "the forest %s does not span the regions %s" % (fe, lab))
    c.check(set(fe) <= set(m.edges), "the forest %s has an edge that joins no neighbours" % (fe,))
    k = len(set(lab))
    c.check(len(fe) == n - k, "the forest %s is not a forest of %d trees" % (fe, k))
    want = cube["p"]
    if m.ncomp > 1 and cube.get("islands", "increase").lower() != "ignore":
        want += m.ncomp
    short = [w for w in ws if "no valid moves" in str(w.message) or "subtrees" in str(w.message)]
    if k != want:
        c.check(k < want, "%d regions instead of %s: %s" % (k, want, lab))
        c.check(len(ws) > (1 if m.ncomp > 1 else 0), "%d regions instead of %s without a warning" % (k, want))
        adm = S.admissible(n, fe, m.quorum)
        c.check(not adm, "%d regions instead of %s although the forest %s could be cut at %s"
                % (k, want, fe, adm))
        c.reach("no further cut")
    else:
        c.check(not short, "warned of missing regions, but there are %d" % k)
        c.reach("all regions")
    if m.ncomp > 1:
        c.reach("islands")
    c.record(lab)


FUNCS = ["Spanning_Forest.fit", "Spanning_Forest.find_cut", "Spanning_Forest.make_cut",
         "Spanning_Forest.score"]
BOUNDS = {
    "quick": "every graph on 1-3 areas up to order with arbitrary dissimilarities, every graph on "
             "4 areas up to order with 3 arbitrary dissimilarities between areas, given graphs on "
             "5-7 areas with one (the others fixed, ties included); dissimilarities to the centers "
             "of regions always arbitrary; 1-4 or infinitely many clusters, no quorum or 1-3, both "
             "treatments of islands, binary and row-standardised weights, with and without data"
             "; given maps of 11-20 areas (connected and not) with up to 20 regions, 1 arbitrary dissimilarity between areas and up to 8 to centers, the others fixed and different",
    "thorough": "as quick with all (4 areas) and 3 (5-7 areas) dissimilarities between areas "
                "arbitrary",
}
ASSUME = ["minimum_spanning_tree returns any minimum spanning forest",
          "a connected map has at least quorum areas; with islands='ignore' at least as many "
          "clusters are requested as the map has components",
          "real arithmetic instead of floating point"]
REACH = ["no further cut", "all regions", "islands", "rejected"]
