"""SKATER cuts a minimum spanning forest greedily by score."""
import itertools

import numpy as np

from .. import common as K
from .. import engine
from .. import heur as H
from .. import skater as S

OPTIONS = dict(path_seconds=40, validate=2)


def forests(n):
    """One forest per isomorphism class, on n nodes, with an edge."""
    return [es for es in K.classes(n, False) if es and len(es) == n - H.ncomp(n, es)]


def cubes(tier, seed):
    T = tier == "thorough"
    out = []

    def add(**k):
        if "edges" in k:
            k["edges"] = H.norm(k["edges"])
        out.append(k)
    # the forest a fit starts from, and its sequence of cuts
    for n in (2, 3):
        for es in K.classes(n, False):
            for tr in "br":
                if es:
                    add(kind="fit", n=n, edges=K.shuffled(es, n, seed), transform=tr, cuts=2)
    for i, es in enumerate(K.classes(4, False)):
        if es:
            add(kind="fit", n=4, edges=K.shuffled(es, 4, seed), transform="br"[i % 2], cuts=0)
            add(kind="fit", n=4, edges=K.shuffled(es, 4, seed), transform="rb"[i % 2], cuts=2,
                free=2 if not T else 4, fs=seed + i, quorum=1 + i % 2, k=1 + i % 2, mod=5)
    big = [(5, K.path_graph(5)), (5, K.cycle(5)), (6, K.grid(2, 3)), (6, K.path_graph(6)),
           (5, ((0, 3), (3, 1), (2, 4)))]
    for i, (n, es) in enumerate(big):
        add(kind="fit", n=n, edges=K.shuffled(es, n, seed), transform="rb"[i % 2], cuts=0,
            free=5 if n == 5 else 4, fs=seed + i, mod=6)
        add(kind="fit", n=n, edges=K.shuffled(es, n, seed), transform="rb"[i % 2], cuts=2,
            free=0, fs=seed + i, quorum=1 + i % 2, mod=9)
    # the best cut of a given forest
    for n in (2, 3, 4, 5):
        for i, es in enumerate(forests(n)):
            for j, (red, cen) in enumerate((("sum", "mean"), ("mean", "mean"), ("max", "mean"),
                                            ("sum", "median"), ("min", "max"))):
                if n == 5 and (i + j) % 3 and not T:
                    continue
                q = (None, 1, 2)[(i + j + n) % 3]
                add(kind="cut", n=n, edges=K.shuffled(es, n, seed + i), red=red, cen=cen,
                    k=1 + (i + j) % 2, make=bool((i + j) % 2), **({} if q is None else {"quorum": q}))
            add(kind="target", n=n, edges=K.shuffled(es, n, seed + i))
    # the score of given labels
    for n in (1, 2, 3, 4):
        for j, (red, cen) in enumerate(itertools.product(("sum", "mean", "max", "min"),
                                                         ("mean", "median", "max"))):
            if j % 3 == n % 3 or T or n == 3:
                add(kind="score", n=n, red=red, cen=cen, k=1 + j % 2, style=j % 3,
                    **({"quorum": 1 + j % 3} if j % 2 else {}))
        add(kind="affinity", n=n)
        add(kind="values", n=n, k=1 + n % 2)
    # more than ten areas
    for i, d in enumerate(S.large(tier, seed, start=1)):
        add(**dict(d, kind="fit", cuts=1 + 4 * (d["n"] == 11 and d["p"] > 5)))
        f = []
        comp = list(range(d["n"]))
        for u, v in d["edges"]:             # a forest of the map
            if comp[u] != comp[v]:
                comp = [comp[u] if x == comp[v] else x for x in comp]
                f.append((u, v))
        red, cen = (("sum", "mean"), ("mean", "mean"), ("max", "mean"), ("sum", "median"),
                    ("min", "max"))[i % 5]
        add(**dict(d, kind="cut", edges=tuple(f), red=red, cen=cen, make=bool(i % 2)))
    return out


def harness(c, cube):
    globals()[cube["kind"]](c, cube)


# ----------------------------------------------------------------------- fit
def fit(c, cube):
    m = S.Map(c, cube)
    n = m.n
    prev = None
    for step in range(cube["cuts"] + 1):
        p = m.ncomp + step
        cube["islands"] = "ignore"
        sf = m.forest()
        small = any(m.comp.count(k) < m.quorum for k in set(m.comp))
        ok, res, ws = m.fit(sf, p, allow=(ValueError,) if small else ())
        if not ok or small:
            return
        msf = sf.minimum_spanning_forest_
        fe = S.forest_edges(msf)
        lab = K.components(n, fe)
        if step == 0:
            check_minimal(c, m, fe)
        else:
            gone = set(prev) - set(fe)
            adm = S.admissible(n, prev, m.quorum)
            if len(gone) != 1 or not set(fe) <= set(prev):
                if not adm:
                    c.check(not gone, "edges %s were cut although no cut keeps the quorum" % (gone,))
                    return
                c.check(False, "a further region was made by cutting %s from %s" % (gone, prev))
                return
            e = gone.pop()
            c.check(e in adm, "the cut of %s from %s leaves a region below the quorum" % (e, prev))
            mine = S.score(c, m.metric, m.data, lab, m.quorum)
            for f in adm:
                if f != e:
                    c.check(c.le(mine, S.score(c, m.metric, m.data, S.cut(n, prev, f), m.quorum)),
                            "the cut of %s from %s scores worse than that of %s" % (e, prev, f))
                    c.reach("greedy")
        prev = fe
    if not c.notes.get("tie"):
        c.record(prev)


def check_minimal(c, m, fe):
    """No spanning forest of the map has a smaller total: the cycle property."""
    n = m.n
    c.check(K.canon(K.components(n, fe)) == K.canon(m.comp) and len(fe) == n - m.ncomp and
            set(fe) <= set(m.edges),
            "the forest %s a fit starts from does not span the components" % (fe,))
    from ..symgraph import _path
    for e in m.edges:
        if e in fe:
            continue
        for f in _path(fe, *e) or []:
            c.check(c.le(m.metric.d(*f), m.metric.d(*e)),
                    "the forest %s would be lighter with %s instead of %s" % (fe, e, f))
            c.reach("minimal")


# ----------------------------------------------------------------------- cut
def forest_matrix(n, edges):
    from scipy.sparse import csr_matrix
    a = np.zeros((n, n))
    for q, (i, j) in enumerate(edges):
        a[(i, j) if q % 2 else (j, i)] = 1.0 + q
    return csr_matrix(a)


def cut(c, cube):
    m = S.Map(c, cube)
    n, q = m.n, m.quorum
    red, cen = cube["red"], cube["cen"]
    sf = m.forest(reduction=S.REDUCE[red], center=S.CENTER[cen])
    msf = forest_matrix(n, m.edges)
    kw = {"quorum": q} if "quorum" in cube else {}
    start = [len(b) >= q for b in K.blocks(m.comp)]
    adm = S.admissible(n, m.edges, q)
    ok, res = K.guarded(c, lambda: sf.find_cut(msf, m.data, **kw), "find_cut")
    if not ok:
        return
    c.check(S.forest_edges(msf) == sorted(m.edges), "find_cut changed the forest")
    u, v, sc = res
    if not adm:
        c.check(not _finite(sc), "find_cut proposes the cut %s, which leaves a region below "
                "the quorum" % ((u, v),))
        c.reach("no cut")
        return
    c.check(_finite(sc), "find_cut finds no cut of %s although %s can be cut" % (m.edges, adm))
    if not _finite(sc):
        return
    e = (min(int(u), int(v)), max(int(u), int(v)))
    c.check(e in m.edges, "find_cut proposes %s, which is no edge" % (e,))
    c.check(e in adm, "find_cut proposes the cut %s, which leaves a region below the quorum" % (e,))
    sc = engine.SymNum.lift(sc) if c.symbolic else float(sc)
    for f in adm:
        s = S.score(c, m.metric, m.data, S.cut(n, m.edges, f), q, red, cen)
        if f == e:
            c.check(c.eq(sc, s), "the score of the cut %s" % (e,))
        else:
            c.check(c.le(sc, s), "the cut %s of %s scores worse than %s" % (e, m.edges, f))
            c.reach("best cut")
    if cube["make"]:
        msf2 = forest_matrix(n, m.edges)
        ok, res = K.guarded(c, lambda: sf.find_cut(msf2, m.data, make=True, **kw), "find_cut")
        if ok:
            fe = S.forest_edges(res[0])
            want = S.score(c, m.metric, m.data, S.cut(n, m.edges, e), q, red, cen)
            gone = set(m.edges) - set(fe)
            c.check(len(gone) == 1 and set(fe) <= set(m.edges), "make=True cut %s" % (gone,))
            got = S.score(c, m.metric, m.data, K.components(n, fe), q, red, cen)
            c.check(got is not None and c.le(got, want), "make=True did not make the best cut")
            c.check(int(res[1]) == m.ncomp + 1, "%s subtrees after a cut of %d" % (res[1], m.ncomp))
            c.check(K.canon(np.asarray(res[2]).tolist()) == K.canon(K.components(n, fe)),
                    "the labels after a cut are not the trees")
            c.reach("made")
    c.record(e)


def target(c, cube):
    """A cut restricted to one region."""
    m = S.Map(c, cube)
    n = m.n
    lab = np.array(m.comp)
    t = c.choose(m.ncomp, "target")
    inside = [e for e in m.edges if m.comp[e[0]] == t]
    sf = m.forest()
    msf = forest_matrix(n, m.edges)
    ok, res = K.guarded(c, lambda: sf.find_cut(msf, m.data, labels=lab, target_label=t), "find_cut")
    if not ok:
        return
    u, v, sc = res
    if not inside:
        c.check(not _finite(sc), "a cut outside the target region is proposed")
        return
    e = (min(int(u), int(v)), max(int(u), int(v))) if _finite(sc) else None
    c.check(e in inside, "the cut %s is not inside the target region %s" % (e, inside))
    mine = S.score(c, m.metric, m.data, S.cut(n, m.edges, e), -np.inf)
    for f in inside:
        c.check(c.le(mine, S.score(c, m.metric, m.data, S.cut(n, m.edges, f), -np.inf)),
                "the cut %s scores worse than %s" % (e, f))
    for kw in ({"labels": lab}, {"target_label": t}):
        ok, res = K.guarded(c, lambda: sf.find_cut(msf, m.data, **kw), "find_cut",
                            allow=(ValueError,))
        c.check(not ok, "only one of labels and target_label is accepted")
    c.reach("target")
    c.record(e)


def _finite(x):
    return isinstance(x, engine.SymNum) or bool(np.isfinite(float(x)))


# --------------------------------------------------------------------- score
def score(c, cube):
    n = cube["n"]
    data = S.rows(n, cube["k"])
    metric = K.Metric(c, data)
    metric.lift = True
    parts = K.partitions(n)
    part = parts[c.choose(len(parts), "partition")]
    labels = H.relabelled(part, cube["style"])
    from region.skater.skater import Spanning_Forest
    sf = Spanning_Forest(dissimilarity=metric, reduction=S.REDUCE[cube["red"]],
                         center=S.CENTER[cube["cen"]])
    q = cube.get("quorum", -np.inf)
    kw = {"quorum": q} if "quorum" in cube else {}
    stored = cube["style"] == 1
    if stored:
        sf.current_labels_ = labels
    else:
        kw["labels"] = labels
    l0, d0 = labels.copy(), data.copy()
    ok, got = K.guarded(c, lambda: sf.score(data, **kw), "score")
    if not ok:
        return
    c.check(np.array_equal(labels, l0) and np.array_equal(data, d0), "score modified its arguments")
    want = S.score(c, metric, data, part, q, cube["red"], cube["cen"])
    if want is None:
        c.check(not _finite(got) and float(got) > 0,
                "the score of %s with a quorum of %s is %r instead of infinite" % (part, q, got))
        c.reach("below quorum")
        return
    c.check(_finite(got), "the score of %s with quorum %s is infinite" % (part, q))
    if _finite(got):
        c.check(c.eq(got, want), "the score of %s is not the reduction of the reduced "
                "dissimilarities to the centers" % (part,))
    c.reach("score")
    c.record(part)


def affinity(c, cube):
    """An affinity is turned into a dissimilarity by -log."""
    n = cube["n"]
    data = S.rows(n)
    aff = K.Metric(c, data, positive=True, prefix="A", unit=True)
    aff.lift = True
    aff_d = aff._d

    def _d(a, b):
        v = aff_d(a, b)
        if a == b:
            return engine.SymNum.const(1) if c.symbolic else 1.0
        if a > b:
            a, b = b, a
        c.assume(v <= 1)
        return v
    aff._d = _d
    from region.skater.skater import Spanning_Forest
    sf = Spanning_Forest(affinity=aff)
    for name, kern in (("kernel", lambda: sf.metric(data)),
                       ("cross kernel", lambda: sf.metric(data, data[:1]))):
        ok, k = K.guarded(c, kern, name)
        if not ok:
            return
        k = np.asarray(k)
        a = np.asarray(aff(data) if name == "kernel" else aff(data, data[:1]))
        c.check(k.shape == a.shape, "the shape of the dissimilarities is %s" % (k.shape,))
        for x, y in zip(k.reshape(-1).tolist(), a.reshape(-1).tolist()):
            w = -y.log() if isinstance(y, engine.SymNum) else -float(np.log(y))
            c.check(c.eq(x, w), "the dissimilarity is not the negative logarithm of the affinity")
    c.reach("affinity")


def values(c, cube):
    """The default dissimilarity on arbitrary data: the Manhattan distances to
    the means, summed."""
    n, k = cube["n"], cube["k"]
    X = [[c.real("x[%d,%d]" % (i, j), group="scaleX") for j in range(k)] for i in range(n)]
    data = K.array2d(c, X)
    parts = K.partitions(n)
    part = parts[c.choose(len(parts), "partition")]
    from region.skater.skater import Spanning_Forest
    sf = Spanning_Forest()
    ok, got = K.guarded(c, lambda: sf.score(data, labels=np.array(part)), "score")
    if not ok:
        return
    tot = engine.SymNum.const(0) if c.symbolic else 0.0
    for b in K.blocks(part):
        for j in range(k):
            s = X[b[0]][j]
            for i in b[1:]:
                s = s + X[i][j]
            for i in b:
                tot = tot + abs(X[i][j] - s / len(b))
    c.check(c.eq(got, tot), "the score of %s is not the sum of the absolute deviations from the "
            "regions' means" % (part,))
    c.reach("manhattan")


FUNCS = ["Spanning_Forest.fit", "Spanning_Forest.find_cut", "Spanning_Forest.make_cut",
         "Spanning_Forest.score", "Spanning_Forest.__init__"]
BOUNDS = {
    "quick": "the first forest: every graph on 2-4 areas up to order with arbitrary "
             "dissimilarities, five on 5-6 areas with 4-5 arbitrary ones, binary and "
             "row-standardised weights; sequences of two cuts on the same graphs with 2 (4 areas) "
             "or no (5-6) arbitrary dissimilarities between areas and arbitrary ones to all "
             "centers; single cuts of every forest on 2-5 nodes with arbitrary dissimilarities, "
             "five reductions/centers, quorum none, 1, 2; scores of all partitions of 1-4 areas, "
             "12 reductions/centers, and of arbitrary data under the default dissimilarity"
             "; given maps of 11-20 areas (connected and not) with up to 20 regions, 1 arbitrary dissimilarity between areas and up to 8 to centers, the others fixed and different",
    "thorough": "as quick with all reductions/centers on 5 nodes and 4 arbitrary dissimilarities",
}
ASSUME = ["minimum_spanning_tree returns any minimum spanning forest",
          "real arithmetic instead of floating point; the logarithm is a monotone function"]
REACH = ["minimal", "greedy", "best cut", "no cut", "made", "target", "score", "below quorum",
         "affinity", "manhattan"]
