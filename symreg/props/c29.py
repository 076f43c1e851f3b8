"""SKATER divides one region at a time and records it."""
import numpy as np

from .. import common as K
from .. import engine
from .. import heur as H
from .. import skater as S

OPTIONS = dict(path_seconds=40, validate=2)
WAYS = (("sum", "mean"), ("mean", "mean"), ("max", "mean"), ("sum", "median"), ("min", "max"))


def cubes(tier, seed):
    T = tier == "thorough"
    out = []

    def add(kind, **k):
        k["edges"] = H.norm(k["edges"])
        k["kind"] = kind
        out.append(k)
    for n in (1, 2, 3):
        for i, es in enumerate(K.classes(n, False)):
            for j, (red, cen) in enumerate(WAYS):
                add("trace", n=n, edges=K.shuffled(es, n, seed + j), red=red, cen=cen, p=1 + j % 3,
                    k=1 + j % 2, islands=("ignore", "increase")[(i + j) % 2],
                    **({"quorum": 1 + j % 2} if (i + j) % 3 else {}))
    for i, es in enumerate(K.classes(4, False)):
        for j, (red, cen) in enumerate(WAYS if T else WAYS[i % 2::2]):
            add("trace", n=4, edges=K.shuffled(es, 4, seed + j), red=red, cen=cen, p=2 + (i + j) % 2,
                k=1 + j % 2, islands=("ignore", "increase")[j % 2], free=2 if not T else 3,
                fs=seed + i, mod=5, **({"quorum": 1 + j % 2} if (i + j) % 2 else {}))
    big = [(5, K.path_graph(5)), (5, K.cycle(5)), (6, K.grid(2, 3)), (6, K.path_graph(6)),
           (5, ((0, 3), (3, 1), (2, 4))), (7, ((0, 1), (1, 2), (2, 0), (2, 3), (3, 4), (4, 5), (5, 6)))]
    for i, (n, es) in enumerate(big):
        for q in range(2 if not T else 4):
            red, cen = WAYS[(0, 1, 3)[(i + q) % 3]]
            add("trace", n=n, edges=K.shuffled(es, n, seed + q), red=red, cen=cen,
                p=3 if n < 7 or T else 2, free=q, fs=seed + i, mod=9, islands="ignore", **({"quorum": 2} if q else {}))
    for n in (2, 3, 4):
        for i, es in enumerate(K.classes(n, False)):
            if es:
                add("cuts", n=n, edges=K.shuffled(es, n, seed), free=1, fs=seed + i, mod=5,
                    islands="ignore", quorum=1 + i % 2)
    for n, es in ((3, ()), (3, ((0, 1),)), (4, ((0, 1), (2, 3)))):
        add("cuts", n=n, edges=es, free=1, fs=seed, mod=5, islands="ignore", quorum=1)
    for i, d in enumerate(S.large(tier, seed, start=2)):    # more than ten areas
        red, cen = WAYS[i % 5]
        d["p"] -= H.ncomp(d["n"], d["edges"]) - 1
        if d["p"] > 0:
            add("trace", **dict(d, red=red, cen=cen))
    return out


def harness(c, cube):
    globals()[cube["kind"]](c, cube)


def labels_of(x, n):
    return K.plain(x, n)


def trace(c, cube):
    m = S.Map(c, cube)
    n = m.n
    red, cen = cube["red"], cube["cen"]
    q = cube.get("quorum", -np.inf)
    if any(m.comp.count(k) < q for k in set(m.comp)):
        return
    p = cube["p"] if cube["islands"] == "increase" else m.ncomp + cube["p"] - 1
    sf = m.forest(reduction=S.REDUCE[red], center=S.CENTER[cen])
    cube = m.cube = dict(cube, trace=True)
    for again in (False, True):
        ok, res, ws = m.fit(sf, p)
        if not ok:
            return
        steps = getattr(sf, "_trace", None)
        if steps is None:
            c.reach("not observable")
            return
        check_trace(c, m, sf, steps, q, red, cen)
        if n > 3 or cube.get("quorum") == 1:
            break
    if not c.notes.get("tie"):
        c.record(K.canon(labels_of(sf.current_labels_, n)))


def check_trace(c, m, sf, steps, q, red, cen):
    n = m.n
    final = labels_of(sf.current_labels_, n)
    labs = [labels_of(x[0], n) for x in steps]
    c.check(final is not None and all(x is not None for x in labs),
            "the trace does not label every area: %r" % (labs,))
    if final is None or any(x is None for x in labs):
        return
    c.check(K.canon(labs[0]) == K.canon(m.comp), "the trace begins with %s, not with the connected "
            "components" % (labs[0],))
    s0 = steps[0][1].score
    c.check(not finite(s0) and float(s0) > 0, "the first score of the trace is %r" % (s0,))
    c.check(K.canon(labs[-1]) == K.canon(final), "the trace ends with %s, but the result is %s"
            % (labs[-1], final))
    c.check(len(labs) == len(set(final)) - m.ncomp + 1, "%d labelings are traced on the way to %d "
            "regions" % (len(labs), len(set(final))))
    for k in range(1, len(labs)):
        a, b = labs[k - 1], labs[k]
        c.check(len(set(b)) == len(set(a)) + 1 and len(set(zip(a, b))) == len(set(b)),
                "from %s to %s not exactly one region is divided" % (a, b))
        c.check(K.contiguous(b, m.adj), "a region of the traced %s is not contiguous" % (b,))
        d = steps[k][1]
        u, v = int(d.in_node), int(d.out_node)
        c.check(v in m.adj[u] and a[u] == a[v] and b[u] != b[v],
                "the traced cut %s does not lead from %s to %s" % ((u, v), a, b))
        want = S.score(c, m.metric, m.data, b, q, red, cen)
        c.check(want is not None and finite(d.score), "a cut that leaves a region below the quorum, "
                "or an infinite score, is traced: %s" % (b,))
        if want is not None and finite(d.score):
            c.check(c.eq(lift(c, d.score), want), "the traced score of %s is not its score" % (b,))
        c.reach("divided")
    if len(labs) > 2:
        c.reach("several cuts")
    ok, got = K.guarded(c, lambda: sf.score(m.data), "score")
    if ok:
        want = S.score(c, m.metric, m.data, final, -np.inf, red, cen)
        c.check(finite(got), "the score of the result is infinite")
        if finite(got):
            c.check(c.eq(lift(c, got), want), "score(data) is not the score of the result")


def lift(c, x):
    return engine.SymNum.lift(x) if c.symbolic else float(x)


def finite(x):
    return isinstance(x, engine.SymNum) or bool(np.isfinite(float(x)))


def cuts(c, cube):
    """make_cut on the forest of a fit."""
    from scipy.optimize import OptimizeWarning
    m = S.Map(c, cube)
    n = m.n
    q = m.quorum
    if any(m.comp.count(k) < q for k in set(m.comp)):
        return
    sf = m.forest()
    ok, res, ws = m.fit(sf, m.ncomp)
    if not ok:
        return
    fe = S.forest_edges(sf.minimum_spanning_forest_)
    # no cut with an infinite score
    e = fe[c.choose(len(fe), "edge")] if fe else (0, 0)
    for how in ("own", "given"):
        kw = {} if how == "own" else {"MSF": sf.minimum_spanning_forest_}
        ok, res = K.guarded(c, lambda: sf.make_cut(e[0], e[1], np.inf, **kw), "make_cut",
                            allow=(OptimizeWarning,))
        c.check(not ok, "a cut with an infinite score was made")
        c.check(S.forest_edges(sf.minimum_spanning_forest_) == fe,
                "a cut with an infinite score changed the forest")
    adm = S.admissible(n, fe, q)
    if not adm:
        ok, res = K.guarded(c, lambda: sf.find_cut(sf.minimum_spanning_forest_, m.data, quorum=q,
                                                   make=True), "find_cut", allow=(OptimizeWarning,))
        c.check(not ok, "find_cut(make=True) made a cut although there is no admissible one")
        c.check(S.forest_edges(sf.minimum_spanning_forest_) == fe, "the forest has been changed")
        c.reach("refused")
    if not fe:
        return
    # the orientation in which the forest stores the edge
    msf = sf.minimum_spanning_forest_
    r, k = msf.nonzero()
    u, v = [(int(i), int(j)) for i, j in zip(r, k) if {int(i), int(j)} == set(e)][0]
    ok, res = K.guarded(c, lambda: sf.make_cut(u, v, 1.5), "make_cut")
    if not ok:
        return
    left = [f for f in fe if f != e]
    c.check(S.forest_edges(res[0]) == left and
            S.forest_edges(sf.minimum_spanning_forest_) == left,
            "cutting %s from the forest %s leaves %s" % (e, fe, S.forest_edges(res[0])))
    c.check(int(res[1]) == m.ncomp + 1, "%s subtrees after a cut of %d" % (res[1], m.ncomp))
    c.check(K.canon(np.asarray(res[2]).tolist()) == K.canon(K.components(n, left)),
            "the labels after a cut are not the trees")
    c.reach("made")


FUNCS = ["Spanning_Forest.fit", "Spanning_Forest.find_cut", "Spanning_Forest.make_cut",
         "Spanning_Forest.score"]
BOUNDS = {
    "quick": "every graph on 1-3 areas up to order with arbitrary dissimilarities, every graph on "
             "4 areas up to order with 2, six on 5-7 areas with up to 1 arbitrary dissimilarity "
             "between areas; dissimilarities to centers arbitrary; five reductions/centers, quorum "
             "none, 1, 2; two fits with the same object on up to 3 areas"
             "; given maps of 11-20 areas (connected and not) with up to 20 regions, 1 arbitrary dissimilarity between areas and up to 8 to centers, the others fixed and different",
    "thorough": "as quick with all reductions/centers and 3 arbitrary dissimilarities on 4 areas, "
                "up to 3 on 5-7",
}
ASSUME = ["minimum_spanning_tree returns any minimum spanning forest",
          "the trace is read from Spanning_Forest._trace",
          "real arithmetic instead of floating point"]
REACH = ["divided", "several cuts", "refused", "made"]
