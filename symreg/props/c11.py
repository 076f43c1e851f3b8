"""The feasibility checks accept exactly the feasible solutions; the adjacency
queries agree with the graph."""
import itertools

import numpy as np

from .. import common as K
from .. import heur as H
from . import c10

OPTIONS = dict(path_seconds=60, validate=2)


def cubes(tier, seed):
    T = tier == "thorough"
    out = []
    for n in range(1, 7 if not T else 8):
        for form in ("raise", "bool"):
            for style in range(6):
                if n > 4 and style != (1 if form == "raise" else 0) and not T:
                    continue
                if n > 5 and (style > 1 or n > 6):
                    continue
                out.append(dict(kind="feasible", n=n, form=form, style=style,
                                value=1.0 + style % 2))
    for n in range(1, 7 if not T else 8):
        out.append(dict(kind="connected", n=n))
        if n < 5:
            out.append(dict(kind="neighbors", n=n))
            if n > 1:
                out.append(dict(kind="stored", n=n))
            out.append(dict(kind="sub", n=n))
            out.append(dict(kind="separate", n=n))
    # larger maps, of which some neighbors may be missing
    for q, (n, es, ps) in enumerate(((9, K.grid(3, 3), (2, 4)), (12, K.grid(3, 4), (4, 11)),
                                     (11, K.path_graph(11), (3, 10)), (20, K.grid(4, 5), (6,)))):
        es = H.norm(K.shuffled(es, n, seed + q))
        some = tuple((p, seed + t) for p in ps for t in range(1 if not T else 3))
        for form in ("raise", "bool"):
            out.append(dict(kind="feasible", n=n, form=form, style=q, value=1.0, pairs=es, some=some))
        if n < 12:
            out.append(dict(kind="connected", n=n, pairs=es))
            out.append(dict(kind="separate", n=n, pairs=es[::2], sure=es[1::2]))
        out.append(dict(kind="neighbors", n=n, pairs=es))
        out.append(dict(kind="sub", n=n, pairs=es))
    return out


def harness(c, cube):
    n = cube["n"]
    if cube["kind"] == "stored":
        return h_stored(c, n)
    adj, present = K.unknown_graph(c, n, cube.get("value", 1.0), pairs=cube.get("pairs"),
                                   sure=cube.get("sure", ()))
    globals()["h_" + cube["kind"]](c, cube, n, adj, present)


def h_feasible(c, cube, n, adj, present):
    from region.util import assert_feasible, boolean_assert_feasible
    parts = K.some_partitions(dict(cube, graph=cube["pairs"]) if "pairs" in cube else cube)
    part = parts[c.choose(len(parts), "partition")]
    k = max(part) + 1
    asked = (None, k, k + 1, k - 1, n)[c.choose(5, "n_regions")]
    lab = c10.names_of(part, cube["style"])
    l0 = lab.copy()
    ok = c.both(*[K.connected_formula(c, b, present) for b in K.blocks(part)])
    good = c.both(ok, asked is None or asked == k)
    if cube["form"] == "raise":
        fine, res = K.guarded(c, lambda: assert_feasible(lab, adj, asked), "assert_feasible",
                              allow=ValueError)
        accepted = fine
    else:
        fine, res = K.guarded(c, lambda: boolean_assert_feasible(lab, adj, asked),
                              "boolean_assert_feasible", allow=ValueError)
        accepted = fine and bool(res)
        c.check(fine or (asked is not None and asked != k),
                "boolean_assert_feasible raised for the number of regions %s" % (asked,))
    c.check(good if accepted else c.neg(good), "labels %s with n_regions=%s %s" % (
        lab.tolist(), asked, "accepted" if accepted else "rejected"))
    c.check(np.array_equal(lab, l0), "the feasibility check modified the labels")
    c.reach("accepted" if accepted else "rejected")
    c.record(accepted)


def h_connected(c, cube, n, adj, present):
    from region.csgraph_utils import is_connected
    ok, res = K.guarded(c, lambda: is_connected(adj), "is_connected")
    if not ok:
        return
    want = K.connected_formula(c, range(n), present)
    c.check(want if bool(res) else c.neg(want), "is_connected yields %s" % bool(res))
    c.record(bool(res))


def h_neighbors(c, cube, n, adj, present):
    from region.csgraph_utils import neighbors
    a = c.choose(n, "area")
    ok, res = K.guarded(c, lambda: sorted(int(x) for x in neighbors(adj, a)), "neighbors")
    if not ok:
        return
    c.check(len(set(res)) == len(res), "neighbors yields an area twice")
    for j in range(n):
        p = present(a, j)
        c.check(p if j in res else c.neg(p), "neighbors(%d) = %s" % (a, res))
    c.record(res)


def h_stored(c, n):
    """A matrix that spells out zeros has no neighbors there."""
    from scipy.sparse import csr_matrix
    from region.csgraph_utils import neighbors
    a = c.choose(n, "area")
    data, indices, indptr, want = [], [], [0], []
    for i in range(n):
        for j in range(n):
            e = min(i, j), max(i, j)
            if i == j or (i != a and j != a):
                continue        # only the entries of the area matter
            if c.truth(c.bool("z%d_%d" % e)):
                one = c.truth(c.bool("e%d_%d" % e))
                data.append(1.0 if one else 0.0)
                indices.append(j)
                if one and i == a:
                    want.append(j)
        indptr.append(len(data))
    m = csr_matrix((data, indices, indptr), shape=(n, n))
    ok, res = K.guarded(c, lambda: sorted(int(x) for x in neighbors(m, a)), "neighbors")
    if ok:
        c.check(res == want, "neighbors(%d) = %s of a matrix with stored zeros, not %s"
                % (a, res, want))
        c.record(res)


def h_sub(c, cube, n, adj, present):
    from region.csgraph_utils import sub_adj_matrix
    if n < 9:
        sets = [s for k in range(1, n + 1) for s in itertools.permutations(range(n), k)]
    else:
        sets = [tuple(range(n)), tuple(range(n - 1, 1, -1)), tuple(range(1, n, 2)),
                (n - 1, 0, 2), (10, 2, n - 2, 1) if n > 10 else (3, 1)]
    nodes = sets[c.choose(len(sets), "nodes")]
    wo = [None, nodes[0], nodes[-1]]
    if len(nodes) > 2:
        wo.append(np.array([nodes[0], nodes[2]]))
    w = wo[c.choose(len(wo), "without")]
    gone = [] if w is None else np.atleast_1d(w).tolist()
    left = [x for x in nodes if x not in gone]
    arr = np.array(nodes)
    ok, res = K.guarded(c, lambda: sub_adj_matrix(adj, arr, wo_nodes=w), "sub_adj_matrix")
    if not ok:
        return
    c.check(arr.tolist() == list(nodes), "sub_adj_matrix modified the nodes")
    c.check(tuple(res.shape) == (len(left), len(left)),
            "sub_adj_matrix(%s, wo %s) has shape %s" % (nodes, gone, res.shape))
    for i, x in enumerate(left):
        for j, y in enumerate(left):
            got = res.present(i, j) if hasattr(res, "present") else bool(res[i, j])
            p = present(x, y)
            c.check(c.both(c.implies(p, got), c.implies(got, p)),
                    "sub_adj_matrix(%s, wo %s) differs at (%d, %d)" % (nodes, gone, x, y))
    c.record(left)


def h_separate(c, cube, n, adj, present):
    """separate_components: one array per component, the rest marked."""
    from region.util import separate_components
    lab = np.array([10 + i for i in range(n)])
    ok, res = K.guarded(c, lambda: [np.asarray(x).tolist() for x in
                                    separate_components(adj, lab)], "separate_components")
    if not ok:
        return
    c.check(lab.tolist() == [10 + i for i in range(n)], "separate_components modified the labels")
    where = {}
    for q, arr in enumerate(res):
        c.check(len(arr) == n, "separate_components yields %s" % (res,))
        for i, x in enumerate(arr):
            if x != -1:
                c.check(x == 10 + i and i not in where, "separate_components yields %s" % (res,))
                where[i] = q
    c.check(len(where) == n, "separate_components yields %s" % (res,))
    for i, j in K.all_edges(n):
        if where.get(i) != where.get(j):
            c.check(c.neg(present(i, j)), "separate_components tears neighbors apart: %s" % (res,))
    for q in set(where.values()):
        c.check(K.connected_formula(c, [i for i in where if where[i] == q], present),
                "separate_components yields a part that is not connected: %s" % (res,))
    c.record(sorted(map(tuple, res)))


FUNCS = ["assert_feasible", "boolean_assert_feasible", "is_connected", "neighbors",
         "sub_adj_matrix", "separate_components"]
BOUNDS = {
    "quick": "every graph on up to 6 areas (4 for neighbors, sub_adj_matrix and "
             "separate_components), one symbolic bit per pair of areas; every partition, six "
             "namings of the regions, n_regions None / right / one more / one less / number of "
             "areas; every ordered selection of nodes"
             "; some partitions of given graphs on 9-20 areas of which any edges may be missing",
    "thorough": "6-7 areas for the feasibility checks and is_connected",
}
ASSUME = ["scipy's indexing is modelled and its connected_components is the exact closure of the "
          "edge relation (validated against scipy)", "symmetric adjacency; stored zeros "
          "only for neighbors"]
REACH = ["accepted", "rejected"]
