"""Conversion helpers preserve the data."""
import copy
import functools

import numpy as np

from .. import common as K
from .. import heur as H
from .. import reps as R

OPTIONS = dict(path_seconds=60, validate=3)
SCALAR = 0
LIST = 1
TUPLE = 2
ARRAY = 3


def cubes(tier, seed):
    T = tier == "thorough"
    out = []

    def add(**k):
        out.append(k)
    N = (1, 2, 3, 4) if not T else (1, 2, 3, 4, 5)
    for n in N:
        for k in (1, 2) if n > 1 else (1, 2, 3):
            for box in (SCALAR, LIST, TUPLE, ARRAY):
                if box == SCALAR and k > 1:
                    continue
                for flat in (False, True):
                    add(kind="values", n=n, k=k, box=box, flat=flat, names="sym")
        add(kind="values", n=n, k=1, box=n % 4, flat=bool(n % 2), names="str")
        add(kind="values", n=n, k=1, box=(n + 1) % 4, flat=not n % 2, names="tuple")
        add(kind="integers", n=n)
    for n in (2, 3) if not T else (2, 3, 4):
        for m in (1, 2, 3, 4):
            for k in (0, 1, 2):
                for it in (False, True):
                    add(kind="subset", n=n, m=m, k=k, iterator=it)
    for n in (1, 2, 3):
        for box in ("list", "set", "tuple", "dict"):
            add(kind="neighbors", n=n, box=box, names="sym")
        add(kind="neighbors", n=n, box="list", names="str")
    add(kind="neighbors", n=4, box="list", names="sym", half=True)
    for n in (1, 2, 3):
        for k in (0, 1, 2, 3):
            for arr in (False, True):
                add(kind="graphattr", n=n, k=k, arr=arr, names="sym")
            add(kind="grapharray", n=n, k=k, names="sym", how="graph")
            add(kind="grapharray", n=n, k=k, names="str", how="either")
    for n in (2, 3):
        for k in (0, 1, 2):
            add(kind="graphdict", n=n, k=k, names="sym")
            add(kind="graphdict", n=n, k=k, names="str")
    for n in (1, 3):
        for k in (0, 1, 2, 3):
            add(kind="frame", n=n, k=k)
            add(kind="framedict", n=n, k=k)
    for n in (1, 2, 3, 4, 5) if not T else (1, 2, 3, 4, 5, 6):
        add(kind="regions", n=n)
    for n in (2, 3, 4):
        add(kind="sublist", n=n)
        add(kind="count", n=n)
        add(kind="equal", n=n)
        add(kind="move", n=n)
        add(kind="draw", n=n)
    for n in (1, 2, 3, 4) if not T else (1, 2, 3, 4, 5):
        add(kind="separate", n=n)
        add(kind="feasible", n=n)
    for sizes in ((1, 1), (2, 1), (1, 2), (2, 2), (3, 1), (1, 1, 1), (2, 1, 1), (1, 2, 2), (3,)):
        add(kind="distribute", sizes=sizes)
    for n in (2, 3, 4):
        add(kind="w", n=n)
    for cells in R.POLY:
        add(kind="contiguity", cells=cells)
    # more than ten areas
    for n in (11, 12, 20):
        for how in ("ints", "strs"):
            for k in (1, 2):
                add(kind="values", n=n, k=k, box=(n + k) % 4 if k == 1 else LIST, flat=bool(n % 2),
                    names=how)
                add(kind="grapharray", n=n, k=k, names=how, how=("graph", "either")[k - 1])
            add(kind="graphattr", n=n, k=2, arr=how == "ints", names=how)
            add(kind="graphdict", n=n, k=1 + n % 2, names=how, window=1)
            add(kind="neighbors", n=n, box=("list", "set", "tuple", "dict")[(n + len(how)) % 4],
                names=how, few=True)
        add(kind="frame", n=n, k=2)
        add(kind="framedict", n=n, k=2)
        add(kind="regions", n=n, some=((4, seed), (n, seed), (n - 1, seed)))
        add(kind="separate", n=n, few=True)
        add(kind="feasible", n=n, few=True,
            some=((1, seed), (3, seed), (n - 2, seed), (n, seed)))
        add(kind="draw", n=n)
        add(kind="w", n=n, few=True)
        add(kind="move", n=n)
        add(kind="count", n=n, few=True)
    add(kind="contiguity", cells=tuple((x % 4, x // 4) for x in range(12)))
    add(kind="contiguity", cells=tuple((x % 3, x // 3) for x in range(14) if x % 5))
    for sizes in ((5, 4, 2), (1,) * 12, (12,), (3, 1, 8)):
        add(kind="distribute", sizes=sizes, window=1)
    return out


@functools.total_ordering
class Key:
    """A name of unknown rank: comparisons ask the solver."""

    def __init__(self, v):
        self.v = v

    def __lt__(self, o):
        return bool(self.v < o.v)

    def __eq__(self, o):
        return self is o

    def __hash__(self):
        return id(self) >> 4

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self


def names(c, n, how):
    """n different names, in no particular order."""
    if how == "sym":
        v = [c.real("key%d" % i, group="key") for i in range(n)]
        for i in range(n):
            for j in range(i):
                c.assume(v[i] != v[j])
        return [Key(x) for x in v] if c.symbolic else v
    if how in ("ints", "strs"):
        ks = ["a%d" % i if how == "strs" else 3 * i - 4 for i in range(n)]
        return [ks[i] for i in R.order(n, 1 + c.choose(2, "names"), how)]
    ks = {"str": ["left", "mid", "Right", "10", "9"],
          "tuple": [(0, 1), (0,), (1, 0), (-1, 5), (0, 2)]}[how][:n]
    out = []
    while ks:
        out.append(ks.pop(c.choose(len(ks), "name")))
    return out


def ranked(ks):
    """Insertion sort, not the one the code uses."""
    out = []
    for k in ks:
        q = 0
        while q < len(out) and out[q] < k:
            q += 1
        out.insert(q, k)
    return out


def matrix(c, n, k, name="v"):
    return [[c.real("%s%d_%d" % (name, i, j)) for j in range(k)] for i in range(n)]


def wrap(c, row, box):
    if box == SCALAR:
        return row[0]
    if box == LIST:
        return list(row)
    if box == TUPLE:
        return tuple(row)
    return K.array2d(c, [row])[0]


def eq(c, got, want, what):
    """Arrays, whatever their type."""
    c.check(tuple(np.shape(got)) == tuple(np.shape(want)), "%s: shape %r instead of %r" % (
        what, np.shape(got), np.shape(want)))
    g, w = np.array(got, dtype=object).reshape(-1), np.array(want, dtype=object).reshape(-1)
    c.check(c.both(*[a == b for a, b in zip(g, w)]), "%s: other values" % what)


def same(c, d, snap, what):
    c.check(list(d) == list(snap), "%s: keys modified" % what)
    for k in d:
        a, b = d[k], snap[k]
        c.check(type(a) is type(b) and np.shape(a) == np.shape(b), "%s modified" % what)
        c.check(all(x is y or bool(x == y) for x, y in zip(np.ravel(a), np.ravel(b))),
                "%s: values modified" % what)


def dense(c, a, n):
    c.check(getattr(a, "format", None) == "csr" and a.shape == (n, n),
            "no csr matrix of areas x areas")
    return np.asarray(a.todense())


def snapshot(d):
    return {k: copy.copy(v) for k, v in d.items()}


def relation(c, cube, n, i, j):
    """Whether j is a neighbor of i; known for most pairs of many areas."""
    if cube.get("few") and (7 * i + j) % (n * n // 3):
        return R.h(n, i, j) % 4 == 0
    return bool(c.bool("b%d_%d" % (i, j)))


def some_graph(c, cube):
    n = cube["n"]
    if not cube.get("few"):
        return K.unknown_graph(c, n)
    es = H.norm(dict(H.LARGE[q] for q in ((0, 1, 3) if cube["kind"] == "separate" else
                                          (0, 2, 3)))[n])
    q = [3, len(es) // 2]
    adj, present = K.unknown_graph(c, n, pairs=[es[x] for x in q] + [(2, 9)] * ((2, 9) not in es),
                                   sure=[e for x, e in enumerate(es) if x not in q])
    known = {e: bool(present(*e)) for e in K.all_edges(n)}
    return adj, lambda i, j: known[min(i, j), max(i, j)]


def harness(c, cube):
    globals()["h_" + cube["kind"]](c, cube)
    c.reach(cube["kind"])
    c.record(True)


def h_values(c, cube):
    from region.util import array_from_dict_values
    n, k = cube["n"], cube["k"]
    ks, v = names(c, n, cube["names"]), matrix(c, n, k)
    d = {ks[i]: wrap(c, v[i], cube["box"]) for i in range(n)}
    snap = snapshot(d)
    got = K.guarded(c, lambda: array_from_dict_values(d, flat_output=cube["flat"]), "values")[1]
    want = [v[ks.index(x)] for x in ranked(ks)]
    want = np.array(want, dtype=object).reshape((n, k))
    eq(c, got, want.reshape(-1) if cube["flat"] else want, "array_from_dict_values")
    same(c, d, snap, "the dictionary")


def h_integers(c, cube):
    """The dtype that is asked for."""
    from region.util import array_from_dict_values
    n = cube["n"]
    ks = names(c, n, "sym")
    d = {ks[i]: [7, -3, 0, 2 ** 20, 5][i] for i in range(n)}
    dt = (np.int32, np.int64, np.float64)[c.choose(3, "dtype")]
    got = array_from_dict_values(d, flat_output=True, dtype=dt)
    c.check(isinstance(got, np.ndarray) and got.dtype == dt, "dtype")
    eq(c, got, [d[x] for x in ranked(ks)], "array_from_dict_values")


def h_subset(c, cube):
    """Keys that are asked for: any order, repeated, or not all of them."""
    from region.util import array_from_dict_values
    n, m, k = cube["n"], cube["m"], cube["k"]
    ks, v = names(c, n, "sym"), matrix(c, n, max(k, 1))
    d = {ks[i]: wrap(c, v[i], LIST if k else SCALAR) for i in range(n)}
    pick = [c.choose(n, "pick") for _ in range(m)]
    snap = snapshot(d)
    req = [ks[i] for i in pick]
    flat = c.flag("flat")
    got = K.guarded(c, lambda: array_from_dict_values(
        d, iter(req) if cube["iterator"] else req, flat_output=flat), "values")[1]
    want = np.array([v[i] for i in pick], dtype=object).reshape((m, max(k, 1)))
    eq(c, got, want.reshape(-1) if flat else want, "requested keys")
    same(c, d, snap, "the dictionary")
    c.check(req == [ks[i] for i in pick], "requested keys modified")


def h_neighbors(c, cube):
    """Any relation, symmetric or not."""
    from region.util import scipy_sparse_matrix_from_dict
    n = cube["n"]
    ks = names(c, n, cube["names"]) if not cube.get("half") else [3, 1, 4, 2]
    has = {}
    for i in range(n):
        for j in range(n):
            if i != j:
                has[i, j] = (has[j, i] if cube.get("half") and j < i else
                             relation(c, cube, n, i, j))
    box = {"list": list, "set": set, "tuple": tuple, "dict": dict.fromkeys}[cube["box"]]
    rev = c.flag("reverse")
    d = {ks[i]: box([ks[j] for j in (range(n)[::-1] if rev else range(n)) if has.get((i, j))])
         for i in range(n)}
    snap = snapshot(d)
    got = K.guarded(c, lambda: scipy_sparse_matrix_from_dict(d), "adjacency")[1]
    pos = {i: ranked(ks).index(ks[i]) for i in range(n)}
    a = dense(c, got, n)
    c.check(all(a[pos[i], pos[j]] == (1 if has.get((i, j)) else 0)
                for i in range(n) for j in range(n)), "other neighbors")
    c.check(got.nnz == sum(has.values()), "stored zeros")
    c.check(list(d) == list(snap) and all(d[x] == snap[x] for x in d), "neighbors modified")


def graph(c, cube, cols):
    """A path through the nodes in an arbitrary order."""
    import networkx as nx
    n = cube["n"]
    ks = names(c, n, cube["names"])
    g = nx.Graph()
    for i in range(n):
        g.add_node(ks[i], **{a: cols[a][i] for a in cols})
    for i in range(n - 1):
        g.add_edge(ks[i], ks[i + 1])
    return g, ks


def columns(c, cube):
    n, k = cube["n"], cube["k"]
    cols = {a: [c.real("%s%d" % (a, i)) for i in range(n)] for a in ("x", "y", "z")[:max(k, 1)]}
    sel = "x" if k == 0 else [list("x"), ["y", "x"], ("z", "x", "y", "x")][k - 1]
    return cols, sel


def untouched(c, g, ks, cols):
    c.check(list(g) == ks, "nodes modified")
    c.check(all(set(g.nodes[k]) == set(cols) and all(
        g.nodes[k][a] is cols[a][i] or bool(g.nodes[k][a] == cols[a][i]) for a in cols)
        for i, k in enumerate(ks)), "attributes of the nodes modified")
    c.check(g.number_of_edges() == len(ks) - 1, "edges modified")


def h_graphattr(c, cube):
    from region.util import dict_from_graph_attr
    cols, sel = columns(c, cube)
    g, ks = graph(c, cube, cols)
    copy_of = copy.copy(sel)
    got = K.guarded(c, lambda: dict_from_graph_attr(g, sel, array_values=cube["arr"]), "attr")[1]
    c.check(isinstance(got, dict) and set(got) == set(ks), "other nodes")
    for i, k in enumerate(ks):
        c.check(isinstance(got[k], np.ndarray if cube["arr"] else list), "type of the values")
        eq(c, got[k], [cols[a][i] for a in sel], "dict_from_graph_attr")
    untouched(c, g, ks, cols)
    c.check(sel == copy_of, "names modified")


def h_grapharray(c, cube):
    from region.util import array_from_graph, array_from_graph_or_dict
    cols, sel = columns(c, cube)
    g, ks = graph(c, cube, cols)
    f = array_from_graph if cube["how"] == "graph" else array_from_graph_or_dict
    got = K.guarded(c, lambda: f(g, sel), "attr")[1]
    eq(c, got, [[cols[a][ks.index(k)] for a in sel] for k in ranked(ks)], f.__name__)
    untouched(c, g, ks, cols)


def h_graphdict(c, cube):
    """Attributes given as a dictionary, in its own order, perhaps for more areas."""
    from region.util import array_from_graph, array_from_graph_or_dict, dict_from_graph_attr
    g, ks = graph(c, cube, {})
    n, k = cube["n"], cube["k"]
    v = matrix(c, n, max(k, 1))
    at = list(range(n))
    d = {}
    if cube.get("window"):
        at = R.order(n, 1 + c.choose(2, "order"), "d")
    while at:
        i = at.pop(0 if cube.get("window") else c.choose(len(at), "order"))
        d[ks[i]] = wrap(c, v[i], LIST if k else SCALAR)
    snap = snapshot(d)
    f = (array_from_graph, array_from_graph_or_dict)[c.choose(2, "f")]
    got = K.guarded(c, lambda: f(g, d), "attr")[1]
    eq(c, got, [v[ks.index(x)] for x in ranked(ks)], "dictionary")
    got = dict_from_graph_attr(g, d)
    c.check(got == d, "dict_from_graph_attr of a dictionary")
    same(c, d, snap, "the dictionary")
    untouched(c, g, ks, {})


def frame(c, cube):
    import pandas as pd
    cols, sel = columns(c, cube)
    n = cube["n"]
    idx = ([5, 1, 3, 2] + list(range(30, 10, -1)), ["b", "a", "d", "c"] + ["r%d" % i for i in range(20)],
           list(range(n)))
    idx = [x[:n] for x in idx][c.choose(3, "index")]
    df = pd.DataFrame({a: np.array(cols[a] + [None], dtype=object)[:-1] for a in cols}, index=idx)
    if isinstance(sel, tuple):
        sel = list(sel)
    return df, cols, sel, idx


def frame_same(c, df, cols, idx):
    c.check(list(df.index) == idx and list(df.columns) == list(cols), "frame modified")
    c.check(all(bool(df[a].iloc[i] == cols[a][i]) for a in cols for i in range(len(idx))),
            "values of the frame modified")


def h_frame(c, cube):
    from region.util import array_from_df_col
    df, cols, sel, idx = frame(c, cube)
    s = tuple(sel) if False else sel
    got = K.guarded(c, lambda: array_from_df_col(df, s), "columns")[1]
    eq(c, got, [[cols[a][i] for a in sel] for i in range(cube["n"])], "array_from_df_col")
    frame_same(c, df, cols, idx)


def h_framedict(c, cube):
    from region.util import dataframe_to_dict
    df, cols, sel, idx = frame(c, cube)
    got = K.guarded(c, lambda: dataframe_to_dict(df, sel), "columns")[1]
    c.check(isinstance(got, dict) and list(got) == idx, "other keys")
    for i, k in enumerate(idx):
        eq(c, got[k], cols["x"][i] if isinstance(sel, str) else [cols[a][i] for a in sel],
           "dataframe_to_dict")
    frame_same(c, df, cols, idx)


def h_regions(c, cube):
    """Lists of regions, each of any iterable type."""
    from region.util import array_from_region_list
    n = cube["n"]
    parts = K.some_partitions(cube)
    part = parts[c.choose(len(parts), "partition")]
    bl = K.blocks(part)
    if c.flag("reverse"):
        bl = [b[::-1] for b in bl[::-1]]
    box = (list, set, tuple, frozenset)[c.choose(4, "box")]
    lst = [box(b) for b in bl]
    snap = copy.deepcopy(lst)
    got = K.guarded(c, lambda: array_from_region_list(lst), "regions")[1]
    eq(c, got, [[i in b for b in bl].index(True) for i in range(n)], "array_from_region_list")
    c.check(lst == snap, "regions modified")


def h_sublist(c, cube):
    """The first list that holds an element, whatever they hold."""
    from region.util import find_sublist_containing
    n = cube["n"]
    v = [c.real("v%d" % i) for i in range(n)]
    el = c.real("el")
    cut = c.choose(n + 1, "cut")
    lst = [v[:cut], v[cut:]] if c.flag("two") else [v[:cut], [], v[cut:]]
    index = c.flag("index")
    ok, got = K.guarded(c, lambda: find_sublist_containing(el, lst, index=index), "sublist",
                        (LookupError,))
    inside = [c.either(*[el == x for x in s]) for s in lst]
    if not ok:
        c.check(c.neg(c.either(*inside)), "not found although it is there")
        c.reach("lookup error")
        return
    q = got if index else ([s is got for s in lst] + [True]).index(True)
    c.check(isinstance(q, int) and 0 <= q < len(lst), "neither an index nor a sublist")
    c.check(inside[q], "found where it is not")
    c.check(c.neg(c.either(*inside[:q])), "not the first one")


def h_count(c, cube):
    from region.util import count
    n = cube["n"]
    v = [c.real("v%d" % i) if i < 4 else c.real("v%d" % (i % 3)) for i in range(n)]
    el = c.real("el")
    arr = K.array2d(c, [v])[0]
    got = K.guarded(c, lambda: count(arr, el), "count")[1]
    c.check(isinstance(got, (int, np.integer)), "no integer")
    hit = [bool(x == el) for x in v]
    c.check(got == sum(hit), "count %r" % (got,))
    c.check(all(bool(a == b) for a, b in zip(arr, v)), "array modified")


def h_equal(c, cube):
    from region.util import all_elements_equal
    v = [c.real("v%d" % i) for i in range(cube["n"])]
    got = bool(K.guarded(c, lambda: all_elements_equal(K.array2d(c, [v])[0]), "equal")[1])
    same_ = c.both(*[x == v[0] for x in v[1:]])
    c.check(same_ if got else c.neg(same_), "all_elements_equal is %s" % got)


def h_move(c, cube):
    from region.util import make_move
    n = cube["n"]
    v = [c.real("v%d" % i) for i in range(n)]
    arr = K.array2d(c, [v])[0]
    new, who = c.real("new"), c.choose(n, "area")
    got = make_move(who, new, arr)
    c.check(got is None, "a return value")
    eq(c, arr, [new if i == who else v[i] for i in range(n)], "make_move")


def h_draw(c, cube):
    from region.util import pop_randomly_from, random_element_from
    n = cube["n"]
    lst = [object() for _ in range(n)]
    before = list(lst)
    if c.flag("pop"):
        got = K.guarded(c, lambda: pop_randomly_from(lst), "pop")[1]
        c.check(lst == [x for x in before if x is not got] and got in before, "other elements popped")
    else:
        got = K.guarded(c, lambda: random_element_from(lst), "element")[1]
        c.check(lst == before and got in before, "no element, or the list is modified")


def h_separate(c, cube):
    """Labels of one island at a time, on any map."""
    from region.util import separate_components
    n = cube["n"]
    adj, present = some_graph(c, cube)
    lab = np.array([(3 * i + 1) % 4 for i in range(n)])
    l0 = lab.copy()
    got = K.guarded(c, lambda: list(separate_components(adj, lab)), "separate")[1]
    comps = []
    for arr in got:
        c.check(np.shape(arr) == (n,), "shape")
        inside = [i for i in range(n) if arr[i] != -1]
        c.check(all(arr[i] == lab[i] for i in inside), "other labels")
        c.check(K.connected_formula(c, inside, present) if inside else False, "no island")
        comps.append(inside)
    c.check(sorted(i for b in comps for i in b) == list(range(n)), "areas lost or repeated")
    c.check(c.neg(c.either(*[present(i, j) for p, a in enumerate(comps) for b in comps[:p]
                           for i in a for j in b] or [False])), "islands are connected")
    c.check(np.array_equal(lab, l0), "labels modified")


def h_feasible(c, cube):
    """Both checks of contiguity, on any map."""
    from region.util import assert_feasible, boolean_assert_feasible
    n = cube["n"]
    adj, present = some_graph(c, cube)
    parts = K.some_partitions(cube)
    part = parts[c.choose(len(parts), "partition")]
    lab = np.array([5 - 2 * x for x in part])
    p = (None, max(part) + 1, max(part) + 2, max(part))[c.choose(4, "n_regions")]
    right = p is None or p == max(part) + 1
    valid = c.both(*[K.connected_formula(c, b, present) for b in K.blocks(part)])
    if c.flag("boolean"):
        ok, got = K.guarded(c, lambda: boolean_assert_feasible(lab, adj, p), "feasible",
                            (ValueError,))
        c.check(ok == right, "number of regions")
        if ok:
            c.check(valid if got else c.neg(valid), "boolean_assert_feasible is %s" % got)
    else:
        ok, got = K.guarded(c, lambda: assert_feasible(lab, adj, p), "feasible", (ValueError,))
        want = c.both(right, valid)
        c.check(want if ok else c.neg(want), "assert_feasible %s" % ("passes" if ok else got))


def h_distribute(c, cube):
    """Every island gets at least one region and at most one per area."""
    from region.util import distribute_regions_among_components
    sizes = cube["sizes"]
    c.window = (1, 2) if "window" in cube else None
    lab = [q for q, s in enumerate(sizes) for _ in range(s)]
    lab = [lab[i] for i in R.order(len(lab), c.choose(3, "order"))]
    n = len(lab)
    p = len(sizes) + c.choose(n - len(sizes) + 1, "n_regions")
    arg = list(lab) if c.flag("list") else np.array(lab)
    got = K.guarded(c, lambda: distribute_regions_among_components(arg, p), "distribute")[1]
    c.check(set(got) == set(range(len(sizes))), "islands without regions")
    c.check(sum(got.values()) == p, "%r regions instead of %d" % (got, p))
    c.check(all(1 <= got[q] <= s for q, s in enumerate(sizes)), "numbers of regions %r" % (got,))
    c.check(list(arg) == lab, "components modified")


def h_w(c, cube):
    """The neighbors in a W object, in its order."""
    from libpysal.weights import W
    from region.util import scipy_sparse_matrix_from_w
    n = cube["n"]
    ks = (["q", "b", "z", "a"] + ["k%d" % i for i in range(20)][::-1])[:n]
    has = {}
    for i, j in K.all_edges(n):
        has[i, j] = has[j, i] = relation(c, cube, n, i, j)
    d = {ks[i]: [ks[j] for j in range(n) if has.get((i, j))] for i in range(n)[::-1]}
    w = W(d, id_order=ks, silence_warnings=True)
    got = K.guarded(c, lambda: scipy_sparse_matrix_from_w(w), "w")[1]
    a = dense(c, got, n)
    c.check(all((a[i, j] != 0) == has.get((i, j), False) for i in range(n)
                                      for j in range(n)), "other neighbors")
    c.check(w.id_order == ks and w.neighbors == {k: d[k] for k in d}, "W modified")


def h_contiguity(c, cube):
    """Shared sides and shared corners of unit squares."""
    from region.util import w_from_gdf
    n, rook, queen = R.polyomino(cube["cells"])
    name = ("rook", "queen", "Rook", "QUEEN")[c.choose(4, "contiguity")]
    gdf = R.Map(n, rook, cube["cells"]).gdf(c.choose(2, "v"), x=list(range(n)))
    w = K.guarded(c, lambda: w_from_gdf(gdf, name), "w_from_gdf")[1]
    adj = K.nbrs(n, rook if name.lower() == "rook" else queen)
    a = np.asarray(w.sparse.todense())
    c.check(a.shape == (n, n) and all((a[i, j] != 0) == (j in adj[i]) for i in range(n)
                                      for j in range(n)), "%s: other neighbors" % name)


FUNCS = ["array_from_dict_values", "scipy_sparse_matrix_from_dict", "scipy_sparse_matrix_from_w",
         "dict_from_graph_attr", "array_from_graph", "array_from_graph_or_dict",
         "array_from_region_list", "array_from_df_col", "dataframe_to_dict", "w_from_gdf",
         "find_sublist_containing", "make_move", "count", "all_elements_equal",
         "separate_components", "assert_feasible", "boolean_assert_feasible",
         "distribute_regions_among_components", "random_element_from", "pop_randomly_from"]
BOUNDS = {
    "quick": "1-4 areas with names of unknown rank (every order), or strings and tuples in every "
             "insertion order; arbitrary real values, 1-3 of them per area; every relation of 3 "
             "areas (symmetric ones of 4), every graph of 4 areas; 11, 12 and 20 areas with given "
             "names (numbers and strings, whose orders differ) in two orders, given maps with three "
             "unknown pairs and given partitions, up to 12 islands (one arbitrary draw)",
    "thorough": "as quick with up to 5 areas",
}
ASSUME = ["real arithmetic instead of floating point", "maps of unit squares for w_from_gdf"]
REACH = ["values", "subset", "neighbors", "graphattr", "grapharray", "graphdict", "frame",
         "framedict", "regions", "sublist", "lookup error", "count", "equal", "move", "draw",
         "separate", "feasible", "distribute", "w", "contiguity", "integers"]
