"""The same map in every representation the estimators accept."""
import hashlib
import warnings

import numpy as np

from . import common as K


def h(*a):
    return int(hashlib.sha1(repr(a).encode()).hexdigest()[:8], 16)


def order(n, v, *salt):
    """A permutation of range(n) for the variant v (0: as it is)."""
    if v == 0:
        return list(range(n))
    return sorted(range(n), key=lambda i: h(v, salt, i))


def keys(n, v):
    """Names of the areas in sorted order."""
    return [[i for i in range(n)], [10 * i - 7 for i in range(n)],
            sorted("area%d" % i for i in range(n)), [(i // 2, i % 2) for i in range(n)],
            [0.5 * i for i in range(n)], [100 - 9 * (n - i) for i in range(n)]][v % 6]


class Map:
    """n areas, edges, attribute columns (arrays of n rows), 2-D."""

    def __init__(self, n, edges, cells=None):
        self.n, self.edges, self.cells = n, tuple(map(tuple, edges)), cells
        self.adj = K.nbrs(n, self.edges)

    def csr(self):
        from scipy.sparse import csr_matrix
        a = np.zeros((self.n, self.n))
        for i, j in self.edges:
            a[i, j] = a[j, i] = 1
        return csr_matrix(a)

    def dict(self, v):
        ks = keys(self.n, v)
        box = (set, list, tuple, frozenset)[v % 4]
        return {ks[i]: box(ks[j] for j in order(self.n, v, i) if j in self.adj[i])
                for i in order(self.n, v)}

    def values(self, arr, v, flat=False):
        """A column (or rows) as the dict that goes with dict(v)."""
        ks = keys(self.n, v)
        out = {}
        for i in order(self.n, v + 1):
            r = arr[i]
            if flat or (len(r) == 1 and v % 3 == 0):
                out[ks[i]] = r if flat else r[0]
            else:
                out[ks[i]] = [list, tuple, np.array][v % 3](r.tolist())
        return out

    def graph(self, v, **attrs):
        import networkx as nx
        ks = keys(self.n, v)
        g = nx.Graph()
        for i in order(self.n, v):
            g.add_node(ks[i], **{k: a[i] for k, a in attrs.items()})
        es = list(self.edges)
        for q in order(len(es), v, "e"):
            i, j = es[q] if h(v, q) % 2 else es[q][::-1]
            g.add_edge(ks[i], ks[j])
        return g

    def w(self, v):
        from libpysal.weights import W
        ks = [keys(self.n, v)[i] for i in order(self.n, v, "w")]   # any names
        d = {ks[i]: [ks[j] for j in order(self.n, v, i) if j in self.adj[i]]
             for i in order(self.n, v)}
        w = W(d, id_order=ks, silence_warnings=True)
        w.transform = "ob"[v % 2]
        return w

    def gdf(self, v, **cols):
        import geopandas as gpd
        from shapely.geometry import box
        geo = [box(x, y, x + 1, y + 1) for x, y in self.cells]
        names = list(cols)
        return gpd.GeoDataFrame({k: cols[k] for k in names[::-1 if v % 2 else 1]}, geometry=geo,
                                index=[None, [3 * i + 1 for i in range(self.n)][::-1]][v % 2])


def polyomino(cells):
    """(n, edges) of unit squares that share a side, and the queen edges."""
    n = len(cells)
    rook, queen = [], []
    for i in range(n):
        for j in range(i + 1, n):
            dx, dy = abs(cells[i][0] - cells[j][0]), abs(cells[i][1] - cells[j][1])
            if dx + dy == 1:
                rook.append((i, j))
            if max(dx, dy) == 1:
                queen.append((i, j))
    return n, tuple(rook), tuple(queen)


POLY = [((0, 0), (1, 0), (2, 0), (3, 0)), ((0, 0), (1, 0), (1, 1), (0, 1)),
        ((2, 0), (0, 0), (1, 0), (1, 1)), ((1, 1), (0, 0), (2, 0), (1, 0)),
        ((0, 1), (1, 0), (2, 1), (1, 1)), ((0, 0), (1, 1), (2, 0)), ((1, 0), (0, 0), (2, 0))]
