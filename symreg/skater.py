"""SKATER inside a harness."""
import warnings

import numpy as np

from . import common as K
from . import heur as H
from .engine import SymNum


def large(tier, seed, start=0, **kw):
    """More than ten areas and regions, almost all the numbers fixed."""
    out = []
    for q, (n, es) in enumerate(H.LARGE):
        for j, p in enumerate({20: (3,)}.get(n, (4, n - 1 - q % 2))):
            for t in range(1 if tier != "thorough" else 4):
                out.append(dict(dict(n=n, edges=H.norm(K.shuffled(H.norm(es), n, seed + q)), p=p,
                                     free=1 + t, fs=seed + q + t, mod=97, others=seed + start + t,
                                     quorum=1 + (q + j + start) % 2, k=1 + (q + j) % 2,
                                     islands="ignore", steps=1000000,
                                     transform="rb"[(q + j) % 2]), **kw))
    return out


def make_w(c, n, edges, transform="b"):
    """A libpysal W; its sparse matrix is the engine's in symbolic runs, so
    that it can be multiplied with symbolic dissimilarities."""
    from libpysal.weights import W
    nb = K.nbrs(n, edges)
    d = {i: sorted(nb[i]) for i in range(n)}
    if c.symbolic:
        from .symgraph import SymSparse

        class SymW(W):
            @property
            def sparse(self):
                w = self.weights
                return SymSparse((n, n), {(i, j): (True, float(v)) for i in d
                                          for j, v in zip(self.neighbors[i], w[i])})
        w = SymW(d, silence_warnings=True)
    else:
        w = W(d, silence_warnings=True)
    w.transform = transform
    return w


def rows(n, k=1):
    """Attribute rows whose means, medians, sums differ for different sets."""
    if k == 1:
        return np.array([[float(3 ** i)] for i in range(n)])
    return np.array([[float(3 ** i), 100.0 - 2.0 ** i] for i in range(n)])


def fixed(cube):
    """The dissimilarities between areas that are not arbitrary."""
    if "free" not in cube:
        return None
    out = K.fix_all_but(cube["n"], cube["free"], cube.get("fs", 0), cube.get("mod", 8))
    if "others" in cube:        # all different
        out = {e: v + (k + 1) / 256 for k, (e, v) in enumerate(sorted(out.items()))}
    return out


class Map:
    def __init__(self, c, cube):
        self.c, self.cube = c, cube
        self.n = cube["n"]
        self.edges = tuple(map(tuple, cube["edges"]))
        self.adj = K.nbrs(self.n, self.edges)
        self.comp = K.components(self.n, self.edges)
        self.ncomp = len(set(self.comp))
        self.data = rows(self.n, cube.get("k", 1))
        self.metric = K.Metric(c, self.data, gap=True, fixed=fixed(cube))
        self.metric.lift = True
        self.metric.others = cube.get("others")
        self.w = make_w(c, self.n, self.edges, cube.get("transform", "b"))
        self.quorum = cube.get("quorum", -np.inf)

    def forest(self, **kw):
        from region.skater.skater import Spanning_Forest
        kw.setdefault("dissimilarity", self.metric)
        return Spanning_Forest(**kw)

    def fit(self, sf, p, allow=()):
        """(outcome, result or exception, warnings)"""
        kw = {}
        if "quorum" in self.cube:
            kw["quorum"] = self.quorum
        if "islands" in self.cube:
            kw["islands"] = self.cube["islands"]
        if self.cube.get("trace"):
            kw["trace"] = True
        if "verbose" in self.cube:
            kw["verbose"] = self.cube["verbose"]
        data = None if self.cube.get("nodata") else self.data
        with warnings.catch_warnings(record=True) as ws:
            warnings.simplefilter("always")
            ok, res = K.guarded(self.c, lambda: sf.fit(p, self.w, data, **kw), "fit", allow=allow)
        return ok, res, [x for x in ws]


def forest_edges(msf):
    """The undirected edges of a forest matrix."""
    r, q = msf.nonzero()
    return sorted({(min(int(i), int(j)), max(int(i), int(j))) for i, j in zip(r, q)})


def cut(n, fe, e):
    """The labels when the edge e is taken out."""
    return K.components(n, [f for f in fe if f != e])


def admissible(n, fe, quorum):
    """Edges whose removal leaves no part below the quorum."""
    out = []
    for e in fe:
        if all(len(b) >= quorum for b in K.blocks(cut(n, fe, e))):
            out.append(e)
    return out


REDUCE = {"sum": np.sum, "mean": np.mean, "max": np.max, "min": np.min}
CENTER = {"mean": np.mean, "median": np.median, "max": np.max}


def reduced(c, how, vals):
    """The documented reduction, on numbers symbolic or not."""
    vals = list(vals)
    if how in ("sum", "mean"):
        t = SymNum.const(0) if c.symbolic else 0.0
        for v in vals:
            t = t + v
        return t / len(vals) if how == "mean" else t
    best = vals[0]
    for v in vals[1:]:
        if c.truth(v > best if how == "max" else v < best):
            best = v
    return best


def score(c, metric, data, labels, quorum, red="sum", cen="mean"):
    """The documented score, independently of the code; None for infinite."""
    bl = K.blocks(labels)
    if any(len(b) < quorum for b in bl):
        return None
    parts = []
    for b in bl:
        x = data[b]
        ctr = {"mean": lambda: x.mean(axis=0), "median": lambda: np.median(x, axis=0),
               "max": lambda: x.max(axis=0)}[cen]()
        i = metric._id(metric._row(ctr))
        parts.append(reduced(c, red, [metric._d(metric._id(metric._row(data[a])), i) for a in b]))
    return reduced(c, red, parts)
