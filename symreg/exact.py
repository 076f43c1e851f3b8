"""The exact p-regions models inside a harness."""
import numpy as np

from . import common as K
from . import heur as H

METHODS = ("flow", "order", "tree")


def fit(c, cube, metric, allow=(), **kw):
    """(ok, labels or exception); labels None when the model did not return."""
    from region.p_regions.exact import PRegionsExact
    n = cube["n"]
    model = PRegionsExact()
    csr = K.csr(n, cube["edges"])
    attr = K.ids(n, cube.get("k", 1))
    a0 = attr.copy()

    def call():
        model.fit_from_scipy_sparse_matrix(csr, attr, cube["p"], method=cube["method"],
                                           metric=metric, **kw)
        return model.labels_
    ok, res = K.guarded(c, call, "fit (%s)" % (cube["method"],), allow=allow)
    c.check(np.array_equal(attr, a0), "the attributes passed in have been modified")
    return model, ok, res


def feasible(cube):
    return K.valid_partitions(cube["n"], cube["edges"], cube["p"])


# ------------------------------------------------------------------- max-p
def spatial(c, cube):
    """(spatially extensive attributes as handed to the code, threshold, and a
    function reaches(block)).  'sp': fixed numbers per area (rows when several
    attributes), None for an arbitrary one; 'th' likewise."""
    sp, th = cube["sp"], cube["th"]
    m = max([len(r) for r in sp if isinstance(r, (tuple, list))] or [1])
    rows = [tuple(r) if isinstance(r, (tuple, list)) else (r,) * m for r in sp]
    ths = list(th) if isinstance(th, (tuple, list)) else [th]

    def value(v, name):
        if v is None:
            x = c.real(name, group="scaleS")
            c.assume(x >= cube.get("smin", 0) * c.scaled(1, "scaleS"))
            return x
        return c.scaled(v, "scaleS")
    S = [[value(r[j], "S[%d,%d]" % (i, j)) for j in range(m)] for i, r in enumerate(rows)]
    T = []
    for j, t in enumerate(ths):
        t = value(t, "T[%d]" % j)
        c.assume(t > 0)
        T.append(t)
    one = len(T) < m            # one threshold for all of them
    T = T * m if one else T

    def reaches(block):
        out = []
        for j in range(m):
            tot = S[block[0]][j]
            for i in block[1:]:
                tot = tot + S[i][j]
            out.append(c.le(T[j], tot))
        return c.both(*out)
    arr = K.array2d(c, S)
    th = T[0]
    if cube.get("flat"):
        arr = arr[:, 0]
    elif cube.get("vec", m > 1) and not one:
        th = K.array2d(c, [T])[0]
    return arr, th, reaches


def fit_maxp(c, cube, metric, sp, th, allow=(), **kw):
    from region.max_p_regions.exact import MaxPRegionsExact
    n = cube["n"]
    model = MaxPRegionsExact()
    csr = K.csr(n, cube["edges"])
    attr = K.ids(n, cube.get("k", 1))
    a0 = attr.copy()

    def call():
        model.fit_from_scipy_sparse_matrix(csr, attr, sp, th, metric=metric, **kw)
        return model.labels_
    ok, res = K.guarded(c, call, "fit", allow=allow)
    c.check(np.array_equal(attr, a0), "the attributes passed in have been modified")
    return model, ok, res
