"""Running the max-p heuristic inside a harness."""
import numpy as np

from . import common as K
from . import exact as X
from . import heur as H


def real_csr(n, edges):
    from scipy.sparse import csr_matrix
    a = np.zeros((n, n))
    for i, j in edges:
        a[i, j] = a[j, i] = 1
    return csr_matrix(a)


def large(tier, seed, sym=True, **kw):
    """Maps of 11-20 areas, one spatially extensive value arbitrary."""
    out = []
    for q, (n, es) in enumerate(H.LARGE):
        th = 2 if H.ncomp(n, es) > 1 else 3 + q
        for t in range(2 if tier != "thorough" else 5):
            sp = [1 + (7 * i + 3 * q + t) % 3 for i in range(n)]
            if sym and t % 2:
                sp[(5 * q + t) % n] = None
            out.append(dict(kw, n=n, edges=H.norm(K.shuffled(H.norm(es), n, seed + q + t)),
                            sp=tuple(sp), th=th, max_it=1 + t % 2, free=1, fs=seed + q + t, mod=97,
                            win=(1 + 3 * t + q,) * 2, pol=(q + t) % 4))
    return out


class Run:
    def __init__(self, c, cube, model=None, search=None):
        from region.max_p_regions.heuristics import MaxPRegionsHeu
        self.c, self.cube = c, cube
        self.n, self.edges = cube["n"], tuple(map(tuple, cube["edges"]))
        self.adj = K.nbrs(self.n, self.edges)
        self.attr = K.ids(self.n, cube.get("k", 1))
        self.metric = K.Metric(c, self.attr,
                               fixed=K.fix_all_but(self.n, cube["free"], cube.get("fs", 0),
                                                   cube.get("mod", 8)) if "free" in cube else None)
        win = cube.get("win")
        c.window = tuple(win) if win else None
        c.policy = cube.get("pol", 0)
        if "uwin" in cube:
            c.unit_window = tuple(cube["uwin"])
            c.unit_policy = cube.get("upol", "r")
        self.sp, self.th, self.reaches = X.spatial(c, cube)
        comp = K.components(self.n, self.edges)
        c.assume(c.both(*[self.reaches([i for i in range(self.n) if comp[i] == q])
                          for q in set(comp)]))
        if cube.get("abstract"):
            self.obj = H.Abstract(c, self.attr)
            self.obj.metric = self.metric
        else:
            self.obj = K.spy_objective(c, self.metric)
        if search is None and cube.get("algo", "none") != "none":
            search = H.make(cube, seed=2)
        self.search = search
        self.model = (model or MaxPRegionsHeu)(local_search=search, random_state=1)
        self.csr = real_csr(self.n, self.edges)

    def fit(self):
        c = self.c
        sp0 = self.sp.copy()
        a0 = self.attr.copy()

        def call():
            self.model.fit_from_scipy_sparse_matrix(
                self.csr, self.attr, self.sp, self.th, max_it=self.cube.get("max_it", 1),
                objective_func=self.obj)
            return self.model.labels_
        ok, res = K.guarded(c, call, "fit")
        if not ok:
            return None
        c.check(np.array_equal(self.attr, a0), "the attributes passed in have been modified")
        c.check(self.sp.shape == sp0.shape and
                all(c.same(x, y) for x, y in zip(self.sp.reshape(-1).tolist(),
                                                 sp0.reshape(-1).tolist())),
                "the spatially extensive attributes passed in have been modified")
        lab = K.plain(res, self.n)
        c.check(lab is not None, "the result does not label every area: %r" % (res,))
        return lab

    def check_feasible(self, lab, what="labels"):
        c = self.c
        c.check(K.contiguous(lab, self.adj), "%s: a region is not contiguous, %s" % (what, lab))
        c.check(c.both(*[self.reaches(b) for b in K.blocks(lab)]),
                "%s: a region is below the threshold, %s" % (what, lab))
