"""Running the heuristic p-regions algorithms inside a harness."""
import numpy as np

from . import common as K
from .engine import ctx


def make(algo, seed=1, **kw):
    """algo: a name, or a cube that holds the parameters."""
    if isinstance(algo, dict):
        algo, kw = algo["algo"], dict(algo, **kw)
        c = ctx()       # a temperature has the unit of the objective
        kw["t0"] = c.scaled(kw.get("t0", 8.0), "scaleV" if kw.get("abstract") else "scaleD")
    from region.p_regions import azp as A
    if algo == "azp":
        return A.AZP(random_state=seed)
    if algo == "basic":
        return A.AZPBasicTabu(tabu_length=kw.get("tabu", 2),
                              repetitions_before_termination=kw.get("reps", 2),
                              random_state=seed)
    if algo == "reactive":
        return A.AZPReactiveTabu(max_iterations=kw.get("maxit", 6), k1=kw.get("k1", 0),
                                 k2=kw.get("k2", 1), random_state=seed)
    if algo == "sa":
        return A.AZPSimulatedAnnealing(
            init_temperature=kw.get("t0", 8.0), max_iterations=kw.get("maxit", 2),
            sa_moves_term=kw.get("term", 2),
            nonmoving_steps_before_stop=kw.get("nonmoving", 1),
            repetitions_before_termination=kw.get("reps", 1), random_state=seed)
    raise KeyError(algo)


class Abstract:
    """An objective about which nothing is known: one symbolic value per
    partition of the areas it is evaluated on; update() is the documented
    difference."""

    def __new__(cls, c, rows):
        from region.objective_function import ObjectiveFunction
        where = {tuple(np.asarray(r).reshape(-1).tolist()): i for i, r in enumerate(rows)}

        class Abs(ObjectiveFunction):
            def __init__(self):
                self.metric = None
                self.memo = {}

            def val(self, labels, attr):
                c.tick()
                ar = [where[tuple(np.asarray(r).reshape(-1).tolist())] for r in attr]
                k = (tuple(ar), K.canon([float(x) for x in np.asarray(labels).tolist()]))
                if k not in self.memo:
                    self.memo[k] = c.real("V%s" % (k,), group="scaleV")
                return self.memo[k]

            def __call__(self, labels, attr):
                return self.val(labels, attr)

            def update(self, moving_area, recipient_region, labels, attr):
                old = labels[moving_area]
                before = self.val(labels, attr)
                labels[moving_area] = recipient_region
                after = self.val(labels, attr)
                labels[moving_area] = old
                return after - before
        return Abs()


def relabelled(lab, style):
    """The same partition with other region names."""
    k = max(lab) + 1
    if style == 0:
        names = list(range(k))
    elif style == 1:
        names = [3 * i + 2 for i in range(k)]
    else:
        names = [k - 1 - i for i in range(k)]
    return np.array([names[x] for x in lab])


class Run:
    """Set up graph, attributes, metric, initial labels from a cube."""

    def __init__(self, c, cube, objective=None):
        self.c = c
        self.n, self.p = cube["n"], cube["p"]
        self.edges = tuple(map(tuple, cube["edges"]))
        self.adj = K.nbrs(self.n, self.edges)
        self.attr = K.ids(self.n, cube.get("k", 1))
        self.metric = K.Metric(c, self.attr, positive=cube.get("positive", False),
                               fixed=K.fix_all_but(self.n, cube["free"], cube.get("fs", 0),
                                                    cube.get("mod", 8))
                               if "free" in cube else None)
        win = cube.get("win")
        c.window = tuple(win) if win else None
        c.policy = cube.get("pol", 0)
        if "uwin" in cube:
            c.unit_window = tuple(cube["uwin"])
            c.unit_policy = cube.get("upol", "r")
        if cube.get("steps"):
            c.step_bound = cube["steps"]

            def bound():
                c.step_bound = None
                c.check(False, "no result after %d dissimilarity evaluations" % cube["steps"])
            c.on_step_bound = bound
        self.lab0 = None
        self.init = None
        if cube.get("init", True):
            parts = [K.grown_partition(self.n, self.edges, self.p, s) for s in cube["grown"]] \
                if "grown" in cube else K.valid_partitions(self.n, self.edges, self.p)
            sel = cube.get("inits")
            if sel:                       # every sel[1]-th of them from sel[0]
                parts = parts[sel[0] % len(parts)::sel[1]]
            self.lab0 = parts[c.choose(len(parts), "init")]
            self.init = relabelled(self.lab0, cube.get("style", 0))
        if objective is not None:
            self.obj = objective(self)
        elif cube.get("abstract"):
            self.obj = Abstract(c, self.attr)
        else:
            self.obj = K.spy_objective(c, self.metric)
        self.csr = K.csr(self.n, self.edges)

    def fit(self, model, via="csr"):
        attr = self.attr
        if via == "flat":
            attr = attr.reshape(-1)
        kw = dict(initial_labels=self.init, objective_func=self.obj)
        f = model.fit if hasattr(model, "fit") and via == "fit" else \
            model.fit_from_scipy_sparse_matrix
        f(self.csr, attr, self.p, **kw)
        return model.labels_


def windows(total, width, step=None):
    return [(s, s + width - 1) for s in range(1, total + 1, step or width)]


DISCONNECTED = [
    (4, ((0, 1), (1, 2))),                      # path and an island
    (4, ((0, 2), (1, 3))),                      # two pairs
    (4, ((0, 1), (1, 2), (0, 2))),              # triangle and an island
    (4, ((1, 3),)),                             # pair and two islands
    (5, ((0, 3), (3, 1), (2, 4))),              # path and pair, interleaved
    (5, ((0, 2), (2, 4), (0, 4), (1, 3))),      # triangle and pair, interleaved
    (3, ()),
]


def spread(tier, seed, algo="azp", wins=((1, 1), (2, 2), (3, 4)), ps=(2, 3), big=True,
           disc=True, three=True, abstract=(), graphs4=None, free4=None, **kw):
    """The usual family of cubes for an iterative algorithm."""
    T = tier == "thorough"
    out = []

    def add(**k):
        k["edges"] = norm(k["edges"])
        k["algo"] = algo
        for a, b in kw.items():
            k.setdefault(a, b)
        out.append(k)
    for i, es in enumerate(graphs4 or K.classes(4)):
        es = K.shuffled(es, 4, seed)
        for p in ps:
            for w in wins:
                d = {} if free4 is None or T else {"free": free4, "fs": seed + i + w[0]}
                add(n=4, edges=es, p=p, win=w, pol=(i + w[0]) % 4, style=(i + p) % 3, **d)
    for es in abstract:
        for p in ps:
            add(n=4, edges=K.shuffled(es, 4, seed + 1), p=p, win=(1, 1) if not T else (1, 2),
                abstract=True)
    if three:
        for es in K.graphs(3):
            for p in (2, 3) if algo != "azp" else (2,):
                add(n=3, edges=es, p=p, win=(1, 4 if not T else 7))
    if disc:
        for n, es in DISCONNECTED:
            es = norm(es)
            for p in range(ncomp(n, es), n):
                d = {} if n < 5 else {"free": 3, "fs": seed}
                add(n=n, edges=es, p=p, win=(1, 2), style=p % 3, **d)
    if big:
        gs = [(5, K.path_graph(5)), (5, K.cycle(5)), (5, K.star(5)), (6, K.grid(2, 3)),
              (5, ((0, 1), (1, 2), (2, 0), (2, 3), (3, 4)))]
        for n, es in gs:
            for p in (2, 3):
                for q in range(1 if not T else 4):
                    add(n=n, edges=K.shuffled(es, n, seed), p=p, k=1 + q % 2,
                        inits=(q + p, 4 if n == 5 else 7), win=(q + 1, q + 1),
                        pol=q + p, free=3 if not T else 5, fs=seed + q)
    if T:
        for es in K.classes(5):
            for p in (2, 3):
                for w in ((1, 1), (3, 3), (5, 5)):
                    add(n=5, edges=K.shuffled(es, 5, seed), p=p, win=w, pol=w[0],
                        inits=(w[0], 5), free=5, fs=seed + w[0])
    return out


# a map of 12 areas, and three maps on 11 areas
LARGE = [
    (12, K.grid(3, 4)),
    (11, tuple((i, i + 1) for i in range(5)) + ((0, 5), (6, 7), (7, 8), (6, 8), (9, 10))),
    (11, ((0, 10), (10, 5), (5, 1), (1, 9), (9, 4), (4, 2), (2, 8), (8, 3), (3, 7), (7, 6),
          (0, 5), (9, 2), (8, 7), (10, 1), (4, 8))),
    (20, K.grid(4, 5)),
]


def large(tier, seed, only=None, init=True, start=0, **kw):
    """More than ten areas and regions, almost all the numbers fixed."""
    out = []
    T = tier == "thorough"
    for q, (n, es) in enumerate(LARGE):
        for j, p in enumerate({12: (4, 10), 20: (5,)}.get(n, (3 + q, n - 2))):
            for t in range(1 if not T else 4):
                if only is not None and not T and (q + j) % 2 != only:
                    continue
                d = dict(n=n, edges=norm(K.shuffled(norm(es), n, seed + q)), p=p, free=2 + 2 * t,
                         fs=seed + q + t, style=(q + j) % 3, win=(start + 2 + j + t,) * 2,
                         pol=(q + j) % 4, mod=97)
                if init:
                    d["grown"] = (seed + q + t, seed + q + 7)
                else:
                    d["init"] = False
                out.append(dict(d, **kw))
    return out


def norm(es):
    return tuple(sorted(tuple(sorted(e)) for e in es))


def ncomp(n, es):
    return max(K.components(n, es)) + 1
