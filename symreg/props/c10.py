"""The objective functions compute what they are documented to."""
import numpy as np

from .. import common as K
from .. import env
from . import c09 as O

OPTIONS = dict(path_seconds=40, validate=2, timeout_ms=8000)
NAMES = ("manhattan", "cityblock", "l1", "euclidean", "l2", "cosine")


def cubes(tier, seed):
    T = tier == "thorough"
    out = []
    for n in (1, 2, 3, 4, 5) if not T else (1, 2, 3, 4, 5, 6):
        out.append(dict(kind="pairwise", n=n, k=1 + n % 2))
    for n, k in ((3, 1), (3, 2), (4, 1)):
        out.append(dict(kind="pairwise", n=n, k=k, metric="sqeuclid"))
    for name in NAMES:
        for k in (1, 2):
            out.append(dict(kind="named", n=3, k=k, name=name))
        out.append(dict(kind="namedcenter", n=2, k=1, name=name))
    for metric in ("manhattan", "sqeuclid", "free"):
        for center in ("mean", "min", "max", "sum"):
            for red in ("sum", "mean", "max", "min"):
                n = 3 if metric == "free" or (red in ("sum", "mean")
                                              and center in ("mean", "sum")) else 2
                n += 1 if (metric == "free" and red in ("sum", "mean")) or T else 0
                out.append(dict(kind="center", n=n, metric=metric, center=center, red=red,
                                k=1 + len(out) % 2))
    out.append(dict(kind="center", n=4, metric="default", center="mean", red="sum", k=1))
    out.append(dict(kind="center", n=3, metric="default", center="mean", red="sum", k=2))
    for n, ps in ((9, (1, 2, 4)), (12, (3, 11, 12)), (20, (6,))):
        some = tuple((p, seed + q) for p in ps for q in range(1 if not T else 4))
        out.append(dict(kind="pairwise", n=n, k=1, some=some))
        out.append(dict(kind="center", n=n, k=1, some=some, metric="free", center="mean", red="sum"))
        out.append(dict(kind="center", n=n, k=2, some=some, metric="free", center="max", red="mean"))
    return out


def names_of(part, style):
    """The same partition with region names of several types and orders."""
    k = max(part) + 1
    if style == 0:
        return np.array(part)
    if style == 1:
        return np.array([2.5 * (k - x) for x in part])
    if style == 2:
        return np.array([-1 - 3 * x for x in part])
    if style == 3:
        return np.array(["r%d" % (k - x) for x in part])
    if style == 4:
        return np.array([10 ** 6 + x for x in part], dtype=np.int64)
    return np.array([float(x) for x in part], dtype=object)


def dist(name):
    """Documented meaning of a metric, over rows, in either mode."""
    def conc(x, y):
        import math
        x, y = [float(a) for a in x], [float(a) for a in y]
        if name in ("manhattan", "cityblock", "l1"):
            return sum(abs(a - b) for a, b in zip(x, y))
        if name in ("euclidean", "l2"):
            return math.sqrt(sum((a - b) ** 2 for a, b in zip(x, y)))
        nx, ny = (math.sqrt(sum(a * a for a in v)) or 1.0 for v in (x, y))
        if x == y:
            return 0.0
        return 1 - sum(a * b for a, b in zip(x, y)) / (nx * ny)

    def f(x, y):
        if any(hasattr(e, "t") for e in list(x) + list(y)):
            g = env.manhattan if name in ("manhattan", "cityblock", "l1") else \
                env.euclid if name in ("euclidean", "l2") else env.cosine
            return g(x, y)
        return conc(x, y)
    return f


def ext(c, vals, smallest):
    """min / max by comparisons."""
    m = vals[0]
    for v in vals[1:]:
        if bool(v < m) == smallest:
            m = v
    return m


def reduce_(c, name, vals):
    if name == "sum":
        return sum(vals[1:], vals[0])
    if name == "mean":
        return sum(vals[1:], vals[0]) / len(vals)
    return ext(c, vals, name == "min")


def center_value(c, part, rows, d, center, red):
    per = []
    for b in K.blocks(part):
        k = len(rows[0])
        cen = [reduce_(c, center, [rows[i][q] for i in b]) for q in range(k)]
        per.append(reduce_(c, red, [d(rows[i], cen) for i in b]))
    return reduce_(c, red, per)


def harness(c, cube):
    from region.objective_function import ObjectiveFunctionPairwise, ObjectiveFunctionCenter
    n, k = cube["n"], cube["k"]
    kind = cube["kind"]
    if kind.startswith("named"):
        c.tol = 1e-6        # sklearn's euclidean distance cancels digits
    parts = K.some_partitions(cube)
    part = parts[c.choose(len(parts), "partition")]
    if kind == "pairwise" and cube.get("metric"):
        obj, attr = O.make(c, cube)
        rows = attr.tolist()
        want = 0
        for b in K.blocks(part):
            for i in b:
                for j in b:
                    if i < j:
                        want = want + sum((x - y) * (x - y) for x, y in zip(rows[i], rows[j]))
    elif kind == "pairwise":
        attr = K.ids(n, k)
        m = K.Metric(c, attr)
        obj = ObjectiveFunctionPairwise(m)
        want = K.pairwise(c, m, part)
    elif kind in ("named", "namedcenter"):
        attr = O.numbers(c, n, k)
        if cube["name"] == "cosine":    # undefined at the origin
            for x in attr.reshape(-1).tolist():
                c.assume(x >= 1)
        f = dist(cube["name"])
        rows = attr.tolist()
        if kind == "named":
            obj = ObjectiveFunctionPairwise(cube["name"])
            want = 0
            for b in K.blocks(part):
                for i in b:
                    for j in b:
                        if i < j:
                            want = want + f(rows[i], rows[j])
        else:
            obj = ObjectiveFunctionCenter(cube["name"])
            want = center_value(c, part, rows, f, "mean", "sum")
    else:
        obj, attr = O.make(c, cube)
        rows = attr.tolist()
        if cube["metric"] == "free":
            m = obj.metric

            def f(x, y):
                return m._d(m._id(tuple(map(float, x))), m._id(tuple(map(float, y))))
        elif cube["metric"] == "sqeuclid":
            def f(x, y):
                return sum((a - b) * (a - b) for a, b in zip(x, y))
        else:
            f = dist("manhattan")
        want = center_value(c, part, rows, f, cube["center"], cube["red"])
    for style in (0, 5) if n > 4 else range(6):
        lab = names_of(part, style)
        ok, v = K.guarded(c, lambda: obj(lab, attr), "objective")
        if not ok:
            return
        c.check(c.eq(O.num(v), want), "objective of the partition %s, named %s, is not its "
                "definition" % (part, lab.tolist()))
    c.reach(kind)
    c.record(part)


FUNCS = ["ObjectiveFunctionPairwise.__call__", "ObjectiveFunctionCenter.__call__",
         "ObjectiveFunctionCenter._intraregional_heterogeneity", "get_metric_function"]
BOUNDS = {
    "quick": "all partitions of 1-5 areas (pairwise, all dissimilarities arbitrary), 3-4 areas "
             "(center objective, 1-2 arbitrary attributes per area, centers mean / min / max / sum, "
             "reductions sum / mean / max / min, metrics manhattan, squared euclidean, arbitrary "
             "to the center), six ways of naming the regions; the six documented metric names on 2-3 areas "
             "with arbitrary attributes"
             "; some partitions of 9-20 areas with all dissimilarities arbitrary",
    "thorough": "as quick with one area more",
}
ASSUME = ["real arithmetic instead of floating point",
          "sklearn's metrics are their documented formulas (cosine: an arbitrary function)"]
REACH = ["pairwise", "center", "named", "namedcenter"]
