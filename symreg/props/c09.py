"""update() is the change of the objective a move causes."""
import numpy as np

from .. import common as K
from ..engine import symarray

OPTIONS = dict(path_seconds=40, validate=2)


def cubes(tier, seed):
    T = tier == "thorough"
    out = []
    for n in (2, 3, 4) if not T else (2, 3, 4, 5):
        for style in (0, 1, 2):
            out.append(dict(kind="pairwise", n=n, style=style, k=1 + style % 2))
    out.append(dict(kind="pairwise", n=5, style=1, k=2))
    if T:
        out.append(dict(kind="pairwise", n=6, style=1, k=1))
    for n, k, m in ((3, 1, "manhattan"), (3, 2, "manhattan"), (4, 1, "manhattan"),
                    (3, 1, "sqeuclid"), (3, 2, "sqeuclid")) + \
            (((4, 2, "manhattan"), (4, 1, "sqeuclid")) if T else ()):
        out.append(dict(kind="pairwise", n=n, style=n % 3, k=k, metric=m))
    for metric in ("manhattan", "sqeuclid", "free"):
        for center in ("mean", "min", "max", "sum"):
            for red in ("sum", "mean", "max", "min"):
                n = 3
                if (metric == "free" or center in ("mean", "sum")) and (T or red in ("sum", "mean")):
                    n = 4
                if red in ("max", "min") and center in ("min", "max") and metric != "free":
                    n = 2 if not T else 3
                out.append(dict(kind="center", n=n, metric=metric, center=center, red=red,
                                k=1 if n < 4 or metric == "manhattan" else 2,
                                style=len(out) % 3))
    out.append(dict(kind="center", n=4 if not T else 5, metric="default", center="mean",
                    red="sum", k=1, style=1))
    out.append(dict(kind="center", n=3, metric="default", center="mean", red="sum", k=2, style=0))
    for n, ps in ((9, (2, 4)), (12, (3, 11))):
        for q in range(2 if not T else 6):
            some = tuple((p, seed + q) for p in ps)
            out.append(dict(kind="pairwise", n=n, style=q % 3, k=1 + q % 2, some=some))
            out.append(dict(kind="center", n=n, style=q % 3, k=1, some=some, metric="free",
                            center=("mean", "max")[q % 2], red=("sum", "mean")[q % 2]))
    return out


def sqeuclid(X, Y=None, **kw):
    X, Y = np.asarray(X), np.asarray(X if Y is None else Y)
    out = np.empty((len(X), len(Y)), dtype=object)
    for i in range(len(X)):
        for j in range(len(Y)):
            out[i, j] = sum((a - b) * (a - b) for a, b in zip(X[i].tolist(), Y[j].tolist()))
    return symarray(out) if X.dtype == object or Y.dtype == object else out.astype(float)


METRIC = {"manhattan": "manhattan", "sqeuclid": sqeuclid}
FUN = {"mean": np.mean, "min": np.min, "max": np.max, "sum": np.sum}


def label_array(part, style):
    k = max(part) + 1
    if style == 0:
        return np.array(part)
    if style == 1:
        return np.array([2.0 * (k - x) for x in part])
    return np.array([-1 - 3 * x for x in part])


def numbers(c, n, k):
    rows = [[c.real("x%d_%d" % (i, q)) for q in range(k)] for i in range(n)]
    return symarray(rows) if c.symbolic and c.pin_default is None else np.array(rows, float)


def make(c, cube):
    """(objective function, attributes)"""
    from region.objective_function import ObjectiveFunctionPairwise, ObjectiveFunctionCenter
    n, k = cube["n"], cube["k"]
    if cube["kind"] == "pairwise":
        if cube.get("metric"):
            return ObjectiveFunctionPairwise(METRIC[cube["metric"]]), numbers(c, n, k)
        attr = K.ids(n, k)
        return ObjectiveFunctionPairwise(K.Metric(c, attr)), attr
    if cube["metric"] == "default":
        return ObjectiveFunctionCenter(), numbers(c, n, k)
    kw = dict(center=FUN[cube["center"]], reduction=FUN[cube["red"]])
    if cube["metric"] == "free":
        attr = K.ids(n, k) * 60
        return ObjectiveFunctionCenter(K.Metric(c, attr), **kw), attr
    return ObjectiveFunctionCenter(METRIC[cube["metric"]], **kw), numbers(c, n, k)


def same(a, b):
    if a.shape != b.shape:
        return False
    return all(x is y or (not hasattr(x, "t") and not hasattr(y, "t") and x == y) or
               (hasattr(x, "key") and hasattr(y, "key") and x.key() == y.key())
               for x, y in zip(a.reshape(-1).tolist(), b.reshape(-1).tolist()))


def harness(c, cube):
    obj, attr = make(c, cube)
    n = cube["n"]
    parts = [p for p in K.some_partitions(cube) if max(p) > 0]
    part = parts[c.choose(len(parts), "partition")]
    lab = label_array(part, cube["style"])
    for step in range(3):
        if step == 2:
            # other areas, other names: as for the next component of a map
            if n < 3:
                return
            attr = attr[1:]
            n -= 1
            sub = [x for x in K.some_partitions(dict(cube, n=n)) if max(x) > 0]
            lab = label_array(sub[sum(part) % len(sub)], (cube["style"] + 1) % 3)
        a0 = attr.copy()
        # two moves in a row, the first one carried out: nothing may be left over
        # from the first evaluation
        moves = [(a, r) for a in range(n) for r in sorted(set(lab.tolist())) if r != lab[a]]
        if not moves:
            return
        if (step == 0 and n < 9) or n < 4:
            a, r = moves[c.choose(len(moves), "move")]
        else:
            a, r = moves[(3 * part.count(0) + step) % len(moves)]
            if step == 0:       # every fifth move
                moves = moves[::5]
                a, r = moves[c.choose(len(moves), "move")]
        l0 = lab.copy()
        ok, d = K.guarded(c, lambda: obj.update(a, r, lab, attr), "update")
        if not ok:
            return
        c.check(lab.dtype == l0.dtype and np.array_equal(lab, l0),
                "update left the labels changed: %s, were %s" % (lab, l0))
        c.check(same(attr, a0), "update left the attributes changed")
        after = l0.copy()
        after[a] = r
        ok, before_v = K.guarded(c, lambda: obj(l0, attr), "objective")
        if not ok:
            return
        l1 = after.copy()
        ok, after_v = K.guarded(c, lambda: obj(after, attr), "objective")
        if not ok:
            return
        c.check(np.array_equal(l1, after) and np.array_equal(l0, lab),
                "evaluating the objective changed the labels")
        c.check(same(attr, a0), "evaluating the objective changed the attributes")
        c.check(c.eq(num(d), num(after_v) - num(before_v)),
                "update(%d, %s, %s) is not the change of the objective" % (a, r, l0.tolist()))
        c.reach(cube["kind"])
        if (after == l0[a]).sum() == 0:
            c.reach("donor emptied")
        lab[a] = r
    c.record(lab.tolist())


def num(x):
    if isinstance(x, np.ndarray):
        assert x.size == 1, x.shape
        return x.reshape(-1)[0]
    return x


FUNCS = ["ObjectiveFunctionPairwise.__call__", "ObjectiveFunctionPairwise.update",
         "ObjectiveFunctionCenter.__call__", "ObjectiveFunctionCenter.update",
         "ObjectiveFunctionCenter._intraregional_heterogeneity", "get_metric_function"]
BOUNDS = {
    "quick": "all partitions of 2-4 areas and all moves, two in a row (a fixed second one for 4 "
             "areas), 5 areas for the pairwise objective; pairwise: all dissimilarities arbitrary, or arbitrary "
             "attributes with manhattan / squared euclidean distance; "
             "center: arbitrary attributes (1-2 per area) with manhattan and squared euclidean "
             "distance or arbitrary dissimilarities to the centers, center mean / min / max / sum, "
             "reduction sum / mean / max / min (2-3 areas for the nonlinear ones)"
             "; some partitions of 9 and 12 areas with all dissimilarities arbitrary",
    "thorough": "as quick with 5 areas (6 for the pairwise objective)",
}
ASSUME = ["real arithmetic instead of floating point",
          "sklearn's manhattan distance is its documented formula"]
REACH = ["pairwise", "center", "donor emptied"]
