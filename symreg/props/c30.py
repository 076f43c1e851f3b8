"""AZP consults its move strategy about every possible move, in the current state."""
import numpy as np

from .. import common as K
from .. import heur as H

OPTIONS = dict(path_seconds=40, validate=2)


def cubes(tier, seed):
    T = tier == "thorough"
    out = []

    def add(**k):
        k["edges"] = H.norm(k["edges"])
        k.setdefault("steps", 20000)
        k["algo"] = "azp"
        out.append(k)
    for es in K.graphs(3):
        for style in (0, 1, 2):
            add(n=3, edges=es, p=2, win=(1, 3), style=style, flags=6)
    for i, es in enumerate(K.classes(4)):
        for p in (2, 3):
            for q in range(4 if not T else 8):
                add(n=4, edges=K.shuffled(es, 4, seed + q), p=p, win=(1 + q, 2 + q), pol=(i + q) % 4,
                    free=0, fs=seed + i + q, mod=(8, 3, 2)[q % 3], style=(i + q) % 3,
                    k=1 + (i + q) % 2, flags=5 if not T else 8, rest=(q % 3),
                    how=("flag", "worse", "azp")[(i + q + p) % 3], init=q != 3)
    for n, es in H.DISCONNECTED + [(6, ((0, 2), (2, 4), (1, 3), (3, 5)))]:
        for p in range(H.ncomp(n, es), n):
            for q in range(3 if not T else 6):
                add(n=n, edges=K.shuffled(es, n, seed + q), p=p, win=(1 + 2 * q, 2 + 2 * q),
                    pol=(p + q) % 4, free=0, fs=seed + p + q, mod=3, style=q % 3,
                    inits=(p + q, 1 if n < 5 else 5), flags=4 if not T else 6, rest=q % 3,
                    how=("flag", "worse", "azp")[(p + q) % 3], k=1 + q % 2)
    big = ((5, K.path_graph(5)), (5, K.cycle(5)), (6, K.grid(2, 3)), (6, K.star(6)),
           (7, ((0, 1), (1, 2), (2, 3), (3, 4), (4, 5), (5, 6), (1, 5), (0, 3))))
    for i, (n, es) in enumerate(big):
        for p in (2, 3):
            for q in range(3 if not T else 6):
                add(n=n, edges=K.shuffled(es, n, seed + q), p=p, inits=(i + p + q, 9 if n < 7 else 41),
                    win=(1 + q, 1 + q), pol=(i + q) % 4, free=0, fs=seed + i, mod=4, flags=4, rest=q % 3,
                    how=("flag", "worse", "azp")[(i + q) % 3], style=q % 3)
    for q, d in enumerate(H.large(tier, seed)):
        add(**dict(d, free=0, flags=4 - (d["p"] > 9), rest=q % 3, how=("flag", "worse", "azp")[q % 3],
                   steps=60000))
    return out


def harness(c, cube):
    from region.p_regions.azp import AZP
    from region.p_regions.azp_util import AllowMoveStrategy
    r = H.Run(c, cube)
    comp = K.components(r.n, r.edges)
    comps = [[i for i in range(r.n) if comp[i] == k] for k in sorted(set(comp))]
    log = []            # per component: what it began with, and the questions

    def lab(labels):
        return tuple(float(x) for x in np.asarray(labels, float).tolist())
    told = [0]

    class Asked(AllowMoveStrategy):
        def start_new_component(self, initial_labels, attr, objective_func, comp_idx):
            log.append(dict(idx=[int(x) for x in comp_idx], start=lab(initial_labels),
                            attr=np.array(attr), obj=objective_func, asked=[]))
            super().start_new_component(initial_labels, attr, objective_func, comp_idx)

        def __call__(self, moving_area, new_region, labels):
            told[0] += 1
            k = told[0]
            yes = None
            if cube.get("how", "flag") != "flag":
                d = self.objective_func.update(moving_area, new_region, labels, self.attr)
                worse = bool(d > 0)
                if worse and cube["how"] == "azp":
                    yes = False
                elif worse:     # allowed although worse, a few times
                    yes = k <= 2 * cube["flags"] and c.flag("worse%d" % k)
            if yes is None:
                yes = c.flag("answer%d" % k) if k <= cube["flags"] else \
                    (False, k < 12, k % 2 == 0 and k < 16)[cube.get("rest", 0)]
            if yes and cube.get("how", "flag") != "flag":
                self.objective_val += d
            log[-1]["asked"].append((int(moving_area), float(new_region), lab(labels), yes))
            return yes
    strategy = Asked()
    ok, model = K.guarded(c, lambda: AZP(allow_move_strategy=strategy, random_state=1), "AZP")
    if not ok:
        return
    ok, labels = K.guarded(c, lambda: r.fit(model), "fit")
    if not ok:
        return
    labels = K.plain(labels, r.n)
    c.check(labels is not None, "the result does not label every area")
    if labels is None:
        return
    c.check(sorted(x["idx"] for x in log) == sorted(comps),
            "the strategy was told of the components %s instead of %s"
            % ([x["idx"] for x in log], comps))
    ok, all_ = K.guarded(c, lambda: np.array(strategy.attr_all), "attr_all")
    if ok:
        c.check(all_.shape == r.attr.shape and np.array_equal(all_, r.attr),
                "the attributes of all areas are not handed to the strategy")
    for x in log:
        idx = x["idx"]
        c.check(len(x["start"]) == len(idx) and np.array_equal(x["attr"].reshape(len(idx), -1),
                                                               r.attr[idx]),
                "the attributes of the component %s are not those handed to the strategy" % (idx,))
        c.check(x["obj"] is r.obj, "the objective function was not handed to the strategy")
        if r.lab0 is not None:
            c.check(K.canon(x["start"]) == K.canon([r.lab0[i] for i in idx]),
                    "the labels %s of the component %s are not the initial ones" % (x["start"], idx))
        follow(c, r, x, [labels[i] for i in idx])
    p0 = {(k, v) for k, x in enumerate(log) for v in x["start"]}
    c.check(len(set(labels)) == len(p0) == r.p, "%d regions, begun with %d, asked for %d"
            % (len(set(labels)), len(p0), r.p))
    c.record(labels)


def follow(c, r, x, end):
    idx = x["idx"]
    n = len(idx)
    adj = [{idx.index(y) for y in r.adj[a]} for a in idx]
    now = list(x["start"])

    def movable(into):
        out = set()
        for a in range(n):
            rest = [y for y in range(n) if y != a and now[y] == now[a]]
            if now[a] != into and any(now[y] == into for y in adj[a]) and rest and \
                    K.connected_set(rest, adj):
                out.add(a)
        return out

    def left_out():
        """The areas the last region was not offered, since the last move."""
        return sorted(movable(last) - since) if last is not None else []
    last, since, made = None, set(), 0
    for a, into, seen, yes in x["asked"]:
        c.check(seen == tuple(now), "the strategy was asked with labels %s, but the regions are %s"
                % (seen, tuple(now)))
        if into != last:
            miss = left_out()
            c.check(not miss, "the strategy was never asked about moving the areas %s of %s to "
                    "region %s" % (miss, now, last))
            last, since = into, set()
        c.check(a in movable(into), "the strategy was asked about area %s of %s and region %s, "
                "which is no possible move" % (a, now, into))
        since.add(a)
        if yes:
            now[a] = into
            since = set()
            made += 1
            c.reach("allowed")
        else:
            c.reach("refused")
    miss = left_out()
    c.check(not miss, "the strategy was never asked about moving the areas %s of %s to region %s"
            % (miss, now, last))
    if not made and len(set(now)) > 1:
        asked = {(a, into) for a, into, _, _ in x["asked"]}
        want = {(a, into) for into in set(now) for a in movable(into)}
        c.check(asked == want, "of the moves %s from %s only %s were asked about"
                % (sorted(want), now, sorted(asked)))
        c.reach("nothing allowed")
    c.check(K.canon(now) == K.canon(end), "the moves allowed lead to %s, but the result is %s"
            % (now, end))
    c.check(K.contiguous(end, adj), "a region is not contiguous: %s" % (end,))
    if n < r.n:
        c.reach("one of several components")
    c.reach("end")


FUNCS = ["AZP.__init__", "AZP.fit_from_scipy_sparse_matrix", "AZP._azp_connected_component",
         "AllowMoveStrategy.start_new_component"]
BOUNDS = {
    "quick": "all connected graphs on 3 areas, the 6 on 4 up to order, 7 disconnected ones on 4-6, "
             "given ones on 5-7; the first 4-6 answers of the strategy arbitrary (strategies that "
             "decide freely, only about improvements, or about worse moves), the others fixed; "
             "dissimilarities arbitrary on 3 areas, else seeded integers; 1-3 arbitrary random draws; "
             "all (3-4 areas) or every 5th, 9th or 41st initial solution, or generated ones"
             "; four maps of 11-20 areas, up to 10 regions, with fixed dissimilarities",
    "thorough": "as quick with 6-8 arbitrary answers and more orders and windows",
}
ASSUME = ["random draws outside the window follow a fixed policy",
          "real arithmetic instead of floating point"]
REACH = ["allowed", "refused", "nothing allowed", "one of several components", "end"]
