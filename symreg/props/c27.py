"""The tabu searches take the best admissible move in every step."""
from collections import deque

import numpy as np

from .. import common as K
from .. import heur as H

OPTIONS = dict(path_seconds=60, validate=2)
NEVER = 10 ** 6


def cubes(tier, seed):
    T = tier == "thorough"
    out = []

    def add(algo, **k):
        k["edges"] = H.norm(k["edges"])
        k.setdefault("steps", 20000)
        if algo == "basic":
            k.setdefault("reps", 1)
            k.setdefault("tabu", 2)
        else:
            k.setdefault("maxit", 4)
            k.setdefault("k1", NEVER)
            k.setdefault("k2", 1)
        out.append(dict(k, algo=algo))
    both = ("basic", "reactive")
    for a in both:
        for es in K.graphs(3):
            add(a, n=3, edges=es, p=2, win=(1, 2))
        for i, es in enumerate(K.classes(4)):
            for p in (2, 3):
                for q in range(2 if not T else 4):
                    add(a, n=4, edges=K.shuffled(es, 4, seed + q), p=p, win=(1, 2),
                        free=3 if not T else 5, fs=seed + i + q, mod=(8, 2, 3)[(q + p + i) % 3],
                        style=(i + q) % 3, tabu=1 + (i + q) % 4, reps=1 + q, maxit=3 + 2 * q,
                        k=1 + (i + q) % 2)
        for es in (K.cycle(4), ((0, 1), (1, 2), (2, 0), (2, 3))):
            for p in (2, 3):
                add(a, n=4, edges=K.shuffled(es, 4, seed + 1), p=p, win=(1, 1), abstract=True,
                    tabu=1, maxit=3, inits=(p, 1 if T else 2))
        add(a, n=4, edges=K.cycle(4), p=2, win=(1, 1), tabu=3, maxit=4)
        big = [(5, K.path_graph(5)), (5, K.cycle(5)), (5, K.star(5)), (6, K.grid(2, 3)),
               (6, K.path_graph(6)), (5, ((0, 1), (1, 2), (2, 0), (2, 3), (3, 4)))]
        for i, (n, es) in enumerate(big):
            for q in range(2 if not T else 4):
                for p in (2, 3):
                    add(a, n=n, edges=K.shuffled(es, n, seed + q), p=p, win=(1, 1),
                        free=2 if not T else 4, fs=seed + i + q, mod=(8, 2, 4, 3)[q],
                        inits=(q + p, 4 if n == 5 else 8), tabu=(2, 5, 1, 85)[(i + q) % 4],
                        reps=1 + q % 2, maxit=6)
        for n, es in H.DISCONNECTED:
            es = H.norm(es)
            for p in range(H.ncomp(n, es), n):
                if n > 3:
                    add(a, n=n, edges=es, p=p, win=(1, 1), free=3, fs=seed + p, style=p % 3)
    # a reactive search that escapes from cycles by random moves
    for i, es in enumerate(K.classes(4)):
        add("reactive", n=4, edges=K.shuffled(es, 4, seed), p=2 + i % 2, win=(1, 2), free=2,
            fs=seed + i, mod=2, k1=0, k2=i % 2, maxit=8)
    for q, d in enumerate(H.large(tier, seed)):
        for j, a in enumerate(both):
            if (q + j) % 2 or T:
                add(a, **dict(d, tabu=(11, 3, 30, 85)[q % 4], reps=1, maxit=12, steps=60000))
    return out


def harness(c, cube):
    from region.p_regions.azp_util import AllowMoveAZP
    r = H.Run(c, cube)
    basic = cube["algo"] == "basic"
    log = []            # per component: (areas, labels at the start, attempted moves)

    class Watch(AllowMoveAZP):
        def start_new_component(self, initial_labels, attr, objective_func, comp_idx):
            log.append(([int(x) for x in comp_idx], lab(initial_labels), []))
            super().start_new_component(initial_labels, attr, objective_func, comp_idx)

        def __call__(self, moving_area, new_region, labels):
            before = lab(labels)
            res = super().__call__(moving_area, new_region, labels)
            if res:
                log[-1][2].append((before, int(moving_area), float(new_region)))
            return res

    def lab(labels):
        return tuple(float(x) for x in np.asarray(labels, float).tolist())

    model = H.make(cube)
    model.allow_move_strategy = Watch()
    ok, labels = K.guarded(c, lambda: r.fit(model), "fit")
    if not ok:
        return
    labels = K.plain(labels, r.n)
    if labels is None or not log:
        c.reach("not observable")
        return
    for areas, start, attempts in log:
        component(c, cube, r, basic, areas, start, attempts, [labels[a] for a in areas])
    c.record(labels)


def component(c, cube, r, basic, areas, start, attempts, end):
    n = len(areas)
    adj = [{areas.index(y) for y in r.adj[x]} for x in areas]

    def moves(lab):
        out = []
        for a in range(n):
            rest = [x for x in range(n) if x != a and lab[x] == lab[a]]
            if rest and K.connected_set(rest, adj):
                out += [(a, lab[a], new) for new in sorted({lab[y] for y in adj[a]} - {lab[a]})]
        return out

    def change(lab, move):
        a, old, new = move
        if cube.get("abstract"):
            attr = r.attr[areas]
            after = [new if x == a else lab[x] for x in range(n)]
            return r.obj.val(np.array(after), attr) - r.obj.val(np.array(lab), attr)
        d = 0 * r.metric.d(areas[0], areas[0])
        for x in range(n):
            if x != a and lab[x] == new:
                d = d + r.metric.d(areas[a], areas[x])
            if x != a and lab[x] == old:
                d = d - r.metric.d(areas[a], areas[x])
        return d

    first = moves(start)
    if len(set(start)) == 1:
        c.check(not attempts, "a move although the component is one region")
        return
    if not attempts:
        for m in first:
            c.check(c.le(0, change(start, m)),
                    "no move is made from %s although moving area %d to region %s lowers the "
                    "objective" % ((list(start),) + (areas[m[0]], m[2])))
        c.reach("no move")
        return
    t = cube["tabu"] if basic else None
    escaping = not basic and cube["k1"] < NEVER
    tabu = deque([], t)
    for k, (lab, a, new) in enumerate(attempts):
        m = (a, lab[a], new)
        if k and escaping:
            break
        back = m in tabu
        d = change(lab, m)
        if k == 0:
            c.check(lab == start, "the search does not begin at %s" % (list(start),))
            c.check(m in first, "the first move, area %d of %s to region %s, is not admissible"
                    % (areas[a], list(lab), new))
        if not basic and back:
            c.check(m != tabu[-1], "the move of area %d to region %s is taken back at once"
                    % (areas[a], new))
        for o in moves(lab):
            if o == m or o in tabu:
                continue
            if basic and back:
                c.check(c.neg(c.le(change(lab, o), 0)),
                        "area %d is moved back to region %s although moving area %d to %s from %s "
                        "does not raise the objective" % (areas[a], new, areas[o[0]], o[2], lab))
                c.reach("taken back")
            else:
                c.check(c.le(d, change(lab, o)),
                        "area %d is moved to region %s although moving area %d to %s from %s is "
                        "better" % (areas[a], new, areas[o[0]], o[2], lab))
                c.reach("best of several")
        tabu.append((a, new, lab[a]))
    if len(attempts) > 1:
        c.reach("several moves")
    # what the first move gained is not lost
    if cube.get("abstract"):
        attr = r.attr[areas]

        def value(q):
            return r.obj.val(np.array(q), attr)
    else:
        def value(q):
            tot = 0 * r.metric.d(areas[0], areas[0])
            for i in range(n):
                for j in range(i + 1, n):
                    if q[i] == q[j]:
                        tot = tot + r.metric.d(areas[i], areas[j])
            return tot
    lab, a, new = attempts[0]
    c.check(c.le(value(end), value(start) + change(lab, (a, lab[a], new))),
            "the result %s is worse than %s after the first move, area %d to region %s" %
            (list(end), list(start), areas[a], new))
    for q, _, _ in attempts[1:] if not escaping else ():
        c.check(c.le(value(end), value(q)), "the result %s is worse than %s, a solution before "
                "the last move" % (list(end), list(q)))
    c.reach("descent")


FUNCS = ["AZPBasicTabu._azp_connected_component", "AZPReactiveTabu._azp_connected_component",
         "AZPTabu._make_move", "AZPTabu.reset_tabu", "AllowMoveAZP",
         "AZP.fit_from_scipy_sparse_matrix", "ObjectiveFunctionPairwise"]
BOUNDS = {
    "quick": "all connected graphs on 3 areas and the 6 on 4 up to order, 6 disconnected ones on "
             "4-5, selected ones on 5-6; tabu length 1-5 and 85, repetitions 1-2, max_iterations "
             "3-8; all dissimilarities arbitrary on 3 areas and the 4-cycle, 3 on 4 areas, 2 on "
             "5-6 (the others seeded integers), arbitrary objective functions on two graphs; first "
             "1-2 random draws arbitrary"
             "; four maps of 11-20 areas, up to 10 regions, with 2 free dissimilarities",
    "thorough": "as quick with 5 (4 areas) and 4 (5-6 areas) free dissimilarities and more orders "
                "and parameters",
}
ASSUME = ["real arithmetic instead of floating point",
          "attempted moves are observed as the questions the AZP move strategy says yes to",
          "sparse indexing and connected_components are modelled (validated against scipy)"]
REACH = ["no move", "best of several", "several moves", "descent", "taken back"]
