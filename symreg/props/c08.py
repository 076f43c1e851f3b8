"""Basic tabu search takes a recent move back only for a strict improvement."""
from collections import deque

import numpy as np

from .. import common as K
from .. import heur as H

OPTIONS = dict(path_seconds=60, validate=2)


TWO = (7, ((0, 1), (1, 2), (2, 3), (3, 0), (4, 5), (5, 6), (6, 4)))


def cubes(tier, seed):
    T = tier == "thorough"
    out = []

    def add(**k):
        k["edges"] = H.norm(k["edges"])
        k["algo"] = "basic"
        k.setdefault("steps", 20000)
        out.append(k)
    for es in K.graphs(3):
        for tabu in (1, 2, 3):
            for reps in (1, 2):
                add(n=3, edges=es, p=2, win=(1, 2), tabu=tabu, reps=reps)
    for i, es in enumerate(K.classes(4)):
        for q, tabu in enumerate((1, 2, 3, 4, 6)):
            for p in (2, 3):
                add(n=4, edges=K.shuffled(es, 4, seed + q), p=p, win=(1, 2), tabu=tabu,
                    reps=1 + (i + q) % 2, free=3 if not T else 5, fs=seed + i + q,
                    mod=(1, 2, 3)[(q + p) % 3], style=q % 3)
    big = [(5, K.path_graph(5)), (5, K.cycle(5)), (5, K.star(5)), (6, K.grid(2, 3)),
           (6, K.path_graph(6)), (5, ((0, 1), (1, 2), (2, 0), (2, 3), (3, 4)))]
    for i, (n, es) in enumerate(big):
        for q, tabu in enumerate((1, 2, 3, 5) if not T else (1, 2, 3, 4, 5, 7)):
            for p in (2, 3):
                add(n=n, edges=K.shuffled(es, n, seed + q), p=p, win=(1, 1), tabu=tabu, reps=2,
                    free=2 if not T else 4, fs=seed + i + q, mod=1 + q % 2,
                    inits=(q + p, 4 if n == 5 else 8))
    for i, (n, es) in enumerate(H.DISCONNECTED + [TWO]):
        for q, tabu in enumerate((1, 2, 4)):
            for p in range(H.ncomp(n, es), n) if n < 7 else (3, 4):
                add(n=n, edges=K.shuffled(es, n, seed + q), p=p, win=(1 + q, 1 + q), tabu=tabu,
                    reps=1 + (i + q) % 2, free=2 + (n < 5), fs=seed + i + q, mod=1 + q,
                    inits=(q + p, 1 if n < 5 else 3 if n < 6 else 11))
    for q, d in enumerate(H.large(tier, seed)):
        add(**dict(d, tabu=(4, 11, 1, 25, 7, 16, 9)[q % 7], reps=2, steps=60000))
    return out


def harness(c, cube):
    log = {}            # labels by component

    def objective(run):
        def hook(area, region, labels, d):
            e = tuple(np.asarray(labels, float).tolist())
            own = log.setdefault(obj.areas, [])
            if not own or own[-1] != e:
                own.append(e)
        obj = K.spy_objective(c, run.metric, update_hook=hook)
        return obj
    r = H.Run(c, cube, objective)
    model = H.make(cube)
    ok, labels = K.guarded(c, lambda: r.fit(model), "fit")
    if not ok:
        return
    for areas, own in log.items():
        own.append(tuple(np.asarray(labels, float)[list(areas)].tolist()))
        judge(c, cube, r, areas, own)
    c.record(np.asarray(labels, float).tolist())


def judge(c, cube, r, areas, log):
    n = len(areas)
    adj = [[areas.index(j) for j in r.adj[i] if j in areas] for i in areas]

    def value(labels):
        full = [object() for _ in range(r.n)]       # regions of their own
        for i, x in zip(areas, labels):
            full[i] = x
        return K.pairwise(c, r.metric, full)
    tabu = deque([], cube["tabu"])
    for before, after in zip(log, log[1:]):
        if before == after:
            continue
        ch = [a for a in range(n) if before[a] != after[a]]
        if len(ch) != 1:
            c.reach("moves not observable")
            return
        # a tabu move that would break a region may have been tried in between
        # and taken back, which is an attempt too: what follows is not judged
        for a, old, new in tabu:
            if before[a] == old and not K.contiguous(
                    [new if x == a else before[x] for x in range(n)], adj):
                c.reach("hidden attempt possible")
                return
        a = ch[0]
        back = (a, before[a], after[a]) in tabu
        x, y = value(after), value(before)
        c.check(c.truth(x < y) or not back,
                "area %d went back from region %s to region %s within %d moves although the "
                "objective did not fall" % (areas[a], before[a], after[a], cube["tabu"]))
        if back:
            c.reach("taken back")
        tabu.append((a, after[a], before[a]))
        c.reach("move")
        if len(tabu) == cube["tabu"]:
            c.reach("full list")


FUNCS = ["AZPBasicTabu._azp_connected_component", "AZPTabu._make_move", "AZPTabu.reset_tabu",
         "AllowMoveAZP", "ObjectiveFunctionPairwise.update", "AZP.fit_from_scipy_sparse_matrix"]
BOUNDS = {
    "quick": "the 6 connected graphs on 4 areas, all graphs on 3, selected graphs on 5-6 areas, 8 "
             "disconnected ones on 3-7, four maps of 11-20 areas and up to 10 regions; "
             "tabu length 1-6, repetitions 1-2; all dissimilarities free on 3 areas, 3 free on 4, 2 "
             "free on 5-6 (the others 0-2, so that ties abound); first 1-2 random draws arbitrary",
    "thorough": "as quick with 5 (4 areas) and 4 (5-6 areas) free dissimilarities, tabu length "
                "up to 7",
}
ASSUME = ["real arithmetic instead of floating point",
          "moves are observed as changes of the labels between evaluations of the objective; a "
          "run is judged up to the point where an attempt that was taken back, invisible this "
          "way, may have happened",
          "sparse indexing and connected_components are modelled (validated against scipy)"]
REACH = ["move", "full list"]
