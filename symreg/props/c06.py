"""Basic tabu search terminates with a valid regionalization."""
import numpy as np

from .. import common as K
from .. import heur as H

OPTIONS = dict(path_seconds=60, validate=2)
ALGO = "basic"


def cubes(tier, seed):
    T = tier == "thorough"
    out = []
    C4 = K.cycle(4)
    K4e = ((0, 1), (1, 2), (2, 0), (2, 3))
    for q, (tabu, reps) in enumerate(((1, 1), (2, 2), (3, 1), (85, 5), (1, 3))):
        for es in (K.classes(4)[q::2] if not T else K.classes(4)):
            for p in (2, 3):
                out.append(dict(n=4, edges=K.shuffled(es, 4, seed + q), p=p, win=(1, 2 + q % 2),
                                style=(p + q) % 3, free=3 if not T else 5, fs=seed + q,
                                tabu=tabu, reps=reps))
    out += H.spread(tier, seed, ALGO, wins=((1, 1),), tabu=2, reps=2, abstract=(C4, K4e), free4=3,
                    disc=False, three=False)
    out += H.spread(tier, seed, ALGO, wins=((1, 2),), tabu=1, reps=1, big=False, graphs4=[C4],
                    free4=6)
    out += H.spread(tier, seed, ALGO, wins=(), tabu=2, reps=1, disc=False, three=False)
    for es in K.classes(4):
        for p in (1, 2, 3, 4):
            out.append(dict(n=4, edges=es, p=p, win=(1, 1), init=False, free=2, fs=seed + p,
                            pol=p - 1, tabu=p, reps=2))
    out.append(dict(n=1, edges=(), p=1, tabu=1, reps=1))
    for es in K.graphs(3):
        out.append(dict(n=3, edges=es, p=3, win=(1, 1), tabu=1, reps=1))
    out += H.large(tier, seed, tabu=3, reps=1, steps=60000)
    out += H.large(tier, seed, 1, tabu=85, reps=2, init=False, steps=60000)
    for d in out:
        d.update(algo=ALGO, edges=H.norm(d["edges"]))
        d.setdefault("steps", 8000 if not T else 20000)
    return out


def harness(c, cube):
    r = H.Run(c, cube)
    model = H.make(cube)
    a0, i0 = r.attr.copy(), None if r.init is None else r.init.copy()
    ok, labels = K.guarded(c, lambda: r.fit(model), "fit")
    if not ok:
        return
    lab = K.check_regionalization(c, labels, r.n, r.adj, r.p, type(model).__name__)
    c.check(np.array_equal(r.attr, a0), "the attributes passed in have been modified")
    if i0 is not None:
        c.check(np.array_equal(r.init, i0), "the initial labels passed in have been modified")
        if lab is not None and K.canon(lab) != K.canon(i0.tolist()):
            c.reach("moved")
    if c.draws:
        c.reach("random choice")
    c.record(lab)


FUNCS = ["AZPBasicTabu._azp_connected_component", "AZPTabu._make_move", "AZPTabu.reset_tabu",
         "AZP.fit_from_scipy_sparse_matrix", "AllowMoveAZP", "ObjectiveFunctionPairwise",
         "assert_feasible", "separate_components", "generate_initial_sol"]
BOUNDS = {
    "quick": "the 6 connected graphs on 4 areas (p = 1-4), all graphs on 3, 7 disconnected graphs "
             "on 3-5, selected graphs on 5-6 areas; tabu length 1-3 and 85, repetitions 1-3 and 5; "
             "3 free dissimilarities, the others seeded integers (all free on 3 areas and on the "
             "4-cycle), arbitrary objective functions on two graphs; first 1-3 random draws "
             "arbitrary; termination: within 8000 evaluations of dissimilarities"
             "; four maps of 11-20 areas, up to 10 regions, with 2 free dissimilarities",
    "thorough": "as quick with 5 free dissimilarities, all graphs with every parameter pair, all "
                "21 connected graphs on 5 areas; 20000 evaluations",
}
ASSUME = ["real arithmetic instead of floating point",
          "random draws outside the window follow a fixed policy",
          "sparse indexing and connected_components are modelled (validated against scipy)"]
REACH = ["moved", "random choice"]
