"""Simulated annealing: Metropolis acceptance, cooling, end of a round."""
import numpy as np

from .. import common as K
from .. import heur as H
from ..engine import PathCut

OPTIONS = dict(path_seconds=40, validate=2)
COOL = 0.5          # exact in floating point, whatever the order of operations


TWO = (7, ((0, 1), (1, 2), (2, 3), (3, 0), (4, 5), (5, 6), (6, 4)))


def cubes(tier, seed):
    T = tier == "thorough"
    out = []
    for n in (1, 2, 3) if not T else (1, 2, 3, 4):
        for term in (1, 2, 3):
            out.append(dict(kind="rule", calls=n, term=term, symt=(n + term) % 2 == 0))

    def add(**k):
        k["edges"] = H.norm(k["edges"])
        k["algo"] = "sa"
        k["kind"] = "fit"
        k.setdefault("steps", 4000)
        k.setdefault("reps", 1)
        k.setdefault("nonmoving", 1)
        out.append(k)
    # all dissimilarities fixed: exp() is exact; many free acceptance numbers
    for i, es in enumerate(K.classes(4)):
        for p in (2, 3):
            for q in range(2 if not T else 6):
                j = i + p + q
                add(n=4, edges=K.shuffled(es, 4, seed + q), p=p, win=(1, 1) if q else (0, 0),
                    pol=j % 4, free=0, fs=seed + j, maxit=1 + (i + q) % 3, term=1 + j % 3,
                    nonmoving=1 + j % 2, reps=1 + q % 2, inits=(j, 3), uwin=(1 + 2 * q, 3 + 2 * q),
                    upol=("r", "ra", "a")[j % 3])
    for es in K.graphs(3):
        for p in (2,):
            for q in (1, 2, 3):
                add(n=3, edges=es, p=p, win=(1, 1), free=1, fs=seed + q, maxit=q, term=1 + q % 2,
                    uwin=(q, q + 3), reps=2)
    for es in K.graphs(3):          # rounds without moves
        for q in (2, 4, 6, 8, 10):
            add(n=3, edges=es, p=2, win=(0, 0), free=0, fs=seed + q, maxit=1 + q // 2 % 2, term=2,
                uwin=(q, q + 4), reps=4, nonmoving=3)
    # some dissimilarities free: exp() uninterpreted
    for i, es in enumerate(K.classes(4)):
        for p in (2, 3):
            for q in range(1 if not T else 3):
                add(n=4, edges=K.shuffled(es, 4, seed), p=p, win=(1, 1), pol=i, free=1 if not T else 2,
                    fs=seed + i, maxit=1 + i % 2, term=1 + (i + p) % 2, inits=(i + q, 4),
                    uwin=(1 + i % 3 + q, 2 + i % 3 + q))
    for n, es in ((5, K.cycle(5)), (6, K.grid(2, 3))):
        for p in (2, 3):
            add(n=n, edges=K.shuffled(es, n, seed), p=p, win=(0, 0), pol=p, free=0, fs=seed,
                maxit=2, term=2, inits=(p, 6 if n == 5 else 12), uwin=(2, 4))
    for i, (n, es) in enumerate(H.DISCONNECTED[:-1] + [TWO]):
        for q in range(2 if not T else 4):
            add(n=n, edges=K.shuffled(es, n, seed + q), p=min(n - 1, H.ncomp(n, es) + q), win=(0, 0),
                pol=i, free=q % 2 if n == 4 else 0, fs=seed + i + q, maxit=2 + q, term=1 + (i + q) % 3,
                inits=(i, 1 if n < 5 else 3 if n < 7 else 23), uwin=(1 + 2 * q, 2 + 2 * q), nonmoving=2)
    for q, d in enumerate(H.large(tier, seed, free=0)):
        add(**dict(d, maxit=2, term=3 + 9 * (q % 2), nonmoving=1 + q % 2, steps=100000,
                   uwin=(q + 1, q + 3)))
    return out


def harness(c, cube):
    if cube["kind"] == "rule":
        return rule(c, cube)
    r = None
    log = []

    def objective(run):
        def hook(area, region, labels, d):
            e = ("eval", int(area), float(region), tuple(np.asarray(labels, float).tolist()),
                 obj.areas)
            if not log or log[-1] != e:
                log.append(e)
        obj = K.spy_objective(c, run.metric, update_hook=hook)
        return obj
    r = H.Run(c, cube, objective)
    model = H.make(cube)
    draw = c.draw_unit

    def draw_unit():
        u = draw()
        log.append(("u", u))
        return u
    c.draw_unit = draw_unit
    from region.p_regions.azp import AZP
    saved = {}
    for name in ("fit_from_scipy_sparse_matrix", "fit"):
        f = getattr(AZP, name)

        def g(self, adj, attr, n_regions, initial_labels=None, *a, _f=f, **k):
            log.append(("run", None if initial_labels is None else
                        tuple(np.asarray(initial_labels, float).tolist())))
            _f(self, adj, attr, n_regions, initial_labels, *a, **k)
            log.append(("end", tuple(np.asarray(self.labels_, float).tolist())))
        saved[name] = f
        setattr(AZP, name, g)
    try:
        ok, labels = K.guarded(
            c, lambda: (model.fit_from_scipy_sparse_matrix(
                r.csr, r.attr, r.p, initial_labels=r.init, cooling_factor=COOL,
                objective_func=r.obj), model.labels_)[1], "fit")
    finally:
        for name, f in saved.items():
            setattr(AZP, name, f)
        del c.draw_unit
    if not ok:
        return
    judge(c, cube, r, log)


def judge(c, cube, r, log):
    def value(labels, areas):
        full = [object() for _ in range(r.n)]       # regions of their own
        for i, x in zip(areas, labels):
            full[i] = x
        return K.pairwise(c, r.metric, full)
    temp = c.scaled(8.0, "scaleD")
    worsening = runs = rnd = 0
    start = end = None
    if not any(e[0] == "run" for e in log):
        raise PathCut("runs of AZP not observable")
    for at, e in enumerate(log):
        if e[0] == "run":
            if start is not None:       # does this run begin a new round?
                if runs >= cube["maxit"] or worsening >= cube["term"] or start == end:
                    temp = temp * COOL
                    runs = worsening = 0
                    rnd += 1
                    c.reach("round %d" % rnd)
            runs += 1
            c.check(e[1] == (end if start is not None else tuple(map(float, r.init.tolist()))),
                    "a run does not start where the last one ended")
            start = e[1]
        elif e[0] == "end":
            end = e[1]
        elif e[0] == "eval":
            _, area, region, labels, areas = e
            us = []
            after = None
            mine = True
            for f in log[at + 1:]:
                mine = mine and f[0] == "u"
                if mine:
                    us.append(f[1])
                elif f[0] == "eval" and f[4] == areas:
                    after = f[3]
                    break
                elif f[0] == "end":
                    after = tuple(f[1][i] for i in areas)
                    break
            made = list(labels)
            made[area] = region
            made = tuple(made)
            c.check(after in (labels, made), "the labels changed from %s to %s in the decision on "
                    "area %d to region %s" % (labels, after, areas[area], region))
            d = value(made, areas) - value(labels, areas)
            worse = d > 0
            if not c.truth(worse):
                c.reach("not worsening")
                c.check(after == made, "a move that does not worsen the objective was refused")
                continue
            c.check(len(us) == 1, "%d acceptance numbers drawn for one worsening move" % len(us))
            if len(us) != 1:
                continue
            prob = exp(c, -d / temp)
            if after == made:
                worsening += 1
                c.reach("worsening move made")
                c.check(c.lt(us[0], prob), "move made against the Metropolis rule in round %d" % rnd)
            else:
                c.reach("worsening move refused")
                c.check(c.le(prob, us[0]), "move refused against the Metropolis rule in round %d"
                        % rnd)


def exp(c, x):
    import math
    return math.exp(x)


class _Obj:
    """update() returns whatever the harness says."""

    def __init__(self):
        self.d = None

    def __call__(self, labels, attr):
        return 0.0

    def update(self, *a):
        return self.d


def rule(c, cube):
    """The acceptance criterion itself, any difference, any temperature."""
    from region.p_regions.azp_util import AllowMoveAZPSimulatedAnnealing
    temp = c.real("T0") if cube["symt"] else 8.0
    c.assume(temp > 0)
    term = cube["term"]
    s = AllowMoveAZPSimulatedAnnealing(init_temperature=temp, sa_moves_term=term)
    told, moved = [], []
    s.register_sa_moves_term(lambda: told.append(1))
    s.register_move_made(lambda: moved.append(1))
    o = _Obj()
    lab = np.array([0., 1., 1.])
    s.start_new_component(lab, np.zeros((3, 1)), o, np.arange(3))
    draw, us = c.draw_unit, []

    def draw_unit():
        us.append(draw())
        return us[-1]
    c.draw_unit = draw_unit
    cnt = 0
    try:
        for k in range(cube["calls"]):
            if k == 2:      # a new round
                temp = temp * 0.5
                s.update_temperature(temp)
                s.reset()
                cnt = 0
                del told[:]
            o.d = c.real("d%d" % k)
            del us[:]
            m0 = len(moved)
            ok, res = K.guarded(c, lambda: s(1, 0., lab), "strategy")
            if not ok:
                return
            res = bool(res)
            c.check(lab.tolist() == [0., 1., 1.], "the criterion changed the labels")
            c.check((len(moved) - m0 > 0) == res, "observers of moves are told about refused moves "
                    "or not told about a move")
            if not c.truth(o.d > 0):
                c.check(res, "a move that does not worsen the objective was refused")
                continue
            c.check(len(us) == 1, "%d acceptance numbers drawn for one worsening move" % len(us))
            prob = exp(c, -o.d / temp)
            if res:
                cnt += 1
                c.check(c.lt(us[0], prob), "move allowed against the Metropolis rule")
            else:
                c.check(c.le(prob, us[0]), "move refused against the Metropolis rule")
            c.check((len(told) > 0) == (cnt >= term), "end of the round after %d worsening moves "
                    "instead of %d" % (cnt, term))
            c.reach("rule")
    finally:
        del c.draw_unit


FUNCS = ["AllowMoveAZPSimulatedAnnealing.__call__", "AZPSimulatedAnnealing.fit_from_scipy_sparse_"
         "matrix", "AZP._azp_connected_component", "ObjectiveFunctionPairwise.update"]
BOUNDS = {
    "quick": "the acceptance criterion alone: <= 3 decisions, every difference, every temperature "
             "> 0, every acceptance number; within fits on the 6 connected graphs on 4 areas, all "
             "graphs on 3 and two graphs on 5-6 areas: dissimilarities fixed (exact exp) or 1 free, "
             "2-3 consecutive acceptance numbers free, cooling factor 1/2, max_iterations <= 3, "
             "<= 3 annealing moves per round"
             "; four maps of 11-20 areas, up to 10 regions, with fixed dissimilarities"
             "; disconnected maps on 4-7 areas",
    "thorough": "as quick with <= 4 decisions, 2 free dissimilarities, more windows and draws",
}
ASSUME = ["exp() of a symbolic difference is an uninterpreted function; a counterexample is "
          "decided again with exact exp at its dissimilarities",
          "real arithmetic instead of floating point", "index draws outside the window follow a "
          "fixed policy", "runs of AZP are observed at its public fit method"]
REACH = ["rule", "not worsening", "worsening move made", "worsening move refused", "round 1"]
