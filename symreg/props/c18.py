"""The threshold guard allows exactly the moves that keep both regions feasible."""
import itertools

import numpy as np

from .. import common as K
from .. import engine
from .. import heur as H

OPTIONS = dict(path_seconds=40, validate=2)


def cubes(tier, seed):
    T = tier == "thorough"
    out = []

    def add(**k):
        if "edges" in k:
            k["edges"] = H.norm(k["edges"])
        out.append(k)
    # the guard by itself
    for n in (2, 3, 4, 5) + ((6,) if T else ()):
        for m in (1, 2, 3):
            if m == 3 and n > 3 and not T:
                continue
            for form in ("vec", "one") + (("flat",) if m == 1 else ()):
                for q in range(1 if n < 5 else 2):
                    add(kind="guard", n=n, m=m, form=form, style=(n + m + q) % 3, calls=1,
                        parts=(q, 1 if n < 4 else 3 if n < 5 else 7),
                        deep=0)
    # several calls on the same guard, with moves made and components changed in between
    for n in (3, 4):
        for m in (1, 2):
            for style in (0, 1):
                add(kind="guard", n=n, m=m, form="vec" if style else "one", style=style,
                    calls=3 if T else 1 if m * n == 8 else 2, parts=(style, (2 if n < 4 else 5) if m < 2 or T else
                           (3 if n < 4 else 14)), deep=1)
    # what is refused is not done, whatever the local search
    for i, es in enumerate(K.classes(4)):
        for j, a in enumerate(("azp", "sa", "basic", "reactive")):
            for q in range(1 if not T else 3):
                add(kind="search", n=4, edges=K.shuffled(es, 4, seed), p=2, algo=a, free=0,
                    fs=seed + i + q, mod=2 + i % 3, style=q, win=(1 + i % 2, 1 + i % 2), pol=i % 4,
                    uwin=(1, 1), flags=6 if not T else 8, reps=2, tabu=1 + i % 3, maxit=4)
    for i, (n, es) in enumerate(((5, K.path_graph(5)), (5, K.cycle(5)), (6, K.grid(2, 3)))):
        for j, a in enumerate(("azp", "basic", "reactive")):
            for p in (2, 3):
                add(kind="search", n=n, edges=K.shuffled(es, n, seed), p=p, algo=a, free=0,
                    fs=seed + i, mod=3, inits=(i + p, 5), win=(1, 1), pol=i + j, flags=6, reps=2,
                    tabu=2, maxit=5)
    for i, (n, es) in enumerate(H.DISCONNECTED[:-1]):
        for j, a in enumerate(("azp", "sa", "basic", "reactive")):
            if n == 4 and (i + j) % 2:
                continue
            add(kind="search", n=n, edges=K.shuffled(es, n, seed + j), p=H.ncomp(n, es) + 1 - (n == 4),
                algo=a, free=0, fs=seed + i, mod=3, inits=(i, 2 if n > 4 else 1), win=(1, 1), pol=i + j,
                flags=4, reps=2, tabu=2, maxit=4, uwin=(1, 1))
    for q, d in enumerate(H.large(tier, seed)):
        a = ("azp", "basic", "reactive")[q % 3]
        add(**dict(d, kind="search", algo=a, free=0, flags=6, reps=1, tabu=4 + 9 * (q % 2), maxit=9))
    return out


def harness(c, cube):
    (guard if cube["kind"] == "guard" else search)(c, cube)


def guard(c, cube):
    from region.p_regions.azp_util import AllowMoveAZPMaxPRegions, AllowMoveStrategy
    n, m, form = cube["n"], cube["m"], cube["form"]
    N = n + 2 if cube["deep"] else n        # areas of the whole map
    S = [[c.real("S[%d,%d]" % (i, j), group="scaleS") for j in range(m)] for i in range(N)]
    T = [c.real("T[%d]" % j, group="scaleS") for j in range(1 if form != "vec" else m)]
    arr = K.array2d(c, S)
    if form == "flat":
        arr = arr[:, 0]
    th = K.array2d(c, [T])[0] if form == "vec" else T[0]
    T = T * m if len(T) < m else T

    def reaches(block):
        out = []
        for j in range(m):
            tot = S[block[0]][j]
            for i in block[1:]:
                tot = tot + S[i][j]
            out.append(c.le(T[j], tot))
        return c.both(*out)
    asked, begun = [], []
    answers = {}

    class Stub(AllowMoveStrategy):
        def start_new_component(self, initial_labels, attr, objective_func, comp_idx):
            begun.append((np.array(initial_labels).tolist(), np.array(attr).tolist(),
                          objective_func, np.array(comp_idx).tolist()))
            super().start_new_component(initial_labels, attr, objective_func, comp_idx)

        def __call__(self, area, region, labels):
            asked.append((int(area), float(region), [float(x) for x in np.asarray(labels)]))
            k = len(asked)
            if k not in answers:
                answers[k] = c.flag("answer%d" % k)
            return answers[k]
    g = AllowMoveAZPMaxPRegions(arr, th, Stub())
    before = arr.copy()
    attr_all = K.ids(N)

    def objective(labels, attr):
        return 0.0
    comps = [list(range(n))]
    if cube["deep"]:
        comps = [[0, 2] + list(range(3, N - 1)), [1, N - 1]] if c.flag("order") else \
            [[1, N - 1], [0, 2] + list(range(3, N - 1))]
    todo = cube["calls"]
    for comp in comps:
        k = len(comp)
        parts = [q for q in K.partitions(k) if max(q) > 0 or len(comps) > 1]
        st, step = cube["parts"]
        parts = parts[st % min(step, len(parts))::step]
        part = parts[c.choose(len(parts), "partition")]
        labels = H.relabelled(part, cube["style"])
        kind = np.array
        ok, _ = K.guarded(c, lambda: g.start_new_component(
            labels, attr_all[comp], objective, kind(comp)), "start_new_component")
        if not ok:
            return
        c.check(begun and begun[-1][:2] == (labels.tolist(), attr_all[comp].tolist()) and
                begun[-1][2] is objective and begun[-1][3] == comp,
                "the decorated strategy was not told of the new component: %s" % (begun[-1:],))
        for _ in range(todo):
            lab = labels.tolist()
            moves = [(a, r) for a in range(k) for r in sorted(set(lab))
                     if r != lab[a] and lab.count(lab[a]) > 1]
            if not moves:
                break
            a, r = moves[c.choose(len(moves), "move")]
            donor = [comp[x] for x in range(k) if lab[x] == lab[a]]
            rec = [comp[x] for x in range(k) if lab[x] == r]
            c.assume(c.both(reaches(donor), reaches(rec)))
            n_asked = len(asked)
            ok, res = K.guarded(c, lambda: g(a, r, labels), "the guard")
            if not ok:
                return
            res = bool(res)
            c.check(labels.tolist() == lab, "the guard changed the labels")
            after = c.both(reaches([x for x in donor if x != comp[a]]), reaches(rec + [comp[a]]))
            passed = len(asked) > n_asked
            what = "moving area %d of %s to region %s" % (a, lab, r)
            if passed:
                c.check(after, what + ": passed on though a region falls below the threshold")
                c.check(asked[-1] == (a, float(r), [float(x) for x in lab]),
                        what + ": the decorated strategy was asked about %s" % (asked[-1],))
                c.check(len(asked) == n_asked + 1, what + ": the decorated strategy was asked twice")
                c.check(res == answers[len(asked)],
                        what + ": the decorated strategy says %s, the guard %s"
                        % (answers[len(asked)], res))
                c.reach("passed on")
                if res:
                    labels[a] = r
                    c.reach("allowed")
            else:
                c.check(not res, what + ": allowed without asking the decorated strategy")
                c.check(c.neg(after), what + ": refused though both regions reach the threshold")
                c.reach("refused")
    c.check(all(c.same(x, y) for x, y in zip(arr.reshape(-1).tolist(),
                                             before.reshape(-1).tolist())),
            "the spatially extensive attributes have been modified")


def search(c, cube):
    """The local searches only make moves their strategy has allowed."""
    from region.p_regions import azp_util as U
    seen = {}           # labels observed, by component
    allowed = set()

    def key(labels):
        return tuple(float(x) for x in np.asarray(labels, float).tolist())

    def objective(run):
        obj = K.spy_objective(c, run.metric,
                              update_hook=lambda a, r, labels, d: note(labels, obj.areas))
        return obj

    def note(labels, areas):
        e = key(labels)
        own = seen.setdefault(areas, [])
        if not own or own[-1] != e:
            own.append(e)
    r = H.Run(c, cube, objective)
    memo = {}

    def areas_of(attr):
        return tuple(int(np.asarray(x).reshape(-1)[0]) - 1 for x in attr)

    def answer(area, region, labels, attr):
        areas = areas_of(attr)
        note(labels, areas)
        k = (areas, key(labels), int(area), float(region))
        if k not in memo:
            memo[k] = c.flag("allow %s" % (k,)) if len(memo) < cube["flags"] else \
                len(memo) % 3 == 0 and len(memo) < 3 * cube["flags"]
        if memo[k]:
            allowed.add(k)
        return memo[k]

    class Strategy(U.AllowMoveStrategy):
        def __call__(self, area, region, labels):
            d = self.objective_func.update(area, region, labels, self.attr)
            if d <= 0 and answer(area, region, labels, self.attr):
                self.objective_val += d
                return True
            return False

    class Free(U.AllowMoveStrategy):
        def __call__(self, area, region, labels):
            return answer(area, region, labels, self.attr)
    model = H.make(cube)
    if cube["algo"] == "sa":
        # annealing asks its own strategy behind the max-p guard
        sa_call = U.AllowMoveAZPSimulatedAnnealing.__call__

        def spied(self, area, region, labels):
            k = (areas_of(self.attr), key(labels), int(area), float(region))
            note(labels, k[0])
            res = sa_call(self, area, region, labels)
            memo[k] = bool(res)
            if res:
                allowed.add(k)
            return res
        U.AllowMoveAZPSimulatedAnnealing.__call__ = spied
    else:
        model.allow_move_strategy = Strategy() if cube["algo"] == "azp" else Free()
    try:
        ok, labels = K.guarded(c, lambda: r.fit(model), "fit")
    finally:
        if cube["algo"] == "sa":
            U.AllowMoveAZPSimulatedAnnealing.__call__ = sa_call
    if not ok:
        return
    for areas, own in seen.items():
        own.append(key(np.asarray(labels)[list(areas)]))
        for x, y in zip(own, own[1:]):
            ch = [i for i in range(len(areas)) if x[i] != y[i]]
            if not ch:
                continue
            if len(ch) != 1:
                c.reach("moves not observable")
                return
            a = ch[0]
            c.check((areas, x, a, y[a]) in allowed,
                    "area %d of %s was moved to region %s, which the strategy %s"
                    % (areas[a], x, y[a],
                       "refused" if (areas, x, a, y[a]) in memo else "was not asked about"))
            c.reach("move")
    c.record(key(labels))


FUNCS = ["AllowMoveAZPMaxPRegions.__call__", "AllowMoveAZPMaxPRegions.start_new_component",
         "AZP._azp_connected_component", "AZPBasicTabu._azp_connected_component",
         "AZPReactiveTabu._azp_connected_component", "AZPTabu._make_move",
         "AZPSimulatedAnnealing.fit_from_scipy_sparse_matrix"]
BOUNDS = {
    "quick": "the guard: components of 2-5 areas, 1-3 spatially extensive attributes of any sign "
             "and any threshold (one for all or one per attribute), all moves on all partitions "
             "(every 3rd on 4, every 7th on 5 areas), up to 2 calls on each of two components in "
             "either order; the local searches: connected graphs on 4 areas and three on 5-6, "
             "disconnected ones on 4-5, four maps of 11-20 areas, the first 6 answers of the "
             "strategy arbitrary, one arbitrary random draw, dissimilarities fixed",
    "thorough": "as quick with components of 6 areas, 3 calls, 8 arbitrary answers",
}
ASSUME = ["real arithmetic instead of floating point",
          "the moves of a local search are observed as changes of the labels between evaluations "
          "of the objective or of the strategy",
          "both regions reach the threshold before the move (the guard's documented use)"]
REACH = ["passed on", "allowed", "refused", "move"]
