"""The max-p heuristic returns a feasible solution."""
from .. import common as K
from .. import heur as H
from .. import maxp as M

OPTIONS = dict(path_seconds=40, validate=2)


def cubes(tier, seed):
    T = tier == "thorough"
    out = []

    def add(**k):
        k["edges"] = H.norm(k["edges"])
        out.append(k)
    ALGOS = ("none", "azp", "sa", "basic", "reactive")
    for n in (1, 2, 3):
        for es in K.classes(n, False):
            es = K.shuffled(es, n, seed)
            for a in ALGOS if n > 1 else ALGOS[:2]:
                add(n=n, edges=es, sp=(None,) * n, th=None, free=0 if a == "sa" else 1, algo=a,
                    win=(1, 6) if a == "none" else (1, 5), uwin=(1, 1), max_it=1, fs=seed, reps=1)
    SP = ((1, None, 2, 2), (None, 3, 1, 1), ((2, 1), (1, None), (3, 0), (1, 2)), (2, 1, None, 4))
    TH = (3, None, (2, 1), 4)
    WIN = ((1, 2), (3, 4), (5, 6), (7, 8))
    for i, es in enumerate(K.classes(4)):
        for j, a in enumerate(ALGOS):
            for q in range(2 if not T else 4):
                k = i + j + 2 * q
                add(n=4, edges=K.shuffled(es, 4, seed + q), sp=SP[k % 4], th=TH[k % 4], algo=a,
                    free=2 if a != "sa" else 0, fs=seed + k, win=WIN[(i + q) % 4], pol=k % 4,
                    max_it=1 + k % 2, uwin=(1 + k % 3, 1 + k % 3), reps=1 + q % 2)
    for n, es in H.DISCONNECTED:
        if n >= 4:
            for j, a in enumerate(ALGOS):
                add(n=n, edges=es, sp=(2, 1, 3, None, 1)[:n], th=1 + j % 2, algo=a, free=1, fs=seed + j,
                    win=WIN[j % 3], pol=j % 4, max_it=1, uwin=(1, 1))
    BIG = ((5, K.path_graph(5)), (5, K.cycle(5)), (5, K.star(5)), (6, K.grid(2, 3)),
           (7, ((0, 1), (1, 2), (2, 3), (3, 4), (4, 5), (5, 6), (1, 5), (0, 3))))
    for i, (n, es) in enumerate(BIG):
        for j, a in enumerate(ALGOS):
            for q in range(2 if not T else 6):
                k = i + j + q
                sp = (1, 2, None, 2, 1, 3, 1)[:n] if k % 2 else (2, 1, 1, 4, None, 1, 2)[:n]
                add(n=n, edges=K.shuffled(es, n, seed + q), sp=sp, th=3 + k % 3, algo=a,
                    free=1 if a != "sa" else 0, fs=seed + k, win=(1 + 2 * q + i, 2 + 2 * q + i),
                    pol=k % 4, max_it=1 + q % 2, uwin=(2, 2), reps=1)
    # long tabu lists and many ties, so that a tabu move is made for its value
    for i, (n, es) in enumerate(BIG[:4]):
        for q, tabu in enumerate((2, 3, 5)):
            add(n=n, edges=K.shuffled(es, n, seed + q), sp=(1, 2, None, 2, 1, 1)[:n], th=2 + q % 2,
                algo="basic", free=2, mod=1 + q % 2, fs=seed + i + q, win=(1 + 2 * q, 2 + 2 * q),
                pol=(i + q) % 4, max_it=1, uwin=(1, 1), tabu=tabu, reps=2 + q)
    for q, d in enumerate(M.large(tier, seed)):
        for a in ALGOS[q % 2::2]:
            if a == "sa":
                d = dict(d, free=0, max_it=1)
                if d["n"] == 20 and not T:
                    continue
            add(**dict(d, algo=a, uwin=(1, 1), maxit=8 if a == "reactive" else 1, reps=1, tabu=4))
    return out


def harness(c, cube):
    r = M.Run(c, cube)
    lab = r.fit()
    if lab is None:
        return
    r.check_feasible(lab)
    c.reach(cube.get("algo", "none"))
    if len(set(lab)) > 1:
        c.reach("several regions")
    c.record(lab)


FUNCS = ["MaxPRegionsHeu.fit_from_scipy_sparse_matrix", "grow_regions", "find_best_area",
         "assign_enclaves", "find_best_region_idx", "AllowMoveAZPMaxPRegions.__call__",
         "AllowMoveAZPMaxPRegions.start_new_component", "array_from_region_list",
         "find_sublist_containing", "the local searches (see C01, C04, C06, C07)"]
BOUNDS = {
    "quick": "every graph on 1-3 areas up to the order of its areas with arbitrary spatially "
             "extensive attributes >= 0, an arbitrary threshold > 0 that every component reaches, "
             "one arbitrary dissimilarity and the first 5-6 random draws; every connected graph on "
             "4 areas, given ones on 5-7 and disconnected ones, with one arbitrary spatially "
             "extensive value (and threshold), up to two arbitrary dissimilarities and two "
             "consecutive random draws, the others fixed; one or two attributes; 1-2 "
             "partitions grown; local search by AZP, annealing, both tabu variants"
             "; four maps of 11-20 areas with one arbitrary spatially extensive value",
    "thorough": "as quick with more windows of draws and numbers",
}
ASSUME = ["random draws outside the window follow a fixed policy",
          "real arithmetic instead of floating point"]
REACH = ["none", "azp", "sa", "basic", "reactive", "several regions"]
