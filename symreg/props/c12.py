"""The generator of initial solutions yields feasible regions, as many as asked
for, or raises ValueError."""
import numpy as np

from .. import common as K
from .. import heur as H

OPTIONS = dict(path_seconds=60, validate=3)


def cubes(tier, seed):
    T = tier == "thorough"
    out = []
    for n in (1, 2, 3):
        for p in range(-1, n + 2):
            out.append(dict(n=n, p=p))
    for p in range(0, 6):       # every graph on 4 areas
        wins = [(0, 0)] if p in (0, 1, 5) else [(s, s + 1) for s in range(1, 5 * (p - 1) + 3, 2)]
        for k, w in enumerate(wins if T else wins[::1]):
            out.append(dict(n=4, p=p, win=w, pol=(k + p) % 4, any=k % 3 == 1))
    # given graphs, more areas and draws
    gs = [(5, K.path_graph(5)), (5, K.star(5)), (5, K.cycle(5)), (6, K.grid(2, 3)),
          (6, ((0, 1), (1, 2), (2, 3), (1, 4), (4, 5))), (5, K.path_graph(3)),
          (7, K.path_graph(7)), (8, K.grid(2, 4))]
    gs += [(n, H.norm(es)) for n, es in H.DISCONNECTED]
    gs += [(6, ((0, 2), (2, 4), (1, 3), (3, 5))), (6, ((0, 5), (1, 4), (2, 3))),
           (6, ((0, 1), (1, 2), (0, 2), (3, 4)))]
    for i, (n, es) in enumerate(gs):
        es = K.shuffled(es, n, seed)
        k = H.ncomp(n, es)
        for p in range(max(0, k - 1), n + 2):
            for q in range(2 if not T else 6):
                s = 1 + 2 * ((i + p + 3 * q + seed) % (1 + 5 * max(p - k, 0) // 2))
                out.append(dict(n=n, edges=es, p=p, win=(s, s + (1 if n > 5 else 2) +
                                                         (1 if T else 0)),
                                pol=(i + q + p) % 4, any=(p + q) % 2 == 0))
    for i, (n, es) in enumerate(H.LARGE):
        es = H.norm(K.shuffled(es, n, seed + i))
        k = H.ncomp(n, es)
        for j, p in enumerate(sorted({k - 1, k, k + 1, 5, 10, n - 1, n, n + 1})):
            for q in range(1 if not T else 4):
                s = 1 + 3 * ((i + j + 2 * q + seed) % 5)
                out.append(dict(n=n, edges=es, p=p, win=(s, s + (n < 20)), pol=(i + j) % 4))
    if T:
        for p in (2, 3, 4):
            for s in range(1, 5 * p, 3):
                out.append(dict(n=5, p=p, win=(s, s), pol=p + s, any=s % 2 == 0))
    return out


def at_most(c, n, present, k):
    """The graph has at most k components: every choice of k+1 areas holds two
    that are connected."""
    import itertools
    if k < 1:
        return False

    def linked(i, j):
        rest = [x for x in range(n) if x not in (i, j)]
        conj = []
        for bits in range(1 << len(rest)):
            s = [i] + [x for q, x in enumerate(rest) if bits >> q & 1]
            o = [x for x in range(n) if x not in s]
            conj.append(c.either(*[present(a, b) for a in s for b in o]))
        return c.both(*conj)
    memo = {(i, j): linked(i, j) for i, j in K.all_edges(n)}
    conj = [c.either(*[memo[e] for e in itertools.combinations(q, 2)])
            for q in itertools.combinations(range(n), k + 1)]
    return c.both(*conj) if conj else True


def harness(c, cube):
    from region.util import generate_initial_sol
    n, p = cube["n"], cube["p"]
    c.window = tuple(cube["win"]) if "win" in cube else None
    c.policy = cube.get("pol", 0)
    c.notes["any_mst"] = cube.get("any", False)
    if "edges" in cube:
        edges = set(map(tuple, cube["edges"]))
        adj = K.csr(n, edges)
        k = H.ncomp(n, edges)

        def present(i, j):
            return (min(i, j), max(i, j)) in edges

        def few(k0):
            return k <= k0
    else:
        adj, present = K.unknown_graph(c, n)

        def few(k0):
            return at_most(c, n, present, k0)
    fine, res = K.guarded(c, lambda: list(generate_initial_sol(adj, p)), "generate_initial_sol",
                          allow=ValueError)
    if not fine:
        c.reach("refused")
        c.check(c.either(p > n, c.neg(few(p))), "ValueError for %d regions: %s" % (p, res))
        c.record("ValueError")
        return
    c.check(p <= n and p > 0, "no ValueError for %d regions of %d areas" % (p, n))
    c.check(few(p), "no ValueError for %d regions of a graph with more components" % p)
    region = [None] * n
    comp = [None] * n
    out = []
    for q, arr in enumerate(res):
        a = np.asarray(arr)
        c.check(a.shape == (n,), "an array of shape %s is yielded for %d areas" % (a.shape, n))
        for i, x in enumerate(a.tolist()):
            if x == -1:
                continue
            c.check(x >= 0 and x == int(x), "yielded label %s" % x)
            c.check(comp[i] is None, "area %d is labelled in two components" % i)
            comp[i], region[i] = q, x
        out.append(a.tolist())
    c.check(None not in region, "an area is labelled in no component: %s" % (out,))
    c.check(len(set(region)) == p, "%d regions instead of %d: %s" % (len(set(region)), p, out))
    for i, j in K.all_edges(n):
        if comp[i] != comp[j]:
            c.check(c.neg(present(i, j)), "neighbors in different components: %s" % (out,))
            c.check(region[i] != region[j], "a region in two components: %s" % (out,))
    for q in set(comp):
        c.check(K.connected_formula(c, [i for i in range(n) if comp[i] == q], present)
                if "edges" not in cube else
                K.connected_set([i for i in range(n) if comp[i] == q], K.nbrs(n, edges)),
                "a yielded component is not connected: %s" % (out,))
    for b in K.blocks(region):
        c.check(K.connected_formula(c, b, present) if "edges" not in cube else
                K.connected_set(b, K.nbrs(n, edges)), "a region is not contiguous: %s" % (out,))
    c.reach("yielded")
    if len(res) > 1:
        c.reach("several components")
    c.record(out)


FUNCS = ["generate_initial_sol", "distribute_regions_among_components",
         "_randomly_divide_connected_graph"]
BOUNDS = {
    "quick": "every graph on 1-4 areas (one symbolic bit per pair), every number of regions "
             "between -1 and one more than the areas; all random draws for up to 3 areas, any "
             "two consecutive draws arbitrary for 4; given graphs on 5-8 areas, connected and not, "
             "with 2-3 arbitrary draws"
             "; four maps of 11-20 areas",
    "thorough": "as quick with more and longer windows of arbitrary draws, every graph on 5 areas",
}
ASSUME = ["scipy's minimum spanning tree of equal weights is either the one Kruskal's algorithm "
          "finds in row order or, in every other cube, any spanning tree",
          "random draws outside the window follow a fixed policy"]
REACH = ["refused", "yielded", "several components"]
