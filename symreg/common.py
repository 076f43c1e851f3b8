"""Shared by the property harnesses: graphs, partitions, symbolic metrics and
the independent oracles."""
import functools
import hashlib
import itertools
import random as _random

import numpy as np

from . import engine
from .engine import SymNum, symarray, Control


# ------------------------------------------------------------------- graphs
def all_edges(n):
    return list(itertools.combinations(range(n), 2))


def components(n, edges):
    comp = list(range(n))
    for i, j in edges:
        a, b = comp[i], comp[j]
        if a != b:
            comp = [a if x == b else x for x in comp]
    first = {}
    return [first.setdefault(x, len(first)) for x in comp]


@functools.lru_cache(None)
def graphs(n, connected=True):
    """All labelled graphs on n nodes, as edge tuples."""
    out = []
    E = all_edges(n)
    for k in range(1 << len(E)):
        es = tuple(E[b] for b in range(len(E)) if k >> b & 1)
        if not connected or max(components(n, es)) == 0:
            out.append(es)
    return out


@functools.lru_cache(None)
def classes(n, connected=True):
    """One representative per isomorphism class."""
    seen, out = set(), []
    perms = list(itertools.permutations(range(n)))
    for es in graphs(n, connected):
        if es in seen:
            continue
        out.append(es)
        for p in perms:
            seen.add(tuple(sorted(tuple(sorted((p[i], p[j]))) for i, j in es)))
    return out


def relabel(es, perm):
    return tuple(sorted(tuple(sorted((perm[i], perm[j]))) for i, j in es))


def shuffled(es, n, seed):
    r = _random.Random(repr((es, n, seed)))
    p = list(range(n))
    r.shuffle(p)
    return relabel(es, p)


def path_graph(n):
    return tuple((i, i + 1) for i in range(n - 1))


def cycle(n):
    return tuple(sorted(path_graph(n) + ((0, n - 1),)))


def star(n):
    return tuple((0, i) for i in range(1, n))


def grid(r, c):
    es = []
    for i in range(r):
        for j in range(c):
            if j + 1 < c:
                es.append((i * c + j, i * c + j + 1))
            if i + 1 < r:
                es.append((i * c + j, (i + 1) * c + j))
    return tuple(sorted(es))


def nbrs(n, edges):
    a = [set() for _ in range(n)]
    for i, j in edges:
        a[i].add(j)
        a[j].add(i)
    return a


def csr(n, edges):
    """The adjacency handed to the code: scipy's csr matrix in concrete runs,
    an equivalent light-weight one in symbolic runs."""
    if engine.CUR is not None and engine.CUR.symbolic:
        from .symgraph import SymSparse
        e = {}
        for i, j in edges:
            e[i, j] = e[j, i] = (True, 1.0)
        return SymSparse((n, n), e)
    from scipy.sparse import csr_matrix
    a = np.zeros((n, n))
    for i, j in edges:
        a[i, j] = a[j, i] = 1
    return csr_matrix(a)


# --------------------------------------------------------------- partitions
@functools.lru_cache(None)
def partitions(n, p=None):
    """Restricted growth strings with exactly p blocks (any p when None)."""
    out = []

    def rec(pre, k):
        if len(pre) == n:
            if p is None or k == p:
                out.append(tuple(pre))
            return
        for v in range(min(k + 1, n if p is None else p)):
            rec(pre + [v], max(k, v + 1))
    rec([], 0)
    return out


def connected_set(nodes, adj):
    nodes = set(nodes)
    if not nodes:
        return False
    st = [next(iter(nodes))]
    seen = set(st)
    while st:
        x = st.pop()
        for y in adj[x]:
            if y in nodes and y not in seen:
                seen.add(y)
                st.append(y)
    return seen == nodes


def blocks(labels):
    d = {}
    for i, x in enumerate(labels):
        d.setdefault(x, []).append(i)
    return list(d.values())


def contiguous(labels, adj):
    return all(connected_set(b, adj) for b in blocks(labels))


@functools.lru_cache(None)
def valid_partitions(n, edges, p):
    adj = nbrs(n, edges)
    return [q for q in partitions(n, p) if contiguous(q, adj)]


def grown_partition(n, edges, p, seed):
    """One seeded partition into p contiguous parts of any sizes (None: impossible)."""
    comp, adj = components(n, edges), nbrs(n, edges)
    h = [hashlib.sha1(repr((n, p, seed, i)).encode()).digest() for i in range(n)]
    order = sorted(range(n), key=lambda i: h[i])
    heads = [min((i for i in range(n) if comp[i] == q), key=lambda i: h[i])
             for q in sorted(set(comp))]
    heads += [i for i in order if i not in heads][:max(0, p - len(heads))]
    if len(heads) != p:
        return None
    lab, step = {a: k for k, a in enumerate(heads)}, 0
    while len(lab) < n:
        free = [i for i in order if i not in lab and any(j in lab for j in adj[i])]
        a = free[step % len(free)]
        near = sorted(j for j in adj[a] if j in lab)
        lab[a] = lab[near[h[a][1] % len(near)]]
        step += 1
    return list(canon([lab[i] for i in range(n)]))


def some_partitions(cube):
    """All partitions of the areas, or the seeded ones of cube["some"] = ((p, seed), ...)."""
    n = cube["n"]
    if "some" in cube:
        return [grown_partition(n, cube.get("graph", tuple(all_edges(n))), p, s)
                for p, s in cube["some"]]
    return partitions(n)


def canon(labels):
    first = {}
    return tuple(first.setdefault(x, len(first)) for x in labels)


def plain(labels, n):
    """The result as a list of n numbers, or None when it is not one."""
    try:
        a = np.asarray(labels)
        if a.shape != (n,):
            return None
        out = []
        for x in a.tolist():
            if isinstance(x, (SymNum,)):
                if not x.is_const():
                    x = engine.ctx().concretise(x, "label")
                else:
                    x = x.c
            f = float(x)
            if f != f or f < 0:
                return None
            out.append(f)
        return out
    except Control:
        raise
    except Exception:
        return None


# ------------------------------------------------------------------- metric
class Metric:
    """A dissimilarity over points about which nothing is known but
    d(a,a) = 0, d >= 0 and symmetry: one symbolic real per pair of points.

    Points are the attribute rows; `rows` maps a row to its area, rows that no
    area has get their own symbols."""

    def __init__(self, c, rows=(), positive=False, zero=(), bound=None, prefix="D",
                 fixed=None, unit=False, gap=False):
        """fixed: {(i, j): number} for dissimilarities that are not symbolic;
        unit: counterexamples may not be scaled to integers."""
        self.group = None if unit else "scale" + prefix
        self.gap = gap          # nothing between 0 and 1/1024
        self.c = c
        self.ids = {}
        for i, r in enumerate(rows):
            self.ids.setdefault(self._row(r), "a%d" % i)
        self.positive = positive
        self.zero = set(zero)
        self.bound = bound
        self.fixed = {tuple(sorted("a%d" % x for x in p)): float(v)
                      for p, v in (fixed or {}).items()}
        self.calls = 0
        self.prefix = prefix
        self.memo = {}
        self.strange = False
        self.lift = False       # constants as proxies, too
        self.others = None      # a seed: most dissimilarities to rows that no area has are fixed

    @staticmethod
    def _row(r):
        return tuple(float(x) for x in np.asarray(r).reshape(-1).tolist())

    def _id(self, row):
        if row not in self.ids:
            self.strange = True
            self.ids[row] = "x" + repr(row)
        return self.ids[row]

    def d(self, i, j):
        """Between the areas i and j."""
        return self._d("a%d" % i, "a%d" % j)

    def _d(self, a, b):
        if a == b:
            return 0.0
        if a > b:
            a, b = b, a
        if (a, b) in self.zero:
            return 0.0
        if (a, b) in self.fixed:
            return self.c.scaled(self.fixed[a, b], self.group)
        if self.others is not None and b[0] == "x" and (a, b) not in self.memo:
            h = hashlib.sha1(repr((self.others, a, b)).encode()).digest()
            if h[1] % 48 or len(self.memo) > 7:
                v = self.c.scaled(float(h[0] % 97), self.group)
                if not h[1] % 48:
                    self.memo[a, b] = v
                return v
        k = (a, b)
        if k not in self.memo:
            v = self.c.real("%s[%s,%s]" % (self.prefix, a, b), group=self.group)
            self.c.assume(v > 0 if self.positive else v >= 0)
            if self.bound is not None:
                self.c.assume(v <= self.bound)
            if self.gap:
                self.c.assume(self.c.either(v == 0, v >= self.c.scaled(1, self.group) / 1024))
            self.memo[k] = v
        return self.memo[k]

    def __call__(self, X, Y=None, **kw):
        self.calls += 1
        self.c.tick()
        if Y is None:
            Y = X
        X, Y = np.asarray(X), np.asarray(Y)
        if X.ndim == 1:
            X = X.reshape(1, -1)
        if Y.ndim == 1:
            Y = Y.reshape(1, -1)
        out = [[self._d(self._id(self._row(x)), self._id(self._row(y))) for y in Y]
               for x in X]
        if not self.c.symbolic or self.c.pin_default is not None:
            return np.array(out, dtype=float).reshape(len(X), len(Y))
        a = np.empty((len(X), len(Y)), dtype=object)
        for i in range(len(X)):
            for j in range(len(Y)):
                a[i, j] = SymNum.lift(out[i][j]) if self.lift else out[i][j]
        return a.view(engine.SymArray)


def fix_all_but(n, free, seed, mod=8):
    """Seeded values for all pairs but `free` seeded ones."""
    h = {e: hashlib.sha1(repr((n, seed, e)).encode()).digest() for e in all_edges(n)}
    E = sorted(h, key=h.get)
    return {e: h[e][0] % mod for e in E[free:]}


def pairwise(c, metric, labels):
    """Sum of dissimilarities of all pairs sharing a region (the documented
    objective), independently of the code."""
    tot = SymNum.const(0) if c.symbolic else 0.0
    n = len(labels)
    for i in range(n):
        for j in range(i + 1, n):
            if labels[i] == labels[j]:
                tot = tot + metric.d(i, j)
    return tot


def ids(n, k=1):
    """Attribute rows that are just names of the areas."""
    if k == 1:
        return np.arange(1.0, n + 1).reshape(-1, 1)
    return np.array([[1.0 + i + 10.0 * q for q in range(k)] for i in range(n)])


def spy_objective(c, metric, hook=None, update_hook=None):
    from region.objective_function import ObjectiveFunctionPairwise

    class Spy(ObjectiveFunctionPairwise):
        def __call__(self, labels, attr):
            if hook is not None:
                hook(labels)
            return super().__call__(labels, attr)

        def update(self, moving_area, recipient_region, labels, attr):
            r = super().update(moving_area, recipient_region, labels, attr)
            if update_hook is not None:
                # which areas these are (their attributes are their names)
                self.areas = tuple(int(np.asarray(x).reshape(-1)[0]) - 1 for x in attr)
                update_hook(moving_area, recipient_region, labels, r)
            return r
    return Spy(metric)


def guarded(c, f, what, allow=()):
    """Call the code under test; an exception it raises breaks the property."""
    try:
        return True, f()
    except allow as e:
        return False, e
    except (engine.Violation, engine.Diverged):
        raise
    except Exception as e:
        import traceback
        tb = traceback.extract_tb(e.__traceback__)
        own = [t for t in tb if "/repo/" in t.filename] or tb
        c.check(False, "%s raised %s: %s (%s:%s)" % (
            what, type(e).__name__, e, own[-1].filename.split("/")[-1], own[-1].name))
        return False, e


def check_regionalization(c, labels, n, adj, p, what):
    lab = plain(labels, n)
    c.check(lab is not None, what + ": the result does not label every area")
    if lab is None:
        return None
    k = len(set(lab))
    c.check(k == p, what + ": %d regions instead of %d, labels %s" % (k, p, lab))
    c.check(contiguous(lab, adj), what + ": a region is not contiguous, labels %s" % (lab,))
    return lab


def unknown_graph(c, n, value=1.0, pairs=None, sure=()):
    """An arbitrary symmetric adjacency matrix on n areas: any of the pairs may
    be neighbors, those in `sure` are.  Returns the matrix and present(i, j), a
    truth value in either mode."""
    bits = {}
    for i, j in sure:
        bits[i, j] = bits[j, i] = True
    for i, j in all_edges(n) if pairs is None else pairs:
        bits[i, j] = bits[j, i] = c.bool("e%d_%d" % (i, j))

    def present(i, j):
        return bits.get((i, j), False)
    if c.symbolic:
        from .symgraph import SymSparse
        return SymSparse((n, n), {k: (b, value) for k, b in bits.items()}), present
    from scipy.sparse import csr_matrix
    a = np.zeros((n, n))
    for (i, j), b in bits.items():
        if b:
            a[i, j] = value
    return csr_matrix(a), present


def connected_formula(c, nodes, present):
    """Is the subgraph on `nodes` connected?  Stated with cuts: every proper
    part that holds the first node has an edge to the rest."""
    nodes = sorted(nodes)
    if not nodes:
        return False
    edges = [(i, j) for i, j in itertools.combinations(nodes, 2)
             if not isinstance(present(i, j), bool) or present(i, j)]
    if all(present(i, j) is True for i, j in edges):    # nothing unknown
        at = {x: k for k, x in enumerate(nodes)}
        return max(components(len(nodes), [(at[i], at[j]) for i, j in edges])) == 0
    conj = []
    for bits in range(1 << (len(nodes) - 1)):
        s = [nodes[0]] + [x for k, x in enumerate(nodes[1:]) if bits >> k & 1]
        rest = [x for x in nodes if x not in s]
        if rest:
            conj.append(c.either(*[present(i, j) for i in s for j in rest]))
    return c.both(*conj) if conj else True


def array2d(c, rows):
    """A 2-D array of numbers, symbolic ones included."""
    if not c.symbolic or c.pin_default is not None:
        return np.array([[float(x) for x in r] for r in rows])
    if not any(isinstance(x, SymNum) for r in rows for x in r):
        return np.array(rows, dtype=float)
    a = np.empty((len(rows), len(rows[0])), dtype=object)
    for i, r in enumerate(rows):
        for j, x in enumerate(r):
            a[i, j] = x if isinstance(x, SymNum) else float(x)
    return a.view(engine.SymArray)


def all_valid(n, edges):
    """Contiguous partitions with any number of blocks."""
    return [q for p in range(1, n + 1) for q in valid_partitions(n, edges, p)]
