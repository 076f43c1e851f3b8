"""Sparse matrices whose entries are symbolic, and what csgraph documents about
them: connected_components is the exact closure of the edge relation,
minimum_spanning_tree is *any* minimum spanning forest."""
import functools
import itertools

import numpy as np

from . import engine
from .engine import SymBool, SymNum, SymArray, z3, Unsupported, symarray


def _idx(sel, n):
    if isinstance(sel, slice):
        return list(range(n))[sel]
    a = np.asarray(sel)
    if a.dtype == bool:
        return np.nonzero(a.reshape(-1))[0].tolist()
    return [i + n if i < 0 else int(i) for i in a.reshape(-1).tolist()]


class SymSparse:
    """e: dict (i, j) -> (presence, value); presence is a bool or SymBool."""
    ndim = 2
    dtype = np.dtype(float)

    def __init__(self, shape, e):
        self.shape = shape
        self.e = e
        self._real = None

    # ---- symbolic fast paths
    def __getitem__(self, key):
        n, m = self.shape
        if isinstance(key, tuple):
            a, b = key
            if isinstance(a, (int, np.integer)) and isinstance(b, (int, np.integer)):
                return self.realise()[a, b]
            if isinstance(a, np.ndarray) and isinstance(b, np.ndarray) and a.ndim == 2 \
                    and b.ndim == 2 and a.shape[1] == 1 and b.shape[0] == 1:
                rows, cols = _idx(a, n), _idx(b, m)       # outer indexing
            elif isinstance(a, slice) or isinstance(b, slice):
                if isinstance(a, (int, np.integer)):
                    a = [a]
                if isinstance(b, (int, np.integer)):
                    b = [b]
                rows, cols = _idx(a, n), _idx(b, m)
            else:
                return self.realise()[key]
        else:
            if isinstance(key, (int, np.integer)):
                key = [int(key)]
            rows, cols = _idx(key, n), list(range(m))
        e = {}
        for p, i in enumerate(rows):
            for q, j in enumerate(cols):
                if (i, j) in self.e:
                    e[p, q] = self.e[i, j]
        return SymSparse((len(rows), len(cols)), e)

    @property
    def T(self):
        return SymSparse(self.shape[::-1], {(j, i): v for (i, j), v in self.e.items()})

    def transpose(self):
        return self.T

    def tocsr(self, *a, **k):
        return self
    tocsc = tocoo = tolil = todok = copy = asformat = tocsr

    def astype(self, *a, **k):
        return self

    def present(self, i, j):
        p = self.e.get((i, j), (False, 0))[0]
        return p

    def realise(self):
        """Fork until every presence bit is decided; a real csr matrix."""
        from scipy.sparse import csr_matrix
        a = np.zeros(self.shape)
        for (i, j), (p, v) in sorted(self.e.items()):
            if bool(p):
                if isinstance(v, SymNum):
                    raise Unsupported("sparse operation on symbolic weights")
                a[i, j] = v
        return csr_matrix(a)

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        return getattr(self.realise(), name)

    def __len__(self):
        raise TypeError("sparse matrix length is ambiguous; use getnnz()")

    def concrete(self):
        return all(type(p) is bool and not isinstance(v, SymNum)
                   for p, v in self.e.values())

    def nonzero(self):
        if not self.concrete():
            return self.realise().nonzero()
        ks = sorted(k for k, (p, v) in self.e.items() if p and v)
        return (np.array([i for i, j in ks], dtype=np.int32),
                np.array([j for i, j in ks], dtype=np.int32))

    # ---- weights (SKATER)
    def multiply(self, other):
        other = np.asarray(other)
        e = {}
        for (i, j), (p, v) in self.e.items():
            w = other if other.ndim == 0 else other[i if other.shape[0] > 1 else 0,
                                                    j if other.shape[1] > 1 else 0]
            e[i, j] = (p, v * w)
        return SymSparse(self.shape, e)

    def _keys(self):
        return sorted(k for k, (p, v) in self.e.items() if bool(p))

    @property
    def data(self):
        return _DataView(self, [self.e[k][1] for k in self._keys()])

    @data.setter
    def data(self, values):
        for k, v in zip(self._keys(), list(values)):
            self.e[k] = (True, v)

    @property
    def nnz(self):
        return len(self._keys())

    def eliminate_zeros(self):
        for k in self._keys():
            v = self.e[k][1]
            if bool(v == 0):
                del self.e[k]
            else:
                self.e[k] = (True, v)


class _DataView(np.ndarray):
    """The explicit entries; writes go through to the matrix."""

    def __new__(cls, owner, vals):
        a = np.empty(len(vals), dtype=object)
        a[:] = vals
        a = a.view(cls)
        a.owner = owner
        return a

    def __array_finalize__(self, o):
        self.owner = None

    def __setitem__(self, k, v):
        np.ndarray.__setitem__(self, k, v)
        if self.owner is not None:
            for key, val in zip(self.owner._keys(), np.asarray(self).tolist()):
                self.owner.e[key] = (True, val)

    def __array_wrap__(self, out, context=None):
        return np.asarray(out) if out.dtype != object else out.view(SymArray)


# ------------------------------------------------------------------- closure
def _bz(p):
    return p.z3() if isinstance(p, SymBool) else z3.BoolVal(bool(p))


def closure(m):
    n = m.shape[0]
    r = [[z3.BoolVal(True) if i == j else
          z3.simplify(z3.Or(_bz(m.present(i, j)), _bz(m.present(j, i)))) for j in range(n)]
         for i in range(n)]
    for k in range(n):
        r = [[r[i][j] if i == j or i == k or j == k else
              z3.simplify(z3.Or(r[i][j], z3.And(r[i][k], r[k][j]))) for j in range(n)]
             for i in range(n)]
    return r


def _strong(m):
    n = m.shape[0]
    r = [[z3.BoolVal(True) if i == j else z3.simplify(_bz(m.present(i, j)))
          for j in range(n)] for i in range(n)]
    for k in range(n):
        r = [[r[i][j] if i == j or i == k or j == k else
              z3.simplify(z3.Or(r[i][j], z3.And(r[i][k], r[k][j]))) for j in range(n)]
             for i in range(n)]
    return [[z3.And(r[i][j], r[j][i]) for j in range(n)] for i in range(n)]


def connected_components(orig, csgraph, directed=True, connection="weak",
                         return_labels=True):
    if not isinstance(csgraph, SymSparse):
        return orig(csgraph, directed=directed, connection=connection,
                    return_labels=return_labels)
    c = engine.ctx()
    n = csgraph.shape[0]
    if n > 10 and not csgraph.concrete():
        # a formula for reachability would be too large: decide every entry
        csgraph = SymSparse((n, n), {ij: (True, 1.0) for ij, (p, v) in sorted(csgraph.e.items())
                                     if c.truth(p if isinstance(p, SymBool) else bool(p))
                                     and c.truth(v != 0)})
    if csgraph.concrete() and not (directed and connection == "strong"):
        lab = list(range(n))
        for (i, j), (p, v) in csgraph.e.items():
            if p and v:
                a, b = lab[i], lab[j]
                if a != b:
                    lab = [a if x == b else x for x in lab]
        first = {}
        lab = [first.setdefault(x, len(first)) for x in lab]
        if not return_labels:
            return len(first)
        return len(first), np.array(lab, dtype=np.int32)
    r = _strong(csgraph) if directed and connection == "strong" else closure(csgraph)
    if not return_labels:
        if n == 0:
            return 0
        roots = [z3.simplify(z3.Not(z3.Or([r[j][i] for j in range(i)] or
                                          [z3.BoolVal(False)]))) for i in range(n)]
        e = z3.Sum([z3.If(x, z3.RealVal(1), z3.RealVal(0)) for x in roots])
        key = ("int", "components", e.get_id())
        c.keep(e)
        return c._def(key, lambda: e)
    labels = -np.ones(n, dtype=np.int32)
    k = 0
    for i in range(n):
        if labels[i] >= 0:
            continue
        labels[i] = k
        for j in range(i + 1, n):
            if labels[j] < 0 and c.truth(SymBool.expr(r[i][j])):
                labels[j] = k
        k += 1
    return k, labels


@functools.lru_cache(None)
def trees(k):
    """All labelled trees on range(k), as sorted edge tuples."""
    if k == 1:
        return [()]
    out = []
    alle = list(itertools.combinations(range(k), 2))
    for es in itertools.combinations(alle, k - 1):
        comp = list(range(k))
        ok = True
        for i, j in es:
            a, b = comp[i], comp[j]
            if a == b:
                ok = False
                break
            comp = [a if x == b else x for x in comp]
        if ok:
            out.append(es)
    return out


def _path(tree, s, t):
    adj = {}
    for i, j in tree:
        adj.setdefault(i, []).append(j)
        adj.setdefault(j, []).append(i)
    st = [(s, [])]
    seen = {s}
    while st:
        x, p = st.pop()
        if x == t:
            return p
        for y in adj.get(x, ()):
            if y not in seen:
                seen.add(y)
                st.append((y, p + [tuple(sorted((x, y)))]))
    return None


def _one_mst(c, nodes, w):
    """Kruskal on many nodes, whose edges all differ: the tree is unique."""
    order = []
    for e in sorted(e for e in w if e[0] in nodes):
        for p, v in w[e]:
            if not c.truth(p if isinstance(p, SymBool) else bool(p)):
                raise engine.Unsupported("an edge that may not exist in a large graph")
        v = w[e][0][1]
        at = len(order)
        for k, f in enumerate(order):
            c.assume(c.neg(v == w[f][0][1]))
        for k, f in enumerate(order):
            if c.truth(v < w[f][0][1]):
                at = k
                break
        order.insert(at, e)
    comp = {i: i for i in nodes}
    t = []
    for i, j in order:
        if comp[i] != comp[j]:
            old = comp[j]
            for x in nodes:
                if comp[x] == old:
                    comp[x] = comp[i]
            t.append((i, j))
    return t


def minimum_spanning_tree(orig, csgraph, overwrite=False):
    if not isinstance(csgraph, SymSparse):
        return orig(csgraph, overwrite=overwrite)
    from scipy.sparse import csr_matrix
    if csgraph.concrete():
        return orig(csgraph.realise(), overwrite=overwrite)
    c = engine.ctx()
    n = csgraph.shape[0]
    # the same matrix always has the same tree
    key = ("mst", n, tuple((i, j, _bz(p).get_id(), _vkey(v))
                           for (i, j), (p, v) in sorted(csgraph.e.items())))
    if key not in c.notes:
        c.notes[key] = _any_mst(c, csgraph, n), [_bz(p) for p, v in csgraph.e.values()]
    return csr_matrix(c.notes[key][0])


def _vkey(v):
    return v.key() if isinstance(v, SymNum) else v


def _any_mst(c, csgraph, n):
    k, labels = connected_components(None, csgraph, directed=False)
    w = {}
    for (i, j), (p, v) in csgraph.e.items():
        w.setdefault((min(i, j), max(i, j)), []).append((p, v))
    a = np.zeros((n, n))
    for comp in range(k):
        nodes = [i for i in range(n) if labels[i] == comp]
        if len(nodes) > 7:
            t = _one_mst(c, nodes, w)
            for i, j in t:
                a[i, j] = 1.0
            continue
        cand = [t for t in trees(len(nodes))
                if all((nodes[i], nodes[j]) in w for i, j in t)]
        t = cand[c.choose(len(cand), "env")]
        t = [(nodes[i], nodes[j]) for i, j in t]
        for e in t:
            c.assume(engine.SymBool.expr(z3.Or([_bz(p) for p, v in w[e]])))
        weighted = any(isinstance(v, SymNum) and not v.is_const()
                       for e in w for p, v in w[e])
        units = len({_vkey(v) for e in w for p, v in w[e]}) <= 1
        if units and not weighted and not c.notes.get("any_mst"):
            # all entries alike: scipy goes through them in row order
            for e in w:
                if e not in t and labels[e[0]] == comp and e[0] in nodes and \
                        any(f > e for f in _path(t, e[0], e[1])):
                    for p, v in w[e]:
                        c.assume(~p if isinstance(p, SymBool) else not p)
        if weighted or not units:
            ties = []
            for e in w:
                if e in t or labels[e[0]] != comp or e[0] not in nodes:
                    continue
                for p, v in w[e]:
                    for f in _path(t, e[0], e[1]):
                        for p2, v2 in w[f][:1]:
                            c.assume(c.implies(p if isinstance(p, SymBool) else bool(p),
                                               v2 <= v))
                            tie = v2 == v
                            if tie is not False:
                                ties.append(tie)
            if ties:        # unique trees first: these scipy is sure to return
                if c.choose(2, "env"):
                    c.assume(c.either(*ties))
                    c.notes["tie"] = True
                else:
                    c.assume(c.neg(c.either(*ties)))
        c.assume_feasible()
        for i, j in t:
            a[i, j] = 1.0
    return a
