"""Environment model: what the code under test reaches outside /repo.

install(symbolic) must run before `region` is imported.  In symbolic runs it
also replaces, with stubs that only constrain what their documentation says,
 * the random generator          -> unknown function of (seed, number of draws)
 * math/numpy scalar functions   -> exact or axiomatised SMT terms
 * float()                       -> identity on symbolic reals
 * pulp's LpProblem.solve        -> "any optimal solution of the built model"
 * csgraph.connected_components / minimum_spanning_tree on symbolic graphs
In a concrete replay only the random generator is scripted."""
import builtins
import functools
import math
import random
import sys
import types

import numpy as np

from . import engine
from .engine import SymArray, SymNum, SymBool, z3, symarray, Unsupported

_orig = {}


def _is_sym(x):
    if isinstance(x, (SymNum, SymBool)):
        return True
    return isinstance(x, np.ndarray) and x.dtype == object and any(
        isinstance(e, (SymNum, SymBool)) for e in x.reshape(-1).tolist())


# ------------------------------------------------------------------- random
def _r(name):
    orig = getattr(random, name)
    _orig["random." + name] = orig

    def deco(f):
        @functools.wraps(f)
        def g(*a, **k):
            c = engine.CUR
            if c is None:
                return orig(*a, **k)
            return f(c, *a, **k)
        setattr(random, name, g)
        return g
    return deco


class ModelRandom:
    """random.Random(seed) as a private stream of the same model."""

    def __init__(self, x=None):
        self._c = engine.CUR
        self.seed(x)

    def __getattr__(self, name):
        f = getattr(random, name)

        def g(*a, **k):
            c = engine.CUR
            saved, c.rng_state = c.rng_state, self._st
            try:
                return f(*a, **k)
            finally:
                self._st, c.rng_state = c.rng_state, saved
        return g

    def seed(self, x=None, version=2):
        c = engine.CUR
        saved = c.rng_state
        c.rng_seed(x)
        self._st, c.rng_state = c.rng_state, saved


def _install_random():
    @_r("seed")
    def seed(c, a=None, version=2):
        c.rng_seed(a)

    @_r("random")
    def rnd(c):
        return c.draw_unit()

    @_r("randrange")
    def randrange(c, start, stop=None, step=1):
        if stop is None:
            start, stop = 0, start
        vals = range(int(start), int(stop), int(step))
        return vals[c.draw_index(len(vals))]

    @_r("randint")
    def randint(c, a, b):
        return a + c.draw_index(b - a + 1)

    @_r("choice")
    def choice(c, seq):
        if not len(seq):
            raise IndexError("Cannot choose from an empty sequence")
        return seq[c.draw_index(len(seq))]

    @_r("choices")
    def choices(c, population, weights=None, *, cum_weights=None, k=1):
        return [population[c.draw_index(len(population))] for _ in range(k)]

    @_r("sample")
    def sample(c, population, k, **kw):
        p = list(population)
        if k > len(p):
            raise ValueError("Sample larger than population or is negative")
        return [p.pop(c.draw_index(len(p))) for _ in range(k)]

    @_r("shuffle")
    def shuffle(c, x):
        for i in reversed(range(1, len(x))):
            j = c.draw_index(i + 1)
            x[i], x[j] = x[j], x[i]

    @_r("uniform")
    def uniform(c, a, b):
        return a + (b - a) * c.draw_unit()

    @_r("getrandbits")
    def getrandbits(c, k):
        return c.draw_index(1 << k)

    @_r("getstate")
    def getstate(c):
        return c.rng_state

    @_r("setstate")
    def setstate(c, s):
        c.rng_state = s

    Orig = random.Random

    class Dispatch(type(Orig)):
        def __call__(cls, *a, **k):
            if engine.CUR is None:
                return Orig(*a, **k)
            return ModelRandom(*a, **k)

        def __instancecheck__(cls, o):
            return isinstance(o, (Orig, ModelRandom))
    random.Random = Dispatch("Random", (Orig,), {})

    # numpy's global generator: a second stream of the same model, never
    # seeded by random.seed
    def npr(name, f):
        orig = getattr(np.random, name)

        def g(*a, **k):
            c = engine.CUR
            if c is None:
                return orig(*a, **k)
            saved = c.rng_state
            c.rng_state = c.notes.get("npstate", (("fresh", "np"), 0))
            try:
                return f(c, *a, **k)
            finally:
                c.notes["npstate"] = c.rng_state
                c.rng_state = saved
        setattr(np.random, name, g)

    def np_randint(c, low, high=None, size=None, dtype=int):
        if high is None:
            low, high = 0, low
        if size is None:
            return low + c.draw_index(int(high - low))
        return np.array([low + c.draw_index(int(high - low))
                         for _ in range(int(np.prod(size)))]).reshape(size)

    def np_choice(c, a, size=None, replace=True, p=None):
        pop = list(range(a)) if isinstance(a, (int, np.integer)) else list(a)
        if size is None:
            return pop[c.draw_index(len(pop))]
        out = []
        for _ in range(int(np.prod(size))):
            i = c.draw_index(len(pop))
            out.append(pop[i] if replace else pop.pop(i))
        return np.array(out).reshape(size)

    def np_perm(c, x):
        pop = list(range(x)) if isinstance(x, (int, np.integer)) else list(x)
        return np.array([pop.pop(c.draw_index(len(pop))) for _ in range(len(pop))])

    def np_shuffle(c, x):
        for i in reversed(range(1, len(x))):
            j = c.draw_index(i + 1)
            x[i], x[j] = x[j], x[i]
    class NpGen:
        """numpy's RandomState and Generator objects: private streams."""

        def __init__(self, seed=None):
            c = engine.CUR
            saved = c.rng_state
            c.rng_seed(None if seed is None else ("np", repr(seed)))
            self._st, c.rng_state = c.rng_state, saved

        def __getattr__(self, name):
            f = NPF.get(name)
            if f is None:
                raise AttributeError(name)

            def g(*a, **k):
                c = engine.CUR
                saved, c.rng_state = c.rng_state, self._st
                try:
                    return f(c, *a, **k)
                finally:
                    self._st, c.rng_state = c.rng_state, saved
            return g

    def unit(c, *size, **k):
        return c.draw_unit()
    NPF = dict(randint=np_randint, integers=np_randint, choice=np_choice, permutation=np_perm,
               shuffle=np_shuffle, random=unit, rand=unit, random_sample=unit, uniform=unit,
               seed=lambda c, s=None: c.rng_seed(None if s is None else ("np", repr(s))))
    for name in ("RandomState", "default_rng"):
        def make(*a, _o=getattr(np.random, name), **k):
            return _o(*a, **k) if engine.CUR is None else NpGen(*a, **k)
        setattr(np.random, name, make)

    def system(*a, _o=random.SystemRandom, **k):
        if engine.CUR is None:
            return _o(*a, **k)
        return ModelRandom()        # a stream that no seed determines
    random.SystemRandom = system
    npr("seed", lambda c, s=None: c.rng_seed(s))
    npr("randint", np_randint)
    npr("choice", np_choice)
    npr("permutation", np_perm)
    npr("shuffle", np_shuffle)
    npr("random", lambda c, size=None: c.draw_unit())
    npr("rand", lambda c, *s: c.draw_unit())


# --------------------------------------------------------------------- math
def _wrap_math(mod, name, method):
    orig = getattr(mod, name)
    _orig[mod.__name__ + "." + name] = orig

    def g(*a, **k):
        x = a[0] if a else None
        if isinstance(x, np.ndarray) and x.dtype == object and x.size == 1 and mod is math:
            x = x.reshape(-1)[0]
            a = (x,) + a[1:]
        if isinstance(x, (SymNum, engine._Log10)):
            return method(x)
        return orig(*a, **k)
    g.__name__ = name
    setattr(mod, name, g)


def _np_pred(name, const):
    orig = getattr(np, name)
    _orig["numpy." + name] = orig

    def g(x, *a, **k):
        if isinstance(x, SymNum):
            return const
        if isinstance(x, np.ndarray) and x.dtype == object:
            r = np.array([const if isinstance(e, (SymNum, SymBool)) else bool(orig(e))
                          for e in x.reshape(-1).tolist()], dtype=bool).reshape(x.shape)
            return r if r.ndim else bool(r)
        return orig(x, *a, **k)
    setattr(np, name, g)


class _FloatMeta(type):
    def __instancecheck__(cls, o):
        return isinstance(o, builtins.float)

    def __subclasscheck__(cls, o):
        return issubclass(o, builtins.float)


class FloatShim(metaclass=_FloatMeta):
    """float() that is the identity on symbolic reals."""

    def __new__(cls, x=0.0):
        if isinstance(x, np.ndarray) and x.dtype == object and x.size == 1:
            x = x.reshape(-1)[0]
        if isinstance(x, SymNum):
            return x
        return builtins.float(x)


def _install_math():
    _wrap_math(math, "exp", lambda x: x.exp())
    _wrap_math(math, "log", lambda x: x.log())
    _wrap_math(math, "log10", lambda x: x.log10())
    _wrap_math(math, "sqrt", lambda x: x.sqrt())
    _wrap_math(math, "floor", lambda x: x.__floor__())
    _wrap_math(math, "ceil", lambda x: x.__ceil__())
    _wrap_math(math, "fabs", lambda x: abs(x))
    _wrap_math(math, "isfinite", lambda x: True)
    _wrap_math(math, "isinf", lambda x: False)
    _wrap_math(math, "isnan", lambda x: False)
    _np_pred("isfinite", True)
    _np_pred("isnan", False)
    _np_pred("isinf", False)
    orig_fromiter = np.fromiter

    def fromiter(it, dtype=float, count=-1, **k):
        if engine.CUR is not None and engine.CUR.symbolic:
            vals = list(it)
            if any(_is_sym(v) for v in vals):
                return symarray([v.reshape(-1)[0] if isinstance(v, np.ndarray) else v
                                 for v in vals])
            it = vals
        return orig_fromiter(it, dtype=dtype, count=count, **k)
    np.fromiter = fromiter
    orig_finfo = np.finfo
    np.finfo = lambda d: orig_finfo(builtins.float if d is FloatShim else d)
    orig_floor = np.floor

    def npfloor(x, *a, **k):
        if isinstance(x, (SymNum, engine._Log10)):
            return x.__floor__()
        return orig_floor(x, *a, **k)
    np.floor = npfloor
    orig_log10 = np.log10

    def nplog10(x, *a, **k):
        if isinstance(x, np.ndarray) and x.dtype == object and x.size == 1:
            x = x.reshape(-1)[0]
        if isinstance(x, SymNum):
            return x.log10()
        return orig_log10(x, *a, **k)
    np.log10 = nplog10
    _install_numpy()


def _cells(x):
    x = np.asarray(x)
    return x, x.reshape(-1).tolist()


def _cmp_rows(p, q):
    """-1, 0 or 1: lexicographic order of two rows (branches on symbolic numbers)."""
    for x, y in zip(p, q):
        if x != y:
            return -1 if x < y else 1
    return 0


def _unique(ar, return_index=False, return_inverse=False, return_counts=False, axis=None, **k):
    ar = np.asarray(ar)
    if axis is None:
        rows = [[x] for x in ar.reshape(-1).tolist()]
    else:
        ar = np.moveaxis(ar, axis, 0)
        rows = [_cells(r)[1] for r in ar]
    order = sorted(range(len(rows)), key=functools.cmp_to_key(
        lambda i, j: _cmp_rows(rows[i], rows[j]) or i - j))
    first, inv = [], [0] * len(rows)
    counts = []
    for i in order:
        if not first or _cmp_rows(rows[first[-1]], rows[i]):
            first.append(i)
            counts.append(0)
        counts[-1] += 1
        inv[i] = len(first) - 1
    if axis is None:
        u = symarray([rows[i][0] for i in first])
    else:
        u = np.moveaxis(ar[first], 0, axis).view(SymArray)
    out = (u,)
    if return_index:
        out += (np.array(first, dtype=int),)
    if return_inverse:
        out += (np.array(inv, dtype=int),)
    if return_counts:
        out += (np.array(counts, dtype=int),)
    return out if len(out) > 1 else u


def _close(a, b, rtol=1e-5, atol=1e-8, equal_nan=False):
    """|a - b| <= atol + rtol * |b|, as numpy documents it."""
    a, b = np.broadcast_arrays(np.asarray(a), np.asarray(b))
    r = np.array([bool(abs(x - y) <= atol + rtol * abs(y)) for x, y in
                  zip(a.reshape(-1).tolist(), b.reshape(-1).tolist())], dtype=bool)
    r = r.reshape(a.shape)
    return r if r.ndim else bool(r)


def _bincount(x, weights=None, minlength=0):
    x = [int(i) for i in x]
    w = [1] * len(x) if weights is None else _cells(weights)[1]
    out = [0] * max(minlength, max(x, default=-1) + 1)
    for i, v in zip(x, w):
        out[i] = out[i] + v
    return symarray(out)


def _round(a, decimals=0, out=None):
    if isinstance(a, SymNum):
        return a.__round__(decimals)
    a = np.asarray(a)
    return symarray([round(x, decimals) for x in a.reshape(-1).tolist()]).reshape(a.shape)


def _cdist(a, b, metric="euclidean", **k):
    f = {"cityblock": manhattan, "manhattan": manhattan, "euclidean": euclid, "cosine": cosine,
         "sqeuclidean": lambda x, y: sum(((p - q) * (p - q) for p, q in zip(x, y)),
                                         SymNum.const(0))}.get(metric, metric)
    if not callable(f):
        raise Unsupported("distance %s" % metric)
    a, b = np.asarray(a), np.asarray(b)
    out = np.empty((len(a), len(b)), dtype=object)
    for i, x in enumerate(a.tolist()):
        for j, y in enumerate(b.tolist()):
            out[i, j] = f(x, y)
    return out.view(SymArray)


def _pdist(a, metric="euclidean", **k):
    d = _cdist(a, a, metric)
    return symarray([d[i, j] for i in range(len(d)) for j in range(i + 1, len(d))])


def _deep_sym(x):
    if isinstance(x, (list, tuple)):
        return any(_deep_sym(y) for y in x)
    return _is_sym(x)


class _ObjectNumpy(types.ModuleType):
    """numpy for the code under test, with new float arrays that can hold
    symbolic numbers."""

    def __init__(self):
        super().__init__("numpy")

    def __getattr__(self, name):
        return getattr(np, name)


def _object_numpy():
    m = _ObjectNumpy()

    def maker(name):
        orig = getattr(np, name)

        def g(*a, **k):
            r = orig(*a, **k)
            if engine.CUR is not None and engine.CUR.symbolic and r.dtype.kind == "f":
                r = r.astype(object).view(SymArray)
            return r
        functools.update_wrapper(g, orig)
        setattr(m, name, g)
    for name in ("zeros", "ones", "empty", "full", "zeros_like", "ones_like", "full_like"):
        maker(name)
    return m


def object_arrays(on):
    """Used when the code stores a symbolic number in a new array of floats."""
    a, b = (np, _object_numpy()) if on else (None, np)
    for name, mod in list(sys.modules.items()):
        if (name == "region" or name.startswith("region.")) and \
                isinstance(mod, types.ModuleType):
            v = mod.__dict__.get("np")
            if v is a or (not on and isinstance(v, _ObjectNumpy)):
                mod.__dict__["np"] = b


def _install_numpy():
    import scipy.spatial.distance as D

    def over(mod, name, f, deep=False):
        orig = getattr(mod, name)
        _orig[mod.__name__ + "." + name] = orig

        def g(*a, **k):
            if engine.CUR is not None and engine.CUR.symbolic and \
                    any(_deep_sym(x) for x in list(a) + list(k.values())):
                return f(*a, **k)
            return orig(*a, **k)
        functools.update_wrapper(g, orig)
        setattr(mod, name, g)
    over(np, "unique", _unique)
    over(np, "isclose", _close)
    over(np, "allclose", lambda *a, **k: bool(np.all(_close(*a, **k))))
    over(np, "bincount", _bincount)
    over(np, "round", _round)
    over(np, "around", _round)
    over(D, "cdist", _cdist)
    over(D, "pdist", _pdist)
    over(math, "fsum", lambda x: sum(x, SymNum.const(0)))
    over(math, "isclose", lambda a, b, *, rel_tol=1e-9, abs_tol=0.0: bool(
        abs(a - b) <= max(rel_tol * max(abs(a), abs(b)), abs_tol)))
    import statistics
    over(statistics, "mean", lambda x: sum(x, SymNum.const(0)) / len(list(x)))
    for name in ("array", "asarray"):
        orig = getattr(np, name)

        def g(x, dtype=None, *a, _o=orig, **k):
            if engine.CUR is not None and dtype is not None and dtype is not object and \
                    engine.CUR.symbolic and _deep_sym(x):
                try:
                    kind = np.dtype(builtins.float if dtype is FloatShim else dtype).kind
                except TypeError:
                    kind = "?"
                if kind == "f":
                    return symarray(_o(x, dtype=object))
            if dtype is FloatShim:
                dtype = builtins.float
            return _o(x, dtype, *a, **k)
        functools.update_wrapper(g, orig)
        setattr(np, name, g)


# --------------------------------------------------------------------- pulp
def _install_pulp_conc():
    """Concrete runs: quiet solver, or the recorded optimal solution."""
    import pulp
    P = pulp.pulp if hasattr(pulp, "pulp") else sys.modules["pulp.pulp"]
    orig = P.LpProblem.solve

    def solve(self, solver=None, **kw):
        c = engine.CUR
        if c is None:
            return orig(self, solver, **kw)
        if solver is not None and hasattr(solver, "msg"):
            solver.msg = 0
        from . import mip
        return mip.scripted(c, self, orig, solver, kw, P)
    P.LpProblem.solve = solve


def _install_pulp():
    import pulp
    P = pulp.pulp if hasattr(pulp, "pulp") else sys.modules["pulp.pulp"]
    Aff = P.LpAffineExpression

    def addterm(self, key, value):
        y = self.get(key, None)
        if y is None:
            self[key] = value
        else:
            self[key] = y + value
    orig_addterm = Aff.addterm

    def addterm_d(self, key, value):
        if engine.CUR is not None and engine.CUR.symbolic:
            return addterm(self, key, value)
        return orig_addterm(self, key, value)
    Aff.addterm = addterm_d
    orig_mul = Aff.__mul__

    def mul(self, other):
        if isinstance(other, np.ndarray) and other.size == 1:
            other = other.reshape(-1)[0]
        if isinstance(other, SymNum):
            e = self.emptyCopy()
            e.constant = self.constant * other
            for v, x in self.items():
                e[v] = other * x
            return e
        return orig_mul(self, other)
    Aff.__mul__ = mul
    Aff.__rmul__ = mul
    orig_bool = Aff.__bool__

    def bool_(self):
        if len(self):
            return True
        return orig_bool(self)
    Aff.__bool__ = bool_
    orig_add = Aff.addInPlace

    def addInPlace(self, other):
        if isinstance(other, SymNum):
            self.constant = self.constant + other
            return self
        return orig_add(self, other)
    Aff.addInPlace = addInPlace
    orig_sub = Aff.subInPlace

    def subInPlace(self, other):
        if isinstance(other, SymNum):
            self.constant = self.constant - other
            return self
        return orig_sub(self, other)
    Aff.subInPlace = subInPlace

    orig_solve = P.LpProblem.solve
    _orig["solve"] = orig_solve

    def solve(self, solver=None, **kw):
        c = engine.CUR
        if c is None or not c.symbolic:
            if solver is not None and hasattr(solver, "msg"):
                solver.msg = 0
            if c is not None:
                from . import mip
                return mip.scripted(c, self, orig_solve, solver, kw, P)
            return orig_solve(self, solver, **kw)
        from . import mip
        return mip.solve(c, self, P)
    P.LpProblem.solve = solve


# ------------------------------------------------------------------ csgraph
def _install_csgraph():
    import scipy.sparse.csgraph as csg
    from . import symgraph
    for name in ("connected_components", "minimum_spanning_tree"):
        orig = getattr(csg, name)
        _orig["csgraph." + name] = orig

        def g(*a, _f=getattr(symgraph, name), _o=orig, **k):
            return _f(_o, *a, **k)
        functools.update_wrapper(g, orig)
        setattr(csg, name, g)


# ------------------------------------------------------------------ sklearn
def _rows(X):
    X = np.asarray(X)
    return X.reshape(1, -1) if X.ndim == 1 else X


def manhattan(x, y):
    return sum((abs(a - b) for a, b in zip(x, y)), SymNum.const(0))


def euclid(x, y):
    return sum(((a - b) * (a - b) for a, b in zip(x, y)), SymNum.const(0)).sqrt()


def cosine(x, y):
    """Uninterpreted, symmetric, zero between equal points."""
    c = engine.ctx()
    kx, ky = (tuple(SymNum.lift(e).key() for e in r) for r in (x, y))
    if kx == ky:
        return SymNum.const(0)
    if repr(kx) > repr(ky):
        kx, ky = ky, kx
    return c._def(("cos", kx, ky), lambda: z3.Real("cos!%d" % len(c.atoms)))


def _install_sklearn():
    import sklearn.metrics
    import sklearn.metrics.pairwise as P
    for name, f in (("manhattan_distances", manhattan), ("euclidean_distances", euclid),
                    ("cosine_distances", cosine), ("paired_distances", None)):
        orig = getattr(P, name)
        if f is None:
            continue

        def g(X, Y=None, *a, _f=f, _o=orig, **k):
            if not (_is_sym(X) or (Y is not None and _is_sym(Y))):
                return _o(X, Y, *a, **k)
            X = _rows(X)
            Y = X if Y is None else _rows(Y)
            if not len(X) or not len(Y):
                raise ValueError("Found array with 0 sample(s)")
            if X.shape[1] != Y.shape[1]:
                raise ValueError("Incompatible dimension for X and Y matrices")
            out = np.empty((len(X), len(Y)), dtype=object)
            for i, x in enumerate(X.tolist()):
                for j, y in enumerate(Y.tolist()):
                    out[i, j] = _f(x, y)
            return out.view(SymArray)
        functools.update_wrapper(g, orig)
        for mod in (P, sklearn.metrics):
            if hasattr(mod, name):
                setattr(mod, name, g)
        for d in (P.PAIRWISE_DISTANCE_FUNCTIONS,):
            for k, v in list(d.items()):
                if v is orig:
                    d[k] = g


REGION_MODULES = ["region.util", "region.csgraph_utils", "region.objective_function",
                  "region.p_regions.azp", "region.p_regions.azp_util",
                  "region.p_regions.exact", "region.max_p_regions.exact",
                  "region.max_p_regions.heuristics", "region.skater.skater"]


class _Null:
    def write(self, s):
        return len(s)

    def flush(self):
        pass


def install(symbolic=True):
    sys.dont_write_bytecode = True
    if sys.path[0] != "/repo":
        sys.path.insert(0, "/repo")
    import warnings
    warnings.simplefilter("ignore")
    import networkx  # noqa: F401  (before patching: module-level generators)
    import scipy.sparse.csgraph  # noqa: F401
    import sklearn.metrics.pairwise  # noqa: F401
    import libpysal  # noqa: F401
    import pulp  # noqa: F401
    _install_random()
    if symbolic:
        _install_math()
        _install_pulp()
        _install_csgraph()
        _install_sklearn()
    else:
        _install_pulp_conc()
    import importlib
    for m in REGION_MODULES:
        mod = importlib.import_module(m)
        if not mod.__file__.startswith("/repo/"):
            raise RuntimeError("%s imported from %s" % (m, mod.__file__))
    if symbolic:
        for name, mod in list(sys.modules.items()):
            if (name == "region" or name.startswith("region.")) and \
                    isinstance(mod, types.ModuleType):
                mod.__dict__["float"] = FloatShim
                if "csr_matrix" in mod.__dict__:
                    mod.__dict__["csr_matrix"] = _csr_dispatch(mod.__dict__["csr_matrix"])


def _csr_dispatch(orig):
    from . import symgraph

    class Meta(type):
        def __call__(cls, x, *a, **k):
            if isinstance(x, symgraph.SymSparse):
                return x
            return orig(x, *a, **k)

        def __instancecheck__(cls, o):
            return isinstance(o, (orig, symgraph.SymSparse))
    return Meta("csr_matrix", (), {})


def silence():
    sys.stdout = _Null()
