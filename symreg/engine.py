"""Symbolic execution of the real Python code by re-execution.

The code under test runs in the ordinary interpreter.  Inputs are proxies
(`SymNum`, `SymBool`, object arrays of them) that carry exact linear forms over
SMT atoms; every truth test on a proxy asks z3 which outcomes are feasible
under the path condition and forks on all of them; every nondeterministic
choice (random draw, unknown input structure) is a fork as well.  Exploration
is depth first and exhaustive: a cube is finished only when every feasible
path was executed.  `Ctx.check` asks z3 for an assignment violating the
property on the current path; `unsat` discharges the obligation for every value.

The same harness code runs in two modes: symbolic (`SymCtx`) and concrete
(`ConcCtx`, plain floats and a script of choices), the latter for replaying a
counterexample on the unmodified code and for validating the encoding.
"""
import math
import numbers
import signal
import time
from fractions import Fraction

import numpy as np

from .loadz3 import z3


CUR = None          # the active context


# --------------------------------------------------------------- exceptions
class Control(BaseException):
    """Engine-level control flow: not an Exception, the code under test must
    not be able to swallow it."""


class PathCut(Control):
    """The path left the stated bounds."""


class Infeasible(Control):
    """The path condition became unsatisfiable by an assumption."""


class Unsupported(Control):
    """The code did something to a symbolic value the encoding cannot follow."""

    def __init__(self, *a):
        super().__init__(*a)
        if CUR is not None:
            CUR.lost = str(a[0]) if a else "unsupported"    # even if C code swallows it


class Inconclusive(Control):
    """The solver answered unknown."""


class Found(Control):
    """A violation was found on the current path."""


class Hang(Control):
    """The path ran past its time guard."""




def ctx():
    if CUR is None:
        raise RuntimeError("no active context")
    return CUR


def set_ctx(c):
    global CUR
    CUR = c


# ------------------------------------------------------------------ proxies
_NUM = (int, float, Fraction, np.number, np.bool_)


def _frac(x):
    """Exact value; plain ints wherever possible (they are much faster)."""
    if type(x) is int or type(x) is Fraction:
        return x
    if isinstance(x, (int, np.integer, np.bool_)):
        return int(x)
    if isinstance(x, Fraction):
        return x
    x = float(x)
    i = int(x)
    return i if i == x else Fraction(x)


def _div(a, b):
    if b == 1:
        return a
    if b == -1:
        return -a
    q = Fraction(a) / b
    return q.numerator if q.denominator == 1 else q


def _skey(kv):
    k = kv[0]
    return k if type(k) is str else repr(k)


class SymNum:
    """An exact linear form  const + sum coef*atom  over SMT atoms.

    Atoms are named reals/integers or hash-consed nonlinear terms."""
    __slots__ = ("t", "c", "_k")
    __array_priority__ = 1000.0
    ndim = 0
    shape = ()
    size = 1

    def __init__(self, terms, const):
        self.t = terms
        self.c = const
        self._k = None

    # -- construction
    @staticmethod
    def const(x):
        return SymNum({}, _frac(x))

    @staticmethod
    def atom(key):
        return SymNum({key: 1}, 0)

    def is_const(self):
        return not self.t

    def key(self):
        if self._k is None:
            self._k = (tuple(sorted(self.t.items(), key=_skey)), self.c)
        return self._k

    # -- arithmetic
    @staticmethod
    def lift(o):
        if isinstance(o, SymNum):
            return o
        if isinstance(o, SymBool):
            return SymNum.const(1 if bool(o) else 0)
        if isinstance(o, _NUM):
            if isinstance(o, (float, np.floating)) and not math.isfinite(o):
                return None
            return SymNum.const(o)
        return NotImplemented

    def _add(self, o, sgn):
        if not o.t:
            return SymNum(self.t, self.c + sgn * o.c)
        t = dict(self.t)
        for k, v in o.t.items():
            nv = t.get(k, 0) + (v if sgn == 1 else -v)
            if nv == 0:
                t.pop(k, None)
            else:
                t[k] = nv
        return SymNum(t, self.c + sgn * o.c)

    def __add__(self, o):
        p = SymNum.lift(o)
        if p is NotImplemented:
            return p
        if p is None:
            return float(o)
        return self._add(p, 1)
    __radd__ = __add__

    def __sub__(self, o):
        p = SymNum.lift(o)
        if p is NotImplemented:
            return p
        if p is None:
            return -float(o)
        return self._add(p, -1)

    def __rsub__(self, o):
        p = SymNum.lift(o)
        if p is NotImplemented:
            return p
        if p is None:
            return float(o)
        return p._add(self, -1)

    def __neg__(self):
        return SymNum({k: -v for k, v in self.t.items()}, -self.c)

    def __pos__(self):
        return self

    def scale(self, f):
        if f == 0:
            return SymNum({}, 0)
        return SymNum({k: v * f for k, v in self.t.items()}, self.c * f)

    def __mul__(self, o):
        p = SymNum.lift(o)
        if p is NotImplemented:
            return p
        if p is None:
            raise Unsupported("symbolic * non-finite")
        if p.is_const():
            return self.scale(p.c)
        if self.is_const():
            return p.scale(self.c)
        return ctx().product(self, p)
    __rmul__ = __mul__

    def __truediv__(self, o):
        p = SymNum.lift(o)
        if p is NotImplemented:
            return p
        if p is None:
            if isinstance(o, (float, np.floating)) and math.isinf(o):
                return SymNum.const(0)
            raise Unsupported("symbolic / nan")
        if p.is_const():
            if p.c == 0:
                raise ZeroDivisionError("division by zero")
            return self.scale(_div(1, p.c))
        return ctx().quotient(self, p)

    def __rtruediv__(self, o):
        p = SymNum.lift(o)
        if p is NotImplemented:
            return p
        if p is None:
            raise Unsupported("non-finite / symbolic")
        return p.__truediv__(self)

    def __pow__(self, o):
        if isinstance(o, (int, np.integer)) and 0 <= o <= 4:
            r = SymNum.const(1)
            for _ in range(int(o)):
                r = r * self
            return r
        if isinstance(o, (float, np.floating)) and o == 2.0:
            return self * self
        if isinstance(o, (float, np.floating)) and o == 0.5:
            return self.sqrt()
        raise Unsupported("pow")

    def __abs__(self):
        return ctx().absolute(self)

    # -- comparisons
    def _cmp(self, o, acc):
        """acc: the signs of (self - o) for which the comparison holds."""
        p = SymNum.lift(o)
        if p is NotImplemented:
            return NotImplemented
        if p is None:
            o = float(o)
            if math.isnan(o):
                return acc == frozenset((-1, 1))
            return ((-1 if o > 0 else 1) in acc)
        return SymBool.sign(self._add(p, -1), acc)

    def __lt__(self, o):
        return self._cmp(o, frozenset((-1,)))

    def __le__(self, o):
        return self._cmp(o, frozenset((-1, 0)))

    def __gt__(self, o):
        return self._cmp(o, frozenset((1,)))

    def __ge__(self, o):
        return self._cmp(o, frozenset((0, 1)))

    def __eq__(self, o):
        r = self._cmp(o, frozenset((0,)))
        return False if r is NotImplemented else r

    def __ne__(self, o):
        r = self._cmp(o, frozenset((-1, 1)))
        return True if r is NotImplemented else r

    def __hash__(self):
        if self.is_const():
            return hash(self.c)
        return hash(ctx().concretise(self, "hash"))

    def __bool__(self):
        r = self != 0
        return r if isinstance(r, bool) else bool(r)

    def __float__(self):
        if self.is_const():
            return float(self.c)
        return float(ctx().concretise(self, "float()"))

    def __int__(self):
        if self.is_const():
            return int(self.c)
        return int(ctx().concretise(self, "int()"))

    def __index__(self):
        if self.is_const() and self.c.denominator == 1:
            return int(self.c)
        v = ctx().concretise(self, "index()")
        if v.denominator != 1:
            raise TypeError("not an integer")
        return int(v)

    def __floor__(self):
        return ctx().floor(self)

    def __ceil__(self):
        return -ctx().floor(-self)

    def __round__(self, nd=None):
        if self.is_const():
            return round(self.c, nd) if nd is not None else round(self.c)
        m = 10 ** (nd or 0)
        f = ctx().floor(self * m + Fraction(1, 2))      # ties upwards
        return f / m if nd else f

    # -- the part of the numpy scalar interface the code may use
    def any(self, *a, **k):
        return bool(self)

    def all(self, *a, **k):
        return bool(self)

    def copy(self, *a, **k):
        return self

    def item(self, *a):
        return self

    def sum(self, *a, **k):
        return self

    def mean(self, *a, **k):
        return self

    def min(self, *a, **k):
        return self

    def max(self, *a, **k):
        return self

    def squeeze(self, *a, **k):
        return self

    def astype(self, *a, **k):
        return self

    def conjugate(self):
        return self

    def reshape(self, *shape, **k):
        return symarray([self]).reshape(*shape, **k)

    def ravel(self, *a, **k):
        return symarray([self])
    flatten = ravel

    def tolist(self):
        return self

    @property
    def T(self):
        return self

    @property
    def real(self):
        return self

    def sqrt(self):
        return ctx().sqrt(self)

    def exp(self):
        return ctx().exp(self)

    def log(self):
        return ctx().ln(self)

    def log10(self):
        return ctx().log10(self)

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self

    def __repr__(self):
        if self.is_const():
            return str(self.c)
        return "Sym(%s)" % " + ".join(
            ["%s*%s" % (v, k) for k, v in list(self.t.items())[:4]] +
            ([str(self.c)] if self.c else []) + (["..."] if len(self.t) > 4 else []))
    __str__ = __repr__

    def __format__(self, spec):
        return repr(self)


numbers.Real.register(SymNum)


class SymBool:
    """A truth value: constant, sign condition on a linear form, or z3 Bool."""
    __slots__ = ("v", "lin", "acc", "e")

    def __init__(self):
        self.v = None
        self.lin = None
        self.acc = None
        self.e = None

    @staticmethod
    def sign(lin, acc):
        if lin.is_const():
            s = (lin.c > 0) - (lin.c < 0)
            return s in acc
        b = SymBool()
        b.lin, b.acc = lin, acc
        return b

    @staticmethod
    def expr(e):
        b = SymBool()
        b.e = e
        return b

    def z3(self):
        if self.e is None:
            self.e = ctx().sign_z3(self.lin, self.acc)
        return self.e

    def __bool__(self):
        return ctx().truth(self)

    def __and__(self, o):
        return _boolop(z3.And, self, o)
    __rand__ = __and__

    def __or__(self, o):
        return _boolop(z3.Or, self, o)
    __ror__ = __or__

    def __invert__(self):
        if self.lin is not None:
            return SymBool.sign(self.lin, frozenset((-1, 0, 1)) - self.acc)
        return SymBool.expr(z3.Not(self.z3()))

    def __eq__(self, o):
        if isinstance(o, (bool, np.bool_)):
            return self if o else ~self
        return bool(self) == o

    def __ne__(self, o):
        if isinstance(o, (bool, np.bool_)):
            return ~self if o else self
        return bool(self) != o

    def __gt__(self, o):
        return bool(self) > o

    def __lt__(self, o):
        return bool(self) < o

    def __add__(self, o):
        return int(bool(self)) + o
    __radd__ = __add__

    def __hash__(self):
        return hash(bool(self))

    def all(self, *a, **k):
        return bool(self)

    def any(self, *a, **k):
        return bool(self)

    def item(self):
        return bool(self)

    def __repr__(self):
        return "SymBool"


def _z3b(x):
    if isinstance(x, np.ndarray):
        x = _wrap(x)
    if isinstance(x, SymBool):
        return x.z3()
    if isinstance(x, (bool, np.bool_)):
        return z3.BoolVal(bool(x))
    if z3.is_expr(x):
        return x
    raise Unsupported("not a truth value: %r" % (x,))


def _boolop(op, a, b):
    if isinstance(b, (bool, np.bool_, SymBool)):
        return SymBool.expr(op(_z3b(a), _z3b(b)))
    return NotImplemented


class SymArray(np.ndarray):
    """Object array whose any/all/astype/boolean reductions follow the float
    semantics (numpy's object arrays return operands instead of booleans)."""

    def __array_finalize__(self, obj):
        pass

    def _truth(self):
        if self.dtype != object:
            return np.asarray(self).astype(bool)
        return np.frompyfunc(bool, 1, 1)(np.asarray(self)).astype(bool)

    def any(self, axis=None, out=None, keepdims=False, **k):
        return np.any(np.asarray(self._truth()), axis=axis, keepdims=keepdims)

    def all(self, axis=None, out=None, keepdims=False, **k):
        return np.all(np.asarray(self._truth()), axis=axis, keepdims=keepdims)

    def nonzero(self):
        return np.nonzero(np.asarray(self._truth()))

    def astype(self, dtype, *a, **k):
        if self.dtype == object and np.dtype(dtype).kind == "f":
            if any(isinstance(x, SymNum) for x in self.ravel().tolist()):
                return self.copy()
        return np.asarray(self).astype(dtype, *a, **k)

    def __array_wrap__(self, out, context=None):
        if out.dtype != object:
            return np.asarray(out)[()]
        if out.ndim == 0:
            return out.item()
        return out.view(SymArray)


def _arrayed(cls, name):
    """Scalar (op) array, element by element (numpy leaves it to the scalar
    because of its priority)."""
    f = getattr(cls, name)

    def g(self, o):
        if isinstance(o, np.ndarray):
            if o.ndim == 0:
                return f(self, o.item())
            return np.frompyfunc(lambda x: f(self, x), 1, 1)(np.asarray(o)).view(SymArray)
        return f(self, o)
    g.__name__ = name
    setattr(cls, name, g)


for _n in ("add", "radd", "sub", "rsub", "mul", "rmul", "truediv", "rtruediv", "lt", "le", "gt",
           "ge", "eq", "ne"):
    _arrayed(SymNum, "__%s__" % _n)


def symarray(x):
    a = np.empty(np.shape(_shape_probe(x)), dtype=object)
    a[...] = x
    return a.view(SymArray)


def _shape_probe(x):
    if isinstance(x, (list, tuple)):
        return np.zeros(_list_shape(x))
    return x


def _list_shape(x):
    if isinstance(x, (list, tuple)):
        return (len(x),) + (_list_shape(x[0]) if len(x) else ())
    return ()


# ----------------------------------------------------------------- statistics
class Stats(dict):
    KEYS = ("paths", "paths_cut", "paths_infeasible", "decisions", "choices",
            "queries", "obligations", "discharged", "const_discharged",
            "validated", "validated_skipped", "mismatch", "unknown")

    def __init__(self):
        super().__init__({k: 0 for k in self.KEYS})
        self["solver_s"] = 0.0
        self["reach"] = {}

    def merge(self, o):
        for k, v in o.items():
            if k == "reach":
                for a, b in v.items():
                    self["reach"][a] = self["reach"].get(a, 0) + b
            else:
                self[k] = self.get(k, 0) + v


# ------------------------------------------------------------------- contexts
class BaseCtx:
    """What harnesses and environment stubs may use in either mode."""
    symbolic = False

    def __init__(self):
        self.log = []
        self.steps = 0
        self.step_bound = None
        self.rng_state = ("boot", 0)
        self.rng_memo = {}
        self.rng_fresh = 0
        self.draws = 0
        self.window = None      # (first, last) of the draws that are arbitrary
        self.policy = 0         # what the other draws do
        self.unit_window = None
        self.unit_policy = "r"
        self.units = 0
        self.notes = {}

    # random model: the environment's generator is an unknown function of the
    # seed and of the number of draws since seeding
    def rng_seed(self, s):
        if s is None:
            self.rng_fresh += 1
            self.rng_state = (("fresh", self.rng_fresh), 0)
        else:
            self.rng_state = (("seed", repr(s)), 0)

    def rng_key(self, kind):
        st, pos = self.rng_state
        self.rng_state = (st, pos + 1)
        return (st, pos) + kind

    def draw_index(self, n):
        if n <= 0:
            raise ValueError("empty range for randrange()")
        if n == 1:
            self.rng_key(("i", 1))
            return 0
        k = self.rng_key(("i", n))
        if k not in self.rng_memo:
            self.draws += 1
            if self.window is None or self.window[0] <= self.draws <= self.window[1]:
                v = self.choose(n, "rnd")
            elif self.policy == "last":
                v = n - 1
            elif self.policy:
                v = (self.draws * self.policy + 3 * (self.draws // 2)) % n
            else:
                v = 0
            self.rng_memo[k] = v
        return self.rng_memo[k]

    def draw_unit(self):
        k = self.rng_key(("u",))
        if k not in self.rng_memo:
            self.units += 1
            w = self.unit_window
            if w is None or w[0] <= self.units <= w[1]:
                self.rng_memo[k] = self.unit_real("u%d" % self.units)
            else:       # outside the window: (nearly) 1 is refused, 0 accepted
                q = self.unit_policy
                self.rng_memo[k] = 0.0 if q[self.units % len(q)] == "a" else (
                    SymNum.const(1) if self.symbolic else 1 - 2.0 ** -53)
        return self.rng_memo[k]

    def reach(self, what):
        raise NotImplementedError

    def tick(self, n=1):
        self.steps += n
        if self.step_bound is not None and self.steps > self.step_bound:
            self.on_step_bound()

    def on_step_bound(self):
        raise PathCut("step bound")

    def record(self, *what):
        """Observable of the run, compared between the two modes."""
        self.log.append(what)


class _Dec:
    __slots__ = ("alts", "cur", "pushed", "choose", "n")

    def __init__(self, cur, alts, pushed, choose=False, n=0):
        self.cur = cur
        self.alts = alts
        self.pushed = pushed
        self.choose = choose
        self.n = n


class SymCtx(BaseCtx):
    symbolic = True

    def __init__(self, stats, timeout_ms=60000):
        super().__init__()
        self.stats = stats
        self.solver = z3.Solver()
        self.solver.set("timeout", timeout_ms)
        self.stack = []
        self.pos = 0
        self.replaying = False
        self.flip = -1
        self.model = None
        self.max_depth = None
        self.atoms = {}
        self.groups = {}
        self.kept = {}
        self.last_model = None
        self.pin = {}           # named reals held at one value
        self.pin_default = None     # set: all of them are, and plain floats
        self.exp_monotone = False

    # ---- life cycle of one path
    def begin(self):
        BaseCtx.__init__(self)
        self.lost = None
        self.pos = 0
        self.memo = {}
        self.bmemo = {}
        self.names = {}
        self.nfresh = 0
        self.exps = []
        self.nchoices = 0

    def _add(self, e):
        if not self.replaying:
            self.solver.add(e)
            if self.model is not None:
                if not z3.is_true(self.model.eval(e, model_completion=True)):
                    self.model = None

    def _check(self, *extra):
        self.stats["queries"] += 1
        t = time.time()
        if extra:
            self.solver.push()
            self.solver.add(*extra)
        r = self.solver.check()
        self.last_model = self.solver.model() if r == z3.sat else None
        if extra:
            self.solver.pop()
        self.stats["solver_s"] += time.time() - t
        if r == z3.unknown:
            self.stats["unknown"] += 1
            raise Inconclusive(self.solver.reason_unknown())
        return r == z3.sat

    def _decide(self, compute):
        """compute() -> (list of (value, constraint-or-None), choose?, n)."""
        if self.pos < len(self.stack):
            d = self.stack[self.pos]
            at = self.pos
            self.pos += 1
            if at == self.flip:
                self.replaying = False
                self.flip = -1
                self.solver.push()
                d.pushed = True
                self.model = None
                cons = d.cur[1]
                if cons is not None:
                    self._add(cons() if callable(cons) else cons)
            return d.cur[0]
        if self.max_depth is not None and len(self.stack) >= self.max_depth:
            raise PathCut("decision bound")
        alts, choose, n = compute()
        d = _Dec(alts[0], alts[1:], len(alts) > 1, choose, n)
        self.stack.append(d)
        self.pos += 1
        if d.pushed:
            self.solver.push()
            self.stats["choices" if choose else "decisions"] += 1
            if d.cur[1] is not None:
                c = d.cur[1]
                self._add(c() if callable(c) else c)
        return d.cur[0]

    def next_path(self):
        while self.stack:
            d = self.stack[-1]
            if d.pushed:
                self.solver.pop()
                d.pushed = False
            if d.alts:
                d.cur = d.alts.pop(0)
                self.flip = len(self.stack) - 1
                self.replaying = True
                self.model = None
                return True
            self.stack.pop()
        return False

    # ---- atoms
    def _atom_z3(self, k):
        return self.atoms[k]

    def keep(self, e):
        """Keep an expression alive so that its id is not reused."""
        self.kept[e.get_id()] = e

    def lin_z3(self, lin):
        parts = []
        for k, v in lin.t.items():
            a = self.atoms[k]
            if v == 1:
                parts.append(a)
            else:
                parts.append(z3.RealVal(v) * a)
        if lin.c != 0 or not parts:
            parts.append(z3.RealVal(lin.c))
        return parts[0] if len(parts) == 1 else z3.Sum(parts)

    def sign_z3(self, lin, acc):
        e = self.lin_z3(lin)
        if acc == frozenset((-1,)):
            return e < 0
        if acc == frozenset((0,)):
            return e == 0
        if acc == frozenset((1,)):
            return e > 0
        if acc == frozenset((-1, 0)):
            return e <= 0
        if acc == frozenset((0, 1)):
            return e >= 0
        if acc == frozenset((-1, 1)):
            return e != 0
        return z3.BoolVal(bool(acc))

    def num(self, name, sort="real", group=None):
        """A named symbolic number, the same atom on every path."""
        if name not in self.atoms:
            self.atoms[name] = (z3.Int if sort == "int" else z3.Real)(name)
            if sort == "int":
                self.atoms[name] = z3.ToReal(self.atoms[name])
            self.groups[name] = group
        self.names[name] = True
        return SymNum.atom(name)

    def real(self, name, group=None):
        if name in self.pin or self.pin_default is not None:
            return self.pinned(name)
        return self.num(name, "real", group)

    def int(self, name, group=None):
        if self.pin_default is not None:
            return int(self.pinned(name))
        return self.num(name, "int", group)

    def pinned(self, name):
        if name not in self.pin:
            self.pin[name] = self.pin_default(name)
        v = self.pin[name]
        return float(v) if self.pin_default is not None else SymNum.const(v)

    def unit_real(self, name):
        u = self.num(name, "real", group="unit")
        self.assume(u >= 0)
        self.assume(u < 1)
        return u

    def bool(self, name):
        return SymBool.expr(z3.Bool(name))

    def _def(self, key, mk):
        """Hash-consed nonlinear term."""
        if key not in self.atoms:
            self.atoms[key] = mk()
        return SymNum.atom(key)

    def product(self, a, b):
        ka, kb = a.key(), b.key()
        if repr(ka) > repr(kb):
            a, b, ka, kb = b, a, kb, ka
        # distribute, so that polynomials stay canonical
        res = SymNum({k: v * a.c for k, v in b.t.items() if a.c != 0}, a.c * b.c)
        if b.c != 0:
            res = res + SymNum({k: v * b.c for k, v in a.t.items()}, 0)
        for k1, v1 in a.t.items():
            for k2, v2 in b.t.items():
                x, y = sorted((k1, k2), key=repr)
                res = res + self._mono(x, y).scale(v1 * v2)
        return res

    def _mono(self, x, y):
        fs = []
        for k in (x, y):
            fs.extend(k[1] if isinstance(k, tuple) and k[0] == "mul" else [k])
        fs = tuple(sorted(fs, key=repr))
        key = ("mul", fs)

        def mk():
            p = self.atoms[fs[0]]
            for f in fs[1:]:
                p = p * self.atoms[f]
            return p
        return self._def(key, mk)

    def quotient(self, a, b):
        if not self.truth(SymBool.sign(b, frozenset((-1, 1)))):
            raise ZeroDivisionError("division by zero")
        key = ("inv", b.key())
        inv = self._def(key, lambda: z3.Real("inv!%d" % len(self.atoms)))
        if key not in self.names:
            self.names[key] = True
            self._add(self.atoms[key] * self.lin_z3(b) == 1)
        return self.product(a, inv) if not a.is_const() else inv.scale(a.c)

    def absolute(self, a):
        if a.is_const():
            return SymNum.const(abs(a.c))
        items = sorted(a.t.items(), key=_skey)
        lead = items[0][1]
        if lead < 0:
            a = -a
            lead = -lead
        n = (a if lead == 1 else a.scale(_div(1, lead)))
        e = self.lin_z3(n)
        at = self._def(("abs", n.key()), lambda: z3.If(e >= 0, e, -e))
        return at.scale(lead)

    def sqrt(self, a):
        if a.is_const():
            r = math.isqrt(a.c.numerator), math.isqrt(a.c.denominator)
            if r[0] ** 2 == a.c.numerator and r[1] ** 2 == a.c.denominator:
                return SymNum.const(Fraction(*r))
        key = ("sqrt", a.key())
        s = self._def(key, lambda: z3.Real("sqrt!%d" % len(self.atoms)))
        if key not in self.names:
            self.names[key] = True
            z = self.atoms[key]
            self._add(z3.And(z >= 0, z * z == self.lin_z3(a)))
        return s

    def exp(self, a):
        """exp as an uninterpreted increasing positive function."""
        if a.is_const():
            return SymNum.const(math.exp(a.c))
        key = ("exp", a.key())
        s = self._def(key, lambda: z3.Real("exp!%d" % len(self.atoms)))
        if key not in self.names:
            self.names[key] = True
            z, x = self.atoms[key], self.lin_z3(a)
            self._add(z > 0)
            self._add(z3.Implies(x < 0, z < 1))
            self._add(z3.Implies(x > 0, z > 1))
            self._add(z3.Implies(x == 0, z == 1))
            for (y, w) in self.exps if self.exp_monotone else ():
                self._add(z3.And(z3.Implies(x < y, z < w),
                                 z3.Implies(x > y, z > w),
                                 z3.Implies(x == y, z == w)))
            self.exps.append((x, z))
        return s

    def ln(self, a):
        if a.is_const() and a.c > 0:
            return SymNum.const(math.log(a.c))
        if not self.truth(SymBool.sign(a, frozenset((1,)))):
            raise ValueError("math domain error")
        key = ("log", a.key())
        s = self._def(key, lambda: z3.Real("log!%d" % len(self.atoms)))
        if key not in self.names:
            self.names[key] = True
            z, x = self.atoms[key], self.lin_z3(a)
            self._add(z3.And(z3.Implies(x < 1, z < 0), z3.Implies(x > 1, z > 0),
                             z3.Implies(x == 1, z == 0)))
        return s

    LOG_LO, LOG_HI = -2, 3

    def log10(self, a):
        """Only usable through floor/ceil: forks on the decade."""
        if not self.truth(SymBool.sign(a, frozenset((1,)))):
            raise ValueError("math domain error")
        return _Log10(a)

    def floor(self, a):
        if a.is_const():
            return a.c.numerator // a.c.denominator
        f = self.fresh("floor", "int")
        self.assume(f <= a)
        self.assume(a < f + 1)
        return f

    def fresh(self, tag, sort="real", group=None):
        self.nfresh += 1
        return self.num("%s!%d" % (tag, self.nfresh), sort, group)

    # ---- decisions
    def truth(self, b):
        if isinstance(b, (bool, np.bool_)):
            return bool(b)
        if b.lin is not None:
            return self._truth_sign(b.lin, b.acc)
        e = z3.simplify(b.z3())
        if z3.is_true(e):
            return True
        if z3.is_false(e):
            return False
        k = e.get_id()
        hit = self.bmemo.get(k)
        if hit is not None:
            return hit[0]

        def compute():
            t, f = self._feasible(e, z3.Not(e))
            return ([(True, e)] if t else []) + ([(False, z3.Not(e))] if f else []), False, 2
        r = self._decide(compute)
        self.bmemo[k] = (r, e)
        return r

    def _feasible(self, et, ef):
        if self.model is None:
            if not self._check():
                raise Infeasible()
            self.model = self.last_model
        v = self.model.eval(et, model_completion=True)
        if z3.is_true(v):
            return True, self._check(ef)
        if z3.is_false(v):
            return self._check(et), True
        return self._check(et), self._check(ef)

    def _truth_sign(self, lin, acc):
        items = sorted(lin.t.items(), key=_skey)
        lead = items[0][1]
        if lead < 0:
            acc = frozenset(-s for s in acc)
        n = (lin if lead == 1 else lin.scale(_div(1, lead)))
        k = n.key()
        poss = self.memo.get(k, frozenset((-1, 0, 1)))
        T, F = poss & acc, poss - acc
        if not T:
            return False
        if not F:
            return True

        def compute():
            et, ef = self.sign_z3(n, T), self.sign_z3(n, F)
            t, f = self._feasible(et, ef)
            return ([(True, et)] if t else []) + ([(False, ef)] if f else []), False, 2
        r = self._decide(compute)
        self.memo[k] = T if r else F
        return r

    def choose(self, n, tag=""):
        if n == 1:
            return 0
        return self._decide(lambda: ([(i, None) for i in range(n)],
                                     "env" if tag == "env" else True, n))

    def flag(self, name):
        """A named symbolic boolean, decided here."""
        return self.truth(self.bool(name))

    def assume(self, cond):
        cond = _wrap(cond)
        if isinstance(cond, bool):
            if not cond:
                raise Infeasible()
            return
        if isinstance(cond, SymBool) and cond.lin is not None:
            items = sorted(cond.lin.t.items(), key=_skey)
            lead = items[0][1]
            acc = frozenset(-s for s in cond.acc) if lead < 0 else cond.acc
            n = cond.lin if lead == 1 else cond.lin.scale(_div(1, lead))
            k = n.key()
            self.memo[k] = self.memo.get(k, frozenset((-1, 0, 1))) & acc
        self._add(_z3b(cond))

    def assume_feasible(self):
        if not self.replaying and self.model is None:
            if not self._check():
                raise Infeasible()
            self.model = self.last_model

    def concretise(self, lin, why):
        """Fork over every value of a finite-domain (integer) form."""
        for k in lin.t:
            a = self.atoms[k]
            if isinstance(k, tuple) and k[0] == "int":
                continue
            if not (z3.is_expr(a) and a.decl().kind() == z3.Z3_OP_TO_REAL):
                raise Unsupported("%s of a symbolic real" % why)
        for _ in range(64):
            def compute():
                if self.model is None:
                    if not self._check():
                        raise Infeasible()
                    self.model = self.last_model
                v = self._val(self.model, self.lin_z3(lin))
                e = self.lin_z3(lin) == z3.RealVal(v)
                other = self._check(z3.Not(e))
                return ([(v, e)] + ([(None, z3.Not(e))] if other else [])), False, 2
            v = self._decide(compute)
            if v is not None:
                return v
        raise Unsupported("unbounded domain in %s" % why)

    @staticmethod
    def _val(model, e):
        v = model.eval(e, model_completion=True)
        if z3.is_rational_value(v) or z3.is_int_value(v):
            return Fraction(v.as_fraction()) if z3.is_rational_value(v) else Fraction(v.as_long())
        if z3.is_algebraic_value(v):
            v = v.approx(20)
            return Fraction(v.as_fraction())
        raise Inconclusive("no value for %s" % e)

    # ---- obligations
    def reach(self, what):
        if not self.replaying:
            self.stats["reach"][what] = self.stats["reach"].get(what, 0) + 1

    def check(self, cond, msg, **info):
        if self.replaying:
            return
        self.stats["obligations"] += 1
        cond = _wrap(cond)
        if isinstance(cond, bool):
            if cond:
                self.stats["const_discharged"] += 1
                self.stats["discharged"] += 1
                return
            if self.model is None:
                if not self._check():
                    raise Infeasible()
                self.model = self.last_model
            self.violation(self.model, msg, info)
        e = _z3b(cond)
        neg = z3.Not(e)
        if self._check(neg):
            self.violation(self._clearer(cond, self.last_model), msg, info)
        self.stats["discharged"] += 1

    def _clearer(self, cond, model):
        """A counterexample that misses the condition by more than rounding."""
        if cond.lin is None:
            return model
        d = self.lin_z3(cond.lin)
        for m in (1, Fraction(1, 64), Fraction(1, 10 ** 5), Fraction(1, 10 ** 7)):
            m = z3.RealVal(m)
            alts = ([d >= m] if 1 not in cond.acc else []) + \
                ([d <= -m] if -1 not in cond.acc else [])
            try:
                if alts and self._check(z3.Or(alts)):
                    return self.last_model
            except Inconclusive:
                break
        return model

    def violation(self, model, msg, info):
        if self.lost:
            raise Unsupported(self.lost)
        self.found = (self.assignment(model), msg, {k: repr(v) for k, v in info.items()})
        raise Found(msg)

    def assignment(self, model):
        vals = {}
        for n in self.names:
            if isinstance(n, str):
                vals[n] = self._val(model, self.atoms[n])
        # scale homogeneous groups to integers: exact in floating point
        bygroup = {}
        for n, v in vals.items():
            g = self.groups.get(n)
            if g and g.startswith("scale"):
                bygroup.setdefault(g, []).append(v.denominator)
        out = {}
        raw = {n: [v.numerator, v.denominator] for n, v in vals.items()}
        for n, v in vals.items():
            g = self.groups.get(n)
            if g in bygroup:
                v = v * math.lcm(*bygroup[g])
            out[n] = [v.numerator, v.denominator]
        self._settle_units(out)
        for n, v in self.pin.items():
            raw[n] = out[n] = [v.numerator, v.denominator]
        bools = {}
        for d in model.decls():
            if z3.is_bool(model[d]) and d.arity() == 0:
                bools[d.name()] = z3.is_true(model[d])
        choices = [[d.cur[0], d.n] for d in self.stack[:self.pos]
                   if d.choose is True]
        return {"vals": out, "bools": bools, "choices": choices,
                "raw": raw if any(math.lcm(*v) != 1 for v in bygroup.values()) else None,
                "scales": {g: math.lcm(*v) for g, v in bygroup.items()},
                "approximate": bool(self.exps),
                "mip": [{n: [x.numerator, x.denominator] for n, x in
                         ((n, self._val(model, e)) for n, e in d.items())}
                        for d in self.notes.get("mipvars", [])]}

    def _settle_units(self, out):
        """exp() is uninterpreted: where a number from [0, 1) was compared with
        nothing but one exponential, take one that decides alike for any."""
        seen = {}
        for (terms, const), signs in self.memo.items():
            us = [k for k, v in terms if self.groups.get(k) == "unit"]
            if not us:
                continue
            d = dict(terms)
            if len(d) == 1 and const in (0, -1):
                continue        # 0 <= u < 1
            es = [k for k in d if isinstance(k, tuple) and k[0] == "exp"]
            for u in us:
                if len(d) == 2 and len(es) == 1 and const == 0 and d[u] == -d[es[0]]:
                    s = signs if d[u] > 0 else frozenset(-x for x in signs)
                    seen.setdefault(u, []).append(s)
                else:
                    seen.setdefault(u, []).append(None)
        for u, ss in seen.items():
            if len(ss) != 1 or ss[0] is None or u not in out:
                continue
            if ss[0] == frozenset((-1,)):
                out[u] = [0, 1]
            elif -1 not in ss[0]:
                out[u] = [(1 << 30) - 1, 1 << 30]

    def scaled(self, x, group):
        """A constant measured in the units of a homogeneous group."""
        return x

    def same(self, a, b):
        """The very same number (not only an equal one)."""
        return SymNum.lift(a).key() == SymNum.lift(b).key()

    # comparisons with a tolerance in concrete mode, exact here
    def eq(self, a, b):
        return _wrap(a == b)

    def le(self, a, b):
        return _wrap(a <= b)

    def lt(self, a, b):
        return _wrap(a < b)

    def both(self, *cs):
        return SymBool.expr(z3.And([_z3b(_wrap(c)) for c in cs]))

    def either(self, *cs):
        return SymBool.expr(z3.Or([_z3b(_wrap(c)) for c in cs] or [z3.BoolVal(False)]))

    def implies(self, a, b):
        return SymBool.expr(z3.Implies(_z3b(_wrap(a)), _z3b(_wrap(b))))

    def neg(self, a):
        return SymBool.expr(z3.Not(_z3b(_wrap(a))))


class _Log10:
    def __init__(self, a):
        self.a = a

    def __floor__(self):
        c = ctx()
        for k in range(c.LOG_LO, c.LOG_HI + 1):
            if self.a < Fraction(10) ** (k + 1) if k < c.LOG_HI else True:
                if k == c.LOG_LO and self.a < Fraction(10) ** k:
                    raise PathCut("magnitude bound")
                if k == c.LOG_HI and self.a >= Fraction(10) ** (k + 1):
                    raise PathCut("magnitude bound")
                return k

    def __ceil__(self):
        k = self.__floor__()
        return k if self.a == Fraction(10) ** k else k + 1

    def __float__(self):
        raise Unsupported("value of log10")


def _wrap(x):
    if isinstance(x, np.ndarray):
        if x.size != 1:
            raise Unsupported("comparison of arrays")
        x = x.reshape(-1)[0]
    if isinstance(x, (bool, np.bool_)):
        return bool(x)
    return x


class Violation(Exception):
    pass


class ConcCtx(BaseCtx):
    """Concrete mode: floats from an assignment and a script of choices."""
    symbolic = False

    def __init__(self, assignment, strict=True):
        super().__init__()
        self.vals = assignment["vals"]
        self.bools = assignment.get("bools", {})
        self.scales = assignment.get("scales", {})
        self.script = list(assignment["choices"])
        self.mip = assignment.get("mip", [])
        self.mip_scripted = False
        self.strict = strict
        self.pos = 0
        self.nfresh = 0
        self.tol = 1e-9

    def begin(self):
        pass

    def num(self, name, sort="real", group=None):
        v = self.vals.get(name)
        if v is None:
            return 0 if sort == "int" else 0.0
        n, d = v
        return n // d if sort == "int" else n / d

    def real(self, name, group=None):
        return self.num(name, "real", group)

    def int(self, name, group=None):
        return self.num(name, "int", group)

    def unit_real(self, name):
        return self.real(name)

    def scaled(self, x, group):
        return x * self.scales.get(group, 1)

    def same(self, a, b):
        return a == b

    def bool(self, name):
        return self.bools.get(name, False)

    def flag(self, name):
        return bool(self.bools.get(name, False))

    def choose(self, n, tag=""):
        if n == 1:
            return 0
        if self.pos < len(self.script):
            v, m = self.script[self.pos]
            self.pos += 1
            if m == n:
                return v
            if self.strict:
                raise Diverged("choice %d: %d options, recorded %d" % (self.pos, n, m))
            return v % n
        self.pos += 1
        if self.strict:
            raise Diverged("script exhausted")
        return 0

    def truth(self, b):
        return bool(b)

    def assume(self, cond):
        if isinstance(cond, np.ndarray):
            cond = cond.all()
        if not cond:
            raise Diverged("assumption does not hold in floats")

    def assume_feasible(self):
        pass

    def reach(self, what):
        pass

    def check(self, cond, msg, **info):
        if isinstance(cond, np.ndarray):
            cond = cond.all()
        if not cond:
            raise Violation("%s %s" % (msg, {k: repr(v) for k, v in info.items()}
                                       if info else ""))

    def _t(self, a, b):
        return self.tol * max(1.0, abs(a), abs(b))

    @staticmethod
    def _f(a):
        if isinstance(a, np.ndarray):
            a = a.reshape(-1)[0]
        return float(a)

    def eq(self, a, b):
        a, b = self._f(a), self._f(b)
        return abs(a - b) <= self._t(a, b)

    def le(self, a, b):
        a, b = self._f(a), self._f(b)
        return a <= b + self._t(a, b)

    def lt(self, a, b):
        a, b = self._f(a), self._f(b)
        return a < b + self._t(a, b)

    def both(self, *cs):
        return all(bool(c) for c in cs)

    def either(self, *cs):
        return any(bool(c) for c in cs)

    def implies(self, a, b):
        return (not a) or bool(b)

    def neg(self, a):
        return not a


class Diverged(Exception):
    """A concrete run left the recorded path."""


def _alarm(sig, frame):
    raise Hang("time guard")


def explore(harness, cube, stats, max_paths=None, path_seconds=60, validate=0,
            max_depth=None, samples=None, pin=None, pin_default=None,
            timeout_ms=40000, budget=None):
    """Run `harness(ctx, cube)` on every feasible path.  Returns a list of
    violations (assignment, message, info)."""
    c = SymCtx(stats, timeout_ms)
    c.max_depth = max_depth
    c.pin = dict(pin or {})
    c.pin_default = pin_default
    out = []
    old = signal.signal(signal.SIGALRM, _alarm)
    npath = 0
    todo = []
    t0 = time.time()
    try:
        set_ctx(c)
        while True:
            c.begin()
            npath += 1
            status = "ok"
            signal.setitimer(signal.ITIMER_REAL, path_seconds)
            try:
                harness(c, cube)
            except PathCut as e:
                status = "cut"
                stats["paths_cut"] += 1
                stats["reach"]["cut: %s" % e] = stats["reach"].get("cut: %s" % e, 0) + 1
            except Infeasible:
                status = "infeasible"
                stats["paths_infeasible"] += 1
            except Found:
                status = "violation"
                out.append(c.found)
            except Hang:
                signal.setitimer(signal.ITIMER_REAL, 0)
                c.assume_feasible()
                out.append((c.assignment(c.model),
                            "the call does not return", {"hang": "1"}))
                status = "violation"
            finally:
                signal.setitimer(signal.ITIMER_REAL, 0)
            if status != "infeasible":
                stats["paths"] += 1
            if status == "ok" and validate and (npath <= validate or npath % 17 == 0) \
                    and len(todo) < 4 * validate and not c.notes.get("tie"):
                c.replaying = False
                if c.model is None and c._check():
                    c.model = c.last_model
                if c.model is not None:
                    todo.append((c.assignment(c.model), list(c.log)))
                    if samples is not None and not samples:
                        a = todo[0][0]
                        samples.append({
                            "decisions": len(c.stack),
                            "model": {k: "%d/%d" % tuple(v) if v[1] != 1 else v[0]
                                      for k, v in list(a["vals"].items())[:20]},
                            "choices": a["choices"][:20], "observed": repr(todo[0][1])[:300]})
            if status == "violation":
                break
            if max_paths and npath >= max_paths:
                raise Inconclusive("path budget of the cube exhausted")
            if budget and time.time() - t0 > budget:
                stats["incomplete"] = 1        # the paths so far are decided
                break
            if not c.next_path():
                break
        for (asg, log) in ([] if out else todo):
            v = _validate(harness, cube, asg, log, stats, path_seconds)
            if v:
                out.append((asg, v, {"from": "concrete validation run"}))
                break
    finally:
        set_ctx(None)
        signal.signal(signal.SIGALRM, old)
    return out


def _validate(harness, cube, asg, log, stats, path_seconds):
    c = ConcCtx(asg)
    c.mip_scripted = True
    set_ctx(c)
    signal.setitimer(signal.ITIMER_REAL, path_seconds)
    try:
        harness(c, cube)
    except Violation as e:
        return str(e)
    except (Diverged, PathCut, Infeasible) as e:
        stats["validated_skipped"] += 1
        return None
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
    if repr(c.log) == repr(log):
        stats["validated"] += 1
    else:
        stats["mismatch"] += 1
        stats["reach"]["mismatch %r vs %r" % (log, c.log)] = 1
    return None
