"""The MIP solver as its contract: solve() returns *any* optimal solution of
the model the code built, or status Infeasible with arbitrary variable values.

Constraints are taken from the LpProblem object itself.  Optimality is stated
against a set of witnesses: every Pareto-minimal vector of objective terms that
z3 finds to be attainable (each one justified by a concrete feasible solution,
so the assumption is never stronger than the contract)."""
from fractions import Fraction

from . import engine
from .engine import SymNum, SymBool, z3, Unsupported, Inconclusive

_cache = {}
MAX_WITNESS = 400


def _coef(x):
    if isinstance(x, SymNum):
        return x
    import numpy as np
    if isinstance(x, np.ndarray) and x.size == 1:
        return _coef(x.reshape(-1)[0])
    return SymNum.const(x)


class _Var:
    """z3 side of one LpVariable."""

    def __init__(self, name, v):
        self.name = name
        self.lo, self.hi, self.cat = v.lowBound, v.upBound, v.cat
        self.integer = v.cat in ("Integer", "Binary")
        self.binary = self.integer and self.lo == 0 and self.hi == 1
        if self.binary:
            self.b = z3.Bool(name)
            self.z = z3.If(self.b, z3.IntVal(1), z3.IntVal(0))
        else:
            self.z = z3.Int(name) if self.integer else z3.Real(name)

    def real(self):
        return z3.ToReal(self.z) if self.integer and not self.binary else (
            z3.If(self.b, z3.RealVal(1), z3.RealVal(0)) if self.binary else self.z)

    def times(self, c, coef):
        """coef * var with a symbolic coefficient."""
        e = c.lin_z3(coef)
        if self.binary:
            return z3.If(self.b, e, z3.RealVal(0))
        return e * self.real()

    def bounds(self):
        out = []
        if not self.binary:
            if self.lo is not None:
                out.append(self.z >= self.lo)
            if self.hi is not None:
                out.append(self.z <= self.hi)
        return out


def _linear(c, terms, const, vs):
    """(z3 expr, symbolic?) of sum coef*var + const; integer when possible."""
    sym = not const.is_const() or any(not k.is_const() for _, k in terms)
    if not sym:
        den = 1
        for _, k in terms:
            den = den * k.c.denominator // _gcd(den, k.c.denominator)
        den = den * const.c.denominator // _gcd(den, const.c.denominator)
        if all(vs[n].integer for n, _ in terms):
            parts = []
            for n, k in terms:
                q = int(k.c * den)
                if q:
                    parts.append(vs[n].z if q == 1 else q * vs[n].z)
            return z3.Sum(parts + [z3.IntVal(int(const.c * den))]), False
        return z3.Sum([z3.RealVal(k.c) * vs[n].real() for n, k in terms] +
                      [z3.RealVal(const.c)]), False
    return z3.Sum([vs[n].times(c, k) for n, k in terms] + [c.lin_z3(const)]), True


def _pb(terms, const, sense, vs):
    """sum coef*bit + const {<=, =, >=} 0 as a pseudo-boolean constraint."""
    den = const.c.denominator
    for _, k in terms:
        den = den * k.c.denominator // _gcd(den, k.c.denominator)
    args, rhs = [], -int(const.c * den)
    for n, k in terms:
        q = int(k.c * den)
        if q > 0:
            args.append((vs[n].b, q))
        elif q < 0:                     # q*b = q + |q|*(not b)
            args.append((z3.Not(vs[n].b), -q))
            rhs += -q
    if not args:
        return z3.BoolVal(0 <= rhs if sense == -1 else 0 >= rhs if sense == 1 else rhs == 0)
    if sense == -1:
        return z3.PbLe(args, rhs) if rhs >= 0 else z3.BoolVal(False)
    if sense == 1:
        return z3.PbGe(args, rhs)
    return z3.PbEq(args, rhs) if rhs >= 0 else z3.BoolVal(False)


def _gcd(a, b):
    while b:
        a, b = b, a % b
    return a


def solve(c, prob, P):
    k = c.notes["mip"] = c.notes.get("mip", 0) + 1
    vs, lp = {}, {}
    for v in prob.variables():
        n = "mip%d.%s" % (k, v.name)
        lp[v.name] = v
        vs[v.name] = _Var(n, v)
    hard, soft, sig = [], [], []
    for v in vs.values():
        hard.extend(v.bounds())
        sig.append((v.name, v.lo, v.hi, v.cat))
    for name, con in prob.constraints.items():
        terms = [(v.name, _coef(x)) for v, x in con.items()]
        const = _coef(con.constant)
        if const.is_const() and all(k.is_const() for _, k in terms) and \
                all(vs[n].binary for n, _ in terms):
            hard.append(_pb(terms, const, con.sense, vs))
            sig.append((con.sense, tuple((n, x.key()) for n, x in terms), const.key()))
            continue
        e, sym = _linear(c, terms, const, vs)
        zero = z3.RealVal(0) if e.sort() == z3.RealSort() else z3.IntVal(0)
        z = e <= zero if con.sense == -1 else e >= zero if con.sense == 1 else e == zero
        (soft if sym else hard).append(z)
        sig.append((con.sense, tuple((n, x.key()) for n, x in terms), const.key()))
    obj = []
    if prob.objective is not None:
        obj = [(v.name, _coef(x)) for v, x in prob.objective.items()]
    if prob.sense == -1:
        obj = [(n, -x) for n, x in obj]
    groups = {}
    for n, x in obj:
        if x.is_const() and x.c == 0:
            continue
        groups.setdefault(x.key(), (x, []))[1].append(n)
    sig.append(tuple(groups))
    sig = repr(sig)

    # an option for properties that solve one model again and again: the solver
    # is a function of the model (up to the order of its parts)
    memo, canon = c.notes.get("mipmemo"), None
    if memo is not None and c.notes.get("status") is None:
        canon = repr((sorted((n, v.lo, v.hi, v.cat) for n, v in vs.items()),
                      sorted((con.sense, sorted((v.name, repr(_coef(x).key()))
                                                for v, x in con.items() if not _zero(x)),
                              repr(_coef(con.constant).key()))
                             for con in prob.constraints.values()),
                      sorted((n, repr(x.key())) for n, x in obj if not _zero(x))))
        if canon in memo:
            status, values, reals = memo[canon]
            prob.status = status
            for n in vs:
                lp[n].varValue = values[n]
            c.notes.setdefault("mipvars", []).append(reals)
            c.reach("same model again")
            return status
    status = _solve(c, prob, P, vs, lp, hard, soft, sig, groups)
    if canon is not None:
        memo[canon] = (status, {n: lp[n].varValue for n in vs}, c.notes["mipvars"][-1])
    return status


def _zero(x):
    x = _coef(x)
    return x.is_const() and x.c == 0


def _solve(c, prob, P, vs, lp, hard, soft, sig, groups):
    # the values the code will read back
    for n, v in vs.items():
        key = ("int", "mip", v.name) if v.integer else ("mip", v.name)
        lp[n].varValue = c._def(key, v.real)

    c.notes.setdefault("mipvars", []).append({n: v.real() for n, v in vs.items()})

    # path-condition snapshot matters only when constraints have symbolic data
    if soft:
        status = _feasible(c, hard, soft, vs)
    else:
        if sig not in _cache:
            _cache[sig] = _enumerate(c, hard, [], groups, vs, None)
        status = bool(_cache[sig])
    forced = c.notes.get("status")
    if not status or forced is not None:
        prob.status = P.LpStatusInfeasible if forced is None else forced
        c.reach("model infeasible" if forced is None else "no optimum reported")
        # arbitrary values (within the bounds of nothing but integrality)
        for n, v in vs.items():
            key = ("int", "arb", v.name)

            def mk(v=v):
                return z3.ToReal(z3.Int(v.name + ".any")) if v.integer else z3.Real(v.name + ".any")
            x = c._def(key, mk)
            lp[n].varValue = x
            c.assume(x >= 0)
            c.assume(x <= 1)
        return prob.status
    prob.status = P.LpStatusOptimal
    c.reach("model feasible")
    for h in hard + soft:
        c._add(h)
    if soft:
        wit = [] if c.replaying else _enumerate(c, hard, soft, groups, vs, c.solver)
    else:
        wit = _cache[sig]
    mine = z3.Sum([_gsum(c, x, ns, vs) for x, ns in groups.values()] + [z3.RealVal(0)])
    for vec, guard in wit:
        other = z3.Sum([z3.RealVal(q) * c.lin_z3(x) for (x, ns), q in
                        zip(groups.values(), vec)] + [z3.RealVal(0)])
        f = mine <= other
        if guard is not None:
            f = z3.Implies(guard, f)
        c._add(f)
    c.assume_feasible()
    return prob.status


def _gsum(c, x, names, vs):
    if len(names) == 1:
        return vs[names[0]].times(c, x)
    cnt = z3.Sum([vs[n].real() for n in names])
    if x.is_const():
        return z3.RealVal(x.c) * cnt
    return c.lin_z3(x) * cnt


def _feasible(c, hard, soft, vs):
    """Fork on whether the model has a solution.  There is none where no
    assignment of the integer variables satisfies the symbolic constraints:
    the complement of the conditions of finitely many assignments, found one by
    one until nothing is left."""
    def compute():
        s = z3.Solver()
        s.set("timeout", 120000)
        s.add(c.solver.assertions())
        s.add(hard + soft)
        guards = []
        while True:
            c.stats["queries"] += 1
            r = s.check()
            if r == z3.unknown:
                raise Inconclusive("MIP feasibility: " + s.reason_unknown())
            if r == z3.unsat:
                break
            guards.append(_guard(s.model(), soft, vs))
            if len(guards) > MAX_WITNESS:
                raise Inconclusive("too many MIP solutions")
            s.add(z3.Not(guards[-1]))
        none = z3.And([z3.Not(g) for g in guards] or [z3.BoolVal(True)])
        alts = []
        if guards:
            alts.append((True, z3.Or(guards)))
        if c._check(none):
            alts.append((False, none))
        return alts, False, len(alts)
    return c._decide(compute)


def _guard(m, soft, vs):
    """The condition on the data under which the solution m satisfies soft."""
    sub = []
    for v in vs.values():
        d = v.b if v.binary else v.z
        sub.append((d, m.eval(d, model_completion=True)))
    return z3.simplify(z3.substitute(z3.And(soft), *sub))


def _enumerate(c, hard, soft, groups, vs, base):
    """Attainable objective vectors, dominated ones (larger in every symbolic
    nonnegative term, equal in the others) left out."""
    import time
    t0 = time.time()
    s = z3.Solver()
    s.set("timeout", 120000)
    for h in hard:
        s.add(h)
    if base is not None:
        s.add(base.assertions())
        for h in soft:
            s.add(h)
    gs = list(groups.values())
    zs = [z3.Sum([vs[n].z for n in ns]) if len(ns) > 1 else vs[ns[0]].z for x, ns in gs]
    neg = [x.is_const() for x, ns in gs]
    out = []
    while True:
        c.stats["queries"] += 1
        r = s.check()
        if r == z3.unknown:
            raise Inconclusive("MIP witness enumeration: " + s.reason_unknown())
        if r == z3.unsat:
            break
        m = s.model()
        vec = [m.eval(z, model_completion=True).as_long() for z in zs]
        # descend to a minimal vector
        while True:
            s.push()
            s.add(*[z == q if ng else z <= q for z, q, ng in zip(zs, vec, neg)])
            s.add(z3.Or([z < q for z, q, ng in zip(zs, vec, neg) if not ng] or
                        [z3.BoolVal(False)]))
            c.stats["queries"] += 1
            r = s.check()
            if r == z3.sat:
                m = s.model()
                vec = [m.eval(z, model_completion=True).as_long() for z in zs]
            s.pop()
            if r == z3.unknown:
                raise Inconclusive("MIP witness enumeration: " + s.reason_unknown())
            if r == z3.unsat:
                break
        guard = None
        if soft:
            guard = _guard(m, soft, vs)
            if z3.is_true(guard):
                guard = None
        out.append((vec, guard))
        if len(out) > MAX_WITNESS:
            raise Inconclusive("too many MIP witnesses")
        s.add(z3.Or([z != q if ng else z < q for z, q, ng in zip(zs, vec, neg)] +
                    ([z3.Not(guard)] if guard is not None else [])))
    c.stats["solver_s"] += time.time() - t0
    return out


def scripted(c, prob, orig, solver, kw, P):
    """Concrete runs: the recorded optimal solution in place of the one the real
    solver found, once it is known to be one."""
    k = c.notes["mip"] = c.notes.get("mip", 0) + 1
    names = {v.name: v for v in prob.variables()}
    status = orig(prob, solver, **kw)
    if c.notes.get("status") is not None:       # a solver that gives up
        prob.status = c.notes["status"]
        return prob.status
    if not c.mip_scripted or prob.status != P.LpStatusOptimal or k > len(c.mip):
        return status
    vals = {n: a / b for n, (a, b) in c.mip[k - 1].items()}
    if set(names) != set(vals):
        raise engine.Diverged("another model than the recorded one")

    def value(e):
        return sum(float(x) * vals.get(v.name, 0) for v, x in e.items()) + float(e.constant)
    best = value_of(prob.objective)
    for n, v in names.items():
        x = vals[n]
        if (v.lowBound is not None and x < v.lowBound - 1e-9) or \
                (v.upBound is not None and x > v.upBound + 1e-9) or \
                (v.cat == "Integer" and x != int(x)):
            raise engine.Diverged("recorded value of %s out of range" % n)
    for con in prob.constraints.values():
        x = value(con)
        if (con.sense == -1 and x > 1e-9) or (con.sense == 1 and x < -1e-9) or \
                (con.sense == 0 and abs(x) > 1e-9):
            raise engine.Diverged("recorded solution is not feasible")
    mine = value(prob.objective)
    if (mine - best) * prob.sense > 1e-6 * max(1, abs(best)):
        raise engine.Diverged("recorded solution is not optimal")
    for n, v in names.items():
        v.varValue = vals[n]
        c.reach("scripted")
    return status


def value_of(e):
    return sum(float(x) * (v.varValue or 0) for v, x in e.items()) + float(e.constant)
