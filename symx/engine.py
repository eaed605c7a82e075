"""Symbolic execution of real Python code: proxy values over z3 Reals, path forking by re-execution.

The code under test runs unmodified in CPython.  Numeric inputs are `Sym` objects (z3 real terms); a
branch on a symbolic condition asks the solver which sides are feasible and, when both are, schedules
the other side as a new path (depth-first over decision prefixes).  At every `ctx.check` the solver
decides whether any input of the current path violates the asserted condition.
"""
import builtins
import math
import os
import sys
import time
from fractions import Fraction

import numpy as _np
import z3

INF = float("inf")


class EngineStop(BaseException):
    """Base of the engine's own control flow: never caught by code under test (`except Exception`)."""


class Infeasible(EngineStop):
    pass


class Unsupported(EngineStop):
    pass


class PathLimit(EngineStop):
    pass


class Hang(EngineStop):
    """One path has run for much longer than any path should."""


class Stats:
    def __init__(self):
        self.paths = 0
        self.infeasible = 0
        self.branch_queries = 0
        self.check_queries = 0
        self.discharged = 0
        self.unknown = 0
        self.forks = 0
        self.states = 0
        self.transitions = 0
        self.solver_s = 0.0
        self.reached = {}

    def as_dict(self):
        d = dict(self.__dict__)
        d["solver_s"] = round(self.solver_s, 3)
        return d


CUR = None  # the active engine (one per process)


# ----------------------------------------------------------------------------------------------
# values


def frac(x):
    if isinstance(x, Fraction):
        return x
    if isinstance(x, (bool, _np.bool_)):
        return Fraction(int(x))
    if isinstance(x, (int, _np.integer)):
        return Fraction(int(x))
    return Fraction(float(x))


_numcache = {}


def num(x):
    f = frac(x)
    r = _numcache.get(f)
    if r is None:
        r = z3.RealVal(f"{f.numerator}/{f.denominator}") if f.denominator != 1 else z3.RealVal(f.numerator)
        if len(_numcache) < 20000:
            _numcache[f] = r
    return r


def isnum(x):
    return isinstance(x, (int, float, _np.integer, _np.floating, _np.bool_, Fraction)) or (
        isinstance(x, _np.ndarray) and x.ndim == 0
    )


def lift(x):
    """z3 term of sort Real for a number-like x, or None."""
    if isinstance(x, Sym):
        return x
    if isinstance(x, SymBool):
        return z3.If(x, num(1), num(0))
    if isinstance(x, z3.ArithRef):
        return z3.ToReal(x) if x.is_int() else x
    if isinstance(x, _np.ndarray) and x.ndim == 0:
        return lift(x.item())
    if isnum(x):
        if isinstance(x, (float, _np.floating)) and (math.isinf(x) or math.isnan(x)):
            return None
        return num(x)
    return None


def wrap(t):
    if isinstance(t, Sym):
        return t
    return Sym(t.as_ast(), t.ctx)


def wrapb(t):
    if isinstance(t, bool):
        return t
    if isinstance(t, SymBool):
        return t
    t = z3.simplify(t)
    if z3.is_true(t):
        return True
    if z3.is_false(t):
        return False
    return SymBool(t.as_ast(), t.ctx)


def term(x):
    """A z3 Bool for a bool-like x."""
    if isinstance(x, z3.BoolRef):
        return x
    if isinstance(x, (bool, _np.bool_)):
        return z3.BoolVal(bool(x))
    if isinstance(x, Sym):
        return x.z() != 0
    if isinstance(x, _np.ndarray):
        return z3.And([term(e) for e in x.flat]) if x.size != 1 else term(x.item())
    return z3.BoolVal(bool(x))


def is_sym(x):
    return isinstance(x, (Sym, SymBool))


def const_value(s):
    """Fraction value of a Sym that is a numeral, else None."""
    if z3.is_rational_value(s):
        return Fraction(s.numerator_as_long(), s.denominator_as_long())
    return None


def _special(o):
    return isinstance(o, (float, _np.floating)) and not math.isfinite(o)


def _arr(o):
    return isinstance(o, _np.ndarray) and o.ndim > 0


class SymBool(z3.BoolRef):
    def __bool__(self):
        return CUR.branch(self)

    __nonzero__ = __bool__

    def __deepcopy__(self, memo=None):
        return self

    __copy__ = lambda self: self

    def __hash__(self):
        return z3.AstRef.hash(self)

    def __eq__(self, o):
        if o is None or isinstance(o, str):
            return False
        if isinstance(o, (bool, _np.bool_, z3.BoolRef)):
            return wrapb(z3.BoolRef.__eq__(self, o if isinstance(o, z3.BoolRef) else z3.BoolVal(bool(o))))
        return wrap(lift(self)) == o

    def __ne__(self, o):
        r = self == o
        return (not r) if isinstance(r, bool) else wrapb(z3.Not(r))

    def __and__(self, o):
        return wrapb(z3.And(self, term(o)))

    __rand__ = __and__

    def __or__(self, o):
        return wrapb(z3.Or(self, term(o)))

    __ror__ = __or__

    def __xor__(self, o):
        return wrapb(z3.Xor(self, term(o)))

    __rxor__ = __xor__

    def __invert__(self):
        return wrapb(z3.Not(self))

    def __add__(self, o):
        return wrap(lift(self)) + o

    def __radd__(self, o):
        return wrap(lift(self)) + o

    def __mul__(self, o):
        return wrap(lift(self)) * o

    __rmul__ = __mul__

    def __sub__(self, o):
        return wrap(lift(self)) - o

    def __rsub__(self, o):
        return o - wrap(lift(self))

    def __str__(self):
        return str(bool(self))

    def __repr__(self):
        return "SymBool"

    def logical_not(self):
        return wrapb(z3.Not(self))

    def item(self):
        return self

    def __reduce_ex__(self, p):
        raise Unsupported("pickling a symbolic value")


class Sym(z3.ArithRef):
    __array_priority__ = -1

    def z(self):
        return z3.ArithRef(self.as_ast(), self.ctx)

    # -- conversion -------------------------------------------------------------------------
    def __float__(self):
        c = const_value(z3.simplify(self.z()))
        if c is not None:
            return float(c)
        raise Unsupported("float() of a symbolic value at C level")

    def __int__(self):
        c = const_value(z3.simplify(self.z()))
        if c is not None:
            return int(c)
        return CUR.concrete_int(self)

    __trunc__ = __int__

    def __index__(self):
        raise Unsupported("symbolic index")

    def __bool__(self):
        return CUR.branch(wrapb(z3.Not(z3.ArithRef.__eq__(self, num(0)))))

    __nonzero__ = __bool__

    def __hash__(self):
        return z3.AstRef.hash(self)

    def __deepcopy__(self, memo=None):
        return self

    def __copy__(self):
        return self

    def __reduce_ex__(self, p):
        raise Unsupported("pickling a symbolic value")

    def __str__(self):
        return CUR.text_of(self)

    def __repr__(self):
        return CUR.text_of(self)

    def __format__(self, spec):
        return CUR.text_of(self)

    def item(self):
        return self

    def tolist(self):
        return self

    def copy(self):
        return self

    def flatten(self):
        return self

    @property
    def real(self):
        return self

    def conjugate(self):
        return self

    # -- arithmetic -------------------------------------------------------------------------
    def _bin(self, o, f, spec=None):
        if _arr(o) or isinstance(o, (list, tuple, str)) or o is None:
            return NotImplemented
        if _special(o):
            if spec is None:
                raise Unsupported("arithmetic with inf/nan")
            return spec(o)
        t = lift(o)
        if t is None:
            return NotImplemented
        return wrap(z3.simplify(f(self.z(), t.z() if isinstance(t, Sym) else t)))

    def __add__(self, o):
        return self._bin(o, lambda a, b: a + b, lambda o: o)

    def __radd__(self, o):
        return self._bin(o, lambda a, b: b + a, lambda o: o)

    def __sub__(self, o):
        return self._bin(o, lambda a, b: a - b, lambda o: -o)

    def __rsub__(self, o):
        return self._bin(o, lambda a, b: b - a, lambda o: o)

    def __mul__(self, o):
        return self._bin(o, lambda a, b: a * b, self._mulinf)

    def __rmul__(self, o):
        return self._bin(o, lambda a, b: b * a, self._mulinf)

    def _mulinf(self, o):
        if math.isnan(o):
            return o
        if self > 0:
            return o
        if self < 0:
            return -o
        return float("nan")

    def __truediv__(self, o):
        if _special(o):
            return 0.0
        if is_sym(o):
            CUR.nonzero(o)
        elif isnum(o) and frac(o) == 0:
            raise ZeroDivisionError("float division by zero")
        return self._bin(o, lambda a, b: a / b)

    __div__ = __truediv__

    def __rtruediv__(self, o):
        if _arr(o) or o is None:
            return NotImplemented
        CUR.nonzero(self)
        return self._bin(o, lambda a, b: b / a, lambda o: self._mulinf(o))

    __rdiv__ = __rtruediv__

    def __floordiv__(self, o):
        return CUR.floor(self / o)

    def __mod__(self, o):
        if _arr(o):
            return NotImplemented
        if is_sym(o):
            raise Unsupported("symbolic modulus")
        return self - CUR.floor(self / o) * o

    def __rmod__(self, o):
        raise Unsupported("symbolic modulus")

    def __divmod__(self, o):
        q = self // o
        return q, self - q * o

    def __pow__(self, o):
        if _arr(o):
            return NotImplemented
        if is_sym(o):
            c = const_value(z3.simplify(lift(o)))
            if c is None:
                raise Unsupported("symbolic exponent")
            o = c
        f = frac(o)
        if f.denominator == 1:
            n = int(f)
            if n < 0:
                return 1 / (self ** (-n))
            r = wrap(num(1))
            for _ in range(n):
                r = r * self
            return r
        if f == Fraction(1, 2):
            return CUR.sqrt(self)
        if f.denominator == 2:
            return CUR.sqrt(self) ** int(f.numerator)
        raise Unsupported(f"power {o}")

    def __rpow__(self, o):
        raise Unsupported("symbolic exponent")

    def __neg__(self):
        return wrap(z3.simplify(-self.z()))

    def __pos__(self):
        return self

    def __abs__(self):
        z = self.z()
        return wrap(z3.simplify(z3.If(z >= 0, z, -z)))

    def __round__(self, n=None):
        if n is not None and n >= 4:
            return self  # rounding to >=4 decimals is modelled as the identity (stated)
        return CUR.round(self, n)

    def __floor__(self):
        return int(CUR.floor(self))

    def __ceil__(self):
        return -int(CUR.floor(-self))

    # -- comparison -------------------------------------------------------------------------
    def _cmp(self, o, f, spec):
        if _arr(o) or isinstance(o, (list, tuple)):
            return NotImplemented
        if _special(o):
            return spec(o)
        t = lift(o)
        if t is None:
            return NotImplemented
        return wrapb(f(self.z(), t.z() if isinstance(t, Sym) else t))

    def __lt__(self, o):
        return self._cmp(o, lambda a, b: a < b, lambda o: o == INF)

    def __le__(self, o):
        return self._cmp(o, lambda a, b: a <= b, lambda o: o == INF)

    def __gt__(self, o):
        return self._cmp(o, lambda a, b: a > b, lambda o: o == -INF)

    def __ge__(self, o):
        return self._cmp(o, lambda a, b: a >= b, lambda o: o == -INF)

    def __eq__(self, o):
        if o is None or isinstance(o, str):
            return False
        return self._cmp(o, lambda a, b: a == b, lambda o: False)

    def __ne__(self, o):
        if o is None or isinstance(o, str):
            return True
        return self._cmp(o, lambda a, b: z3.Not(a == b), lambda o: True)

    # -- numpy object-array ufunc methods -----------------------------------------------------
    def sqrt(self):
        return CUR.sqrt(self)

    def cos(self):
        return CUR.cos(self)

    def sin(self):
        return CUR.sin(self)

    def tan(self):
        return self.sin() / self.cos()

    def arctan2(self, o):
        return CUR.arctan2(self, o)

    def floor(self):
        return CUR.floor(self)

    def ceil(self):
        return -CUR.floor(-self)

    def square(self):
        return self * self

    def fabs(self):
        return abs(self)

    def exp(self):
        return CUR.uf("exp", self)

    def log(self):
        return CUR.uf("log", self)

    def isfinite(self):
        return True

    def is_integer(self):
        raise Unsupported("is_integer")

    def rint(self):
        return CUR.round(self, None)


def ite(c, a, b):
    if isinstance(c, (bool, _np.bool_)):
        return a if c else b
    ta, tb = lift(a), lift(b)
    if ta is None or tb is None:
        return a if c else b  # forks
    return wrap(z3.simplify(z3.If(c, ta, tb)))


def smin2(a, b):
    if not (is_sym(a) or is_sym(b)):
        return a if a <= b else b
    if _special(a):
        return a if a == -INF else b
    if _special(b):
        return b if b == -INF else a
    return ite(a <= b, a, b)


def smax2(a, b):
    if not (is_sym(a) or is_sym(b)):
        return a if a >= b else b
    if _special(a):
        return a if a == INF else b
    if _special(b):
        return b if b == INF else a
    return ite(a >= b, a, b)


def all_of(xs):
    ts = []
    for x in xs:
        if isinstance(x, _np.ndarray):
            x = all_of(x.flat)
        if is_sym(x):
            ts.append(term(x))
        elif not x:
            return False
    if not ts:
        return True
    return wrapb(z3.And(ts))


def any_of(xs):
    ts = []
    for x in xs:
        if isinstance(x, _np.ndarray):
            x = any_of(x.flat)
        if is_sym(x):
            ts.append(term(x))
        elif x:
            return True
    if not ts:
        return False
    return wrapb(z3.Or(ts))


def not_(x):
    if is_sym(x):
        return wrapb(z3.Not(term(x)))
    return not x


# ----------------------------------------------------------------------------------------------
# engine


_HERE = os.path.dirname(os.path.abspath(__file__))


def site():
    f = sys._getframe(2)
    while f is not None and f.f_code.co_filename.startswith(_HERE):
        f = f.f_back
    return (f.f_code.co_filename, f.f_lineno) if f is not None else None


class Engine:
    def __init__(self, name="", timeout_ms=20000, max_paths=100000, deadline=None, logic_nl=False):
        self.name = name
        self.stats = Stats()
        self.timeout_ms = timeout_ms
        self.max_paths = max_paths
        self.deadline = deadline
        self.violations = []
        self.witnesses = []
        self.incomplete = []
        self.max_witness = 12
        self.functions = set()

    # -- path management ----------------------------------------------------------------------
    def _fresh_solver(self):
        s = z3.Solver()
        s.set("timeout", self.timeout_ms)
        return s

    def start(self, prefix):
        self.prefix = prefix
        self.trail = []  # decisions taken (bool) incl. forced ones
        self.pos = 0
        self.solver = self._fresh_solver()
        self.quarter_turns = False
        self.split_floor = None
        self.pc = []
        self.decided = {}
        self.keep = []
        self.nfresh = 0
        self.inputs = {}  # name -> (kind, term)
        self.memo = {}
        self.last_model = None
        self.texts = []
        self.labels = []
        self.obs = []

    def add(self, t):
        t = term(t)
        self.pc.append(t)
        self.solver.add(t)
        if self.last_model is not None:
            try:
                if not z3.is_true(self.last_model.eval(t, model_completion=True)):
                    self.last_model = None
            except z3.Z3Exception:
                self.last_model = None

    def sat(self, *extra):
        """'sat' / 'unsat' / 'unknown' of the path condition plus extra."""
        t0 = time.time()
        if self.deadline and t0 > self.deadline:
            raise PathLimit("time limit")
        if extra:
            self.solver.push()
            for e in extra:
                self.solver.add(e)
        r = self.solver.check()
        m = None
        if r == z3.sat:
            m = self.solver.model()
        if extra:
            self.solver.pop()
        self.stats.solver_s += time.time() - t0
        r = str(r)
        if r == "unknown":
            # second opinion: a fresh (non-incremental) solver, with the nonlinear tactic
            t0 = time.time()
            for mk in (lambda: z3.Solver(), lambda: z3.Tactic("qfnra-nlsat").solver()):
                s2 = mk()
                s2.set("timeout", self.timeout_ms)
                s2.add(*self.pc)
                s2.add(*extra)
                r2 = s2.check()
                if r2 != z3.unknown:
                    r = str(r2)
                    if r2 == z3.sat:
                        m = s2.model()
                    break
            self.stats.solver_s += time.time() - t0
        return r, m

    def branch(self, b):
        if isinstance(b, bool):
            return b
        t = z3.simplify(term(b))
        if z3.is_true(t):
            return True
        if z3.is_false(t):
            return False
        neg = z3.is_not(t)
        key_t = t.arg(0) if neg else t
        k = key_t.get_id()
        if k in self.decided:
            d = self.decided[k]
            return (not d) if neg else d
        d = self._decide(t)
        self.decided[k] = (not d) if neg else d
        self.keep.append(key_t)
        self.pos += 1
        return d

    def _decide(self, t):
        self.site = site()
        if self.pos < len(self.prefix):
            d, forced, where = self.prefix[self.pos]
            if where != self.site or forced == "val":
                raise Unsupported(f"re-execution diverged: {where} vs {self.site}")
            self.trail.append((d, forced, where))
            if not forced:
                self.add(t if d else z3.Not(t))
            return d
        nt = z3.Not(t)
        self.stats.states += 1
        self.stats.transitions += 1
        can_t = can_f = None
        if self.last_model is not None:
            try:
                v = self.last_model.eval(t, model_completion=True)
                if z3.is_true(v):
                    can_t = True
                elif z3.is_false(v):
                    can_f = True
            except z3.Z3Exception:
                pass
        mt = mf = self.last_model
        if can_t is None:
            r, mt = self.sat(t)
            self.stats.branch_queries += 1
            can_t = r != "unsat"
            if r == "unknown":
                self.stats.unknown += 1
        if not can_t and can_f is None:
            # path condition itself is satisfiable (invariant), so the other side is
            self.trail.append((False, True, self.site))
            return False
        if can_f is None:
            r, mf = self.sat(nt)
            self.stats.branch_queries += 1
            can_f = r != "unsat"
            if r == "unknown":
                self.stats.unknown += 1
        if can_t and not can_f:
            self.trail.append((True, True, self.site))
            if mt is not None:
                self.last_model = mt
            return True
        if can_f and not can_t:
            self.trail.append((False, True, self.site))
            if mf is not None:
                self.last_model = mf
            return False
        if not can_t and not can_f:
            raise Infeasible()
        # both
        self.stats.forks += 1
        self.stats.transitions += 1
        self.pending.append(self.trail[: self.pos] + [(False, False, self.site)])
        self.trail.append((True, False, self.site))
        self.pc.append(t)
        self.solver.add(t)
        self.last_model = mt
        return True

    def assume(self, c):
        if isinstance(c, (bool, _np.bool_)):
            if not c:
                raise Infeasible()
            return
        t = z3.simplify(term(c))
        if z3.is_true(t):
            return
        if z3.is_false(t):
            raise Infeasible()
        self.add(t)
        if self.pos >= len(self.prefix) and self.last_model is None:
            r, m = self.sat()
            self.stats.branch_queries += 1
            if r == "unsat":
                raise Infeasible()
            self.last_model = m

    # -- symbols --------------------------------------------------------------------------------
    def fresh(self, base):
        self.nfresh += 1
        return wrap(z3.Real(f"{base}!{self.nfresh}"))

    def fresh_int(self, base):
        self.nfresh += 1
        return z3.Int(f"{base}!{self.nfresh}")

    def real(self, name):
        if name in self.inputs:
            raise RuntimeError("duplicate input " + name)
        v = wrap(z3.Real("in_" + name))
        self.inputs[name] = ("real", v)
        return v

    def choice(self, name, n):
        v = z3.Int("in_" + name)
        self.inputs[name] = ("int", v)
        self.add(z3.And(v >= 0, v < n))
        for i in range(n - 1):
            if self.branch(wrapb(v == i)):
                return i
        return n - 1

    def boolean(self, name):
        v = z3.Bool("in_" + name)
        self.inputs[name] = ("bool", v)
        return SymBool(v.as_ast(), v.ctx)

    def concrete_int(self, s):
        # fork over the integer values a symbolic number can take (int()): bounded by solver models
        fl = self.floor_toward_zero(s)
        for _ in range(64):
            if not is_sym(fl):
                return int(fl)
            where = site()
            if self.pos < len(self.prefix):
                k, kind, w2 = self.prefix[self.pos]
                if kind != "val" or w2 != where:
                    raise Unsupported("re-execution diverged at int()")
            else:
                r, m = self.sat()
                if r != "sat":
                    raise Unsupported("int() of symbolic value")
                k = const_value(m.eval(fl.z(), model_completion=True))
                if k is None:
                    raise Unsupported("int() of symbolic value")
            self.trail.append((k, "val", where))
            self.pos += 1
            if self.branch(fl == k):
                return int(k)
        raise Unsupported("int() of symbolic value with too many values")

    def floor(self, s):
        if not is_sym(s):
            return float(math.floor(s))
        c = const_value(z3.simplify(s.z()))
        if c is not None:
            return float(math.floor(c))
        key = ("floor", s.get_id())
        if key in self.memo:
            return self.memo[key][0]
        if self.split_floor is not None:
            # one path per value (keeps the path condition free of integers)
            lo, hi = self.split_floor
            for n in range(lo, hi + 1):
                if n == hi or s < n + 1:
                    if n == hi and not (s < n + 1):
                        raise Unsupported("floor outside the range given")
                    if n == lo and not (s >= n):
                        raise Unsupported("floor outside the range given")
                    self.memo[key] = (float(n), s)
                    return float(n)
        k = self.fresh_int("floor")
        kr = z3.ToReal(k)
        self.add(z3.And(kr <= s.z(), s.z() < kr + 1))
        r = wrap(kr)
        self.memo[key] = (r, s)
        return r

    def floor_toward_zero(self, s):
        if s >= 0:
            return wrap(lift(self.floor(s)))
        return wrap(lift(-self.floor(-s)))

    def round(self, s, n):
        p = 10 ** (n or 0)
        k = self.fresh_int("round")
        kr = z3.ToReal(k)
        y = lift(s * p)
        self.add(z3.And(kr - y <= num(Fraction(1, 2)), y - kr <= num(Fraction(1, 2))))
        return wrap(kr / num(p))

    def nonzero(self, s):
        if self.branch(wrapb(lift(s) == num(0))):
            raise ZeroDivisionError("division by zero (symbolic)")

    def sqrt(self, s):
        if not is_sym(s):
            return math.sqrt(s)
        c = const_value(z3.simplify(s.z()))
        if c is not None:
            return math.sqrt(c)
        key = ("sqrt", s.get_id())
        if key in self.memo:
            return self.memo[key][0]
        t = z3.simplify(s.z(), som=True)
        if (z3.is_mul(t) and t.num_args() == 2 and t.arg(0).eq(t.arg(1))) or \
                (t.decl().kind() == z3.Z3_OP_POWER and z3.is_rational_value(t.arg(1)) and t.arg(1).as_fraction() == 2):
            r = wrap(t.arg(0))
            if r < 0:
                r = -r
            self.memo[key] = (r, s)
            return r
        if s < 0:
            raise Unsupported("sqrt of a negative value")
        r = self.fresh("sqrt")
        self.add(z3.And(r.z() >= 0, r.z() * r.z() == s.z()))
        self.memo[key] = (r, s)
        return r

    def _trig(self, s):
        key = ("trig", s.get_id())
        if key not in self.memo:
            c, d = self.fresh("cos"), self.fresh("sin")
            self.add(c.z() * c.z() + d.z() * d.z() == 1)
            self.add(z3.And(c.z() >= -1, c.z() <= 1, d.z() >= -1, d.z() <= 1))
            if self.quarter_turns:
                self._turns(s, c, d)
            self.memo[key] = (c, d, s)
        return self.memo[key]

    def _turns(self, s, c, d):
        """cos/sin of angles that differ by a multiple of a quarter turn (opt-in: quarter_turns; sound for any angles)."""
        if self.quarter_turns == "cong":
            for k2, v in list(self.memo.items()):
                if k2[0] == "trig":
                    self.add(z3.Implies(s.z() == v[2].z(), z3.And(c.z() == v[0].z(), d.z() == v[1].z())))
            return
        h = math.pi / 2
        eps = num(1e-9)
        near = lambda a, b: z3.And(a - b <= eps, b - a <= eps)
        for k in range(-8, 9):
            self.add(z3.Implies(near(s.z(), num(k * h)), z3.And(near(c.z(), num((1, 0, -1, 0)[k % 4])), near(d.z(), num((0, 1, 0, -1)[k % 4])))))
        for k2, v in list(self.memo.items()):
            if k2[0] != "trig" or self.quarter_turns == "const":
                continue
            c0, d0, s0 = v
            C, D = c0.z(), d0.z()
            diff = s.z() - s0.z()
            for rot, ks in (((C, D), (-8, -4, 0, 4, 8)), ((-D, C), (-7, -3, 1, 5)), ((-C, -D), (-6, -2, 2, 6)), ((D, -C), (-5, -1, 3, 7))):
                self.add(z3.Implies(z3.Or(*[diff == num(k * h) for k in ks]), z3.And(c.z() == rot[0], d.z() == rot[1])))

    def _const_trig(self, s, c):
        """Let angles that turn out to equal this constant have its cos and sin."""
        key = ("trig", s.get_id())
        if key not in self.memo:
            v, w = wrap(num(math.cos(c))), wrap(num(math.sin(c)))
            self._turns(s, v, w)
            self.memo[key] = (v, w, s)

    def cos(self, s):
        c = const_value(z3.simplify(s.z()))
        if c is not None:
            if self.quarter_turns == "cong":
                self._const_trig(s, c)
            return math.cos(c)
        return self._trig(s)[0]

    def sin(self, s):
        c = const_value(z3.simplify(s.z()))
        if c is not None:
            if self.quarter_turns == "cong":
                self._const_trig(s, c)
            return math.sin(c)
        return self._trig(s)[1]

    def set_trig(self, s, c, d):
        """Declare (cos s, sin s) = (c, d) for an input angle."""
        self.memo[("trig", s.get_id())] = (c, d, s)

    def arctan2(self, y, x):
        y, x = wrap(lift(y)), wrap(lift(x))
        cy, cx = const_value(z3.simplify(y.z())), const_value(z3.simplify(x.z()))
        if cy is not None and cx is not None:
            return math.atan2(cy, cx)
        key = ("atan2", y.get_id(), x.get_id())
        if key in self.memo:
            return self.memo[key][0]
        if cy == 0:
            return math.pi if x < 0 else 0.0
        if cx == 0:
            return math.pi / 2 if y > 0 else -math.pi / 2 if y < 0 else 0.0
        phi = self.fresh("atan2")
        pi = num(math.pi)
        self.add(z3.And(phi.z() <= pi, phi.z() >= -pi))
        if self.quarter_turns == "cong":
            for k2, v in list(self.memo.items()):
                if k2[0] == "atan2":
                    self.add(z3.Implies(z3.And(y.z() == v[1].z(), x.z() == v[2].z()), phi.z() == v[0].z()))
        if self.quarter_turns in ("free", "cong"):
            self.memo[key] = (phi, y, x)
            return phi
        if self.quarter_turns != "order":
            r = self.sqrt(x * x + y * y) if self.quarter_turns else self.fresh("atan2r")
            c, d, _ = self._trig(phi)
            self.add(z3.And(r.z() >= 0, x.z() == r.z() * c.z(), y.z() == r.z() * d.z()))
        # sign axioms (quadrants)
        h = num(math.pi / 2)
        p = phi.z()
        X, Y = x.z(), y.z()
        self.add(z3.And(
            z3.Implies(Y > 0, z3.And(p > 0, p < pi)),
            z3.Implies(Y < 0, z3.And(p < 0, p > -pi)),
            z3.Implies(z3.And(Y == 0, X > 0), p == 0),
            z3.Implies(z3.And(Y == 0, X < 0), p == pi),
            z3.Implies(z3.And(Y == 0, X == 0), p == 0),
            z3.Implies(X > 0, z3.And(p > -h, p < h)),
            z3.Implies(z3.And(X < 0, Y >= 0), p > h),
            z3.Implies(z3.And(X < 0, Y < 0), p < -h),
            z3.Implies(z3.And(X == 0, Y > 0), p == h),
            z3.Implies(z3.And(X == 0, Y < 0), p == -h),
        ))
        if self.quarter_turns and self.quarter_turns != "order":
            # the same direction means the same angle up to full turns (angles within +-5 pi: see Ctx.geometry)
            for k2, v in list(self.memo.items()):
                if k2[0] == "trig" and v[2] is not phi:
                    t = v[2].z()
                    self.add(z3.Implies(z3.And(r.z() > 0, c.z() == v[0].z(), d.z() == v[1].z(), t <= num(5 * math.pi), t >= num(-5 * math.pi)),
                                        z3.Or(*[p - t == num(2 * k * math.pi) for k in (-2, -1, 0, 1, 2)])))
        if self.quarter_turns == "order":
            # order of directions: the sign of the cross product
            for k2, v in list(self.memo.items()):
                if k2[0] == "atan2":
                    q, Y2, X2 = v[0].z(), v[1].z(), v[2].z()
                    cr, df = X2 * Y - Y2 * X, p - q
                    nz = z3.And(z3.Or(X != 0, Y != 0), z3.Or(X2 != 0, Y2 != 0))
                    self.add(z3.Implies(nz, z3.And(
                        (cr > 0) == z3.Or(z3.And(df > 0, df < pi), df < -pi), (cr < 0) == z3.Or(z3.And(df < 0, df > -pi), df > pi),
                        (z3.And(cr == 0, X * X2 + Y * Y2 > 0)) == (df == 0))))
        self.memo[key] = (phi, y, x)
        return phi

    def uf(self, name, s):
        c = const_value(z3.simplify(s.z()))
        if c is not None:
            return getattr(math, name)(c)
        key = (name, s.get_id())
        if key not in self.memo:
            v = self.fresh(name)
            if name == "exp":
                self.add(v.z() > 0)
            self.memo[key] = (v, s)
        return self.memo[key][0]

    def text_of(self, s):
        """str() of a symbolic float: an expression text with the sign spelled out like Python's."""
        c = const_value(z3.simplify(s.z()))
        if c is not None:
            return str(float(c)) if c.denominator != 1 else str(float(c))
        if s < 0:
            self.texts.append(-s)
            return f"-_SV_({len(self.texts) - 1})"
        self.texts.append(s)
        return f"_SV_({len(self.texts) - 1})"

    # -- assertions -----------------------------------------------------------------------------
    def check(self, label, cond):
        st = self.stats
        self.labels.append(label)
        if self.pos < len(self.prefix):
            # the parent path already decided this very query (same path condition)
            if not isinstance(cond, (bool, _np.bool_)):
                self.add(z3.simplify(term(cond)))
            elif not cond:
                raise Infeasible()
            return True
        st.reached[label] = st.reached.get(label, 0) + 1
        st.check_queries += 1
        if isinstance(cond, (bool, _np.bool_)):
            t = z3.BoolVal(bool(cond))
        else:
            t = z3.simplify(term(cond))
        if z3.is_true(t):
            r, m = self.sat() if self.last_model is None else ("sat", None)
            if r == "unsat":
                raise Infeasible()
            st.discharged += 1
            return True
        r, m = self.sat(z3.Not(t))
        if r == "unsat":
            st.discharged += 1
            self.add(t)
            return True
        if r == "unknown":
            st.unknown += 1
            self.incomplete.append(f"unknown: {label}")
            return True
        self._violation(label, z3.Not(t), m)
        # carry on with the inputs for which it holds, if any
        self.add(t)
        r, m = self.sat()
        if r == "unsat":
            raise Infeasible()
        self.last_model = m
        return False

    def observe(self, name, v):
        """Remember a computed value: a witness re-run on the real code must compute the same."""
        self.obs.append((name, v))

    def input_names(self):
        return list(self.inputs)

    def _values(self, m):
        out = {}
        for n, (kind, v) in self.inputs.items():
            x = m.eval(v if kind != "real" else v.z(), model_completion=True)
            if kind == "int":
                out[n] = x.as_long()
            elif kind == "bool":
                out[n] = z3.is_true(x)
            else:
                if z3.is_algebraic_value(x):
                    x = x.approx(20)
                out[n] = float(Fraction(x.numerator_as_long(), x.denominator_as_long()))
        return out

    def models(self, extra, m0, grids=((8, 64), (1, 1000), (64, 4096), (1024, 1 << 20))):
        """Candidate input valuations for pc+extra: dyadic ones first (exact in floating point)."""
        res = []
        t0 = time.time()
        reals = [v.z() for k, v in self.inputs.values() if k == "real"]
        for den, bound in grids:
            if time.time() - t0 > 12:
                break
            s = z3.Solver()
            s.set("timeout", 3000)
            s.add(*self.pc)
            s.add(*extra)
            for i, v in enumerate(reals):
                k = z3.Int(f"grid!{i}")
                s.add(v == z3.ToReal(k) / den, k >= -bound * den, k <= bound * den)
            if s.check() == z3.sat:
                res.append(self._values(s.model()))
                self.wmodel = s.model()
                break
        if m0 is not None:
            if not res:
                self.wmodel = m0
            res.append(self._values(m0))
        self.stats.solver_s += time.time() - t0
        return res

    def _violation(self, label, neg, m):
        same = [v for v in self.violations if v["label"] == label]
        if len(same) >= 6 or len(self.violations) >= 30:
            return
        self.violations.append(
            {"label": label, "models": self.models([neg], m), "decisions": len(self.trail)}
        )

    def path_witness(self):
        if len(self.witnesses) < self.max_witness or self.stats.paths % 37 == 0 and len(self.witnesses) < 40:
            r, m = self.sat()
            if r == "sat":
                ms = self.models([], m)
                if ms:
                    obs = []
                    for n, v in self.obs:
                        try:
                            obs.append((n, self._evalobs(v)))
                        except (z3.Z3Exception, ValueError, OverflowError):
                            obs.append((n, None))
                    self.witnesses.append({"inputs": ms[0], "labels": list(self.labels), "obs": obs})

    def _evalobs(self, v):
        if isinstance(v, (list, tuple)) or (isinstance(v, _np.ndarray) and v.ndim):
            return [self._evalobs(e) for e in v]
        if isinstance(v, SymBool):
            return z3.is_true(self.wmodel.eval(term(v), model_completion=True))
        if isinstance(v, Sym):
            x = self.wmodel.eval(v.z(), model_completion=True)
            if z3.is_algebraic_value(x):
                x = x.approx(20)
            return float(Fraction(x.numerator_as_long(), x.denominator_as_long()))
        if isinstance(v, (bool, _np.bool_)):
            return bool(v)
        if isnum(v):
            return float(v)
        return str(v)

    # -- exploration ----------------------------------------------------------------------------
    def explore(self, body):
        global CUR
        CUR = self
        self.pending = [[]]

        def onalarm(*a):
            raise Hang()
        limit = max(200, 3 * self.timeout_ms // 1000)
        import signal
        signal.signal(signal.SIGALRM, onalarm)
        while self.pending:
            if self.stats.paths >= self.max_paths:
                self.incomplete.append("path limit")
                break
            if self.deadline and time.time() > self.deadline:
                self.incomplete.append("time limit")
                break
            prefix = self.pending.pop()
            self.start(prefix)
            self.stats.paths += 1
            try:
                signal.setitimer(signal.ITIMER_REAL, limit, 0.0371)  # again and again: one raised in a destructor is lost
                try:
                    body()
                    self.path_witness()
                finally:
                    signal.setitimer(signal.ITIMER_REAL, 0)
            except Hang:
                # never ending, or only slow: a concrete run decides
                try:
                    signal.setitimer(signal.ITIMER_REAL, 30, 0.0371)
                    try:
                        if len([v for v in self.violations if v["label"] == "no-end"]) < 2:
                            r, m = self.sat()
                            if r == "sat":
                                self.violations.append({"label": "no-end", "models": self.models([], m), "decisions": len(self.trail)})
                    finally:
                        signal.setitimer(signal.ITIMER_REAL, 0)
                except EngineStop:
                    pass
                self.incomplete.append("a path took too long")
                break
            except Infeasible:
                self.stats.infeasible += 1
            except PathLimit as e:
                self.incomplete.append(str(e))
            except Unsupported as e:
                import traceback
                self.incomplete.append("unsupported: " + str(e) + "\n" + traceback.format_exc()[-1800:])
                # what the solver knows of this path is still worth one concrete run on the real code
                try:
                    if len([v for v in self.violations if v["label"] == "unsupported"]) < 4:
                        r, m = self.sat()
                        if r == "sat":
                            self.violations.append({"label": "unsupported", "models": self.models([], m), "decisions": len(self.trail)})
                except EngineStop:
                    pass
            except Exception as e:
                import traceback
                r, m = self.sat()
                if r == "unsat":
                    self.stats.infeasible += 1
                    continue
                tb = traceback.format_exc()
                lab = f"exception:{type(e).__name__}"
                self.stats.check_queries += 1
                same = [v for v in self.violations if v["label"] == lab]
                if len(same) < 3:
                    self.violations.append(
                        {"label": lab, "models": self.models([], m), "tb": tb[-2500:], "decisions": len(self.trail)}
                    )
                if len(same) > 200:
                    self.incomplete.append("too many exceptions")
                    break
            if len(self.incomplete) > 20:
                break
        CUR = None
