"""The interface a check body is written against.  The same body runs symbolically (inputs are solver
variables) and concretely (inputs read from a counterexample / witness file, real code, no stand-ins)."""
import math

import numpy as np

SYM_TOL = 1e-4   # a symbolic comparison is violated only by more than this
CONC_TOL = 1e-5  # a replay confirms a comparison violated by more than this


class AssumeFailed(BaseException):
    pass


class Reproduced(BaseException):
    def __init__(self, label):
        self.label = label


class _Patches:
    def __init__(self):
        self._undo = []

    def patch(self, obj, attr, val):
        missing = object()
        if isinstance(obj, dict):
            self._undo.append((obj, attr, obj.get(attr, missing), missing, True))
            obj[attr] = val
            return
        old = obj.__dict__.get(attr, missing) if hasattr(obj, "__dict__") else getattr(obj, attr, missing)
        self._undo.append((obj, attr, old, missing, False))
        setattr(obj, attr, val)

    def unpatch(self):
        for obj, attr, old, missing, isd in reversed(self._undo):
            if isd:
                if old is missing:
                    obj.pop(attr, None)
                else:
                    obj[attr] = old
            elif old is missing:
                delattr(obj, attr)
            else:
                setattr(obj, attr, old)
        self._undo = []


class SymCtx(_Patches):
    sym = True

    def __init__(self, engine):
        super().__init__()
        from . import engine as E
        from . import shims as S
        self.E, self.S, self.eng = E, S, engine

    # inputs
    def real(self, name, lo=None, hi=None):
        v = self.eng.real(name)
        if lo is not None:
            self.assume(v >= lo)
        if hi is not None:
            self.assume(v <= hi)
        return v

    def choice(self, name, n):
        return self.eng.choice(name, n)

    def boolean(self, name):
        return self.eng.boolean(name)

    def angle(self, name):
        """An angle in (-pi, pi) given by its half-angle tangent; cos/sin are exact."""
        t = self.eng.real(name)
        a = self.eng.fresh("angle")
        den = 1 + t * t
        import z3
        c, d = self.eng.fresh("cosA"), self.eng.fresh("sinA")
        self.eng.add(z3.And(c.z() * (1 + t.z() * t.z()) == 1 - t.z() * t.z(),
                            d.z() * (1 + t.z() * t.z()) == 2 * t.z()))
        self.eng.set_trig(a, c, d)
        h = self.E.num(math.pi / 2)
        p = self.E.num(math.pi)
        A, T = a.z(), t.z()
        self.eng.add(z3.And(A > -p, A < p, (A > 0) == (T > 0), (A < 0) == (T < 0),
                            (A > h) == (T > 1), (A < -h) == (T < -1), (A == h) == (T == 1), (A == -h) == (T == -1)))
        return a

    def geometry(self, lo=-3, hi=3, mode=True):
        """Relate cos/sin of angles that differ by quarter turns (mode True: any two within +-5 pi; "const": to constants
        only), or only the order of directions ("order": arctan2 without its cos/sin; "free": any angle;
        "cong": any angle and cos/sin, the same for the same argument); floor() takes one path per value in lo..hi."""
        self.eng.quarter_turns = mode
        self.eng.split_floor = (lo, hi)

    # logic
    def And(self, *xs):
        return self.E.all_of(xs)

    def Or(self, *xs):
        return self.E.any_of(xs)

    def Not(self, x):
        return self.E.not_(x)

    def Implies(self, a, b):
        return self.E.any_of([self.E.not_(a), b])

    def Iff(self, a, b):
        return self.E.all_of([self.Implies(a, b), self.Implies(b, a)])

    def ite(self, c, a, b):
        return self.E.ite(c, a, b)

    def min(self, *xs):
        r = xs[0]
        for x in xs[1:]:
            r = self.E.smin2(r, x)
        return r

    def max(self, *xs):
        r = xs[0]
        for x in xs[1:]:
            r = self.E.smax2(r, x)
        return r

    def sqrt(self, x):
        return self.S.sqrt(x)

    def cos(self, x):
        return self.S.mathshim.cos(x)

    def sin(self, x):
        return self.S.mathshim.sin(x)

    def le(self, a, b, tol=SYM_TOL):
        return a <= b + tol

    def eq(self, a, b, tol=SYM_TOL):
        return self.E.all_of([a <= b + tol, b <= a + tol])

    def exact(self, a, b):
        return a == b

    def slack(self):
        return SYM_TOL

    def array(self, x):
        return self.S.array(x)

    def assume(self, c):
        self.eng.assume(c)

    def check(self, label, cond):
        return self.eng.check(label, cond)

    def observe(self, name, v):
        self.eng.observe(name, v)

    def assume_le(self, a, b):
        self.assume(a <= b)


class ConcCtx(_Patches):
    sym = False

    def __init__(self, inputs, stop=True):
        super().__init__()
        self.inputs = inputs
        self.violated = []
        self.reached = []
        self.obs = []
        self.stop = stop

    def _get(self, name):
        if name not in self.inputs:
            raise AssumeFailed("no value for input " + name)
        return self.inputs[name]

    def real(self, name, lo=None, hi=None):
        v = float(self._get(name))
        if (lo is not None and v < lo - 1e-9) or (hi is not None and v > hi + 1e-9):
            raise AssumeFailed(name)
        return v

    def choice(self, name, n):
        return int(self._get(name))

    def boolean(self, name):
        return bool(self._get(name))

    def geometry(self, lo=-3, hi=3, mode=True):
        pass

    def angle(self, name):
        return 2 * math.atan(float(self._get(name)))

    def And(self, *xs):
        return all(bool(np.all(x)) for x in xs)

    def Or(self, *xs):
        return any(bool(np.all(x)) for x in xs)

    def Not(self, x):
        return not x

    def Implies(self, a, b):
        return (not a) or bool(b)

    def Iff(self, a, b):
        return bool(a) == bool(b)

    def ite(self, c, a, b):
        return a if c else b

    def min(self, *xs):
        return min(xs)

    def max(self, *xs):
        return max(xs)

    def sqrt(self, x):
        return math.sqrt(x)

    def cos(self, x):
        return math.cos(x)

    def sin(self, x):
        return math.sin(x)

    def _t(self, tol):
        return CONC_TOL * (tol / SYM_TOL)

    def le(self, a, b, tol=SYM_TOL):
        return bool(a <= b + self._t(tol))

    def eq(self, a, b, tol=SYM_TOL):
        return bool(abs(a - b) <= self._t(tol)) if a != b else True

    def exact(self, a, b):
        return a == b

    def slack(self):
        return CONC_TOL

    def array(self, x):
        return np.array(x, dtype=float)

    def assume(self, c):
        if not c:
            raise AssumeFailed()

    def assume_le(self, a, b):
        if not a <= b + 1e-9:
            raise AssumeFailed()

    def check(self, label, cond):
        self.reached.append(label)
        if not bool(cond):
            self.violated.append(label)
            if self.stop:
                raise Reproduced(label)
            return False
        return True

    def observe(self, name, v):
        self.obs.append((name, v))
