"""Symbolic stand-ins for numpy / builtins / z3.Solver inside the modules under test.

Installed into the *globals* of the already imported real modules (their code objects are untouched)
for the duration of a symbolic run, and removed afterwards.  Concrete replays run without them.
"""
import builtins
import itertools
import math
import sys
import types
import random as _random

import numpy as np
import z3

from . import engine as E
from .engine import Sym, SymBool, is_sym, Unsupported, smin2, smax2, all_of, any_of, ite, wrap, wrapb, lift, term

_real_min, _real_max, _real_float, _real_int, _real_any, _real_all = min, max, float, int, any, all


def _o(a):
    """plain object ndarray view of anything."""
    if isinstance(a, SArr):
        return a.view(np.ndarray)
    if isinstance(a, np.ndarray):
        return a if a.dtype == object else a.astype(object)
    return a


def has_sym(x):
    if is_sym(x):
        return True
    if isinstance(x, np.ndarray):
        return x.dtype == object and _real_any(is_sym(e) for e in x.flat)
    if isinstance(x, (list, tuple)):
        return _real_any(has_sym(e) for e in x)
    return False


def mkarr(x):
    if isinstance(x, SArr):
        return x
    if isinstance(x, np.ndarray):
        if x.dtype == object:
            return x.view(SArr)
        return x.astype(object).view(SArr)
    return x


_CMP = {
    np.less: lambda a, b: a < b,
    np.less_equal: lambda a, b: a <= b,
    np.greater: lambda a, b: a > b,
    np.greater_equal: lambda a, b: a >= b,
    np.equal: lambda a, b: a == b,
    np.not_equal: lambda a, b: a != b,
    np.logical_and: lambda a, b: all_of([a, b]),
    np.logical_or: lambda a, b: any_of([a, b]),
}


def _fdiv(a, b):
    return a / b


def _isfinite(a):
    return True if is_sym(a) else math.isfinite(a)


def _m1(name):
    def f(a):
        if is_sym(a):
            return getattr(a, name)()
        return getattr(np, name)(a).item() if not isinstance(a, _real_float) else _real_float(getattr(np, name)(a))

    return f


def _m2(name):
    def f(a, b):
        if is_sym(a) or is_sym(b):
            return getattr(wrap(lift(a)), name)(b)
        return _real_float(getattr(np, name)(a, b))

    return f


def _sign(a):
    if is_sym(a):
        return ite(a > 0, 1.0, ite(a < 0, -1.0, 0.0))
    return np.sign(a)


_F2 = dict(_CMP)
_F2.update({np.minimum: smin2, np.maximum: smax2, np.fmin: smin2, np.fmax: smax2, np.arctan2: _m2("arctan2")})
_F1 = {
    np.sqrt: _m1("sqrt"), np.sin: _m1("sin"), np.cos: _m1("cos"), np.tan: _m1("tan"), np.exp: _m1("exp"),
    np.log: _m1("log"), np.floor: _m1("floor"), np.ceil: _m1("ceil"), np.rint: _m1("rint"),
    np.isfinite: _isfinite, np.isnan: lambda a: False if is_sym(a) else math.isnan(a),
    np.isinf: lambda a: False if is_sym(a) else math.isinf(a), np.logical_not: lambda a: E.not_(a),
    np.sign: _sign, np.square: lambda a: a * a, np.absolute: abs, np.fabs: abs,
    np.negative: lambda a: -a,
}
_PY = {np.add: lambda a, b: a + b, np.subtract: lambda a, b: a - b, np.multiply: lambda a, b: a * b,
       np.true_divide: _fdiv, np.power: lambda a, b: a**b, np.remainder: lambda a, b: a % b,
       np.floor_divide: lambda a, b: a // b}
_F2.update(_PY)
_FP = {}


def _fp(uf):
    if uf not in _FP:
        if uf in _F2:
            _FP[uf] = np.frompyfunc(_F2[uf], 2, 1)
        elif uf in _F1:
            _FP[uf] = np.frompyfunc(_F1[uf], 1, 1)
        else:
            return None
    return _FP[uf]


def _wrapres(r):
    if isinstance(r, np.ndarray):
        if r.ndim == 0:
            return r.item()
        return r.view(SArr) if r.dtype == object else r
    return r


class SArr(np.ndarray):
    def __array_ufunc__(self, ufunc, method, *inputs, out=None, **kw):
        if _real_any(isinstance(i, Sym) for i in inputs):
            inputs = [i for i in inputs]
        ins = [_o(i) for i in inputs]
        kw.pop("dtype", None)
        kw.pop("casting", None)
        where = kw.pop("where", True)
        if where is not True:
            raise Unsupported("ufunc where=")
        fp = _fp(ufunc)
        if method == "__call__":
            if fp is None:
                if ufunc is np.matmul:
                    r = matmul(*ins)
                else:
                    r = ufunc(*ins, **kw)
            else:
                r = fp(*ins)
        elif method == "reduce":
            if "initial" in kw and kw["initial"] is np._NoValue:
                kw.pop("initial")
            init = kw.pop("initial", None)
            keep = kw.pop("keepdims", False)
            axis = kw.pop("axis", 0)
            a = ins[0]
            if ufunc in (np.logical_and, np.logical_or) and axis is None:
                return (all_of if ufunc is np.logical_and else any_of)(a.flat)
            if isinstance(axis, tuple):
                raise Unsupported("tuple axis")
            if axis is None:
                a = a.reshape(-1)
                axis = 0
            if fp is None:
                r = ufunc.reduce(a, axis=axis)
            else:
                if a.shape[axis] == 0:
                    return ufunc.reduce(a.astype(_real_float), axis=axis)
                r = fp.reduce(a, axis=axis)
            if init is not None:
                r = fp(r, init)
            if keep:
                r = np.expand_dims(r, axis)
        elif method == "accumulate" and fp is not None:
            r = fp.accumulate(ins[0], axis=kw.get("axis", 0), dtype=object)
        elif method == "outer" and fp is not None:
            r = fp.outer(*ins)
        else:
            raise Unsupported(f"ufunc {ufunc} method {method}")
        if out is not None:
            o = out[0] if isinstance(out, tuple) else out
            if isinstance(o, SArr):
                o.view(np.ndarray)[...] = r
                return o
            o[...] = r
            return o
        return _wrapres(r)

    def __array_function__(self, func, types_, args, kwargs):
        f = _AF.get(func)
        if f is not None:
            return f(*args, **kwargs)
        return _wrapres(super().__array_function__(func, types_, args, kwargs))

    def __iadd__(self, o):
        self.view(np.ndarray)[...] = _o(self + o)
        return self

    def __isub__(self, o):
        self.view(np.ndarray)[...] = _o(self - o)
        return self

    def __imul__(self, o):
        self.view(np.ndarray)[...] = _o(self * o)
        return self

    def __itruediv__(self, o):
        self.view(np.ndarray)[...] = _o(self / o)
        return self

    def __bool__(self):
        if self.size == 1:
            return bool(self.item())
        raise ValueError("The truth value of an array with more than one element is ambiguous.")

    def __getitem__(self, k):
        r = super().__getitem__(_key(k))
        return r

    def __setitem__(self, k, v):
        np.ndarray.__setitem__(self.view(np.ndarray), _key(k), _o(v) if isinstance(v, np.ndarray) else v)

    def astype(self, dtype, *a, **k):
        if dtype in (_real_float, np.float64, np.float32, object, "float", "float64") or dtype is FLOAT:
            return self.copy()
        if has_sym(self):
            raise Unsupported(f"astype({dtype})")
        return self.view(np.ndarray).astype(dtype)

    def all(self, axis=None, **k):
        if axis is None:
            return all_of(self.flat)
        return _wrapres(np.apply_along_axis(lambda r: all_of(r), axis, self.view(np.ndarray)))

    def any(self, axis=None, **k):
        if axis is None:
            return any_of(self.flat)
        return _wrapres(np.apply_along_axis(lambda r: any_of(r), axis, self.view(np.ndarray)))

    def min(self, axis=None, **k):
        return np.minimum.reduce(self, axis=axis)

    def max(self, axis=None, **k):
        return np.maximum.reduce(self, axis=axis)

    def dot(self, o):
        return matmul(_o(self), _o(o)) if True else None

    def __matmul__(self, o):
        return matmul(_o(self), _o(np.asarray(o, dtype=object)))

    def __rmatmul__(self, o):
        return matmul(_o(np.asarray(o, dtype=object)), _o(self))

    def argmin(self, axis=None, **k):
        if axis is not None:
            raise Unsupported("argmin axis")
        best = 0
        fl = list(self.flat)
        for i in range(1, len(fl)):
            if fl[i] < fl[best]:
                best = i
        return best

    def argmax(self, axis=None, **k):
        if axis is not None:
            raise Unsupported("argmax axis")
        best = 0
        fl = list(self.flat)
        for i in range(1, len(fl)):
            if fl[i] > fl[best]:
                best = i
        return best

    def mean(self, axis=None, **k):
        n = self.size if axis is None else self.shape[axis]
        return np.add.reduce(self, axis=axis) / n

    def item(self, *a):
        return self.view(np.ndarray).item(*a)


def _key(k):
    if isinstance(k, np.ndarray) and k.dtype == object:
        return _mask(k)
    if isinstance(k, tuple) and _real_any(isinstance(e, np.ndarray) and e.dtype == object for e in k):
        return tuple(_mask(e) if isinstance(e, np.ndarray) and e.dtype == object else e for e in k)
    return k


def _mask(k):
    vals = [e for e in k.flat]
    if _real_all(isinstance(e, (bool, np.bool_, SymBool)) for e in vals):
        return np.array([bool(e) for e in vals], dtype=bool).reshape(k.shape)
    return np.array([_real_int(e) for e in vals], dtype=_real_int).reshape(k.shape)


def matmul(a, b):
    a, b = np.asarray(a, dtype=object), np.asarray(b, dtype=object)
    if a.ndim == 0 or b.ndim == 0:
        return _wrapres(_fp(np.multiply)(a, b))
    if a.shape[-1] != b.shape[0 if b.ndim == 1 else -2]:
        raise ValueError("matmul: shape mismatch")
    if a.ndim > 2 or b.ndim > 2:
        raise Unsupported("matmul ndim>2")
    A = a.reshape(1, -1) if a.ndim == 1 else a
    B = b.reshape(-1, 1) if b.ndim == 1 else b
    R = np.empty((A.shape[0], B.shape[1]), dtype=object)
    for i in range(A.shape[0]):
        for j in range(B.shape[1]):
            s = 0.0
            for k in range(A.shape[1]):
                x, y = A[i, k], B[k, j]
                if not is_sym(x) and x == 0 or not is_sym(y) and y == 0:
                    continue
                s = s + x * y
            R[i, j] = s
    if a.ndim == 1 and b.ndim == 1:
        return R[0, 0]
    if a.ndim == 1:
        return R[0].view(SArr)
    if b.ndim == 1:
        return R[:, 0].view(SArr)
    return R.view(SArr)


def sqrt(x):
    return E.CUR.sqrt(x) if is_sym(x) else math.sqrt(x)


def norm(x, ord=None, axis=None, keepdims=False):
    x = np.asarray(x, dtype=object)
    if axis is None:
        v = list(x.flat)
        if ord in (None, 2, "fro"):
            if x.ndim > 1 and ord == 2:
                raise Unsupported("matrix 2-norm")
            s = 0.0
            for e in v:
                s = s + e * e
            return sqrt(s)
        if ord in (np.inf, math.inf):
            r = abs(v[0])
            for e in v[1:]:
                r = smax2(r, abs(e))
            return r
        if ord == 1:
            return sum(abs(e) for e in v)
        raise Unsupported("norm ord")
    return np.apply_along_axis(lambda r: norm(r, ord), axis, x).view(SArr)


def np_min(a, axis=None, **k):
    return np.minimum.reduce(asarr(a), axis=axis)


def np_max(a, axis=None, **k):
    return np.maximum.reduce(asarr(a), axis=axis)


def np_all(a, axis=None, **k):
    if isinstance(a, (list, tuple)):
        a = asarr(a)
    if not isinstance(a, np.ndarray):
        return a
    return mkarr(a).all(axis)


def np_any(a, axis=None, **k):
    if isinstance(a, (list, tuple)):
        a = asarr(a)
    if not isinstance(a, np.ndarray):
        return a
    return mkarr(a).any(axis)


def asarr(x):
    return array(x, object)


def np_where(c, *rest):
    if not rest:
        if isinstance(c, np.ndarray) and c.dtype == object:
            return np.where(_mask(c))
        return np.where(np.asarray(c))
    a, b = rest
    f = np.frompyfunc(lambda c, a, b: ite(c if isinstance(c, (bool, np.bool_, SymBool)) else bool(c), a, b), 3, 1)
    return _wrapres(f(np.asarray(c, dtype=object), np.asarray(a, dtype=object), np.asarray(b, dtype=object)))


def np_clip(x, lo, hi, **k):
    f = lambda v, l, h: smin2(smax2(v, l), h)
    if isinstance(x, (np.ndarray, list, tuple)) or isinstance(lo, (np.ndarray, list)) or isinstance(hi, (np.ndarray, list)):
        return _wrapres(np.frompyfunc(f, 3, 1)(np.asarray(x, dtype=object), np.asarray(lo, dtype=object), np.asarray(hi, dtype=object)))
    return f(x, lo, hi)


def np_array_equal(a, b, **k):
    a, b = np.asarray(a, dtype=object), np.asarray(b, dtype=object)
    if a.shape != b.shape:
        return False
    return all_of([x == y for x, y in zip(a.flat, b.flat)])


def np_isclose(a, b, rtol=1e-5, atol=1e-8, **k):
    f = lambda x, y: abs(x - y) <= atol + rtol * abs(y)
    return _wrapres(np.frompyfunc(f, 2, 1)(np.asarray(a, dtype=object), np.asarray(b, dtype=object)))


def np_allclose(a, b, rtol=1e-5, atol=1e-8, **k):
    return np_all(np_isclose(a, b, rtol, atol))


def np_sum(a, axis=None, **k):
    return np.add.reduce(asarr(a), axis=axis)


def np_mean(a, axis=None, **k):
    return asarr(a).mean(axis)


def np_cross(a, b, **k):
    a, b = list(a), list(b)
    if len(a) == 2 and len(b) == 2:
        return a[0] * b[1] - a[1] * b[0]
    r = np.empty(3, dtype=object)
    r[0] = a[1] * b[2] - a[2] * b[1]
    r[1] = a[2] * b[0] - a[0] * b[2]
    r[2] = a[0] * b[1] - a[1] * b[0]
    return r.view(SArr)


def np_allf(f):
    return f


def np_argmin(a, axis=None, **k):
    return asarr(a).argmin(axis)


def np_argmax(a, axis=None, **k):
    return asarr(a).argmax(axis)


def np_round(a, decimals=0, **k):
    if isinstance(a, (np.ndarray, list, tuple)):
        return _wrapres(np.frompyfunc(lambda e: round(e, decimals), 1, 1)(np.asarray(a, dtype=object)))
    return round(a, decimals)


_AF = {
    np.linalg.norm: norm, np.all: np_all, np.any: np_any, np.where: np_where, np.clip: np_clip,
    np.array_equal: np_array_equal, np.isclose: np_isclose, np.allclose: np_allclose, np.min: np_min,
    np.max: np_max, np.amin: np_min, np.amax: np_max, np.sum: np_sum, np.mean: np_mean, np.cross: np_cross,
    np.dot: lambda a, b: matmul(_o(a), _o(b)), np.inner: lambda a, b: matmul(_o(a), _o(b)),
    np.argmin: np_argmin, np.argmax: np_argmax, np.round: np_round, np.around: np_round,
    np.sort: lambda a, axis=-1, **k: _sort(a, axis),
}


def _sort(a, axis=-1):
    a = np.asarray(a, dtype=object)
    if axis is None:
        a, axis = a.reshape(-1), 0
    if a.ndim > 1:
        b = np.moveaxis(a, axis, -1)
        r = np.empty(b.shape, dtype=object)
        for i in np.ndindex(*b.shape[:-1]):
            r[i] = _sort(b[i])
        return np.moveaxis(r, -1, axis).view(SArr)
    r = np.empty(len(a), dtype=object)
    for i, e in enumerate(sorted(a, key=__import__("functools").cmp_to_key(lambda x, y: -1 if x < y else 1))):
        r[i] = e
    return r.view(SArr)


# ---- array creation -------------------------------------------------------------------------


def _isfloatdtype(dt):
    return dt is None or dt is FLOAT or dt in (_real_float, object, np.float64, np.float32, "float", "float64", "object", "d", "f8")


def array(x, dtype=None, copy=True, **k):
    if isinstance(x, SArr) and _isfloatdtype(dtype):
        return x.copy() if copy else x
    if dtype is not None and not _isfloatdtype(dtype):
        return np.array(x, dtype=dtype, **k)
    if has_sym(x) or dtype is object:
        k.pop("subok", None)
        return np.array(_unsarr(x), dtype=object, **k).view(SArr)
    r = np.array(_unsarr(x), **k)
    if r.dtype.kind == "f" or (dtype is not None and r.dtype.kind in "iub"):
        return r.astype(_real_float).astype(object).view(SArr)
    if r.dtype == object:
        return r.view(SArr)
    return r


def _unsarr(x):
    if isinstance(x, (list, tuple)):
        return type(x)(_unsarr(e) for e in x) if type(x) in (list, tuple) else [_unsarr(e) for e in x]
    if isinstance(x, SArr):
        return x.view(np.ndarray)
    return x


def asarray(x, dtype=None, **k):
    if isinstance(x, np.ndarray) and (x.dtype == object or dtype is None):
        return x
    return array(x, dtype)


def _filled(v):
    def f(shape, dtype=None, *a, **k):
        if not _isfloatdtype(dtype):
            return np.full(shape, v, dtype=dtype)
        if isinstance(shape, (_real_float,)):
            shape = _real_int(shape)
        r = np.empty(shape, dtype=object)
        r.fill(_real_float(v))
        return r.view(SArr)

    return f


zeros, ones = _filled(0.0), _filled(1.0)


def full(shape, v, dtype=None, **k):
    r = np.empty(shape, dtype=object)
    r[...] = v
    return r.view(SArr)


def _like(v):
    def f(a, dtype=None, **k):
        return _filled(v)(np.shape(a), dtype)

    return f


class _NdMeta(type):
    def __instancecheck__(cls, o):
        return isinstance(o, np.ndarray)

    def __subclasscheck__(cls, o):
        return issubclass(o, np.ndarray)

    def __getattr__(cls, k):
        return getattr(np.ndarray, k)


class ndarray(metaclass=_NdMeta):
    def __new__(cls, shape=None, dtype=None, **k):
        return zeros(shape, dtype)


def _stack(f):
    def g(xs, *a, **k):
        xs = [np.asarray(_unsarr(x), dtype=object) if has_sym(x) or isinstance(x, SArr) else np.asarray(x) for x in xs]
        r = f(xs, *a, **k)
        if r.dtype.kind == "f":
            r = r.astype(object)
        return r.view(SArr) if r.dtype == object else r

    return g


def _generic(f):
    """A numpy function on scalars/lists that may hold symbolic values: go through object arrays."""

    def g(*a, **k):
        return f(*[asarr(x) if isinstance(x, (list, tuple)) and has_sym(x) else x for x in a], **k)

    return g


def _ufn(uf):
    n = uf.nin

    def g(*a, **k):
        if _real_any(isinstance(x, (np.ndarray, list, tuple)) for x in a[:n]):
            if not _real_any(has_sym(x) or isinstance(x, SArr) for x in a[:n]):
                r = uf(*a, **k)
                return r.astype(object).view(SArr) if isinstance(r, np.ndarray) and r.dtype.kind == "f" else r
            ins = [asarr(x) if isinstance(x, (list, tuple, np.ndarray)) else x for x in a[:n]]
            return uf(*ins, **k)
        if _real_any(is_sym(x) for x in a[:n]):
            f = _F2.get(uf) or _F1.get(uf)
            if f is None:
                raise Unsupported(f"numpy.{uf.__name__}")
            return f(*a[:n])
        return uf(*a, **k)

    return g


class _UF:
    """callable ufunc stand-in that keeps .reduce etc."""

    def __init__(self, uf):
        self._uf = uf
        self._f = _ufn(uf)

    def __call__(self, *a, **k):
        return self._f(*a, **k)

    def reduce(self, a, axis=0, **k):
        return self._uf.reduce(asarr(a) if not isinstance(a, np.ndarray) else mkarr(a), axis=axis, **k)

    def accumulate(self, a, axis=0, **k):
        return self._uf.accumulate(asarr(a), axis=axis)

    def outer(self, a, b):
        return self._uf.outer(asarr(a), asarr(b))

    def __getattr__(self, k):
        return getattr(self._uf, k)


class _Linalg:
    norm = staticmethod(norm)

    def __getattr__(self, k):
        return getattr(np.linalg, k)


class _NpRandom:
    @staticmethod
    def seed(*a, **k):
        return None

    @staticmethod
    def uniform(lo=0.0, hi=1.0, size=None):
        if size is not None:
            raise Unsupported("np.random.uniform size")
        f = lambda l, h: uniform(l, h)
        if isinstance(lo, (list, tuple, np.ndarray)) or isinstance(hi, (list, tuple, np.ndarray)):
            return _wrapres(np.frompyfunc(f, 2, 1)(np.asarray(lo, dtype=object), np.asarray(hi, dtype=object)))
        return f(lo, hi)

    def __getattr__(self, k):
        raise Unsupported(f"np.random.{k}")


def uniform(l, h):
    """random.uniform: any value between the two arguments (its documented contract)."""
    v = E.CUR.fresh("uniform")
    E.CUR.add(z3.And(v.z() >= lift(smin2(l, h)), v.z() <= lift(smax2(l, h))))
    return v


class NpShim(types.ModuleType):
    _over = None

    def __getattr__(self, k):
        o = NP_OVER.get(k)
        if o is not None:
            return o
        r = getattr(np, k)
        if isinstance(r, np.ufunc):
            o = _UF(r)
            NP_OVER[k] = o
            return o
        return r


NP_OVER = {
    "array": array, "asarray": asarray, "zeros": zeros, "ones": ones, "empty": zeros, "full": full,
    "zeros_like": _like(0.0), "ones_like": _like(1.0), "empty_like": _like(0.0), "ndarray": ndarray,
    "linalg": _Linalg(), "random": _NpRandom(), "min": np_min, "max": np_max, "amin": np_min, "amax": np_max,
    "all": np_all, "any": np_any, "where": np_where, "clip": np_clip, "array_equal": np_array_equal,
    "isclose": np_isclose, "allclose": np_allclose, "sum": np_sum, "mean": np_mean, "cross": np_cross,
    "dot": lambda a, b: matmul(asarr(a) if isinstance(a, (list, tuple)) else _o(a), asarr(b) if isinstance(b, (list, tuple)) else _o(b)),
    "matmul": lambda a, b: matmul(_o(asarr(a)), _o(asarr(b))),
    "inner": lambda a, b: matmul(_o(asarr(a)), _o(asarr(b))),
    "vstack": _stack(np.vstack), "hstack": _stack(np.hstack), "concatenate": _stack(np.concatenate),
    "stack": _stack(np.stack), "row_stack": _stack(np.vstack), "column_stack": _stack(np.column_stack),
    "argmin": np_argmin, "argmax": np_argmax, "round": np_round, "around": np_round,
    "transpose": lambda a, *r: np.transpose(asarr(a) if isinstance(a, (list, tuple)) else a, *r),
    "copy": lambda a, **k: asarr(a).copy() if isinstance(a, (list, tuple)) or not isinstance(a, np.ndarray) else a.copy(),
    "sort": lambda a, *r, **k: _sort(a),
    "float64": None, "identity": lambda n, dtype=None: mkarr(np.identity(n)), "eye": lambda n, *a, **k: mkarr(np.eye(n, *a)),
    "diag": lambda a, *r: np.diag(asarr(a) if not isinstance(a, np.ndarray) else mkarr(a), *r),
    "append": lambda a, v, axis=None: _stack(np.concatenate)([asarr(a).reshape(-1), asarr(v).reshape(-1)]) if axis is None else _stack(np.concatenate)([asarr(a), asarr(v)], axis=axis),
    "ravel": lambda a, *r: asarr(a).reshape(-1), "reshape": lambda a, s, *r: asarr(a).reshape(s),
    "squeeze": lambda a, *r, **k: np.squeeze(asarr(a), *r, **k),
    "isscalar": lambda x: is_sym(x) or np.isscalar(x),
}
NP_OVER.pop("float64")
npshim = NpShim("numpy")


# ---- builtins ---------------------------------------------------------------------------------


class _FloatMeta(type):
    def __instancecheck__(cls, o):
        return isinstance(o, _real_float) or isinstance(o, Sym)

    def __subclasscheck__(cls, o):
        return issubclass(o, _real_float)

    def __eq__(cls, o):
        return o is cls or o is _real_float

    def __hash__(cls):
        return hash(_real_float)


class FLOAT(metaclass=_FloatMeta):
    def __new__(cls, x=0.0):
        if is_sym(x):
            return wrap(lift(x))
        if isinstance(x, np.ndarray) and x.dtype == object and x.size == 1:
            return x.item()
        return _real_float(x)


def smin(*a, **k):
    if k or (len(a) == 1 and not isinstance(a[0], (list, tuple, np.ndarray, types.GeneratorType, map))):
        return _real_min(*a, **k)
    xs = list(a[0]) if len(a) == 1 else list(a)
    if not _real_any(is_sym(x) for x in xs):
        return _real_min(xs)
    r = xs[0]
    for x in xs[1:]:
        r = smin2(r, x)
    return r


def smax(*a, **k):
    if k or (len(a) == 1 and not isinstance(a[0], (list, tuple, np.ndarray, types.GeneratorType, map))):
        return _real_max(*a, **k)
    xs = list(a[0]) if len(a) == 1 else list(a)
    if not _real_any(is_sym(x) for x in xs):
        return _real_max(xs)
    r = xs[0]
    for x in xs[1:]:
        r = smax2(r, x)
    return r


class _RandomShim(types.ModuleType):
    def __getattr__(self, k):
        if k == "uniform":
            return uniform
        if k == "seed":
            return lambda *a, **k: None
        if k == "random":
            return lambda: uniform(0.0, 1.0)
        raise Unsupported("random." + k)


randshim = _RandomShim("random")


class MathShim(types.ModuleType):
    def __getattr__(self, k):
        f = getattr(math, k)
        if k in ("sqrt", "cos", "sin", "tan", "exp", "log", "fabs", "floor", "ceil"):
            def g(x):
                if is_sym(x):
                    r = getattr(x, k)() if k != "fabs" else abs(x)
                    return int(r) if k in ("floor", "ceil") else r
                return f(x)
            return g
        if k == "atan2":
            return lambda y, x: _F2[np.arctan2](y, x)
        if k == "isclose":
            return lambda a, b, rel_tol=1e-9, abs_tol=0.0: abs(a - b) <= smax2(rel_tol * smax2(abs(a), abs(b)), abs_tol)
        if k == "hypot":
            return lambda *a: norm(list(a))
        if k in ("isnan", "isinf"):
            return lambda x: False if is_sym(x) else f(x)
        if k == "isfinite":
            return lambda x: True if is_sym(x) else f(x)
        return f


mathshim = MathShim("math")


def _sv(n):
    return E.CUR.texts[n]


# ---- z3.Solver in the code under test ----------------------------------------------------------

_RealSolver = z3.Solver
_qe_cache = {}


def _consts(t, acc, seen):
    stack = [t]
    while stack:
        e = stack.pop()
        i = e.get_id()
        if i in seen:
            continue
        seen.add(i)
        if z3.is_const(e) and e.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            acc[str(e.decl().name())] = e
        stack.extend(e.children())


def is_engine_name(n):
    return n.startswith("in_") or "!" in n


class SymSolver:
    """z3.Solver used *by* the code under test: its own variables are eliminated exactly, and the
    result (a condition on the symbolic inputs) is decided by path forking."""

    def __init__(self, *a, **k):
        self._s = _RealSolver(*a, **k)
        self._model = None

    def add(self, *a):
        self._s.add(*[x if not isinstance(x, (list, tuple)) else x for x in a])

    append = assert_exprs = insert = add

    def push(self):
        self._s.push()

    def pop(self, n=1):
        self._s.pop(n)

    def reset(self):
        self._s.reset()

    def assertions(self):
        return self._s.assertions()

    def set(self, *a, **k):
        pass

    def check(self, *extra):
        f = z3.And(list(self._s.assertions()) + [term(e) for e in extra])
        acc = {}
        _consts(f, acc, set())
        own = [c for n, c in acc.items() if not is_engine_name(n)]
        if len(own) == len(acc):
            return self._s.check(*extra)
        g = eliminate(own, f)
        return z3.sat if E.CUR.branch(wrapb(g)) else z3.unsat

    def model(self):
        raise Unsupported("model() of a symbolic query")

    def __getattr__(self, k):
        raise Unsupported("Solver." + k)


def eliminate(own, f):
    """Exists own. f  as a quantifier-free formula (exact)."""
    if not own:
        return f
    key = f.get_id()
    hit = _qe_cache.get(key)
    if hit is not None and hit[0].eq(f):
        return hit[1]
    import time
    t0 = time.time()
    g = None
    for tac in ("qe", "qe2"):
        try:
            t = z3.TryFor(z3.Then("simplify", tac, "simplify"), 20000)
            r = t(z3.Exists(own, f))
            g = z3.And(*[z3.And(*sg) if len(sg) else z3.BoolVal(True) for sg in r]) if len(r) == 1 else z3.Or(*[z3.And(*sg) for sg in r])
            g = z3.simplify(g)
            if not _has_quant(g):
                break
            g = None
        except z3.Z3Exception:
            g = None
    E.CUR.stats.solver_s += time.time() - t0
    if g is None:
        # keep it quantified: the path solver still decides it (or answers unknown)
        g = z3.Exists(own, f)
    if len(_qe_cache) > 5000:
        _qe_cache.clear()
    _qe_cache[key] = (f, g)
    return g


def _has_quant(t):
    seen = set()
    stack = [t]
    while stack:
        e = stack.pop()
        if e.get_id() in seen:
            continue
        seen.add(e.get_id())
        if z3.is_quantifier(e):
            return True
        stack.extend(e.children())
    return False


class SymInterval:
    def __init__(self, begin, end, data=None):
        self.begin, self.end, self.data = begin, end, data


class SymIntervalTree:
    """Contract model of intervaltree.IntervalTree (documented behaviour, linear scan):
    half-open intervals [begin, end); a point or range query returns the intervals that overlap it."""

    def __init__(self, items=()):
        self.items_ = list(items)

    def __setitem__(self, sl, data):
        if sl.start is None or sl.stop is None:
            raise IndexError
        if sl.start >= sl.stop:
            raise ValueError("IntervalTree: Null Interval objects not allowed in IntervalTree")
        self.items_.append(SymInterval(sl.start, sl.stop, data))

    def addi(self, b, e, data=None):
        self[b:e] = data

    def add(self, iv):
        self.items_.append(iv)

    def __getitem__(self, k):
        if isinstance(k, slice):
            return self.overlap(k.start, k.stop)
        return self.at(k)

    def at(self, p):
        return [i for i in self.items_ if all_of([i.begin <= p, p < i.end])]

    def overlap(self, b, e=None):
        return [i for i in self.items_ if all_of([i.begin < e, b < i.end])]

    def __len__(self):
        return len(self.items_)

    def __iter__(self):
        return iter(self.items_)

    def __bool__(self):
        return bool(self.items_)

    def __deepcopy__(self, memo):
        import copy
        return SymIntervalTree([SymInterval(i.begin, i.end, copy.deepcopy(i.data, memo)) for i in self.items_])

    def __getattr__(self, k):
        if k.startswith("__"):
            raise AttributeError(k)
        raise Unsupported("IntervalTree." + k)


def pdist(X, metric="euclidean", **k):
    X = np.asarray(X, dtype=object)
    if X.ndim != 2:
        raise ValueError("A 2-dimensional array must be passed.")
    out = []
    for i in range(X.shape[0]):
        for j in range(i + 1, X.shape[0]):
            d = [abs(a - b) for a, b in zip(X[i], X[j])]
            if metric in ("chebyshev", "chebychev", "cheby", "cheb", "ch", "c"):
                r = d[0]
                for e in d[1:]:
                    r = smax2(r, e)
            elif metric == "cityblock":
                r = sum(d)
            elif metric == "euclidean":
                r = norm(d)
            else:
                raise Unsupported("pdist " + str(metric))
            out.append(r)
    r = np.empty(len(out), dtype=object)
    for i, e in enumerate(out):
        r[i] = e
    return r.view(SArr)


class _Dist:
    pdist = staticmethod(pdist)

    def __getattr__(self, k):
        raise Unsupported("spatial.distance." + k)


class _Spatial:
    distance = _Dist()

    def __getattr__(self, k):
        raise Unsupported("scipy.spatial." + k)


# ---- installation -------------------------------------------------------------------------------

_SENTINEL = object()


def _targets():
    return [m for n, m in list(sys.modules.items()) if m is not None and (n == "verse" or n.startswith("verse."))]


class Installed:
    def __init__(self, extra_modules=()):
        self.undo = []
        self.extra = extra_modules

    def _set(self, d, k, v):
        self.undo.append((d, k, d.get(k, _SENTINEL)))
        d[k] = v

    def __enter__(self):
        import scipy.spatial
        import intervaltree
        byid = {id(np): npshim, id(_random): randshim, id(math): mathshim, id(_RealSolver): SymSolver,
                id(intervaltree.IntervalTree): SymIntervalTree, id(scipy.spatial): _Spatial(),
                id(scipy.spatial.distance): _Dist(), id(np.ndarray): ndarray}
        for k, o in NP_OVER.items():
            if hasattr(np, k):
                byid[id(getattr(np, k))] = o
        for k in ("sqrt", "cos", "sin", "tan", "arctan2", "minimum", "maximum", "abs", "absolute", "floor", "ceil"):
            byid[id(getattr(np, k))] = _UF(getattr(np, k))
        byid[id(np.linalg.norm)] = norm
        byid[id(_random.uniform)] = uniform
        for k in ("sqrt", "cos", "sin", "tan", "atan2", "hypot", "floor", "ceil"):
            byid[id(getattr(math, k))] = getattr(mathshim, k)
        glob = {"min": smin, "max": smax, "float": FLOAT}
        for m in _targets() + list(self.extra):
            d = m.__dict__
            for k in list(d):
                if k.startswith("__"):
                    continue
                r = byid.get(id(d[k]))
                if r is not None:
                    self._set(d, k, r)
            for k, v in glob.items():
                if k not in d:
                    self._set(d, k, v)
        self._set(builtins.__dict__, "_SV_", _sv)
        # function-local `import numpy` inside the code under test
        self._set(sys.modules, "numpy", npshim)
        self._set(sys.modules, "math", mathshim)
        return self

    def __exit__(self, *a):
        for d, k, v in reversed(self.undo):
            if v is _SENTINEL:
                d.pop(k, None)
            else:
                d[k] = v
        self.undo = []
        return False
