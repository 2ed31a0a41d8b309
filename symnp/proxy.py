"""Stand-ins for the numpy and math modules inside the code under check."""
import math
import types

import numpy as np

from . import array as A
from .core import (
    Unsupported,
    is_sym,
    s_ceil,
    s_cos,
    s_erf,
    s_exp,
    s_floor,
    s_log,
    s_pow,
    s_sin,
    s_sqrt,
)

_SEQ = {
    np.linalg.multi_dot,
    np.concatenate,
    np.vstack,
    np.hstack,
    np.dstack,
    np.stack,
    np.column_stack,
    np.block,
    np.select,
    np.meshgrid,
    np.broadcast_arrays,
    np.append,
}


class FuncProxy:
    def __init__(self, f):
        self.f = f
        self.__name__ = getattr(f, "__name__", "f")

    def __getattr__(self, n):
        return getattr(self.f, n)

    def __call__(self, *args, **kwargs):
        f = self.f
        if f in _SEQ:
            args = tuple(
                [A.build(i) if isinstance(i, (list, tuple)) else i for i in a]
                if isinstance(a, (list, tuple)) and A.has_symarray(a)
                else a
                for a in args
            )
            if A.has_symarray(args):
                return A.apply_function(f, args, kwargs)
        else:
            args = tuple(
                A.build(a)
                if isinstance(a, (list, tuple)) and A.has_symarray(a)
                else a
                for a in args
            )
            if not isinstance(f, np.ufunc) and any(
                is_sym(a) or isinstance(a, A.SymArray) for a in args
            ):
                return A.apply_function(f, args, kwargs)
        args = tuple(
            a.view(np.ndarray) if isinstance(a, A.SymIntArray) else a for a in args
        )
        return A.rewrap(f(*args, **kwargs))


def _kind(dtype):
    if dtype is None or getattr(dtype, "__name__", "") == "SymFloat":
        return "f"
    return np.dtype(dtype).kind


def _filled(v):
    def f(shape, dtype=None, order="C", **k):
        kind = _kind(dtype)
        if kind != "f":
            return A.int_array(np.full(shape, v, dtype=dtype))
        o = np.empty(shape, dtype=object)
        o[...] = float(v)
        return A.sa(o)

    return f


def _full(shape, fill_value, dtype=None, **k):
    if dtype is None and isinstance(fill_value, (int, bool, np.integer, np.bool_)) and not is_sym(fill_value):
        return A.int_array(np.full(shape, fill_value))
    if dtype is not None and _kind(dtype) != "f":
        return A.int_array(np.full(shape, fill_value, dtype=dtype))
    o = np.empty(shape, dtype=object)
    o[...] = A._norm_val(fill_value)
    return A.sa(o)


def _like(v):
    def f(a, dtype=None, *p, **k):
        if isinstance(a, A.SymArray) or is_sym(a) or A.has_symarray(a):
            return A._full_like(A.build(a), float(v), dtype)
        a = np.asarray(a)
        kind = a.dtype.kind if dtype is None else _kind(dtype)
        if kind != "f":
            return A.int_array(np.full(a.shape, v, dtype=dtype or a.dtype))
        return A._full_like(a, float(v))

    return f


def _full_like(a, fill_value, dtype=None, **k):
    if isinstance(a, A.SymArray) or is_sym(fill_value) or (dtype is not None and _kind(dtype) == "f"):
        return A._full_like(a, fill_value, dtype)
    return A.rewrap(np.full_like(a, fill_value, dtype=dtype))


def _array(x, dtype=None, copy=True, ndmin=0, **k):
    if A.has_symarray(x):
        r = A.build(x)
        if dtype is not None:
            r = A.cast(r, dtype)
        if copy and isinstance(r, np.ndarray):
            r = r.copy()
        while ndmin > np.ndim(r):
            r = r[None]
        return r
    if isinstance(x, A.SymIntArray):
        x = x.view(np.ndarray)
    r = np.array(x, dtype=dtype, copy=copy, ndmin=ndmin)
    if r.dtype.kind in "iub":
        return A.int_array(r)
    return A.rewrap(r) if r.dtype.kind == "f" else r


def _asarray(x, dtype=None, **k):
    if isinstance(x, np.ndarray) and dtype is None:
        return x
    return _array(x, dtype, copy=False)


def _wrapf(f):
    def g(*a, **k):
        r = f(*a, **k)
        if isinstance(r, np.ndarray) and r.dtype.kind in "iub":
            return A.int_array(r)
        return A.rewrap(r)

    return g


class _C:
    def __getitem__(self, key):
        items = key if isinstance(key, tuple) else (key,)
        if any(isinstance(i, (slice, str)) for i in items):
            return A.rewrap(np.c_[key])
        out = []
        for i in items:
            a = A._to_obj(i) if A.has_symarray(i) else np.asarray(i)
            if a.ndim == 0:
                a = a.reshape(1, 1)
            elif a.ndim == 1:
                a = a[:, None]
            out.append(a)
        if A.has_symarray(list(items)):
            return A.sa(np.concatenate([o.astype(object) for o in out], axis=-1))
        return A.rewrap(np.c_[key])


class _R:
    def __getitem__(self, key):
        items = key if isinstance(key, tuple) else (key,)
        if not A.has_symarray(list(items)):
            return A.rewrap(np.r_[key])
        if any(isinstance(i, (slice, str)) for i in items):
            raise Unsupported("np.r_ with slices")
        out = []
        for i in items:
            a = A._to_obj(i)
            out.append(a.reshape(1) if a.ndim == 0 else a)
        return A.sa(np.concatenate(out, axis=0))


class ModuleProxy:
    def __init__(self, mod, overrides):
        self.__dict__["_mod"] = mod
        self.__dict__["_ov"] = overrides
        self.__dict__["_cache"] = {}

    def __getattr__(self, name):
        ov = self._ov
        if name in ov:
            return ov[name]
        c = self._cache
        if name in c:
            return c[name]
        v = getattr(self._mod, name)
        if isinstance(v, type) or not callable(v) or isinstance(v, types.ModuleType):
            r = v
        else:
            r = FuncProxy(v)
        c[name] = r
        return r


def _isscalar(x):
    return True if is_sym(x) else np.isscalar(x)


def _vectorize(f, *a, **k):
    ff = np.frompyfunc(f, f.__code__.co_argcount, 1)

    def g(*args):
        r = ff(*[A._to_obj(x) for x in args])
        return A.finish(r)

    return g


def _fromiter(it, dtype=float, count=-1, **k):
    xs = list(it)
    return _array(xs if count < 0 else xs[:count], dtype)


def _nditer(x, *a, **k):
    return iter(x.ravel()) if isinstance(x, A.SymArray) else np.nditer(x, *a, **k)


class _IsMeta(type):
    def __instancecheck__(cls, x):
        return is_sym(x) and isinstance(x, float) or isinstance(x, cls.base)

    def __subclasscheck__(cls, c):
        return issubclass(c, cls.base)


def _kindof(base):
    return _IsMeta(base.__name__, (), {"base": base})


def numpy_proxy(random=None):
    from .stubs import SymFloat

    ov = {
        "zeros": _filled(0),
        "ones": _filled(1),
        "empty": _filled(0),
        "full": _full,
        "zeros_like": _like(0),
        "ones_like": _like(1),
        "empty_like": _like(0),
        "full_like": _full_like,
        "array": _array,
        "asarray": _asarray,
        "asanyarray": _asarray,
        "ascontiguousarray": _asarray,
        "eye": _wrapf(np.eye),
        "identity": _wrapf(np.identity),
        "linspace": _wrapf(np.linspace),
        "arange": _wrapf(np.arange),
        "c_": _C(),
        "r_": _R(),
        "isscalar": _isscalar,
        "fromiter": _fromiter,
        "nditer": _nditer,
        "float64": SymFloat,
        "double": SymFloat,
        "floating": _kindof(np.floating),
        "number": _kindof(np.number),
        "vectorize": _vectorize,
        "linalg": ModuleProxy(np.linalg, {}),
    }
    if random is not None:
        ov["random"] = random
    return ModuleProxy(np, ov)


def math_proxy():
    def w(s, py):
        def f(x):
            return s(x) if is_sym(x) else py(x)

        return f

    ov = {
        "exp": w(s_exp, math.exp),
        "log": lambda x, *b: (s_log(x) if is_sym(x) else math.log(x)) / math.log(*b) if b else s_log(x) if is_sym(x) else math.log(x),
        "log1p": lambda x: s_log(x + 1.0) if is_sym(x) else math.log1p(x),
        "expm1": lambda x: s_exp(x) - 1.0 if is_sym(x) else math.expm1(x),
        "log2": lambda x: s_log(x) / math.log(2) if is_sym(x) else math.log2(x),
        "log10": lambda x: s_log(x) / math.log(10) if is_sym(x) else math.log10(x),
        "trunc": lambda x: A.s_trunc(x) if is_sym(x) else math.trunc(x),
        "sqrt": w(s_sqrt, math.sqrt),
        "sin": w(s_sin, math.sin),
        "cos": w(s_cos, math.cos),
        "erf": w(s_erf, math.erf),
        "floor": w(s_floor, math.floor),
        "ceil": w(s_ceil, math.ceil),
        "pow": lambda a, b: s_pow(a, b) if is_sym(a) or is_sym(b) else math.pow(a, b),
        "isinf": lambda x: False if is_sym(x) else math.isinf(x),
        "isnan": lambda x: False if is_sym(x) else math.isnan(x),
        "isfinite": lambda x: True if is_sym(x) else math.isfinite(x),
        "fabs": lambda x: abs(x),
        "isclose": lambda a, b, **k: np.isclose(a, b, **k),
        "prod": lambda xs, start=1: A.reduce_(A.s_mul, A.build(list(xs)), None, False, 1.0) * start if A.has_symarray(list(xs)) else math.prod(xs, start=start),
        "dist": lambda p, q: A.s_sqrt(A._sum_list([(a - b) * (a - b) for a, b in zip(p, q)])),
        "hypot": lambda *xs: A.s_sqrt(A._sum_list([a * a for a in xs])),
        "fsum": lambda xs: A._sum_list(list(xs)),
    }
    return ModuleProxy(math, ov)


class ModuleProxy2:
    """The module itself with a few attributes replaced (concrete mode)."""

    def __init__(self, mod, overrides):
        self.__dict__["_mod"] = mod
        self.__dict__["_ov"] = overrides

    def __getattr__(self, name):
        ov = self._ov
        if name in ov:
            return ov[name]
        return getattr(self._mod, name)
