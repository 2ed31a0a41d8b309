"""Arrays of symbolic scalars and the numpy operations on them.

A SymArray is an ndarray of Python objects whose elements are concrete floats or
symbolic scalars.  numpy hands every ufunc and every function of its public API
that receives one to the handlers below; whatever has no handler either is pure
data movement (and numpy's own implementation is used on the object array) or
raises Unsupported.
"""
import builtins
import math as _math

import numpy as np

from . import core
from .core import (
    Sym,
    SBool,
    SReal,
    Unsupported,
    PathAbort,
    is_sym,
    ite,
    s_abs,
    s_add,
    s_and,
    s_ceil,
    s_cmp,
    s_cos,
    s_div,
    s_exp,
    s_floor,
    s_log,
    s_max,
    s_min,
    s_mul,
    s_neg,
    s_not,
    s_or,
    s_pow,
    s_sign,
    s_sin,
    s_sqrt,
    s_sub,
    s_tan,
    s_tanh,
    s_trunc,
    s_xor,
)


def is_array(x):
    return isinstance(x, SymArray)


def _to_obj(x):
    """Base-class object ndarray view of anything array-like."""
    if isinstance(x, SymArray):
        return x.view(np.ndarray)
    if is_sym(x):
        a = np.empty((), dtype=object)
        a[()] = x
        return a
    if isinstance(x, np.ndarray):
        if x.dtype == object:
            return x
        return x.astype(object)
    if isinstance(x, (list, tuple)):
        return _to_obj(build(x))
    a = np.empty((), dtype=object)
    a[()] = x
    return a


def build(x):
    """Array from nested lists that may contain symbolic values."""
    if isinstance(x, np.ndarray):
        return x
    if is_sym(x):
        return sa(_to_obj(x))
    if isinstance(x, (list, tuple)):
        if not has_sym(x) and not has_symarray(x):
            return np.array(x)
        items = [build(i) if isinstance(i, (list, tuple, np.ndarray)) else i for i in x]
        shapes = {np.shape(i) if isinstance(i, np.ndarray) else () for i in items}
        if len(shapes) != 1:
            raise Unsupported("ragged nested sequence")
        shp = shapes.pop()
        out = np.empty((len(items),) + shp, dtype=object)
        for k, i in enumerate(items):
            out[k] = _to_obj(i) if isinstance(i, np.ndarray) else i
            if isinstance(i, np.ndarray) and i.ndim == 0:
                out[k] = i.item()
        return sa(out)
    return np.array(x)


def sa(x):
    """SymArray from an object ndarray or nested list."""
    if isinstance(x, SymArray):
        return x
    if not isinstance(x, np.ndarray):
        x = build(x)
    if isinstance(x, SymArray):
        return x
    if x.dtype != object:
        x = x.astype(object)
    return x.view(SymArray)


def has_sym(x):
    """Whether a value contains a symbolic scalar."""
    if is_sym(x):
        return True
    if isinstance(x, SymArray):
        return builtins.any(is_sym(i) for i in x.view(np.ndarray).ravel())
    if isinstance(x, np.ndarray):
        return x.dtype == object and builtins.any(is_sym(i) for i in x.ravel())
    if isinstance(x, (list, tuple)):
        return builtins.any(has_sym(i) for i in x)
    return False


def has_symarray(x):
    if isinstance(x, SymArray) or is_sym(x):
        return True
    if isinstance(x, (list, tuple)):
        return builtins.any(has_symarray(i) for i in x)
    return False


def lower(x):
    """Plain numpy value of a value without symbolic scalars."""
    if isinstance(x, SymArray):
        o = x.view(np.ndarray)
        kinds = {_kind(i) for i in o.ravel()}
        if kinds == {"b"}:
            return o.astype(bool)
        if kinds == {"i"}:
            return o.astype(int)
        return o.astype(float)
    if isinstance(x, list):
        return [lower(i) for i in x]
    if isinstance(x, tuple):
        return tuple(lower(i) for i in x)
    if isinstance(x, dict):
        return {k: lower(v) for k, v in x.items()}
    return x


def _kind(i):
    if isinstance(i, SBool) or isinstance(i, (bool, np.bool_)):
        return "b"
    if is_sym(i):
        return "f"
    if isinstance(i, (int, np.integer)):
        return "i"
    return "f"


def rewrap(x):
    """Float results become SymArray, so that later assignments can be symbolic."""
    if isinstance(x, SymArray):
        return x
    if isinstance(x, np.ndarray):
        if x.dtype == object or x.dtype.kind == "f":
            return sa(x)
        return x
    if isinstance(x, tuple):
        return tuple(rewrap(i) for i in x)
    if isinstance(x, list):
        return [rewrap(i) for i in x]
    return x


def scalar(x):
    """Array element as seen by the code (numpy scalars for concrete numbers)."""
    if isinstance(x, np.ndarray):
        if x.ndim == 0:
            return scalar(x.item())
        return x
    if is_sym(x):
        return x
    if isinstance(x, bool):
        return np.bool_(x)
    if isinstance(x, float):
        return np.float64(x)
    if isinstance(x, int):
        return np.int64(x)
    return x


def finish(o):
    """Result of an elementwise/reducing operation on object arrays."""
    if isinstance(o, np.ndarray):
        if o.ndim == 0:
            return scalar(o.item())
        return sa(o)
    return scalar(o)


def finish_bool(o):
    """Comparison results: plain bool arrays when nothing symbolic is left."""
    if isinstance(o, np.ndarray) and o.ndim > 0:
        if not has_sym(o):
            return o.astype(bool)
        return sa(o)
    return finish(o)


def concretize_index(idx):
    """Forks on symbolic masks; symbolic positions are not supported."""
    if isinstance(idx, tuple):
        return tuple(concretize_index(i) for i in idx)
    if isinstance(idx, SBool):
        return bool(idx)
    if is_sym(idx):
        raise Unsupported("symbolic index")
    if isinstance(idx, SymArray):
        o = idx.view(np.ndarray)
        kinds = {_kind(i) for i in o.ravel()}
        if kinds <= {"b"}:
            return np.array([bool(i) for i in o.ravel()], dtype=bool).reshape(o.shape)
        if has_sym(o):
            raise Unsupported("symbolic index array")
        f = o.astype(float)
        if kinds <= {"i", "b"}:
            return o.astype(int)
        raise IndexError("arrays used as indices must be of integer (or boolean) type")
    if isinstance(idx, list) and has_sym(idx):
        return concretize_index(build(idx))
    return idx


class SymArray(np.ndarray):
    __array_priority__ = 999.0

    @property
    def dtype(self):
        o = self.view(np.ndarray)
        if o.size and builtins.all(_kind(i) == "b" for i in o.ravel()):
            return np.dtype(bool)
        if o.size and builtins.all(_kind(i) == "i" for i in o.ravel()):
            return np.dtype(int)
        return np.dtype(float)

    def __array_ufunc__(self, ufunc, method, *inputs, **kwargs):
        return apply_ufunc(ufunc, method, inputs, kwargs)

    def __array_function__(self, func, types, args, kwargs):
        return apply_function(func, args, kwargs)

    def __getitem__(self, idx):
        r = self.view(np.ndarray)[concretize_index(idx)]
        if isinstance(r, np.ndarray):
            return r.view(SymArray)
        return scalar(r)

    def __setitem__(self, idx, val):
        o = self.view(np.ndarray)
        if isinstance(idx, SymArray) and has_sym(idx) and idx.shape == self.shape:
            v = _to_obj(val)
            if v.ndim == 0:
                v = v.item()
                for p in np.ndindex(o.shape):
                    o[p] = ite(idx.view(np.ndarray)[p], v, o[p])
                return
        val = _norm_val(val)
        o[concretize_index(idx)] = val

    def __iter__(self):
        if self.ndim == 0:
            raise TypeError("iteration over a 0-d array")
        for i in range(len(self)):
            yield self[i]

    def __bool__(self):
        if self.size == 1:
            return bool(self.view(np.ndarray).ravel()[0])
        raise ValueError(
            "The truth value of an array with more than one element is ambiguous."
        )

    def __float__(self):
        return float(self.item())

    def __contains__(self, x):
        return bool(np.any(self == x))

    def __repr__(self):
        return "SymArray" + str(self.shape)

    __str__ = __repr__

    def __format__(self, spec):
        return repr(self)

    def __deepcopy__(self, memo):
        return self.copy()

    def __reduce__(self):
        raise Unsupported("pickling a symbolic array")

    # in-place operators keep identity
    def _inplace(self, uf, o):
        r = uf(self, o)
        if np.shape(r) != self.shape:
            raise ValueError("non-broadcastable output operand")
        self.view(np.ndarray)[...] = _to_obj(r)
        return self

    def __iadd__(self, o):
        return self._inplace(np.add, o)

    def __isub__(self, o):
        return self._inplace(np.subtract, o)

    def __imul__(self, o):
        return self._inplace(np.multiply, o)

    def __itruediv__(self, o):
        return self._inplace(np.true_divide, o)

    def __ipow__(self, o):
        return self._inplace(np.power, o)

    def __iand__(self, o):
        return self._inplace(np.logical_and, o)

    def __ior__(self, o):
        return self._inplace(np.logical_or, o)

    def __pow__(self, o):
        return np.power(self, o)

    def item(self, *a):
        return self.view(np.ndarray).item(*a)

    def tolist(self):
        return self.view(np.ndarray).tolist()

    def copy(self, order="C"):
        return self.view(np.ndarray).copy().view(SymArray)

    def astype(self, dtype, *a, **k):
        return cast(self, dtype)

    def sum(self, axis=None, dtype=None, out=None, keepdims=False, initial=None, where=True):
        return HANDLERS[np.sum](self, axis, dtype, out, keepdims, initial, where)

    def prod(self, axis=None, dtype=None, out=None, keepdims=False, initial=np._NoValue, where=True):
        return HANDLERS[np.prod](self, axis, dtype, out, keepdims, initial, where)

    def mean(self, axis=None, dtype=None, out=None, keepdims=False, where=True):
        return HANDLERS[np.mean](self, axis, dtype, out, keepdims, where)

    def var(self, axis=None, dtype=None, out=None, ddof=0, keepdims=False, where=True):
        return HANDLERS[np.var](self, axis, dtype, out, ddof, keepdims, where)

    def std(self, axis=None, dtype=None, out=None, ddof=0, keepdims=False, where=True):
        return HANDLERS[np.std](self, axis, dtype, out, ddof, keepdims, where)

    def max(self, axis=None, out=None, keepdims=False, initial=np._NoValue, where=True):
        return HANDLERS[np.max](self, axis, out, keepdims, initial, where)

    def min(self, axis=None, out=None, keepdims=False, initial=np._NoValue, where=True):
        return HANDLERS[np.min](self, axis, out, keepdims, initial, where)

    def any(self, axis=None, out=None, keepdims=False, where=True):
        return HANDLERS[np.any](self, axis, out, keepdims, where)

    def all(self, axis=None, out=None, keepdims=False, where=True):
        return HANDLERS[np.all](self, axis, out, keepdims, where)

    def argmax(self, axis=None, out=None, **k):
        return _argext(self, axis, True)

    def argmin(self, axis=None, out=None, **k):
        return _argext(self, axis, False)

    def argsort(self, axis=-1, kind=None, order=None):
        return _argsort(self, axis)

    def sort(self, axis=-1, kind=None, order=None):
        self.view(np.ndarray)[...] = _to_obj(_sort(self, axis))

    def cumsum(self, axis=None, dtype=None, out=None):
        return accumulate_(s_add, self, axis)

    def cumprod(self, axis=None, dtype=None, out=None):
        return accumulate_(s_mul, self, axis)

    def dot(self, b, out=None):
        return _dot(self, b)

    def clip(self, min=None, max=None, out=None, **k):
        return _out(_clip(self, min, max), out)

    def nonzero(self):
        return concretize_index(_truth(self)).nonzero()

    def round(self, decimals=0, out=None):
        return _round(self, decimals)

    def fill(self, v):
        self[...] = v

    def trace(self, *a, **k):
        return _sum(np.diagonal(self), None, False)

    def ptp(self, axis=None, **k):
        return self.max(axis) - self.min(axis)

    @property
    def real(self):
        return self

    def conj(self):
        return self

    conjugate = conj

    def repeat(self, repeats, axis=None):
        return self.view(np.ndarray).repeat(repeats, axis).view(SymArray)

    def take(self, indices, axis=None, **k):
        return finish(self.view(np.ndarray).take(concretize_index(indices), axis))


class SymTyped(SymArray):
    """Integer array with symbolic values: what is stored in it is truncated."""

    @property
    def dtype(self):
        return np.dtype(int)

    def __getitem__(self, idx):
        r = self.view(np.ndarray)[concretize_index(idx)]
        return r.view(SymTyped) if isinstance(r, np.ndarray) else scalar(r)

    def __setitem__(self, idx, val):
        v = np.frompyfunc(lambda i: cast_s(i, "i"), 1, 1)(_to_obj(val))
        SymArray.__setitem__(self, idx, v)

    def _inplace(self, uf, o):
        if not isinstance(o, (bool, int, np.integer)) and getattr(o, "dtype", np.dtype(float)).kind not in "biu":
            raise TypeError(f"Cannot cast ufunc '{uf.__name__}' output from dtype('float64') to dtype('int64') with casting rule 'same_kind'")
        if uf is np.true_divide:
            raise TypeError("Cannot cast ufunc 'divide' output from dtype('float64') to dtype('int64') with casting rule 'same_kind'")
        return SymArray._inplace(self, uf, o)

    def copy(self, order="C"):
        return self.view(np.ndarray).copy().view(SymTyped)

    def repeat(self, repeats, axis=None):
        return self.view(np.ndarray).repeat(repeats, axis).view(SymTyped)


class SymIntArray(np.ndarray):
    """Integer (or bool) array that can be indexed by symbolic masks."""

    def __getitem__(self, idx):
        r = self.view(np.ndarray)[concretize_index(idx)]
        return r.view(SymIntArray) if isinstance(r, np.ndarray) else r

    def __setitem__(self, idx, val):
        self.view(np.ndarray)[concretize_index(idx)] = val


def int_array(x):
    return np.asarray(x).view(SymIntArray)


def _norm_val(val):
    if isinstance(val, SymArray):
        v = val.view(np.ndarray)
        return v.item() if v.ndim == 0 else v
    if isinstance(val, (list, tuple)):
        return _to_obj(val)
    return val


def _truth(a):
    o = _to_obj(a)
    r = np.frompyfunc(lambda x: core.to_bool(x), 1, 1)(o)
    return sa(r) if isinstance(r, np.ndarray) else sa([r])


def cast(x, dtype):
    if isinstance(dtype, str) and dtype in ("float16", "float32", "int8", "int64"):
        dtype = np.dtype(dtype)
    if getattr(dtype, "__name__", "") == "SymFloat":
        dtype = float
    kind = np.dtype(dtype).kind
    if is_sym(x):
        if kind == "f":
            return core.mk_real(core.to_z(x))
        if kind == "b":
            return core.to_bool(x)
        if kind in "iu":
            if isinstance(x, SBool):
                return core.mk_real(core.to_z(x))
            return s_trunc(x)
        return x
    if isinstance(x, SymArray):
        if kind == "O":
            return x.copy()
        if not has_sym(x):
            r = lower(x).astype(dtype)
            return rewrap(r)
        o = x.view(np.ndarray)
        return sa(np.frompyfunc(lambda i: cast_s(i, kind), 1, 1)(o))
    return x


def cast_s(i, kind):
    if is_sym(i):
        return cast(i, {"f": float, "b": bool, "i": int, "u": int}[kind])
    if kind == "f":
        return float(i)
    if kind == "b":
        return bool(i)
    return int(i)


# -- ufuncs -------------------------------------------------------------------


def _minimum(a, b):
    return s_min(a, b)


def _logaddexp(a, b):
    return s_log(s_add(s_exp(a), s_exp(b)))


def _rint(a):
    """To the nearest integer, halves to the even one."""
    if not is_sym(a):
        return float(np.rint(a))
    f = s_floor(a)
    d = s_sub(a, f)
    even = s_cmp(s_mul(2.0, s_floor(s_div(f, 2.0))), f, "==")
    up = s_add(f, 1.0)
    return ite(s_cmp(d, 0.5, "<"), f, ite(s_cmp(d, 0.5, ">"), up, ite(even, f, up)))


def _mod(a, b):
    return s_sub(a, s_mul(b, s_floor(s_div(a, b))))


def _isfinite(a):
    return True if is_sym(a) else bool(np.isfinite(a))


def _isnan(a):
    return False if is_sym(a) else bool(np.isnan(a))


def _isinf(a):
    return False if is_sym(a) else bool(np.isinf(a))


BIN = {
    np.add: s_add,
    np.subtract: s_sub,
    np.multiply: s_mul,
    np.true_divide: s_div,
    np.divide: s_div,
    np.floor_divide: lambda a, b: s_floor(s_div(a, b)),
    np.remainder: _mod,
    np.power: s_pow,
    np.float_power: s_pow,
    np.minimum: s_min,
    np.maximum: s_max,
    np.fmin: s_min,
    np.fmax: s_max,
    np.logaddexp: _logaddexp,
}
BINB = {
    np.less: lambda a, b: s_cmp(a, b, "<"),
    np.less_equal: lambda a, b: s_cmp(a, b, "<="),
    np.greater: lambda a, b: s_cmp(a, b, ">"),
    np.greater_equal: lambda a, b: s_cmp(a, b, ">="),
    np.equal: lambda a, b: s_cmp(a, b, "=="),
    np.not_equal: lambda a, b: s_cmp(a, b, "!="),
    np.logical_and: s_and,
    np.logical_or: s_or,
    np.logical_xor: s_xor,
    np.bitwise_and: s_and,
    np.bitwise_or: s_or,
    np.bitwise_xor: s_xor,
}
UN = {
    np.negative: s_neg,
    np.positive: lambda a: a,
    np.absolute: s_abs,
    np.fabs: s_abs,
    np.sign: s_sign,
    np.exp: s_exp,
    np.expm1: lambda a: s_sub(s_exp(a), 1.0),
    np.log: s_log,
    np.log1p: lambda a: s_log(s_add(a, 1.0)),
    np.log2: lambda a: s_div(s_log(a), _math.log(2)),
    np.log10: lambda a: s_div(s_log(a), _math.log(10)),
    np.sqrt: s_sqrt,
    np.square: lambda a: s_mul(a, a),
    np.reciprocal: lambda a: s_div(1.0, a),
    np.sin: s_sin,
    np.cos: s_cos,
    np.tan: s_tan,
    np.tanh: s_tanh,
    np.floor: s_floor,
    np.ceil: s_ceil,
    np.trunc: s_trunc,
    np.rint: lambda a: _rint(a),
    np.conjugate: lambda a: a,
}
UNB = {
    np.logical_not: s_not,
    np.invert: s_not,
    np.isfinite: _isfinite,
    np.isnan: _isnan,
    np.isinf: _isinf,
}
def _heaviside(a, h):
    return ite(s_cmp(a, 0.0, "<"), 0.0, ite(s_cmp(a, 0.0, ">"), 1.0, h))


BIN[np.heaviside] = _heaviside
BIN[np.hypot] = lambda a, b: s_sqrt(s_add(s_mul(a, a), s_mul(b, b)))
BIN[np.fmod] = lambda a, b: s_sub(a, s_mul(b, s_trunc(s_div(a, b))))
BIN[np.copysign] = lambda a, b: ite(s_cmp(b, 0.0, "<"), s_neg(s_abs(a)), s_abs(a))
BIN[np.logaddexp2] = lambda a, b: s_div(s_log(s_add(s_pow(2.0, a), s_pow(2.0, b))), _math.log(2))
UN[np.cbrt] = lambda a: s_pow(a, 1.0 / 3.0)
UN[np.exp2] = lambda a: s_exp(s_mul(a, _math.log(2)))
UNB[np.signbit] = lambda a: s_cmp(a, 0.0, "<")
_FPF = {}
_RAW = {}
for _tab, _n in ((BIN, 2), (BINB, 2), (UN, 1), (UNB, 1)):
    for _u, _f in _tab.items():
        _RAW[_u] = _f
        _FPF[_u] = np.frompyfunc(_f, _n, 1)


def _masked(a, where, unit):
    """The array with the unit of the reduction where the mask is false."""
    if where is True or where is np._NoValue:
        return a
    return _where(where, a, unit)


def _extremum(f, a, axis, keepdims, initial, where):
    has = initial is not None and initial is not np._NoValue
    if where is not True and where is not np._NoValue:
        if not has:
            raise ValueError("reduction operation does not have an identity, so to use a where mask one has to specify 'initial'")
        a = _where(where, a, initial)
    r = reduce_(f, a, axis, keepdims, initial if has else None)
    if has:
        g = np.frompyfunc(f, 2, 1)
        r = finish(g(_to_obj(r), _to_obj(initial))) if np.ndim(r) else scalar(f(r, initial))
    return r


_WHOLE = {np.add, np.subtract, np.multiply, np.negative, np.absolute, np.minimum, np.maximum}


def _is_whole(x):
    if isinstance(x, SymTyped) or isinstance(x, (bool, int, np.integer)):
        return True
    return isinstance(x, np.ndarray) and not isinstance(x, SymArray) and x.dtype.kind in "biu"


def apply_ufunc(ufunc, method, inputs, kwargs):
    inputs = tuple(i.values if type(i).__name__ == "MSeries" else i for i in inputs)
    kwargs = dict(kwargs)
    out = kwargs.pop("out", None)
    if isinstance(out, tuple):
        out = out[0]
    where = kwargs.pop("where", True)
    kwargs.pop("dtype", None)
    casting = kwargs.pop("casting", "same_kind")
    kwargs.pop("order", None)
    kwargs.pop("subok", None)
    inputs = tuple(
        build(i) if isinstance(i, (list, tuple)) and not (method == "at" and n == 1) else i for n, i in enumerate(inputs)
    )
    if builtins.any(isinstance(i, SymIntArray) for i in inputs):
        inputs = tuple(
            i.view(np.ndarray) if isinstance(i, SymIntArray) else i for i in inputs
        )
    if method == "__call__":
        if ufunc is np.matmul:
            r = _matmul(*inputs)
        elif where is True and not builtins.any(has_sym(i) for i in inputs):
            low = [lower(i) for i in inputs]
            with np.errstate(all="ignore"):
                r = ufunc(*low, **kwargs)
            if ufunc in BINB or ufunc in UNB:
                pass
            else:
                r = rewrap(r)
        else:
            f = _FPF.get(ufunc)
            if ufunc is np.divmod:
                return apply_ufunc(np.floor_divide, method, inputs, {}), apply_ufunc(np.remainder, method, inputs, {})
            if ufunc is np.modf:
                w = apply_ufunc(np.trunc, method, inputs, {})
                return inputs[0] - w, w
            if f is None:
                f = _special_ufunc(ufunc)
            objs = [_to_obj(i) for i in inputs]
            if where is not True:
                f = _RAW.get(ufunc, f)
                base = _to_obj(out).copy() if out is not None else None
                w = np.broadcast_to(_to_obj(where), np.broadcast_shapes(*[o.shape for o in objs]))
                bo = [np.broadcast_to(o, w.shape) for o in objs]
                res = np.empty(w.shape, dtype=object)
                for p in np.ndindex(w.shape):
                    if bool(w[p]):
                        res[p] = f(*[o[p] for o in bo])
                    else:
                        res[p] = base[p] if base is not None else 0.0
                r = res
            else:
                r = f(*objs)
            r = finish_bool(r) if (ufunc in BINB or ufunc in UNB) else finish(r)
            if ufunc in _WHOLE and isinstance(r, SymArray) and builtins.all(_is_whole(i) for i in inputs):
                r = r.view(SymTyped)
        if out is not None:
            if isinstance(out, SymTyped) and not (ufunc in BINB or ufunc in UNB):
                whole = ufunc is not np.true_divide and builtins.all(np.asarray(lower(i) if not has_sym(i) else np.empty(0, i.dtype if isinstance(i, SymArray) else float)).dtype.kind in "biu" for i in inputs)
                if casting != "unsafe" and not whole:
                    raise TypeError(f"Cannot cast ufunc '{ufunc.__name__}' output from dtype('float64') to dtype('int64') with casting rule 'same_kind'")
                out[...] = r
            elif isinstance(out, SymArray):
                out.view(np.ndarray)[...] = _to_obj(r)
            else:
                if has_sym(r):
                    raise Unsupported("symbolic result into a concrete array")
                out[...] = lower(r)
            return out
        return r
    if method == "reduce":
        a = inputs[0]
        axis = kwargs.get("axis", 0)
        keep = kwargs.get("keepdims", False)
        init = kwargs.get("initial", None)
        if init is np._NoValue:
            init = None
        if ufunc is np.add:
            return _out(_sum(_masked(a, where, 0.0), axis, keep, init), out)
        if ufunc in (np.maximum, np.minimum, np.fmax, np.fmin):
            return _out(_extremum(BIN[ufunc], a, axis, keep, init, where), out)
        if where is not True:
            a = _masked(a, where, {np.multiply: 1.0, np.logical_and: True, np.logical_or: False}[ufunc])
        if ufunc in (np.logical_and, np.logical_or):
            return _anyall(
                s_and if ufunc is np.logical_and else s_or,
                a,
                axis,
                keep,
                ufunc is np.logical_and,
            )
        f = BIN.get(ufunc)
        if f is None:
            raise Unsupported(f"{ufunc}.reduce")
        r = reduce_(f, a, axis, keep, 1.0 if ufunc is np.multiply else None)
        return _out(r if init is None else BIN[ufunc](init, r) if not np.ndim(r) else _FPF[ufunc](init, r), out)
    if method == "accumulate":
        return accumulate_(BIN[ufunc], inputs[0], kwargs.get("axis", 0))
    if method == "reduceat":
        o = _to_obj(inputs[0])
        axis = kwargs.get("axis", 0)
        ix = [int(i) for i in np.ravel(inputs[1])]
        m = np.moveaxis(o, axis, 0)
        parts = []
        for j, i in enumerate(ix):
            e = ix[j + 1] if j + 1 < len(ix) else m.shape[0]
            parts.append(_to_obj(apply_ufunc(ufunc, "reduce", (sa(m[i:e] if e > i else m[i:i + 1]),), {"axis": 0})))
        return sa(np.moveaxis(np.array(parts, dtype=object), 0, axis))
    if method == "outer":
        a, b = _to_obj(inputs[0]), _to_obj(inputs[1])
        f = _FPF[ufunc]
        r = f(a.reshape(a.shape + (1,) * b.ndim), b)
        return finish_bool(r) if ufunc in BINB else finish(r)
    if method == "at":
        a, idx = inputs[0], concretize_index(inputs[1])
        f = _RAW[ufunc]
        o = _to_obj(a)
        if not isinstance(a, SymArray):
            raise Unsupported("ufunc.at on a concrete array")
        val = inputs[2] if len(inputs) > 2 else None
        idxs = np.arange(o.size).reshape(o.shape)[idx]
        if val is None:
            flat = o.reshape(-1)
            for i in np.ravel(idxs):
                flat[i] = f(flat[i])
            return None
        vals = np.broadcast_to(_to_obj(val), np.shape(idxs))
        flat = o.reshape(-1)
        for i, v in zip(np.ravel(idxs), vals.ravel()):
            flat[i] = f(flat[i], v)
        return None
    raise Unsupported(f"{ufunc}.{method}")


def _special_ufunc(ufunc):
    name = getattr(ufunc, "__name__", "")
    if name == "expit":
        return np.frompyfunc(
            lambda a: s_div(1.0, s_add(1.0, s_exp(s_neg(a)))), 1, 1
        )
    if name == "logit":
        return np.frompyfunc(lambda a: s_log(s_div(a, s_sub(1.0, a))), 1, 1)
    if name == "xlogy":
        return np.frompyfunc(lambda a, b: s_mul(a, s_log(b)), 2, 1)
    if "(vectorized)" in name:
        return _Elementwise(ufunc)
    raise Unsupported(f"ufunc {ufunc}")


class _Elementwise:
    """np.frompyfunc of the code's own function, element by element."""

    def __init__(self, f):
        self.f, self.fn = f, None

    def __call__(self, *objs):
        bo = np.broadcast_arrays(*objs) if len(objs) > 1 else [np.asarray(objs[0], dtype=object)]
        res = np.empty(bo[0].shape, dtype=object)
        for p in np.ndindex(bo[0].shape):
            box = [np.array([None], dtype=object) for _ in bo]
            for b, o in zip(box, bo):
                b[0] = o[p]
            res[p] = self.f(*box)[0]
        return res


# -- reductions ---------------------------------------------------------------


def _axes(axis, ndim):
    if axis is None:
        return tuple(range(ndim))
    if isinstance(axis, (tuple, list)):
        return tuple(int(a) % ndim for a in axis)
    axis = int(axis)
    if not -ndim <= axis < ndim:
        raise np.AxisError(axis, ndim)
    return (axis % ndim,)


def _along(a, axis, fn, keepdims=False):
    """fn: list of elements -> scalar, along axis/axes."""
    o = _to_obj(a)
    ax = _axes(axis, o.ndim)
    rest = [i for i in range(o.ndim) if i not in ax]
    t = o.transpose(rest + list(ax))
    shp = tuple(o.shape[i] for i in rest)
    res = np.empty(shp, dtype=object)
    for p in np.ndindex(shp):
        res[p] = fn(list(t[p].ravel()) if t[p].__class__ is np.ndarray else [t[p]])
    if keepdims:
        res = res.reshape([1 if i in ax else o.shape[i] for i in range(o.ndim)])
    return res


def reduce_(f, a, axis=None, keepdims=False, initial=None):
    def fn(xs):
        if not xs:
            if initial is None:
                raise ValueError("zero-size array to reduction operation")
            return initial
        r = xs[0]
        for x in xs[1:]:
            r = f(r, x)
        return r

    return finish(_along(a, axis, fn, keepdims))


def _sum_list(xs):
    if not builtins.any(is_sym(x) for x in xs):
        if not xs:
            return 0.0
        with np.errstate(all="ignore"):
            return np.array(xs).sum().item()
    conc = [x for x in xs if not is_sym(x)]
    r = None
    for x in xs:
        if is_sym(x):
            r = x if r is None else s_add(r, x)
    if isinstance(r, SBool):
        r = core.mk_real(core.to_z(r))
    c = float(np.array(conc, dtype=float).sum()) if conc else 0.0
    return s_add(r, c) if c != 0 or c != c else r


def _sum(a, axis=None, keepdims=False, initial=None):
    r = finish(_along(a, axis, _sum_list, keepdims))
    return r if initial is None or (core.is_num(initial) and initial == 0) else r + initial


def _count(a, axis):
    shp = np.shape(a)
    n = 1
    for i in _axes(axis, len(shp)):
        n *= shp[i]
    return n


def _mean(a, axis=None, keepdims=False):
    n = _count(a, axis)
    if n == 0:
        return _along_nan(a, axis, keepdims)
    return np.true_divide(_sum(a, axis, keepdims), n)


def _along_nan(a, axis, keepdims):
    return finish(_along(a, axis, lambda xs: float("nan"), keepdims))


def _var(a, axis=None, ddof=0, keepdims=False):
    n = _count(a, axis)
    if n - ddof <= 0:
        return _along_nan(a, axis, keepdims)

    def fn(xs):
        if not builtins.any(is_sym(x) for x in xs):
            return float(np.var(np.array(xs, dtype=float), ddof=ddof))
        m = s_div(_sum_list(xs), float(len(xs)))
        dev = [s_sub(x, m) for x in xs]
        return s_div(_sum_list([s_mul(d, d) for d in dev]), float(len(xs) - ddof))

    return finish(_along(a, axis, fn, keepdims))


def _anyall(f, a, axis, keepdims, unit):
    def fn(xs):
        r = unit
        for x in xs:
            r = f(r, core.to_bool(x))
        return r

    return finish_bool(_along(a, axis, fn, keepdims))


def accumulate_(f, a, axis=None):
    o = _to_obj(a)
    if axis is None:
        o = o.ravel()
        axis = 0
    axis = int(axis) % o.ndim
    out = np.empty(o.shape, dtype=object)
    m, mo = np.moveaxis(o, axis, 0), np.moveaxis(out, axis, 0)
    ff = np.frompyfunc(f, 2, 1) if m.ndim > 1 else f
    for k in range(m.shape[0]):
        mo[k] = m[k] if k == 0 else ff(mo[k - 1], m[k])
    return sa(out)


def _lt(a, b):
    return bool(s_cmp(a, b, "<"))


def _argext(a, axis, is_max):
    def fn(xs):
        if not xs:
            raise ValueError("attempt to get argmax of an empty sequence")
        best = 0
        for k in range(1, len(xs)):
            c = s_cmp(xs[k], xs[best], ">" if is_max else "<")
            if bool(c):
                best = k
        return best

    r = _along(a, axis, fn)
    r = r.astype(int)
    return r if r.ndim else np.int64(r.item())


def _order(xs):
    """Stable argsort by forking comparisons (insertion sort)."""
    idx = []
    for k in range(len(xs)):
        j = len(idx)
        while j > 0 and _lt(xs[k], xs[idx[j - 1]]):
            j -= 1
        idx.insert(j, k)
    return idx


def _argsort(a, axis=-1):
    o = _to_obj(a)
    if axis is None:
        o, axis = o.ravel(), 0
    m = np.moveaxis(o, axis, -1)
    out = np.empty(m.shape, dtype=int)
    for p in np.ndindex(m.shape[:-1]):
        out[p] = _order(list(m[p]))
    return np.moveaxis(out, -1, axis)


def _sort(a, axis=-1):
    o = _to_obj(a)
    if axis is None:
        o, axis = o.ravel(), 0
    m = np.moveaxis(o, axis, -1)
    out = np.empty(m.shape, dtype=object)
    for p in np.ndindex(m.shape[:-1]):
        xs = list(m[p])
        for i, k in enumerate(_order(xs)):
            out[p + (i,)] = xs[k]
    return sa(np.moveaxis(out, -1, axis))


def _clip(a, lo=None, hi=None):
    r = a
    if lo is not None:
        r = np.maximum(r, lo)
    if hi is not None:
        r = np.minimum(r, hi)
    return r


def _round(a, decimals=0):
    if has_sym(a):
        k = 10.0 ** decimals
        f = lambda x: s_div(_rint(s_mul(x, k)), k) if is_sym(x) else round(float(x), decimals)
        if isinstance(a, np.ndarray):
            return finish(np.frompyfunc(f, 1, 1)(_to_obj(a)))
        return scalar(f(a))
    return rewrap(np.round(lower(a), decimals))


def _vdot(xs, ys):
    terms = [s_mul(x, y) for x, y in zip(xs, ys)]
    return _sum_list(terms)


def _matmul(a, b):
    if not has_sym(a) and not has_sym(b):
        return rewrap(np.matmul(lower(a), lower(b)))
    A, B = _to_obj(a), _to_obj(b)
    if A.ndim == 0 or B.ndim == 0:
        raise ValueError("matmul: Input operand does not have enough dimensions")
    sqa, sqb = A.ndim == 1, B.ndim == 1
    if sqa:
        A = A[None, :]
    if sqb:
        B = B[:, None]
    if A.shape[-1] != B.shape[-2]:
        raise ValueError("matmul: Input operand 1 has a mismatch in its core dimension")
    bs = np.broadcast_shapes(A.shape[:-2], B.shape[:-2])
    A = np.broadcast_to(A, bs + A.shape[-2:])
    B = np.broadcast_to(B, bs + B.shape[-2:])
    out = np.empty(bs + (A.shape[-2], B.shape[-1]), dtype=object)
    for p in np.ndindex(bs):
        for i in range(A.shape[-2]):
            for j in range(B.shape[-1]):
                out[p + (i, j)] = _vdot(list(A[p][i]), list(B[p][:, j]))
    if sqa:
        out = out[..., 0, :]
    if sqb:
        out = out[..., 0]
    return finish(out)


def _dot(a, b):
    A, B = _to_obj(a), _to_obj(b)
    if A.ndim == 0 or B.ndim == 0:
        return np.multiply(a, b)
    if B.ndim <= 2:
        if A.ndim <= 2:
            return _matmul(a, b)
        r = _matmul(sa(A.reshape(-1, A.shape[-1])), b)
        return r.reshape(A.shape[:-1] + np.shape(r)[1:])
    raise Unsupported("dot with a high-dimensional right operand")


def _einsum(sub, *ops, **k):
    if not isinstance(sub, str):
        raise Unsupported("einsum operand form")
    if not builtins.any(has_sym(o) for o in ops):
        return rewrap(np.einsum(sub, *[lower(o) for o in ops]))
    sub = sub.replace(" ", "")
    lhs, _, rhs = sub.partition("->")
    ins = lhs.split(",")
    if "." in sub:
        nb = [np.ndim(o) - len(t.replace("...", "")) if "..." in t else 0 for t, o in zip(ins, ops)]
        big = "ZYXWVUT"[: builtins.max(nb)]
        ins = [t.replace("...", big[len(big) - n:]) for t, n in zip(ins, nb)]
        lhs = ",".join(ins)
        if "->" in sub:
            rhs = rhs.replace("...", big)
        else:
            rhs = big + "".join(sorted(c for c in set(lhs.replace(",", "")) if lhs.count(c) == 1 and c not in big))
            sub += "->"
    if "->" not in sub:
        rhs = "".join(
            sorted(c for c in set(lhs.replace(",", "")) if lhs.count(c) == 1)
        )
    objs = [_to_obj(o) for o in ops]
    dims = {}
    for t, o in zip(ins, objs):
        if len(t) != o.ndim:
            raise ValueError("einsum operand has wrong number of dimensions")
        for c, d in zip(t, o.shape):
            if dims.setdefault(c, d) != d:
                if dims[c] == 1:
                    dims[c] = d
                elif d != 1:
                    raise ValueError("einsum dimension mismatch")
    summed = [c for c in dims if c not in rhs]
    out = np.empty(tuple(dims[c] for c in rhs), dtype=object)
    for p in np.ndindex(out.shape):
        env = dict(zip(rhs, p))
        terms = []
        for q in np.ndindex(tuple(dims[c] for c in summed)):
            env.update(zip(summed, q))
            v = None
            for t, o in zip(ins, objs):
                x = o[tuple(env[c] if o.shape[n] != 1 else 0 for n, c in enumerate(t))]
                v = x if v is None else s_mul(v, x)
            terms.append(v)
        out[p] = _sum_list(terms)
    return finish(out)


def _inv(a):
    o = _to_obj(a)
    if not has_sym(o):
        return rewrap(np.linalg.inv(lower(sa(o))))
    if o.ndim > 2:
        return sa(np.array([_to_obj(_inv(x)) for x in o], dtype=object))
    n = o.shape[0]
    if o.shape != (n, n):
        raise np.linalg.LinAlgError("Last 2 dimensions of the array must be square")

    def minor(m, i, j):
        return [[m[r][c] for c in range(len(m)) if c != j] for r in range(len(m)) if r != i]

    def det(m):
        if len(m) == 0:
            return 1.0
        if len(m) == 1:
            return m[0][0]
        r = 0.0
        for j in range(len(m)):
            t = s_mul(m[0][j], det(minor(m, 0, j)))
            r = s_add(r, t) if j % 2 == 0 else s_sub(r, t)
        return r

    m = [list(r) for r in o]
    d = det(m)
    if is_sym(d) and not core.cur().nonzero(d.e):
        if not core.decide(d.e != 0):
            raise np.linalg.LinAlgError("Singular matrix")
    out = np.empty((n, n), dtype=object)
    for i in range(n):
        for j in range(n):
            c = det(minor(m, j, i))
            out[i, j] = s_div(c if (i + j) % 2 == 0 else s_neg(c), d)
    return sa(out)


def _where(cond, *xy):
    if not xy:
        c = concretize_index(_truth(cond)) if has_symarray(cond) else cond
        return np.nonzero(c)
    x, y = xy
    if not has_sym(cond) and not has_sym(x) and not has_sym(y):
        return rewrap(np.where(lower(cond), lower(x), lower(y)))
    r = np.frompyfunc(ite, 3, 1)(_to_obj(cond), _to_obj(x), _to_obj(y))
    return finish(r)


def _isclose(a, b, rtol=1e-5, atol=1e-8, equal_nan=False):
    def f(x, y):
        if not is_sym(x) and not is_sym(y):
            return bool(np.isclose(x, y, rtol, atol))
        return s_cmp(
            s_abs(s_sub(x, y)), s_add(atol, s_mul(rtol, s_abs(y))), "<="
        )

    return finish_bool(np.frompyfunc(f, 2, 1)(_to_obj(a), _to_obj(b)))


def _unique(a, return_index=False, return_inverse=False, return_counts=False, axis=None, **k):
    if axis is not None:
        raise Unsupported("unique along an axis")
    xs = list(_to_obj(a).ravel())
    order = _order(xs)
    vals, first, inv, cnt = [], [], [0] * len(xs), []
    for i in order:
        if vals and bool(s_cmp(vals[-1], xs[i], "==")):
            cnt[-1] += 1
            first[-1] = min(first[-1], i)
        else:
            vals.append(xs[i])
            first.append(i)
            cnt.append(1)
        inv[i] = len(vals) - 1
    v = np.empty(len(vals), dtype=object)
    for i, x in enumerate(vals):
        v[i] = x
    res = (sa(v),)
    if return_index:
        res += (np.array(first, dtype=int),)
    if return_inverse:
        res += (np.array(inv, dtype=int),)
    if return_counts:
        res += (np.array(cnt, dtype=int),)
    return res if len(res) > 1 else res[0]


def _average(a, axis=None, weights=None, returned=False, keepdims=False, **k):
    if weights is None:
        return _mean(a, axis)
    a = a if isinstance(a, np.ndarray) else build(a)
    weights = weights if isinstance(weights, np.ndarray) else build(weights)
    w = weights
    if np.shape(w) != np.shape(a):
        if axis is None:
            raise TypeError("Axis must be specified when shapes of a and weights differ.")
        if np.ndim(w) != 1:
            raise TypeError("1D weights expected when shapes of a and weights differ.")
        if np.shape(w)[0] != np.shape(a)[axis]:
            raise ValueError("Length of weights not compatible with specified axis.")
        shp = [1] * np.ndim(a)
        shp[axis] = -1
        w = w.reshape(shp)
        w = sa(np.broadcast_to(_to_obj(w), np.shape(a)))
    den = _sum(w, axis)
    num = _sum(np.multiply(a, w), axis)
    if not has_sym(den) and np.any(np.asarray(lower(den)) == 0):
        raise ZeroDivisionError("Weights sum to zero, can't be normalized")
    if has_sym(den) and bool(np.any(np.equal(den, 0))):
        raise ZeroDivisionError("Weights sum to zero, can't be normalized")
    r = np.true_divide(num, den)
    return (r, den) if returned else r


def _quantile(a, q, axis=None, scale=1.0, method="linear", **k):
    if method != "linear":
        raise Unsupported("quantile method")

    def one(qq):
        def fn(xs):
            s = [xs[i] for i in _order(xs)]
            pos = float(qq) / scale * (len(s) - 1)
            f = int(_math.floor(pos + 1e-12))
            g = pos - f
            if abs(g) < 1e-12:
                return s[f]
            # numpy's linear interpolation
            return s_add(s[f], s_mul(g, s_sub(s[f + 1], s[f])))

        return finish(_along(a, axis, fn))

    if isinstance(q, (list, tuple, np.ndarray)):
        return build([one(x) for x in q])
    if has_sym(q):
        raise Unsupported("symbolic quantile level")
    return one(q)


def _bincount(x, weights=None, minlength=0):
    x = concretize_index(x)
    n = builtins.max(int(minlength), int(np.max(x)) + 1 if len(x) else 0)
    out = [0.0] * n
    for i, k in enumerate(np.asarray(x)):
        out[int(k)] = s_add(out[int(k)], weights[i] if weights is not None else 1)
    return build(out) if has_sym(out) else rewrap(np.array(out))


def _full_like(a, v, dtype=None, **k):
    kind = None if dtype is None else np.dtype(dtype).kind
    if kind in ("i", "u"):
        return np.full(np.shape(a), v, dtype=dtype)
    if kind == "b":
        return np.full(np.shape(a), v, dtype=bool)
    o = np.empty(np.shape(a), dtype=object)
    if isinstance(a, SymTyped) and kind is None:
        o[...] = cast_s(v, "i")
        return o.view(SymTyped)
    o[...] = v
    return sa(o)


def _zeros_like(a, dtype=None, **k):
    return _full_like(a, 0.0, dtype)


def _ones_like(a, dtype=None, **k):
    return _full_like(a, 1.0, dtype)


def _diff(a, n=1, axis=-1, **k):
    r = a
    for _ in range(n):
        sl1 = [slice(None)] * np.ndim(r)
        sl2 = [slice(None)] * np.ndim(r)
        sl1[axis], sl2[axis] = slice(1, None), slice(None, -1)
        r = np.subtract(r[tuple(sl1)], r[tuple(sl2)])
    return r


def _outer(a, b, out=None):
    A, B = _to_obj(a).ravel(), _to_obj(b).ravel()
    return sa(_FPF[np.multiply](A[:, None], B[None, :]))


def _tri(fn):
    def f(m, k=0):
        o = _to_obj(m)
        mask = fn(np.ones(o.shape[-2:]), k=k).astype(bool)
        r = o.copy()
        r[..., ~mask] = 0.0
        return sa(r)

    return f


def _array_equal(a, b, **k):
    if np.shape(a) != np.shape(b):
        return False
    return np.all(np.equal(a, b))


def _nan_to_num(x, *a, **k):
    return sa(np.frompyfunc(lambda v: v if is_sym(v) or v == v else 0.0, 1, 1)(_to_obj(x)))


def _isin(a, b, invert=False, **k):
    xs = list(_to_obj(b).ravel())

    def f(x):
        r = False
        for y in xs:
            r = s_or(r, s_cmp(x, y, "=="))
        return s_not(r) if invert else r

    return finish_bool(np.frompyfunc(f, 1, 1)(_to_obj(a)))


def _select(conds, choices, default=0):
    r = default
    for c, v in reversed(list(zip(conds, choices))):
        r = _where(c, v, r)
    return r


def _trapz(y, x=None, dx=1.0, axis=-1):
    if np.ndim(y) != 1:
        raise Unsupported("trapz")
    d = dx if x is None else np.subtract(x[1:], x[:-1])
    return _sum(np.multiply(np.add(y[1:], y[:-1]), d)) / 2.0


def _norm(x, ord=None, axis=None, keepdims=False):
    if ord not in (None, 2):
        raise Unsupported("norm order")
    return np.sqrt(_sum(np.multiply(x, x), axis, keepdims))


def _insert_rewrap(func):
    def f(*args, **kwargs):
        return _native(func, args, kwargs)

    return f


def _searchsorted(a, v, side="left", sorter=None):
    xs = list(_to_obj(a).ravel())
    if sorter is not None:
        xs = [xs[i] for i in sorter]

    def f(x):
        k = 0
        for y in xs:
            if bool(s_cmp(y, x, "<" if side == "left" else "<=")):
                k += 1
            else:
                break
        return k

    r = np.frompyfunc(f, 1, 1)(_to_obj(v))
    return r.astype(int) if isinstance(r, np.ndarray) and r.ndim else int(r if not isinstance(r, np.ndarray) else r.item())


def _k(d, *names):
    return {n: d[n] for n in names if n in d}


HANDLERS = {}


def handler(*names):
    def deco(f):
        for n in names:
            o = np
            for part in n.split("."):
                o = getattr(o, part, None)
            if o is not None:
                HANDLERS[o] = f
        return f

    return deco


NV = np._NoValue


def _wmean(a, axis, keepdims, where):
    if where is True or where is NV:
        return _mean(a, axis, keepdims)
    w = np.broadcast_to(_to_obj(where), np.shape(a)).view(SymArray)
    return np.true_divide(_sum(_masked(a, w, 0.0), axis, keepdims), _sum(cast(w, float), axis, keepdims))


def _wvar(a, axis, ddof, keepdims, where):
    if where is True or where is NV:
        return _var(a, axis, ddof, keepdims)
    w = np.broadcast_to(_to_obj(where), np.shape(a)).view(SymArray)
    d = np.subtract(a, _wmean(a, axis, True, where))
    return np.true_divide(_sum(_masked(d * d, w, 0.0), axis, keepdims), _sum(cast(w, float), axis, keepdims) - ddof)


handler("sum")(lambda a, axis=None, dtype=None, out=None, keepdims=False, initial=None, where=True: _out(_sum(_masked(a, where, 0.0), axis, keepdims is True, None if initial is NV else initial), out))
handler("prod")(lambda a, axis=None, dtype=None, out=None, keepdims=False, initial=NV, where=True: _out(np.multiply(reduce_(s_mul, _masked(a, where, 1.0), axis, keepdims is True, 1.0), 1.0 if initial is NV else initial), out))
handler("mean", "nanmean")(lambda a, axis=None, dtype=None, out=None, keepdims=False, where=True: _out(_wmean(a, axis, keepdims is True, where), out))
handler("nansum")(lambda a, axis=None, dtype=None, out=None, keepdims=False, initial=None, where=True: _out(_sum(_masked(a, where, 0.0), axis, keepdims is True, None if initial is NV else initial), out))
handler("var", "nanvar")(lambda a, axis=None, dtype=None, out=None, ddof=0, keepdims=False, where=True: _out(_wvar(a, axis, ddof, keepdims is True, where), out))
handler("std", "nanstd")(lambda a, axis=None, dtype=None, out=None, ddof=0, keepdims=False, where=True: _out(np.sqrt(_wvar(a, axis, ddof, keepdims is True, where)), out))
handler("max", "amax", "nanmax")(lambda a, axis=None, out=None, keepdims=False, initial=NV, where=True: _out(_extremum(s_max, a, axis, keepdims is True, initial, where), out))
handler("min", "amin", "nanmin")(lambda a, axis=None, out=None, keepdims=False, initial=NV, where=True: _out(_extremum(s_min, a, axis, keepdims is True, initial, where), out))
handler("any")(lambda a, axis=None, out=None, keepdims=False, where=True: _anyall(s_or, _masked(a, where, False), axis, keepdims is True, False))
handler("all")(lambda a, axis=None, out=None, keepdims=False, where=True: _anyall(s_and, _masked(a, where, True), axis, keepdims is True, True))
handler("nancumsum")(lambda a, axis=None, **k: accumulate_(s_add, a, axis))
handler("nanmedian")(lambda a, axis=None, **k: _quantile(a, 0.5, axis))
handler("nanquantile")(lambda a, q, axis=None, **k: _quantile(a, q, axis, 1.0, k.get("method", "linear")))
handler("nanpercentile")(lambda a, q, axis=None, **k: _quantile(a, q, axis, 100.0, k.get("method", "linear")))
handler("argwhere")(lambda a: np.argwhere(concretize_index(_truth(a))))
handler("digitize")(lambda x, bins, right=False: _searchsorted(bins, x, side="left" if right else "right"))
handler("tensordot")(lambda a, b, axes=2: _tensordot(a, b, axes))
handler("trapz")(_trapz)
handler("lexsort")(lambda keys, axis=-1: _lexsort(keys))
handler("argpartition")(lambda a, kth, axis=-1, **k: _argsort(a, axis))
handler("partition")(lambda a, kth, axis=-1, **k: _sort(a, axis))
handler("cov")(lambda m, y=None, rowvar=True, bias=False, ddof=None, **k: _cov(m, y, bias, ddof))
handler("ediff1d")(lambda a, **k: _diff(np.ravel(a)))
handler("piecewise")(lambda x, condlist, funclist, *a, **k: _piecewise(x, condlist, funclist, *a, **k))
handler("linalg.det")(lambda a: _det(_to_obj(a)))
handler("linalg.multi_dot")(lambda arrays, out=None: _fold(_dot, arrays))
handler("linalg.matrix_power")(lambda a, n: _fold(_matmul, [a] * n) if n > 0 else _matmul(_inv(a), a) if n == 0 else _fold(_matmul, [_inv(a)] * -n))
handler("convolve")(lambda a, v, mode="full": _convolve(a, v, mode))
handler("union1d")(lambda a, b: _unique(np.concatenate([np.ravel(a), np.ravel(b)])))
handler("setdiff1d")(lambda a, b, assume_unique=False: _setdiff(a, b))
handler("intersect1d")(lambda a, b, assume_unique=False, **k: _setdiff(a, b, True))
handler("cross")(lambda a, b, **k: _cross(a, b))
handler("polyval")(lambda p, x: _polyval(p, x))
handler("lib.stride_tricks.sliding_window_view")(lambda x, w, axis=None, **k: np.lib.stride_tricks.sliding_window_view(_to_obj(x), w, axis).view(SymArray))


def _tensordot(a, b, axes=2):
    a, b = _to_obj(a), _to_obj(b)
    if isinstance(axes, (int, np.integer)):
        xa, xb = list(range(a.ndim - axes, a.ndim)), list(range(axes))
    else:
        xa, xb = [[int(i) for i in np.ravel(x)] for x in axes]
    xa, xb = [i % a.ndim for i in xa], [i % b.ndim for i in xb]
    ra, rb = [i for i in range(a.ndim) if i not in xa], [i for i in range(b.ndim) if i not in xb]
    sa_, sb_ = [a.shape[i] for i in ra], [b.shape[i] for i in rb]
    n = int(np.prod([a.shape[i] for i in xa], dtype=int))
    A2 = a.transpose(ra + xa).reshape((int(np.prod(sa_, dtype=int)), n))
    B2 = b.transpose(xb + rb).reshape((n, int(np.prod(sb_, dtype=int))))
    r = _to_obj(_matmul(A2.view(SymArray), B2.view(SymArray))).reshape(sa_ + sb_)
    return finish(r)


def _lexsort(keys):
    keys = [list(_to_obj(k)) for k in (list(keys) if not isinstance(keys, np.ndarray) else [keys[i] for i in range(len(keys))])]
    idx = list(range(len(keys[0])))
    for k in keys:
        o = _order([k[i] for i in idx])
        idx = [idx[i] for i in o]
    return np.array(idx, dtype=int)


def _cov(m, y=None, bias=False, ddof=None):
    if y is not None or np.ndim(m) > 2:
        raise Unsupported("np.cov of two samples")
    d = (0 if bias else 1) if ddof is None else ddof
    if np.ndim(m) == 1:
        return _var(m, None, d)
    c = np.subtract(m, _mean(m, 1, True))
    return np.true_divide(_matmul(c, c.T), np.shape(m)[1] - d)


def _piecewise(x, condlist, funclist, *a, **k):
    conds = [condlist] if np.ndim(condlist) == np.ndim(x) else list(condlist)
    fl = list(funclist)
    out = fl.pop() if len(fl) == len(conds) + 1 else 0.0
    val = lambda f: f(x, *a, **k) if callable(f) else f
    r = val(out)
    if not np.ndim(r):
        r = _full_like(x, r)
    for c, f in zip(conds, fl):
        r = _where(c, val(f), r)
    return r


def _det(o):
    if o.shape[0] == 1:
        return scalar(o[0, 0])
    r = None
    for j in range(o.shape[0]):
        t = s_mul(o[0, j], _det(np.delete(o[1:], j, axis=1)))
        t = t if j % 2 == 0 else s_neg(t)
        r = t if r is None else s_add(r, t)
    return scalar(r)


def _fold(f, xs):
    xs = list(xs)
    r = xs[0]
    for x in xs[1:]:
        r = f(r, x)
    return r


def _convolve(a, v, mode):
    a, v = list(_to_obj(a)), list(_to_obj(v))
    if len(v) > len(a):
        a, v = v, a
    n, m = len(a), len(v)
    full = [_sum_list([s_mul(a[i], v[k - i]) for i in range(n) if 0 <= k - i < m]) for k in range(n + m - 1)]
    if mode == "same":
        full = full[(m - 1) // 2:(m - 1) // 2 + n]
    elif mode == "valid":
        full = full[m - 1:n]
    return build(full)


def _setdiff(a, b, both=False):
    u = _unique(np.ravel(a))
    inb = _isin(u, b)
    return u[inb if both else np.logical_not(inb)]


def _cross(a, b):
    return build([a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]])


def _polyval(p, x):
    r = 0.0
    for c in p:
        r = r * x + c
    return r


handler("argmax", "nanargmax")(lambda a, axis=None, **k: _argext(a, axis, True))
handler("argmin", "nanargmin")(lambda a, axis=None, **k: _argext(a, axis, False))
handler("argsort")(lambda a, axis=-1, **k: _argsort(a, axis))
handler("sort")(lambda a, axis=-1, **k: _sort(a, axis))
handler("cumsum")(lambda a, axis=None, **k: accumulate_(s_add, a, axis))
handler("cumprod")(lambda a, axis=None, **k: accumulate_(s_mul, a, axis))
handler("clip")(lambda a, a_min=None, a_max=None, out=None, **k: _out(_clip(a, k.get("min", a_min), k.get("max", a_max)), out))
handler("dot")(lambda a, b, out=None: _dot(a, b))
handler("inner")(lambda a, b: _dot(a, np.transpose(b)))
handler("vdot")(lambda a, b: _dot(np.ravel(a), np.ravel(b)))
handler("einsum")(_einsum)
handler("linalg.inv", "linalg.pinv")(_inv)
handler("linalg.norm")(_norm)
handler("linalg.solve")(lambda a, b: _matmul(_inv(a), b))
handler("where")(_where)
handler("isclose")(_isclose)
handler("allclose")(lambda a, b, rtol=1e-5, atol=1e-8, equal_nan=False: _anyall(s_and, _isclose(a, b, rtol, atol), None, False, True))
handler("unique")(_unique)
handler("average")(_average)
handler("percentile")(lambda a, q, axis=None, **k: _quantile(a, q, axis, 100.0, k.get("method", "linear")))
handler("quantile")(lambda a, q, axis=None, **k: _quantile(a, q, axis, 1.0, k.get("method", "linear")))
handler("median")(lambda a, axis=None, **k: _quantile(a, 0.5, axis))
handler("bincount")(_bincount)
handler("zeros_like", "empty_like")(_zeros_like)
handler("ones_like")(_ones_like)
handler("full_like")(_full_like)
handler("diff")(_diff)
handler("outer")(_outer)
handler("tril")(_tri(np.tril))
handler("triu")(_tri(np.triu))
handler("array_equal")(_array_equal)
handler("nan_to_num")(_nan_to_num)
handler("isin", "in1d")(_isin)
handler("select")(_select)
handler("nonzero")(lambda a: concretize_index(_truth(a)).nonzero())
handler("flatnonzero")(lambda a: concretize_index(_truth(np.ravel(a))).nonzero()[0])
handler("count_nonzero")(lambda a, axis=None, **k: _sum(_truth(a), axis))
handler("searchsorted")(_searchsorted)
handler("round", "around", "round_")(lambda a, decimals=0, out=None: _round(a, decimals))
handler("ptp")(lambda a, axis=None, **k: reduce_(s_max, a, axis) - reduce_(s_min, a, axis))
handler("copy")(lambda a, **k: a.copy())
handler("copyto")(lambda dst, src, **k: dst.__setitem__(Ellipsis, src))
handler("ndim")(lambda a: a.ndim)
handler("shape")(lambda a: a.shape)
handler("size")(lambda a, axis=None: a.size if axis is None else a.shape[axis])
handler("iscomplexobj")(lambda a: False)
handler("isrealobj")(lambda a: True)
handler("real")(lambda a: a)
handler("imag")(lambda a: np.zeros(np.shape(a)))
handler("squeeze")(lambda a, axis=None: finish(np.squeeze(_to_obj(a), axis)))
handler("trace")(lambda a, **k: a.trace())
handler("multiply.outer")(None) if False else None

NATIVE = {
    getattr(np, n)
    for n in (
        "concatenate vstack hstack dstack stack column_stack row_stack append insert "
        "delete tile repeat reshape ravel transpose swapaxes moveaxis rollaxis roll "
        "expand_dims broadcast_to broadcast_arrays atleast_1d atleast_2d atleast_3d "
        "take take_along_axis put_along_axis put diag diagonal diagflat flip fliplr flipud rot90 "
        "split array_split hsplit vsplit pad block resize choose compress extract "
        "meshgrid ix_ tril_indices_from triu_indices_from fill_diagonal place putmask "
        "apply_along_axis apply_over_axes may_share_memory shares_memory kron "
        "result_type can_cast common_type"
    ).split()
    if hasattr(np, n)
}


def _out(r, out):
    if out is None:
        return r
    if isinstance(out, tuple):
        out = out[0]
    out[...] = r
    return out


def _deview(x):
    if isinstance(x, SymArray):
        return x.view(np.ndarray)
    if isinstance(x, SymIntArray):
        return x.view(np.ndarray)
    if is_sym(x):
        return _to_obj(x)
    if isinstance(x, list):
        return [_deview(i) for i in x]
    if isinstance(x, tuple):
        return tuple(_deview(i) for i in x)
    return x


def _native(func, args, kwargs):
    """Data movement: numpy's own implementation on the object arrays."""
    args = tuple(_deview(a) for a in args)
    kwargs = {k: _deview(v) for k, v in kwargs.items()}
    r = func(*args, **kwargs)
    return _rewrap_obj(r)


def _rewrap_obj(r):
    if isinstance(r, np.ndarray):
        return r.view(SymArray) if r.dtype == object and type(r) is np.ndarray else r
    if isinstance(r, tuple):
        return tuple(_rewrap_obj(i) for i in r)
    if isinstance(r, list):
        return [_rewrap_obj(i) for i in r]
    return scalar(r) if is_sym(r) or isinstance(r, (float, int, bool)) else r


def apply_function(func, args, kwargs):
    h = HANDLERS.get(func)
    args = tuple(
        a.view(np.ndarray) if isinstance(a, SymIntArray) else a for a in args
    )
    if h is not None:
        args = tuple(
            build(a) if isinstance(a, (list, tuple)) and has_symarray(a) and func not in (np.select, np.linalg.multi_dot, np.piecewise, np.lexsort) and not (n == 1 and func in (np.sum, np.mean, np.max, np.min)) else a
            for n, a in enumerate(args)
        )
        if not has_sym(args) and not has_sym(list(kwargs.values())):
            if func in _STAY:
                return h(*args, **kwargs)
            with np.errstate(all="ignore"):
                return rewrap(func(*[lower(a) for a in args], **{k: lower(v) for k, v in kwargs.items()}))
        return h(*args, **kwargs)
    if func in NATIVE:
        return _native(func, args, kwargs)
    if not has_sym(args) and not has_sym(list(kwargs.values())):
        with np.errstate(all="ignore"):
            return rewrap(
                func(
                    *[lower(a) for a in args],
                    **{k: lower(v) for k, v in kwargs.items()},
                )
            )
    raise Unsupported(f"numpy function {getattr(func, '__name__', func)}")


_STAY = {
    np.zeros_like,
    np.ones_like,
    np.full_like,
    np.empty_like,
    np.copy,
    np.copyto,
    np.ndim,
    np.shape,
    np.size,
    np.clip,
    np.sum,
}
