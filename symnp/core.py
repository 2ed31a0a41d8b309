"""Symbolic scalars, path exploration and solver access.

Real-valued program values are represented by z3 Real expressions (floats are
modelled as exact reals; stated as an assumption in every evidence file).
Branches whose condition is symbolic are decided by the solver: a branch that is
infeasible under the path condition is not taken; when both are feasible the
path is forked and re-executed with the other decision.
"""
import math
import sys
import time
from fractions import Fraction

import numpy as np
import z3

INF = float("inf")


class Unsupported(Exception):
    """The symbolic engine cannot model an operation (never a verdict)."""


class PathAbort(BaseException):
    """Ends a path abnormally (division by zero, bound exceeded, ...)."""

    def __init__(self, kind, detail=""):
        super().__init__(f"{kind}: {detail}")
        self.kind = kind
        self.detail = detail


_RAT_CACHE = {}


def rat(x):
    """Exact rational for a concrete number.

    A float that is the closest double to a short decimal or a simple fraction is
    read as that number (1/3, 0.05, ...), otherwise as its exact binary value.
    """
    if isinstance(x, Fraction):
        return x
    if isinstance(x, (bool, np.bool_)):
        return Fraction(int(x))
    if isinstance(x, (int, np.integer)):
        return Fraction(int(x))
    x = float(x)
    if x != x or x in (INF, -INF):
        raise Unsupported("non-finite constant")
    r = _RAT_CACHE.get(x)
    if r is None:
        s = repr(x)
        digits = s.split("e")[0].replace(".", "").replace("-", "").strip("0")
        if len(digits) <= 10:
            r = Fraction(s)
        else:
            e = Fraction(x)
            r = e.limit_denominator(10000)
            if abs(r - e) > Fraction(1, 10**14) * max(abs(e), Fraction(1, 10**3)):
                r = e
        _RAT_CACHE[x] = r
    return r


def rv(x):
    r = rat(x)
    return z3.RealVal(f"{r.numerator}/{r.denominator}")


def is_num(x):
    return not isinstance(x, Sym) and isinstance(x, (int, float, Fraction, np.number, bool, np.bool_))


def is_sym(x):
    return isinstance(x, Sym)


def const_of(e):
    """Fraction if the z3 term is a rational numeral else None."""
    if z3.is_rational_value(e):
        return Fraction(e.numerator_as_long(), e.denominator_as_long())
    if z3.is_int_value(e):
        return Fraction(e.as_long())
    return None


class Sym:
    """Base class of symbolic scalars."""

    __slots__ = ("e",)
    __array_priority__ = 1000.0
    ndim = 0
    shape = ()
    size = 1

    def __init__(self, e):
        self.e = e

    def __hash__(self):
        return self.e.hash()

    def __array_ufunc__(self, ufunc, method, *inputs, **kwargs):
        from . import array

        r = array.apply_ufunc(ufunc, method, inputs, kwargs)
        if isinstance(r, array.SymArray) and sys._getframe(1).f_globals.get("__name__", "").startswith("pandas."):
            return r.view(np.ndarray)  # pandas keeps plain object arrays
        return r

    def __array_function__(self, func, types, args, kwargs):
        from . import array

        return array.apply_function(func, args, kwargs)

    def __float__(self):
        raise Unsupported("float() of a symbolic value")

    def __int__(self):
        return concrete_int(self)

    def __index__(self):
        raise Unsupported("a symbolic value used as an index")

    def __format__(self, spec):
        return "<sym>"

    def __repr__(self):
        return "<sym>"

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self

    def item(self):
        return self

    def copy(self):
        return self

    @property
    def T(self):
        return self

    @property
    def real(self):
        return self

    # numpy-scalar like methods
    def sum(self, *a, **k):
        return self

    def mean(self, *a, **k):
        return self

    max = min = prod = squeeze = sum

    def astype(self, dtype, *a, **k):
        from . import array

        return array.cast(self, dtype)

    def reshape(self, *shape, **k):
        from . import array

        return array.sa([self]).reshape(*shape)

    def flatten(self):
        from . import array

        return array.sa([self])

    ravel = flatten

    def any(self, *a, **k):
        return to_bool(self)

    all = any

    def round(self, *a, **k):
        raise Unsupported("round")


def to_z(x):
    """z3 Real of a scalar."""
    if isinstance(x, SReal):
        return x.e
    if isinstance(x, SBool):
        return z3.If(x.e, z3.RealVal(1), z3.RealVal(0))
    if is_num(x):
        return rv(x)
    if isinstance(x, np.ndarray) and x.ndim == 0:
        return to_z(x.item())
    raise Unsupported(f"cannot convert {type(x)} to a real")


def to_b(x):
    """z3 Bool of a scalar."""
    if isinstance(x, SBool):
        return x.e
    if isinstance(x, SReal):
        return x.e != 0
    if isinstance(x, np.ndarray) and x.ndim == 0:
        return to_b(x.item())
    return z3.BoolVal(bool(x))


def to_bool(x):
    if isinstance(x, SReal):
        return mk_bool(x.e != 0)
    return x if isinstance(x, SBool) else bool(x)


def mk_real(e):
    c = const_of(e)
    if c is not None:
        return float(c) if rat(float(c)) == c else SReal(e)
    return SReal(e)


def mk_bool(e):
    if z3.is_true(e):
        return True
    if z3.is_false(e):
        return False
    return SBool(e)


def _special(x):
    """'+inf', '-inf', 'nan' or None for a concrete number."""
    if isinstance(x, (float, np.floating)) and not isinstance(x, Sym):
        if x != x:
            return "nan"
        if x == INF:
            return "+inf"
        if x == -INF:
            return "-inf"
    return None


def _arr(x):
    return isinstance(x, (np.ndarray, list, tuple)) or getattr(x, "is_tensor", False)


def s_add(a, b):
    if not is_sym(a) and not is_sym(b):
        return a + b
    for p, q in ((a, b), (b, a)):
        if is_num(p):
            sp = _special(p)
            if sp:
                return float(p)
            if p == 0:
                return q if isinstance(q, SReal) else mk_real(to_z(q))
    return mk_real(to_z(a) + to_z(b))


def s_sub(a, b):
    if not is_sym(a) and not is_sym(b):
        return a - b
    if is_num(b):
        if _special(b):
            return -float(b)
        if b == 0:
            return a if isinstance(a, SReal) else mk_real(to_z(a))
    if is_num(a):
        if _special(a):
            return float(a)
        if a == 0:
            return s_neg(b)
    if is_sym(a) and is_sym(b) and isinstance(a, SReal) and isinstance(b, SReal):
        if a.e.eq(b.e):
            return 0.0
    return mk_real(to_z(a) - to_z(b))


def s_mul(a, b):
    if not is_sym(a) and not is_sym(b):
        return a * b
    for p, q in ((a, b), (b, a)):
        if is_num(p):
            sp = _special(p)
            if sp:
                if sp == "nan":
                    return float("nan")
                if decide(to_z(q) > 0):
                    return float(p)
                if decide(to_z(q) < 0):
                    return -float(p)
                return float("nan")
            if p == 0:
                return 0.0
            if p == 1:
                return q if isinstance(q, SReal) else mk_real(to_z(q))
    for p, q in ((a, b), (b, a)):
        if isinstance(p, SBool):
            return mk_real(z3.If(p.e, to_z(q), z3.RealVal(0)))
    # keep quotients at the top: (n/d)*q
    return mk_real(to_z(a) * to_z(b))


def s_div(a, b):
    if not is_sym(b):
        sp = _special(b)
        if sp in ("+inf", "-inf"):
            return 0.0
        if sp == "nan":
            return float("nan")
        if not is_sym(a):
            with np.errstate(all="ignore"):
                return float(np.float64(a) / np.float64(b))
        if b == 0:
            return _over_zero(a)
        if b == 1:
            return a if isinstance(a, SReal) else mk_real(to_z(a))
        return mk_real(to_z(a) / rv(b))
    eb = to_z(b)
    if not cur().nonzero(eb):
        if not decide(eb != 0):
            return _over_zero(a)
    if is_sym(a) and isinstance(a, SReal) and a.e.eq(eb):
        return 1.0
    if is_num(a):
        sp = _special(a)
        if sp == "nan":
            return float("nan")
        if sp:
            return float(a) if decide(eb > 0) else -float(a)
        if a == 0:
            return 0.0
    return mk_real(to_z(a) / eb)


def _over_zero(a):
    """numpy's result of a / 0 (the path is forked on the sign of a)."""
    if not is_sym(a):
        with np.errstate(all="ignore"):
            return float(np.float64(a) / np.float64(0.0))
    ea = to_z(a)
    if decide(ea == 0):
        return float("nan")
    return INF if decide(ea > 0) else -INF


def s_neg(a):
    if isinstance(a, SBool):
        raise Unsupported("negative of a boolean")
    if not is_sym(a):
        return -a
    return mk_real(-a.e)


def s_abs(a):
    if not is_sym(a):
        return abs(a)
    e = to_z(a)
    sg = cur().sign(e)
    if sg in ("pos", "nonneg"):
        return mk_real(e)
    return mk_real(z3.If(e >= 0, e, -e))


def s_sign(a):
    if not is_sym(a):
        return float(np.sign(a))
    e = to_z(a)
    return mk_real(
        z3.If(e > 0, z3.RealVal(1), z3.If(e < 0, z3.RealVal(-1), z3.RealVal(0)))
    )


def _cmp_inf(a, b, op):
    """Comparison with at least one infinite/nan constant; None if not applicable."""
    sa_, sb_ = (None if is_sym(a) else _special(a)), (
        None if is_sym(b) else _special(b)
    )
    if sa_ is None and sb_ is None:
        return None
    fa = 0.0 if is_sym(a) else float(a)
    fb = 0.0 if is_sym(b) else float(b)
    return bool(
        {
            "<": fa < fb,
            "<=": fa <= fb,
            ">": fa > fb,
            ">=": fa >= fb,
            "==": fa == fb,
            "!=": fa != fb,
        }[op]
    )


def s_cmp(a, b, op):
    if isinstance(a, np.ndarray) and a.ndim == 0:
        a = a.item()
    if isinstance(b, np.ndarray) and b.ndim == 0:
        b = b.item()
    if not is_sym(a) and not is_sym(b):
        if op == "<":
            return a < b
        if op == "<=":
            return a <= b
        if op == ">":
            return a > b
        if op == ">=":
            return a >= b
        if op == "==":
            return a == b
        return a != b
    for x in (a, b):
        if not is_sym(x) and not is_num(x):
            if op == "==":
                return False
            if op == "!=":
                return True
            raise Unsupported(f"comparison with {type(x)}")
    r = _cmp_inf(a, b, op)
    if r is not None:
        return r
    if isinstance(a, SBool) and isinstance(b, (SBool, bool, np.bool_)) or (
        isinstance(b, SBool) and isinstance(a, (bool, np.bool_))
    ):
        if op == "==":
            return mk_bool(z3.simplify(to_b(a) == to_b(b)))
        if op == "!=":
            return mk_bool(z3.simplify(to_b(a) != to_b(b)))
    x, y = to_z(a), to_z(b)
    if x.eq(y):
        return op in ("<=", ">=", "==")
    e = {
        "<": lambda: x < y,
        "<=": lambda: x <= y,
        ">": lambda: x > y,
        ">=": lambda: x >= y,
        "==": lambda: x == y,
        "!=": lambda: x != y,
    }[op]()
    return mk_bool(z3.simplify(e) if const_like(x, y) else e)


def const_like(x, y):
    return const_of(x) is not None and const_of(y) is not None


def ite(c, a, b):
    """Value-level if-then-else."""
    if not isinstance(c, SBool):
        if isinstance(c, SReal):
            c = to_bool(c)
            if not isinstance(c, SBool):
                return a if c else b
        else:
            return a if bool(c) else b
    if a is b:
        return a
    bool_like = (SBool, bool, np.bool_)
    if isinstance(a, bool_like) and isinstance(b, bool_like):
        return mk_bool(z3.If(c.e, to_b(a), to_b(b)))
    if (not is_sym(a) and _special(a)) or (not is_sym(b) and _special(b)):
        return a if bool(c) else b
    ea, eb = to_z(a), to_z(b)
    if ea.eq(eb):
        return mk_real(ea)
    return mk_real(z3.If(c.e, ea, eb))


def s_min(a, b):
    if not is_sym(a) and not is_sym(b):
        return a if (a <= b or a != a) else b
    for p, q in ((a, b), (b, a)):
        if not is_sym(p):
            sp = _special(p)
            if sp == "+inf":
                return q
            if sp == "-inf":
                return p
            if sp == "nan":
                return p
    x, y = to_z(a), to_z(b)
    if x.eq(y):
        return a
    return mk_real(z3.If(x <= y, x, y))


def s_max(a, b):
    if not is_sym(a) and not is_sym(b):
        return a if (a >= b or a != a) else b
    for p, q in ((a, b), (b, a)):
        if not is_sym(p):
            sp = _special(p)
            if sp == "-inf":
                return q
            if sp == "+inf":
                return p
            if sp == "nan":
                return p
    x, y = to_z(a), to_z(b)
    if x.eq(y):
        return a
    return mk_real(z3.If(x >= y, x, y))


def s_and(a, b):
    if isinstance(a, SReal):
        a = to_bool(a)
    if isinstance(b, SReal):
        b = to_bool(b)
    if not is_sym(a):
        return b if bool(a) else False
    if not is_sym(b):
        return a if bool(b) else False
    return mk_bool(z3.And(a.e, b.e))


def s_or(a, b):
    if isinstance(a, SReal):
        a = to_bool(a)
    if isinstance(b, SReal):
        b = to_bool(b)
    if not is_sym(a):
        return True if bool(a) else b
    if not is_sym(b):
        return True if bool(b) else a
    return mk_bool(z3.Or(a.e, b.e))


def s_not(a):
    if isinstance(a, SReal):
        a = to_bool(a)
    if not is_sym(a):
        return not bool(a)
    return mk_bool(z3.Not(a.e))


def s_xor(a, b):
    if not is_sym(a) and not is_sym(b):
        return bool(a) != bool(b)
    return mk_bool(z3.Xor(to_b(a), to_b(b)))


def s_pow(a, p):
    if not is_sym(p):
        if not is_sym(a):
            with np.errstate(all="ignore"):
                return float(np.float64(a) ** np.float64(p))
        q = rat(p)
        if q.denominator == 1 and abs(q.numerator) <= 8:
            n = abs(q.numerator)
            if n == 0:
                return 1.0
            r = a
            for _ in range(n - 1):
                r = s_mul(r, a)
            return r if q > 0 else s_div(1.0, r)
        if q.denominator == 2 and abs(q.numerator) <= 7:
            return s_pow(s_sqrt(a), q.numerator)
        return cur().uf("pow", (to_z(a), rv(p)))
    if not is_sym(a):
        if a == 1:
            return 1.0
        if a > 0:
            return s_exp(s_mul(p, math.log(a)))
    return cur().uf("pow", (to_z(a), to_z(p)))


def s_sqrt(a):
    if not is_sym(a):
        with np.errstate(all="ignore"):
            return float(np.sqrt(np.float64(a)))
    return cur().sqrt(to_z(a))


def s_exp(a):
    if not is_sym(a):
        with np.errstate(all="ignore"):
            return float(np.exp(np.float64(a)))
    if cur().double_range:
        # the range of doubles: overflow to inf, underflow to zero (arguments next to the limits are left out)
        if s_cmp(a, 709.0, ">"):
            if s_cmp(a, 710.0, "<"):
                raise PathAbort("infeasible", "next to overflow")
            return INF
        if s_cmp(a, -708.0, "<"):
            if s_cmp(a, -746.0, ">"):
                raise PathAbort("infeasible", "next to underflow")
            return 0.0
    return mk_real(cur().exp(to_z(a)))


def s_log(a):
    if not is_sym(a):
        with np.errstate(all="ignore"):
            return float(np.log(np.float64(a)))
    return cur().log(to_z(a))


def s_uf(name, pyf):
    def f(a):
        if not is_sym(a):
            return float(pyf(a))
        return cur().uf(name, (to_z(a),))

    return f


s_sin = s_uf("sin", np.sin)
s_cos = s_uf("cos", np.cos)
s_tan = s_uf("tan", np.tan)
s_erf = s_uf("erf", lambda x: math.erf(x))


def s_tanh(a):
    if not is_sym(a):
        return float(np.tanh(a))
    t = s_exp(s_mul(2.0, a))
    return s_div(s_sub(t, 1.0), s_add(t, 1.0))


def s_floor(a):
    if not is_sym(a):
        return float(np.floor(a))
    return mk_real(z3.ToReal(z3.ToInt(to_z(a))))


def s_ceil(a):
    if not is_sym(a):
        return float(np.ceil(a))
    return mk_real(-z3.ToReal(z3.ToInt(-to_z(a))))


def s_trunc(a):
    if not is_sym(a):
        return float(np.trunc(a))
    e = to_z(a)
    fl = z3.ToReal(z3.ToInt(e))
    ce = -z3.ToReal(z3.ToInt(-e))
    return mk_real(z3.If(e >= 0, fl, ce))


def concrete_int(a, limit=24):
    """int(a): splits the path on the possible values of a bounded number."""
    e = to_z(a)
    if e.sort() == z3.BoolSort():
        return 1 if decide(e) else 0
    if decide(z3.And(e > -1, e < 1)):
        return 0
    up = decide(e >= 1)
    for v in range(1, limit):
        if decide(e < v + 1 if up else e > -v - 1):
            return v if up else -v
    raise Unsupported("int() of an unbounded symbolic value")


class SReal(Sym):
    __slots__ = ()

    # isinstance(x, float) holds, as for the floats the value stands for
    __class__ = property(lambda self: float)

    @property
    def dtype(self):
        return np.dtype(float)

    def __bool__(self):
        return decide(self.e != 0)

    def __add__(self, o):
        return NotImplemented if _arr(o) else s_add(self, o)

    def __radd__(self, o):
        return NotImplemented if _arr(o) else s_add(o, self)

    def __sub__(self, o):
        return NotImplemented if _arr(o) else s_sub(self, o)

    def __rsub__(self, o):
        return NotImplemented if _arr(o) else s_sub(o, self)

    def __mul__(self, o):
        return NotImplemented if _arr(o) else s_mul(self, o)

    def __rmul__(self, o):
        return NotImplemented if _arr(o) else s_mul(o, self)

    def __truediv__(self, o):
        return NotImplemented if _arr(o) else s_div(self, o)

    def __rtruediv__(self, o):
        return NotImplemented if _arr(o) else s_div(o, self)

    def __floordiv__(self, o):
        return NotImplemented if _arr(o) else s_floor(s_div(self, o))

    def __rfloordiv__(self, o):
        return NotImplemented if _arr(o) else s_floor(s_div(o, self))

    def __pow__(self, o):
        return NotImplemented if _arr(o) else s_pow(self, o)

    def __rpow__(self, o):
        return NotImplemented if _arr(o) else s_pow(o, self)

    def __neg__(self):
        return s_neg(self)

    def __pos__(self):
        return self

    def __abs__(self):
        return s_abs(self)

    def __lt__(self, o):
        return NotImplemented if _arr(o) else s_cmp(self, o, "<")

    def __le__(self, o):
        return NotImplemented if _arr(o) else s_cmp(self, o, "<=")

    def __gt__(self, o):
        return NotImplemented if _arr(o) else s_cmp(self, o, ">")

    def __ge__(self, o):
        return NotImplemented if _arr(o) else s_cmp(self, o, ">=")

    def __eq__(self, o):
        return NotImplemented if _arr(o) else s_cmp(self, o, "==")

    def __ne__(self, o):
        return NotImplemented if _arr(o) else s_cmp(self, o, "!=")

    __hash__ = Sym.__hash__

    def sqrt(self):
        return s_sqrt(self)

    def exp(self):
        return s_exp(self)

    def log(self):
        return s_log(self)

    def conjugate(self):
        return self

    def __round__(self, n=None):
        from . import array

        r = array._round(self, n or 0)
        return r if n is not None else int(r)

    def is_integer(self):
        raise Unsupported("is_integer")


class SInt(SReal):
    """An integer: split into its values only where a concrete one is needed (sizes, indices)."""

    __slots__ = ()
    __class__ = property(lambda self: int)

    @property
    def dtype(self):
        return np.dtype(int)

    def __index__(self):
        return concrete_int(self)

    def __float__(self):
        return float(concrete_int(self))

    def _int(self, o, f, swap=False):
        if _arr(o):
            return NotImplemented
        r = f(o, self) if swap else f(self, o)
        if isinstance(o, (int, np.integer)) and type(r) is SReal:  # an SInt counts as an int
            return SInt(r.e)
        return r

    def __add__(self, o):
        return self._int(o, s_add)

    def __radd__(self, o):
        return self._int(o, s_add, True)

    def __sub__(self, o):
        return self._int(o, s_sub)

    def __rsub__(self, o):
        return self._int(o, s_sub, True)

    def __mul__(self, o):
        return self._int(o, s_mul)

    def __rmul__(self, o):
        return self._int(o, s_mul, True)

    def __neg__(self):
        return SInt(s_neg(self).e)


class SBool(Sym):
    __slots__ = ()

    @property
    def dtype(self):
        return np.dtype(bool)

    def __bool__(self):
        return decide(self.e)

    def __and__(self, o):
        return NotImplemented if _arr(o) else s_and(self, o)

    __rand__ = __and__

    def __or__(self, o):
        return NotImplemented if _arr(o) else s_or(self, o)

    __ror__ = __or__

    def __xor__(self, o):
        return NotImplemented if _arr(o) else s_xor(self, o)

    __rxor__ = __xor__

    def __invert__(self):
        return s_not(self)

    def __add__(self, o):
        return NotImplemented if _arr(o) else s_add(self, o)

    def __radd__(self, o):
        return NotImplemented if _arr(o) else s_add(o, self)

    def __sub__(self, o):
        return NotImplemented if _arr(o) else s_sub(self, o)

    def __rsub__(self, o):
        return NotImplemented if _arr(o) else s_sub(o, self)

    def __mul__(self, o):
        return NotImplemented if _arr(o) else s_mul(self, o)

    def __rmul__(self, o):
        return NotImplemented if _arr(o) else s_mul(o, self)

    def __truediv__(self, o):
        return NotImplemented if _arr(o) else s_div(self, o)

    def __rtruediv__(self, o):
        return NotImplemented if _arr(o) else s_div(o, self)

    def __lt__(self, o):
        return NotImplemented if _arr(o) else s_cmp(self, o, "<")

    def __le__(self, o):
        return NotImplemented if _arr(o) else s_cmp(self, o, "<=")

    def __gt__(self, o):
        return NotImplemented if _arr(o) else s_cmp(self, o, ">")

    def __ge__(self, o):
        return NotImplemented if _arr(o) else s_cmp(self, o, ">=")

    def __eq__(self, o):
        return NotImplemented if _arr(o) else s_cmp(self, o, "==")

    def __ne__(self, o):
        return NotImplemented if _arr(o) else s_cmp(self, o, "!=")

    __hash__ = Sym.__hash__

    def __int__(self):
        return 1 if decide(self.e) else 0

    __index__ = __int__


# --------------------------------------------------------------------------
# solver access and path exploration
# --------------------------------------------------------------------------


class Stats:
    def __init__(self):
        self.queries = 0
        self.solver_s = 0.0
        self.unknown = 0


_LIN = {}


def is_linear(e):
    """No product, quotient or function application of variables."""
    k = e.get_id()
    hit = _LIN.get(k)
    if hit is not None and hit[0].eq(e):
        return hit[1]
    r = True
    if z3.is_app(e):
        dk = e.decl().kind()
        if dk == z3.Z3_OP_MUL:
            r = sum(1 for c in e.children() if const_of(c) is None) <= 1
        elif dk == z3.Z3_OP_DIV:
            r = const_of(e.arg(1)) is not None
        elif dk in (z3.Z3_OP_POWER, z3.Z3_OP_IDIV, z3.Z3_OP_MOD):
            r = False
        elif dk == z3.Z3_OP_UNINTERPRETED and e.num_args():
            r = False
        r = r and all(is_linear(c) for c in e.children())
    _LIN[k] = (e, r)
    return r


class Path:
    """State of one symbolic execution path."""

    def __init__(self, prefix, stats, query_timeout_ms, max_decisions=4000):
        self.prefix = list(prefix)
        self.trace = []  # decisions taken (value, alternative feasible)
        self.pc = []  # path condition (decisions)
        self.assumptions = []  # declared preconditions and stub contracts
        self.side = []  # definitional axioms of uninterpreted functions
        self.stats = stats
        self.timeout = query_timeout_ms
        self.ufs = {}  # name -> list[(args, var)]
        self.uf_cache = {}
        self.signs = {}  # ast id -> (expr, sign)
        self.fresh_n = 0
        self.decide_cache = {}
        self.max_decisions = max_decisions
        self.exp_cache = {}
        self.normaliser = None
        self.double_range = False
        self.exp_signs = {}
        self.log_of = {}
        self.nz_cache = {}
        self.deadline = None
        self.known_pos = []

    # -- solver ---------------------------------------------------------
    def constraints(self):
        return self.assumptions + self.side + self.pc

    def query(self, extra, timeout=None):
        """'sat' | 'unsat' | 'unknown' for constraints ∧ extra (list)."""
        return solve(
            self.constraints() + list(extra), self.stats, timeout or self.timeout
        )

    def lin_infeasible(self, e):
        """e contradicts the linear constraints alone (cheap)."""
        r, _ = solve([c for c in self.constraints() if is_linear(c)] + [e], self.stats, 1500)
        return r == "unsat"

    def feasible(self, e):
        r, _ = self.query([e], timeout=min(self.timeout, 5000))
        return r != "unsat"

    def decide(self, e):
        e = z3.simplify(e)
        if z3.is_true(e):
            return True
        if z3.is_false(e):
            return False
        if self.deadline and time.time() > self.deadline:
            raise PathAbort("time", "harness time limit")
        key = e.get_id()
        hit = self.decide_cache.get(key)
        if hit is not None:
            return hit[1]
        i = len(self.trace)
        if i >= self.max_decisions:
            raise PathAbort("bound", "too many decisions on a path")
        if i < len(self.prefix):
            val, alt = self.prefix[i]
        else:
            lin = is_linear(e)
            hard = not lin or not all(is_linear(c) for c in self.constraints())
            if hard and lin and self.lin_infeasible(e):
                t, f = False, True
            elif hard and lin and self.lin_infeasible(z3.Not(e)):
                t, f = True, False
            else:
                t = self.feasible(e)
                f = self.feasible(z3.Not(e)) if t else True
                if not t and not hard and not self.feasible(z3.Not(e)):
                    raise PathAbort("infeasible", "contradictory path condition")
            val, alt = (True, f) if t else (False, False)
        self.trace.append((val, alt))
        c = e if val else z3.Not(e)
        self.pc.append(c)
        self.decide_cache[key] = (e, val)
        ne = z3.simplify(z3.Not(e))
        self.decide_cache[ne.get_id()] = (ne, not val)
        return val

    def choose(self, k):
        """Fork over k alternatives (a bounded symbolic index)."""
        for j in range(k - 1):
            i = len(self.trace)
            if i < len(self.prefix):
                val, alt = self.prefix[i]
            else:
                val, alt = True, True
            self.trace.append((val, alt))
            if val:
                return j
        return k - 1

    def fresh(self, name, mk=z3.Real):
        self.fresh_n += 1
        return mk(f"{name}!{self.fresh_n}")

    # -- sign analysis ----------------------------------------------------
    def set_sign(self, e, s):
        self.signs[e.get_id()] = (e, s)

    def sign(self, e, depth=0):
        """'pos', 'nonneg', 'neg', 'nonpos' or None (syntactic, sound)."""
        k = e.get_id()
        if k in self.signs:
            return self.signs[k][1]
        c = const_of(e)
        if c is not None:
            return "pos" if c > 0 else ("neg" if c < 0 else "nonneg")
        r = None
        if depth < 400 and z3.is_app(e):
            kind = e.decl().kind()
            ch = e.children()
            if kind == z3.Z3_OP_ADD:
                s = [self.sign(x, depth + 1) for x in ch]
                if all(x in ("pos", "nonneg") for x in s):
                    r = "pos" if "pos" in s else "nonneg"
                elif all(x in ("neg", "nonpos") for x in s):
                    r = "neg" if "neg" in s else "nonpos"
            elif kind in (z3.Z3_OP_MUL, z3.Z3_OP_DIV):
                if kind == z3.Z3_OP_MUL and len(ch) == 2 and ch[0].eq(ch[1]):
                    s0 = self.sign(ch[0], depth + 1)
                    r = "pos" if s0 in ("pos", "neg") else "nonneg"
                else:
                    s = [self.sign(x, depth + 1) for x in ch]
                    if None not in s:
                        neg = sum(x in ("neg", "nonpos") for x in s) % 2
                        strict = all(x in ("pos", "neg") for x in s)
                        r = (
                            ("neg" if strict else "nonpos")
                            if neg
                            else ("pos" if strict else "nonneg")
                        )
            elif kind == z3.Z3_OP_UMINUS:
                s = self.sign(ch[0], depth + 1)
                r = {"pos": "neg", "neg": "pos", "nonneg": "nonpos", "nonpos": "nonneg"}.get(s)
            elif kind == z3.Z3_OP_SUB and len(ch) == 2:
                a, b = self.sign(ch[0], depth + 1), self.sign(ch[1], depth + 1)
                if a in ("pos", "nonneg") and b in ("neg", "nonpos"):
                    r = "pos" if "pos" == a or "neg" == b else "nonneg"
            elif kind == z3.Z3_OP_ITE:
                a, b = self.sign(ch[1], depth + 1), self.sign(ch[2], depth + 1)
                if a == b:
                    r = a
                elif {a, b} <= {"pos", "nonneg"}:
                    r = "nonneg"
                elif {a, b} <= {"neg", "nonpos"}:
                    r = "nonpos"
        self.signs[k] = (e, r)
        return r

    def nonzero(self, e):
        if self.sign(e) in ("pos", "neg"):
            return True
        if self.known_pos:
            from . import norm

            for kp in self.known_pos:
                n = norm.numerator(e - kp)
                if n is not None and const_of(n) == 0:
                    self.signs[e.get_id()] = (e, "pos")
                    return True
        return False

    def note_positive(self, c):
        """Remembers the term of an assumption of the form t > 0."""
        t = None
        neg = z3.is_not(c)
        c0 = c.arg(0) if neg else c
        if (z3.is_le(c0) if neg else z3.is_gt(c0)) and const_of(c0.arg(1)) == 0:
            t = c0.arg(0)
        elif (z3.is_ge(c0) if neg else z3.is_lt(c0)) and const_of(c0.arg(0)) == 0:
            t = c0.arg(1)
        if t is not None:
            self.known_pos.append(t)
            self.signs[t.get_id()] = (t, "pos")

    # -- uninterpreted functions -----------------------------------------
    def uf(self, name, args):
        args = tuple(z3.simplify(a) for a in args)
        key = (name,) + tuple(a.get_id() for a in args)
        if key in self.uf_cache:
            return SReal(self.uf_cache[key][1])
        # the same argument, written differently
        nkey = (name,) + tuple(self.normal_key(a) for a in args)
        if nkey in self.uf_cache:
            self.uf_cache[key] = self.uf_cache[nkey]
            return SReal(self.uf_cache[nkey][1])
        v = self.fresh(name)
        apps = self.ufs.setdefault(name, [])
        for args2, v2 in apps:
            self.side.append(
                z3.Implies(z3.And([a == b for a, b in zip(args, args2)]), v == v2)
            )
            if name == "log":
                self.side.append((args[0] < args2[0]) == (v < v2))
        if name in ("sin", "cos"):
            self.side.append(z3.And(v >= -1, v <= 1))
            if name == "cos":  # even function
                for args2, v2 in apps:
                    self.side.append(z3.Implies(args[0] == -args2[0], v == v2))
        if name == "log":
            self.side.append((args[0] < 1) == (v < 0))
            self.side.append((args[0] == 1) == (v == 0))
        if name == "pow":
            self.side.append(z3.Implies(args[0] > 0, v > 0))
            self.side.append(z3.Implies(args[0] >= 0, v >= 0))
        apps.append((args, v))
        self.uf_cache[key] = self.uf_cache[nkey] = (args, v)
        return SReal(v)

    def normal_key(self, e):
        from .norm import Norm, TooBig

        if self.normaliser is None:
            self.normaliser = Norm()
        try:
            p, d = self.normaliser.frac(e)
        except (TooBig, RecursionError):
            return ("id", e.get_id())
        return (frozenset(p.items()), frozenset(d.items()))

    def sqrt(self, e):
        e = z3.simplify(e)
        c = const_of(e)
        if c is not None:
            return math.sqrt(float(c))
        key = ("sqrt", self.normal_key(e))
        if key in self.uf_cache:
            return SReal(self.uf_cache[key][1])
        sg = self.sign(e)
        if sg not in ("pos", "nonneg"):
            if not self.decide(e >= 0):
                return float("nan")
        v = self.fresh("sqrt")
        self.side.append(z3.And(v >= 0, v * v == e))
        self.set_sign(v, "pos" if sg == "pos" else "nonneg")
        self.uf_cache[key] = ((e,), v)
        return SReal(v)

    def log(self, e):
        e = z3.simplify(e)
        c = const_of(e)
        if c is not None:
            return math.log(float(c))
        for t, v in self.exp_cache.values():
            if v.eq(e):
                return mk_real(t)
        if self.sign(e) != "pos":
            if not self.decide(e > 0):
                return -INF if self.decide(e == 0) else float("nan")
        r = self.uf("log", (e,))
        self.log_of[r.e.get_id()] = (r.e, e)
        return r

    def exp(self, e, top=True):
        """exp with exp(a+b)=exp(a)exp(b), exp(-a)=1/exp(a), exp(if)=if exp."""
        c = const_of(e)
        if c is not None:
            return rv(math.exp(float(c)))
        if e.num_args() > 0 and e.decl().kind() != z3.Z3_OP_ITE:
            from .norm import first_ite

            if first_ite(e) is None:  # one factor for each monomial
                r = self.exp_monomials(e)
                if r is not None:
                    return r
                e = z3.simplify(e, som=True)
                c = const_of(e)
                if c is not None:
                    return rv(math.exp(float(c)))
                top = False
        kind = e.decl().kind()
        ch = e.children()
        if kind == z3.Z3_OP_ADD:
            r = self.exp(ch[0], False)
            for x in ch[1:]:
                r = r * self.exp(x, False)
            return r
        if kind == z3.Z3_OP_SUB:
            r = self.exp(ch[0], False)
            for x in ch[1:]:
                r = r / self.exp(x, False)
            return r
        if kind == z3.Z3_OP_UMINUS:
            return z3.RealVal(1) / self.exp(ch[0], True)
        if kind == z3.Z3_OP_ITE:
            a, b = self.exp(ch[1], True), self.exp(ch[2], True)
            for x, v, y in ((ch[1], a, ch[2]), (ch[2], b, ch[1])):
                # min(x, 0), |x|: sign of x against the value of exp(x)
                if const_of(x) is None and v.num_args() > 0:
                    if const_of(y) == 0 or const_of(z3.simplify(x + y, som=True)) == 0:
                        key = ("sign", x.get_id())
                        if key not in self.exp_signs:
                            self.exp_signs[key] = x
                            self.side.append((x > 0) == (v > 1))
                            self.side.append((x == 0) == (v == 1))
            return z3.If(ch[0], a, b)
        if kind in (z3.Z3_OP_MUL, z3.Z3_OP_DIV):
            if kind == z3.Z3_OP_DIV:
                k = const_of(ch[1])
                k = None if k is None else 1 / k
                body = ch[0]
            else:
                ks = [const_of(x) for x in ch]
                k, body = None, None
                rest = [x for x, kk in zip(ch, ks) if kk is None]
                if rest and len(rest) < len(ch):
                    k = Fraction(1)
                    for kk in ks:
                        k = k if kk is None else k * kk
                    body = rest[0] if len(rest) == 1 else z3.simplify(z3.Product(rest))
            if k is not None:
                bk = body.decl().kind()
                if bk in (z3.Z3_OP_ADD, z3.Z3_OP_SUB, z3.Z3_OP_UMINUS):
                    parts = [z3.RealVal(str(k)) * x for x in body.children()]
                    if bk == z3.Z3_OP_ADD:
                        return self.exp(z3.Sum(parts) if len(parts) > 1 else parts[0], False)
                    if bk == z3.Z3_OP_UMINUS:
                        return z3.RealVal(1) / self.exp(parts[0], False)
                    return self.exp(parts[0] - z3.Sum(parts[1:]), False)
                if bk == z3.Z3_OP_ITE:
                    b = body.children()
                    kk = z3.RealVal(str(k))
                    return z3.If(b[0], self.exp(kk * b[1], True), self.exp(kk * b[2], True))
                if bk in (z3.Z3_OP_MUL,) and any(
                    const_of(x) is not None for x in body.children()
                ):
                    b = body.children()
                    kc = [x for x in b if const_of(x) is not None][0]
                    rest = [x for x in b if const_of(x) is None]
                    if len(b) == 2:
                        return self.exp(
                            z3.RealVal(str(k * const_of(kc))) * rest[0], False
                        )
                if k < 0:
                    return z3.RealVal(1) / self.exp(z3.RealVal(str(-k)) * body, False)
                if k == 1:
                    return self.exp(body, False)
                if k.denominator == 1 and k.numerator <= 6:
                    a = self.exp(body, False)
                    r = a
                    for _ in range(k.numerator - 1):
                        r = r * a
                    return r
            # product containing a sum/ite: distribute once via normal form
            if top:
                s = z3.simplify(e, som=True)
                if not s.eq(e):
                    return self.exp(s, False)
        s = z3.simplify(e, som=True)
        if not s.eq(e) and s.decl().kind() in (
            z3.Z3_OP_ADD,
            z3.Z3_OP_SUB,
            z3.Z3_OP_UMINUS,
        ):
            return self.exp(s, False)
        return self.exp_leaf(s)

    def exp_monomials(self, e):
        """exp of a quotient of polynomials, as a product over its monomials."""
        from .norm import Norm, TooBig

        if self.normaliser is None:
            self.normaliser = Norm()
        nm = self.normaliser
        try:
            p, d = nm.frac(e)
        except (TooBig, RecursionError):
            return None
        if len(p) > 60:
            return None
        den = None
        for f, k in sorted(d.items(), key=str):
            t = nm.poly_expr(dict(f))
            for _ in range(k):
                den = t if den is None else den * t
        up, down = [], []
        for m, c in sorted(p.items()):
            if m == () and den is None:
                up.append(rv(math.exp(float(c))))
                continue
            a = abs(c)
            out = up if c > 0 else down
            reps = a.numerator if a.denominator == 1 and a.numerator <= 6 else 0
            t = nm.poly_expr({m: Fraction(1) if reps else a})
            v = self.exp_leaf(z3.simplify(t if den is None else t / den, som=True))
            out.extend([v] * (reps or 1))
        r = up[0] if up else z3.RealVal(1)
        for v in up[1:]:
            r = r * v
        if down:
            q = down[0]
            for v in down[1:]:
                q = q * v
            r = r / q
        return r

    def exp_leaf(self, s):
        key = s.get_id()
        if key in self.log_of:
            return self.log_of[key][1]
        if key not in self.exp_cache:
            v = self.fresh("exp")
            self.side.append(v > 0)
            self.side.append((s > 0) == (v > 1))
            self.side.append((s == 0) == (v == 1))
            for t2, v2 in self.exp_cache.values():
                self.side.append((s < t2) == (v < v2))
                self.side.append((s == t2) == (v == v2))
            self.set_sign(v, "pos")
            self.exp_cache[key] = (s, v)
        return self.exp_cache[key][1]


class Purifier:
    """Replaces x / y (y nonzero on the path) by q with q * y = x."""

    def __init__(self):
        self.memo = {}
        self.keep = []

    def run(self, e, defs):
        i = e.get_id()
        hit = self.memo.get(i)
        if hit is not None:
            defs.update(hit[1])
            return hit[0]
        mine = {}
        if not z3.is_app(e) or e.num_args() == 0:
            r = e
        else:
            ch = [self.run(c, mine) for c in e.children()]
            if e.decl().kind() == z3.Z3_OP_DIV and const_of(ch[1]) is None:
                q = z3.Real(f"quot!{i}")
                mine[f"quot!{i}"] = q * ch[1] == ch[0]
                r = q
            elif all(a is b or a.eq(b) for a, b in zip(ch, e.children())):
                r = e
            else:
                r = rebuild(e, ch)
        self.keep.append(e)
        self.memo[i] = (r, mine)
        defs.update(mine)
        return r


def rebuild(e, ch):
    k = e.decl().kind()
    if k == z3.Z3_OP_ADD:
        return z3.Sum(ch)
    if k == z3.Z3_OP_MUL:
        r = ch[0]
        for x in ch[1:]:
            r = r * x
        return r
    if k == z3.Z3_OP_AND:
        return z3.And(ch)
    if k == z3.Z3_OP_OR:
        return z3.Or(ch)
    return e.decl()(*ch)


_PURE = [Purifier()]


def purify(cons):
    defs = {}
    p = _PURE[0]
    out = [p.run(c, defs) for c in cons]
    return out + list(defs.values())


def _has_int(cons):
    seen = set()
    stack = list(cons)
    while stack:
        x = stack.pop()
        i = x.get_id()
        if i in seen:
            continue
        seen.add(i)
        if z3.is_int(x):
            return True
        stack.extend(x.children())
    return False


def solve(cons, stats, timeout_ms):
    """('sat', model) | ('unsat', None) | ('unknown', None)"""
    t0 = time.time()
    cons = purify([c for c in cons if not z3.is_true(c)])
    plans = [("smt", 0.3), ("nlsat", 0.5), ("smt2", 0.2)]
    if _has_int(cons):
        plans = [("smt", 1.0)]
    res = ("unknown", None)
    for kind, share in plans:
        if kind == "nlsat":
            s = z3.Tactic("qfnra-nlsat").solver()
        else:
            s = z3.Solver()
            if kind == "smt2":
                s.set("random_seed", 7)
        s.set("timeout", max(50, int(timeout_ms * share)))
        s.add(cons)
        stats.queries += 1
        try:
            r = s.check()
        except z3.Z3Exception:
            continue
        if r == z3.sat:
            res = ("sat", s.model())
            break
        if r == z3.unsat:
            res = ("unsat", None)
            break
    if res[0] == "unknown":
        stats.unknown += 1
    stats.solver_s += time.time() - t0
    return res


_CUR = [None]


def cur():
    p = _CUR[0]
    if p is None:
        raise Unsupported("no active symbolic path")
    return p


def set_cur(p):
    _CUR[0] = p


def decide(e):
    return cur().decide(e)


def active():
    return _CUR[0] is not None
