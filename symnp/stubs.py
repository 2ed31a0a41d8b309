"""Environment stubs: randomness and other nondeterminism.

Every draw is an arbitrary value allowed by the documented contract of the
generator; two generators created from the same seed return the same stream.
"""
import builtins
import math

import numpy as np

from . import array as A
from . import core
from .core import is_sym


def _shape(size):
    if size is None:
        return None
    if isinstance(size, (int, np.integer)):
        return (int(size),)
    return tuple(int(s) for s in size)


class Rng:
    """Stub of numpy.random.RandomState."""

    def __init__(self, ctx, key):
        self._ctx = ctx
        self._key = key
        self._n = 0

    def __deepcopy__(self, memo):
        r = Rng(self._ctx, self._key)
        r._n = self._n
        return r

    def _name(self, kind):
        self._n += 1
        self._last = f"{self._key}.{kind}{self._n}"
        return self._last

    def _log(self, kind, args, res):
        self._ctx.calls.append((self._key, kind, args, res, self._last))
        return res

    def _reals(self, kind, size, **k):
        shp = _shape(size)
        name = self._name(kind)
        if getattr(self._ctx, "fixed_draws", False):
            # irrelevant draws of a construction: any fixed values
            m = int(np.prod(shp)) if shp is not None else 1
            if self._ctx.fixed_draws == "fine":
                v = np.array([((7919 * i + 389 * self._n) % 1009 + 0.37) / 1010 for i in range(m)])
            else:
                v = np.array([0.15 + 0.7 * ((7 * i + 3 * self._n) % 11) / 11 for i in range(m)])
            return float(v[0]) if shp is None else self._ctx.arr(v.reshape(shp))
        if shp is None:
            return self._ctx.real(name, **k)
        return self._ctx.reals(name, shp, **k)

    # -- continuous ---------------------------------------------------------
    def random_sample(self, size=None):
        r = self._reals("u", size, lo=0, hi=1, hi_open=True)
        return self._log("random", (size,), r)

    random = ranf = sample = random_sample

    def rand(self, *shape):
        return self.random_sample(shape if shape else None)

    def uniform(self, low=0.0, high=1.0, size=None):
        if size is None:
            shp = np.broadcast_shapes(np.shape(low), np.shape(high))
            size = shp if shp else None
        u = self._reals("u", size, lo=0, hi=1, hi_open=True)
        r = u * (high - low) + low
        return self._log("uniform", (low, high, size), r)

    def standard_normal(self, size=None):
        r = self._reals("z", size, nice=(-2, 2))
        return self._log("normal", (0.0, 1.0, size), r)

    def randn(self, *shape):
        return self.standard_normal(shape if shape else None)

    def normal(self, loc=0.0, scale=1.0, size=None):
        if size is None:
            shp = np.broadcast_shapes(np.shape(loc), np.shape(scale))
            size = shp if shp else None
        z = self._reals("z", size, nice=(-2, 2))
        r = z * scale + loc
        return self._log("normal", (loc, scale, size), r)

    def gumbel(self, loc=0.0, scale=1.0, size=None):
        g = self._reals("g", size, nice=(-2, 2))
        r = g * scale + loc
        return self._log("gumbel", (loc, scale, size), r)

    def exponential(self, scale=1.0, size=None):
        g = self._reals("e", size, lo=0, nice=(0, 3))
        r = g * scale
        return self._log("exponential", (scale, size), r)

    def beta(self, a, b, size=None):
        if size is None:
            shp = np.broadcast_shapes(np.shape(a), np.shape(b))
            size = shp if shp else None
        r = self._reals("b", size, lo=0, hi=1, lo_open=True, hi_open=True)
        return self._log("beta", (a, b, size), r)

    def gamma(self, shape, scale=1.0, size=None):
        if size is None:
            shp = np.broadcast_shapes(np.shape(shape), np.shape(scale))
            size = shp if shp else None
        g = self._reals("ga", size, lo=0, lo_open=True, nice=(0.1, 3))
        return self._log("gamma", (shape, scale, size), g * scale)

    def dirichlet(self, alpha, size=None):
        k = len(np.ravel(A._to_obj(alpha)))
        shp = () if size is None else _shape(size)
        r = self._ctx.simplex(self._name("dir"), shp + (k,), positive=True)
        return self._log("dirichlet", (alpha, size), r)

    def multivariate_normal(self, mean, cov, size=None, **k):
        d = np.shape(mean)[0]
        shp = (d,) if size is None else _shape(size) + (d,)
        r = self._reals("mv", shp, nice=(-2, 2))
        return self._log("multivariate_normal", (mean, cov, size), r)

    # -- discrete -----------------------------------------------------------
    def binomial(self, n, p, size=None):
        if size is None:
            shp = np.broadcast_shapes(np.shape(n), np.shape(p))
        else:
            shp = _shape(size)
        name = self._name("bin")
        if not np.all(np.asarray(n) == 1):
            raise core.Unsupported("binomial with n != 1")
        pp = np.broadcast_to(A._to_obj(p), shp)
        out = np.empty(shp, dtype=object)
        ctx = self._ctx
        for q in np.ndindex(shp):
            out[q] = ctx.bernoulli(f"{name}{list(q)}", pp[q])
        if shp == ():
            r = out.item()
        elif ctx.sym:
            r = A.sa(out)
        else:
            r = out.astype(int)
        return self._log("binomial", (n, p, size), r)

    def choice(self, a, size=None, replace=True, p=None):
        arr = None if isinstance(a, (int, np.integer)) else (a if isinstance(a, np.ndarray) else A.build(a))
        n = int(a) if arr is None else len(arr)
        if n == 0:
            raise ValueError("a must be non-empty")
        name = self._name("c")
        shp = _shape(size)
        m = 1 if shp is None else int(np.prod(shp))
        if p is not None and len(np.ravel(A._to_obj(p))) != n:
            raise ValueError("a and p must have same size")
        if not replace and m > n:
            raise ValueError("Cannot take a larger sample than population")
        picked = []
        ctx = self._ctx
        fixed = getattr(ctx, "fixed_choices", False)
        for i in range(m):
            if fixed and replace:
                # one arbitrary but fixed sequence of draws (large samples)
                picked.append((i * i * 31 + i * 17 + self._n * 101 + len(ctx.draws) * 7) % 1000003 % n)
                continue
            avail = [k for k in range(n) if replace or k not in picked]
            if fixed:
                c = avail[(i * 31 + self._n * 101) % len(avail)]
            else:
                c = avail[ctx.choice(f"{name}[{i}]", len(avail))]
            if p is not None:
                ctx.assume(A._to_obj(p).ravel()[c] > 0)
            picked.append(c)
        ctx.draws.extend(picked)
        idx = picked[0] if shp is None else np.array(picked).reshape(shp)
        r = idx if arr is None else arr[idx]
        return self._log("choice", (a, size, replace, p), r)

    def randint(self, low, high=None, size=None, dtype=int):
        if high is None:
            low, high = 0, low
        name = self._name("i")
        shp = _shape(size)
        m = 1 if shp is None else int(np.prod(shp))
        if getattr(self._ctx, "fixed_choices", False):
            v = [int(low) + (i * i * 31 + i * 17 + self._n * 101 + len(self._ctx.draws) * 7) % 1000003 % (int(high) - int(low)) for i in range(m)]
        else:
            v = [int(low) + self._ctx.choice(f"{name}[{i}]", int(high) - int(low)) for i in range(m)]
        self._ctx.draws.extend(v)
        r = v[0] if shp is None else np.array(v).reshape(shp)
        return self._log("randint", (low, high, size), r)

    integers = randint

    def permutation(self, x):
        arr = np.arange(x) if isinstance(x, (int, np.integer)) else x
        n = len(arr)
        idx = self.choice(n, size=n, replace=False)
        return arr[idx]

    def shuffle(self, x):
        x[...] = self.permutation(x.copy())


class RandomModule:
    """numpy.random"""

    def __init__(self, ctx):
        self._ctx = ctx
        self._global = None

    def RandomState(self, seed=None):
        return make_rng(self._ctx, seed)

    default_rng = RandomState

    def seed(self, s=None):
        self._global = make_rng(self._ctx, s)

    def __getattr__(self, name):
        if name in ("Generator", "mtrand", "SeedSequence"):
            return getattr(np.random, name)
        if self.__dict__.get("_global") is None:
            self.__dict__["_global"] = Rng(self._ctx, "global")
        return getattr(self._global, name)


def make_rng(ctx, seed):
    if isinstance(seed, Rng):
        return seed
    if isinstance(seed, np.random.RandomState):
        return seed
    if seed is not None and not isinstance(seed, (int, np.integer)):
        raise ValueError(f"{seed!r} cannot be used to seed a RandomState instance")
    if seed is None:
        ctx.n_rng += 1
        return Rng(ctx, f"rng_{ctx.n_rng}")
    return Rng(ctx, f"seed{int(seed)}")


class Truncnorm:
    """scipy.stats.truncnorm: rvs within the bounds; moments as contracts."""

    def __init__(self, ctx):
        self._ctx = ctx

    def rvs(self, a, b, loc=0, scale=1, size=None, random_state=None):
        ctx = self._ctx
        rng = make_rng(ctx, random_state)
        if size is None:
            shp = np.broadcast_shapes(
                *[np.shape(x) for x in (a, b, loc, scale)]
            )
        else:
            shp = _shape(size)
        name = rng._name("u")  # inverse-cdf sampling: one uniform per value
        u = ctx.reals(name, shp if shp else (1,), lo=0, hi=1, lo_open=True, hi_open=True)
        # quantile function: monotone, between the bounds
        lo = np.broadcast_to(A._to_obj(a * scale + loc), shp if shp else (1,))
        hi = np.broadcast_to(A._to_obj(b * scale + loc), shp if shp else (1,))
        out = np.empty(u.shape, dtype=object)
        for p in np.ndindex(u.shape):
            out[p] = _quantile(lo[p], hi[p], _to_obj_item(u, p))
        r = A.sa(out) if ctx.sym else out.astype(float)
        if not shp:
            r = r[0]
        ctx.calls.append((rng._key, "truncnorm", (a, b, loc, scale, size), r, name))
        return r

    def stats(self, a, b, loc=0, scale=1, moments="m"):
        ctx = self._ctx
        if not ctx.sym:
            from scipy.stats import truncnorm

            return truncnorm.stats(a=a, b=b, loc=loc, scale=scale, moments=moments)
        if moments != "m":
            raise core.Unsupported("truncnorm moments")
        args = np.broadcast_arrays(*[A._to_obj(x) for x in (a, b, loc, scale)])
        out = np.empty(args[0].shape, dtype=object)
        for p in np.ndindex(out.shape):
            out[p] = truncmean(ctx, *[x[p] for x in args])
        r = A.sa(out)
        return r if r.ndim else r.item()

    def mean(self, a, b, loc=0, scale=1):
        return self.stats(a, b, loc, scale, "m")

    def pdf(self, x, a, b, loc=0, scale=1):
        if not self._ctx.sym:
            from scipy.stats import truncnorm

            return truncnorm.pdf(x, a, b, loc=loc, scale=scale)
        args = np.broadcast_arrays(*[A._to_obj(v) for v in (x, a, b, loc, scale)])
        out = np.empty(args[0].shape, dtype=object)
        for p in np.ndindex(out.shape):
            out[p] = truncpdf(*[v[p] for v in args])
        r = A.sa(out)
        return r if r.ndim else r.item()


def _quantile(lo, hi, u):
    """A value of the open interval, one for each number u."""
    a, b = (v for v in (lo, hi))
    ia = not is_sym(a) and a == -INF
    ib = not is_sym(b) and b == INF
    if ia and ib:
        return 8.0 * u - 4.0
    if ia:
        return b - 8.0 * u
    if ib:
        return a + 8.0 * u
    return a + (b - a) * u


INF = float("inf")


def _ends(a):
    """An end of the support, with a tag when it is infinite."""
    if not is_sym(a) and a in (INF, -INF):
        return ("inf", 0.0)
    return ("", a)


def truncpdf(x, a, b, loc, scale):
    """Density of the truncated normal: uninterpreted, positive inside the bounds, zero outside."""
    if not any(is_sym(v) for v in (x, a, b, loc, scale)):
        from scipy.stats import truncnorm

        return float(truncnorm.pdf(x, a, b, loc=loc, scale=scale))
    z = core.s_div(core.s_sub(x, loc), scale)
    (ta, a_), (tb, b_) = _ends(a), _ends(b)
    p = core.cur()
    v = p.uf(f"truncpdf{ta}_{tb}", tuple(_canon(core.s_add(w, 0.0)) if is_sym(w) else core.to_z(w) for w in (z, a_, b_)))
    p.side.append(v.e >= 0)
    return core.s_div(v, scale)


class Uniform:
    """scipy.stats.uniform."""

    def __init__(self, ctx):
        self._ctx = ctx

    def rvs(self, loc=0, scale=1, size=None, random_state=None):
        ctx = self._ctx
        rng = make_rng(ctx, random_state)
        shp = np.broadcast_shapes(np.shape(loc), np.shape(scale)) if size is None else _shape(size)
        name = rng._name("u")
        u = ctx.reals(name, shp if shp else (1,), lo=0, hi=1, hi_open=True)
        r = loc + scale * u
        if not shp:
            r = r[0]
        ctx.calls.append((rng._key, "scipy-uniform", (loc, scale, size), r, name))
        return r

    def pdf(self, x, loc=0, scale=1):
        if not self._ctx.sym:
            from scipy.stats import uniform

            return uniform.pdf(x, loc=loc, scale=scale)
        args = np.broadcast_arrays(*[A._to_obj(v) for v in (x, loc, scale)])
        out = np.empty(args[0].shape, dtype=object)
        for p in np.ndindex(out.shape):
            v, lo, sc = (w[p] for w in args)
            inside = (v >= lo) & (v <= lo + sc)
            out[p] = core.s_div(core.ite(inside, 1.0, 0.0), sc)
        r = A.sa(out)
        return r if r.ndim else r.item()


def truncmean(ctx, a, b, loc, scale):
    """Mean of the truncated normal: an uninterpreted value between the bounds."""
    if not any(is_sym(x) for x in (a, b, loc, scale)):
        from scipy.stats import truncnorm

        return float(truncnorm.stats(a=a, b=b, loc=loc, scale=scale, moments="m"))
    p = core.cur()
    v = p.uf("truncmean", tuple(core.to_z(x) for x in (a, b, loc, scale)))
    lo, hi = core.s_add(core.s_mul(a, scale), loc), core.s_add(core.s_mul(b, scale), loc)
    p.side.append(v.e >= core.to_z(lo))
    p.side.append(v.e <= core.to_z(hi))
    return v


def _to_obj_item(u, p):
    return u.view(np.ndarray)[p] if isinstance(u, A.SymArray) else u[p]


class _TDist:
    def __init__(self, df):
        self.df = df

    def ppf(self, q):
        if not is_sym(q):
            from scipy import stats

            return float(stats.t(self.df).ppf(q))
        return core.cur().uf(f"tppf{self.df}", (core.to_z(q),))


class _TFamily:
    def __call__(self, df):
        return _TDist(df)

    def ppf(self, q, df):
        return _TDist(df).ppf(q)


class Norm:
    """scipy.stats.norm: density and distribution function as uninterpreted functions."""

    @staticmethod
    def _map(name, f, x, loc, scale):
        if isinstance(x, np.ndarray):
            o = A._to_obj(x)
            out = np.empty(o.shape, dtype=object)
            for p in np.ndindex(o.shape):
                out[p] = f(core.s_div(core.s_sub(o[p], loc), scale))
            return A.sa(out)
        return f(core.s_div(core.s_sub(x, loc), scale))

    @staticmethod
    def _real(name, z):
        from scipy.stats import norm

        return float(getattr(norm, name)(z))

    def _pdf(self, z):
        if not is_sym(z):
            return self._real("pdf", z)
        p = core.cur()
        v = p.uf("normpdf", (_canon(z * z),))
        p.side.append(v.e > 0)
        p.set_sign(v.e, "pos")
        return v

    def _cdf(self, z):
        if not is_sym(z):
            return self._real("cdf", z)
        p = core.cur()
        v = p.uf("normcdf", (_canon(z),))
        p.side.append(v.e > 0)
        p.side.append(v.e < 1)
        p.set_sign(v.e, "pos")
        return v

    def pdf(self, x, loc=0.0, scale=1.0):
        r = self._map("pdf", self._pdf, x, loc, scale)
        return r / scale

    def cdf(self, x, loc=0.0, scale=1.0):
        return self._map("cdf", self._cdf, x, loc, scale)

    def sf(self, x, loc=0.0, scale=1.0):
        return self._map("sf", lambda z: self._cdf(0.0 - z), x, loc, scale)

    def __getattr__(self, n):
        from scipy.stats import norm

        return getattr(norm, n)


def _canon(x):
    import z3

    return z3.simplify(core.to_z(x), som=True)


class StatsModule:
    """scipy.stats with symbolic quantiles of Student's t."""

    def __init__(self, ctx):
        self.truncnorm = Truncnorm(ctx)
        self.uniform = Uniform(ctx)
        if ctx.sym:
            self.t = _TFamily()
            self.norm = Norm()

    def __getattr__(self, n):
        from scipy import stats

        return getattr(stats, n)


def t_quantile(df, q):
    return _TDist(df).ppf(q)


def sp_softmax(x, axis=None):
    x = x if isinstance(x, np.ndarray) else A.build(x)
    m = np.max(x, axis=axis, keepdims=True)
    e = np.exp(x - m)
    return e / np.sum(e, axis=axis, keepdims=True)


def sp_logsumexp(x, axis=None, b=None, keepdims=False, **k):
    x = x if isinstance(x, np.ndarray) else A.build(x)
    e = np.exp(x)
    return np.log(np.sum(e if b is None else e * b, axis=axis, keepdims=keepdims))


def sp_logit(x):
    return np.log(x / (1.0 - x))


def sp_expit(x):
    return 1.0 / (1.0 + np.exp(-x))


class KFoldStub:
    """sklearn.model_selection.KFold: any partition into folds of the documented sizes."""

    ctx = None

    def __init__(self, n_splits=5, *, shuffle=False, random_state=None):
        if isinstance(n_splits, bool) or not isinstance(n_splits, (int, np.integer)) or n_splits < 2:
            raise ValueError("k-fold cross-validation requires at least one train/test split")
        if not shuffle and random_state is not None:
            raise ValueError("Setting a random_state has no effect since shuffle is False")
        self.n_splits, self.shuffle, self.random_state = int(n_splits), shuffle, random_state

    def get_n_splits(self, X=None, y=None, groups=None):
        return self.n_splits

    def split(self, X, y=None, groups=None):
        import itertools

        ctx = self.ctx
        n = len(X)
        if self.n_splits > n:
            raise ValueError("Cannot have number of splits greater than the number of samples")
        if self.random_state is None:
            ctx.n_rng += 1
            key = f"kfold_{ctx.n_rng}"
        else:
            key = f"kfold{self.random_state}"
        sizes = [n // self.n_splits + (1 if f < n % self.n_splits else 0) for f in range(self.n_splits)]
        left = list(range(n))
        for f, m in enumerate(sizes):
            if self.shuffle and getattr(ctx, "fixed_choices", False):
                test = tuple(sorted(sorted(left, key=lambda i: (i * 7919 + 13 * f) % 1009)[:m]))
            elif self.shuffle:
                combs = list(itertools.combinations(left, m))
                test = combs[ctx.choice(f"{key}.{f}", len(combs))]
            else:
                test = tuple(left[:m])
            left = [i for i in left if i not in test]
            ctx.folds.append(tuple(test))
            yield np.array([i for i in range(n) if i not in test], dtype=int), np.array(test, dtype=int)


def train_test_split(ctx):
    """sklearn's train_test_split with an arbitrary choice of the held-out rows."""

    def split(*arrays, test_size=None, train_size=None, random_state=None, shuffle=True, stratify=None):
        import math

        n = len(arrays[0])
        if any(len(a) != n for a in arrays):
            raise ValueError("Found input variables with inconsistent numbers of samples")
        if train_size is not None or stratify is not None or not shuffle:
            raise core.Unsupported("train_test_split options")
        test_size = 0.25 if test_size is None else test_size
        m = int(test_size) if isinstance(test_size, (int, np.integer)) else math.ceil(float(test_size) * n)
        if not 0 < m < n:
            raise ValueError("the resulting train or test set is empty")
        idx = list(range(n))
        if getattr(ctx, "fixed_choices", False):
            test = [idx.pop((j * 31 + 5) % len(idx)) for j in range(m)]
        else:
            test = [idx.pop(ctx.choice(f"split{j}", len(idx))) for j in range(m)]
        ctx.split = (list(idx), test)
        out = []
        for a in arrays:
            out += [a[np.array(idx)], a[np.array(test)]]
        return out

    return split


def minimizer(ctx):
    """scipy.optimize.minimize returning an arbitrary point.

    The objective and its gradient are evaluated, as of the call, at another
    arbitrary point, for the harness to compare with their definition.
    """
    ctx.minims = []

    def minimize(fun, x0, args=(), method=None, jac=None, **k):
        from types import SimpleNamespace

        args = args if isinstance(args, tuple) else (args,)
        d = len(x0)
        n = len(ctx.minims)
        w = ctx.reals(f"min{n}.w", d, nice=(-1, 1))
        if getattr(ctx, "fixed_minima", False):
            x = ctx.arr([0.25 * ((5 * n + 3 * i) % 7) - 0.75 for i in range(d)])
        else:
            x = ctx.reals(f"min{n}.x", d, nice=(-1, 1))
        ww = w.copy()
        f = fun(ww, *args)
        g = None
        if jac is True:
            f, g = f
        elif callable(jac):
            g = jac(ww, *args)
        ctx.minims.append(dict(x0=x0, w=w, f=f, g=g, x=x))
        return SimpleNamespace(x=x.copy(), success=True, fun=None, status=0)

    return minimize


class PolynomialFeatures:
    """sklearn.preprocessing.PolynomialFeatures on arrays of terms."""

    def __init__(self, degree=2, *, interaction_only=False, include_bias=True, **k):
        self.degree, self.inter, self.bias = int(degree), interaction_only, include_bias

    def fit(self, X, y=None):
        return self

    def transform(self, X):
        import itertools

        o = A._to_obj(X)
        comb = itertools.combinations if self.inter else itertools.combinations_with_replacement
        idx = [c for d in range(0 if self.bias else 1, self.degree + 1) for c in comb(range(o.shape[1]), d)]
        out = np.empty((o.shape[0], len(idx)), dtype=object)
        for i in range(o.shape[0]):
            for j, c in enumerate(idx):
                v = 1.0
                for q in c:
                    x = o[i, q]
                    v = v * (x if is_sym(x) else float(x))
                out[i, j] = v
        return A.sa(out)

    def fit_transform(self, X, y=None):
        return self.transform(X)


# -- builtins shadowed inside the modules under check (symbolic mode) ----------


class _FloatMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, float)

    def __subclasscheck__(cls, c):
        return issubclass(c, float)


class SymFloat(float, metaclass=_FloatMeta):
    dtype = np.dtype(float)

    def __new__(cls, x=0.0):
        if is_sym(x):
            return A.cast(x, float)
        if isinstance(x, A.SymArray):
            if x.size != 1:
                raise TypeError("only size-1 arrays can be converted to Python scalars")
            return A.cast(x.item(), float) if is_sym(x.item()) else float(x.item())
        return float(x)


class _IntMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, int)

    def __subclasscheck__(cls, c):
        return issubclass(c, int)


class SymInt(int, metaclass=_IntMeta):
    def __new__(cls, x=0, *a):
        if is_sym(x):
            return core.concrete_int(x)
        if isinstance(x, A.SymArray):
            return int(x.item())
        return int(x, *a)


BUILTINS = {"float": SymFloat}


def install(ctx, put):
    import sklearn.utils
    from scipy import special, stats
    from scipy.stats import truncnorm

    put(sklearn.utils.check_random_state, lambda seed: make_rng(ctx, seed))
    put(truncnorm, Truncnorm(ctx))
    put(stats.uniform, Uniform(ctx))
    put(stats, StatsModule(ctx))
    from sklearn.calibration import CalibratedClassifierCV
    from sklearn.model_selection import KFold
    from sklearn.model_selection import train_test_split as tts

    put(tts, train_test_split(ctx))
    from scipy import optimize

    mini = minimizer(ctx)
    put(optimize.minimize, mini)
    from .models import calibrated

    put(CalibratedClassifierCV, calibrated)

    put(KFold, type("KFold", (KFoldStub,), {"ctx": ctx}))
    from . import storch

    storch.install(ctx, put)
    if ctx.sym:
        import pandas

        from .mpd import PandasModule

        put(pandas, PandasModule())
        from sklearn.preprocessing import PolynomialFeatures as _PF

        put(_PF, PolynomialFeatures)
        put(stats.norm, Norm())
        from .proxy import ModuleProxy2

        put(special.logsumexp, sp_logsumexp)
        put(special, ModuleProxy2(special, dict(softmax=sp_softmax, logit=sp_logit, expit=sp_expit, logsumexp=sp_logsumexp)))
        put(special.softmax, sp_softmax)
        put(special.logit, sp_logit)
        put(special.expit, sp_expit)
