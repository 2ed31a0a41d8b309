"""A stand-in for torch: tensors of solver terms with exact derivatives.

A tensor carries its values and, for every scalar parameter it depends on, the
derivative of its values (forward mode), so backward() yields the exact gradient
as solver terms.  Only what the learners need; the rest is Unsupported.
"""
import builtins
import itertools

import numpy as np

from . import array as A
from . import core
from .core import Unsupported, is_sym

_GRAD = [True]


def _arr(x):
    if isinstance(x, T):
        return x.v
    if isinstance(x, np.ndarray):
        return x if isinstance(x, A.SymArray) or x.dtype != object else A.sa(x)
    return x


def _obj(x):
    return A.sa(np.array(A._to_obj(x), dtype=object))


def _index(i):
    if isinstance(i, tuple):
        return tuple(_index(j) for j in i)
    if isinstance(i, T):
        o = A._to_obj(i.v)
        if o.dtype == object:
            flat = [int(core.concrete_int(v)) if is_sym(v) else v for v in o.ravel()]
            if builtins.all(isinstance(v, (bool, np.bool_)) for v in flat):
                return np.array(flat, dtype=bool).reshape(o.shape)
            return np.array([int(v) for v in flat], dtype=int).reshape(o.shape)
        return np.asarray(o)
    return i


class T:
    """Tensor: v values, g {parameter element: derivative of the values}."""

    __array_priority__ = 2000.0
    __array_ufunc__ = None
    is_tensor = True

    def __init__(self, v, g=None, integer=False):
        self.v = v if isinstance(v, np.ndarray) else _obj(v)
        self.g = g if g and _GRAD[0] else {}
        self.integer = integer
        self.grad = None

    # -- shape ------------------------------------------------------------------
    @property
    def shape(self):
        return tuple(self.v.shape)

    @property
    def ndim(self):
        return self.v.ndim

    def dim(self):
        return self.v.ndim

    def size(self, d=None):
        return self.shape if d is None else self.shape[d]

    def numel(self):
        return int(self.v.size)

    def __len__(self):
        return self.v.shape[0]

    @property
    def dtype(self):
        return "long" if self.integer else "float"

    @property
    def requires_grad(self):
        return bool(self.g)

    def _map(self, f):
        return T(_arr(f(self.v)), {k: _arr(f(d)) for k, d in self.g.items()}, self.integer)

    def __getitem__(self, i):
        j = _index(i)

        def f(x):
            r = x[j]
            return r if isinstance(r, np.ndarray) else _obj(r)

        return self._map(f)

    def __iter__(self):
        for i in range(len(self)):
            yield self[i]

    def unsqueeze(self, d):
        return self._map(lambda x: np.expand_dims(x, d))

    def squeeze(self, d=None):
        return self._map(lambda x: np.squeeze(x, d))

    def flatten(self, *a):
        return self._map(lambda x: x.reshape(-1))

    ravel = flatten

    def reshape(self, *s):
        s = s[0] if len(s) == 1 and isinstance(s[0], (tuple, list)) else s
        return self._map(lambda x: x.reshape(tuple(s)))

    view = reshape

    def transpose(self, a, b):
        return self._map(lambda x: np.swapaxes(x, a, b))

    @property
    def T(self):
        return self._map(lambda x: x.T)

    def t(self):
        return self.T

    # -- conversions --------------------------------------------------------------
    def float(self):
        return T(self.v, self.g)

    double = float

    def long(self):
        return T(self.v, None, True)

    int = long

    def to(self, *a, **k):
        return self

    def type(self, *a):
        return self

    def cpu(self):
        return self

    def clone(self):
        return T(self.v.copy(), {k: d.copy() for k, d in self.g.items()}, self.integer)

    def detach(self):
        return T(self.v, None, self.integer)

    @property
    def data(self):
        return self.detach()

    def numpy(self):
        if self.g:
            raise RuntimeError("Can't call numpy() on Tensor that requires grad. Use tensor.detach().numpy() instead.")
        return self.v

    def item(self):
        if self.v.size != 1:
            raise RuntimeError("a Tensor with several elements cannot be converted to Scalar")
        return A._to_obj(self.v).ravel()[0]

    def tolist(self):
        return self.v.tolist()

    def __float__(self):
        return float(self.item())

    def __bool__(self):
        return bool(self.item())

    # -- arithmetic -----------------------------------------------------------------
    def _bin(self, o, f, dfa, dfb):
        ov = _arr(o)
        r = f(self.v, ov)
        r = r if isinstance(r, np.ndarray) else _obj(r)
        g = {}
        og = o.g if isinstance(o, T) else {}
        if _GRAD[0]:
            for k in set(self.g) | set(og):
                parts = []
                if k in self.g:
                    parts.append(dfa(self.v, ov, self.g[k]))
                if k in og:
                    parts.append(dfb(self.v, ov, og[k]))
                d = parts[0] if len(parts) == 1 else parts[0] + parts[1]
                g[k] = _obj(np.broadcast_to(A._to_obj(d), r.shape)) if np.shape(d) != r.shape else _arr(d)
        return T(r, g)

    def __add__(self, o):
        return self._bin(o, lambda a, b: a + b, lambda a, b, d: d, lambda a, b, d: d)

    __radd__ = __add__

    def __sub__(self, o):
        return self._bin(o, lambda a, b: a - b, lambda a, b, d: d, lambda a, b, d: -d)

    def __rsub__(self, o):
        return (-self) + o

    def __mul__(self, o):
        return self._bin(o, lambda a, b: a * b, lambda a, b, d: d * b, lambda a, b, d: a * d)

    __rmul__ = __mul__

    def __truediv__(self, o):
        return self._bin(o, lambda a, b: a / b, lambda a, b, d: d / b, lambda a, b, d: -(a * d) / (b * b))

    def __rtruediv__(self, o):
        return T(_obj(o)) / self

    def __neg__(self):
        return self._map(lambda x: -x)

    def __pow__(self, p):
        if isinstance(p, T):
            raise Unsupported("tensor exponent")
        if p == 0.5:
            return self.sqrt()
        v, g = self.v, self.g
        return T(_arr(v ** p), {k: _arr((v ** (p - 1)) * d * p) if p != 2 else _arr(v * d * 2.0) for k, d in g.items()})

    def _assign(self, r):
        if r.shape != self.shape:
            raise RuntimeError("output shape doesn't match the broadcast shape")
        self.v, self.g = r.v, r.g
        return self

    def __iadd__(self, o):
        return self._assign(self + o)

    def __isub__(self, o):
        return self._assign(self - o)

    def __imul__(self, o):
        return self._assign(self * o)

    def __itruediv__(self, o):
        return self._assign(self / o)

    add, sub, mul, div = __add__, __sub__, __mul__, __truediv__
    multiply, divide, true_divide, subtract = __mul__, __truediv__, __truediv__, __sub__
    add_, sub_, mul_, div_ = __iadd__, __isub__, __imul__, __itruediv__
    pow = __pow__
    neg = __neg__

    def square(self):
        return self * self

    def reciprocal(self):
        return T(_obj(1.0)) / self

    def __matmul__(self, o):
        return matmul(self, o)

    def __rmatmul__(self, o):
        return matmul(o, self)

    def matmul(self, o):
        return matmul(self, o)

    mm = mv = dot = bmm = matmul

    def permute(self, *d):
        d = d[0] if len(d) == 1 and isinstance(d[0], (tuple, list)) else d
        return self._map(lambda x: x.transpose(tuple(d)))

    def expand(self, *s):
        s = s[0] if len(s) == 1 and isinstance(s[0], (tuple, list)) else s
        own = (None,) * (len(s) - self.ndim) + self.shape
        s = tuple(o if n == -1 else n for n, o in zip(s, own))
        return self._map(lambda x: _obj(np.broadcast_to(A._to_obj(x), s)))

    broadcast_to = expand

    def expand_as(self, o):
        return self.expand(*o.shape)

    view_as = reshape_as = lambda self, o: self.reshape(*o.shape)

    def repeat(self, *s):
        s = s[0] if len(s) == 1 and isinstance(s[0], (tuple, list)) else s
        return self._map(lambda x: _obj(np.tile(A._to_obj(x), s)))

    tile = repeat

    def index_select(self, dim, index):
        i = _index(index)
        return self._map(lambda x: _obj(np.take(A._to_obj(x), i, axis=dim)))

    def softmax(self, dim=-1, dtype=None):
        e = self.exp()
        return e / e.sum(dim, True)

    def log_softmax(self, dim=-1, dtype=None):
        return self - self.exp().sum(dim, True).log()

    def logsumexp(self, dim=-1, keepdim=False):
        return self.exp().sum(dim, keepdim).log()

    def sigmoid(self):
        return T(_obj(1.0)) / ((-self).exp() + 1.0)

    def cumsum(self, dim):
        return self._map(lambda x: x.cumsum(axis=dim))

    def diagonal(self, *a):
        return self._map(lambda x: _obj(np.diagonal(A._to_obj(x))))

    diag = diagonal

    def new_zeros(self, *s, **k):
        return T(_obj(np.zeros(s[0] if isinstance(s[0], (tuple, list)) else s)))

    def new_ones(self, *s, **k):
        return T(_obj(np.ones(s[0] if isinstance(s[0], (tuple, list)) else s)))

    def eq(self, o):
        return self == o

    def ne(self, o):
        return self != o

    def lt(self, o):
        return self < o

    def gt(self, o):
        return self > o

    def le(self, o):
        return self <= o

    def ge(self, o):
        return self >= o

    def requires_grad_(self, *a):
        raise Unsupported("requires_grad_ on a tensor")

    def _cmp(self, o, f):
        return T(_arr(f(self.v, _arr(o))))

    def __lt__(self, o):
        return self._cmp(o, lambda a, b: a < b)

    def __le__(self, o):
        return self._cmp(o, lambda a, b: a <= b)

    def __gt__(self, o):
        return self._cmp(o, lambda a, b: a > b)

    def __ge__(self, o):
        return self._cmp(o, lambda a, b: a >= b)

    def __eq__(self, o):
        return self._cmp(o, lambda a, b: a == b)

    def __ne__(self, o):
        return self._cmp(o, lambda a, b: a != b)

    __hash__ = object.__hash__

    # -- functions --------------------------------------------------------------------
    def log(self):
        return T(_arr(np.log(self.v)), {k: _arr(d / self.v) for k, d in self.g.items()})

    def exp(self):
        e = _arr(np.exp(self.v))
        return T(e, {k: _arr(d * e) for k, d in self.g.items()})

    def sqrt(self):
        r = _arr(np.sqrt(self.v))
        return T(r, {k: _arr(d / (r * 2.0)) for k, d in self.g.items()})

    def abs(self):
        return where(self >= 0, self, -self)

    def sum(self, dim=None, keepdim=False, axis=None):
        ax = dim if dim is not None else axis
        return self._map(lambda x: _red(x, ax, keepdim))

    def mean(self, dim=None, keepdim=False, axis=None):
        ax = dim if dim is not None else axis
        axes = range(self.ndim) if ax is None else (ax if isinstance(ax, (tuple, list)) else (ax,))
        n = 1
        for a in axes:
            n *= self.v.shape[a]
        return self.sum(ax, keepdim) / float(n)

    def var(self, dim=None, unbiased=True, keepdim=False, correction=None):
        if dim not in (None, 0, -1) or self.ndim != 1:
            raise Unsupported("variance of a matrix")
        n = self.v.size
        m = self - self.mean()
        c = correction if correction is not None else (1 if unbiased else 0)
        return (m * m).sum() / float(n - c) if n > c else T(_obj(float("nan")))

    def std(self, *a, **k):
        return self.var(*a, **k).sqrt()

    def clamp(self, min=None, max=None):
        r = self
        if min is not None:
            r = where(r < min, T(_obj(np.broadcast_to(A._to_obj(_arr(min)), r.shape))), r)
        if max is not None:
            r = where(r > max, T(_obj(np.broadcast_to(A._to_obj(_arr(max)), r.shape))), r)
        return r

    clip = clamp

    def gather(self, dim, index):
        if self.ndim != 2 or dim not in (1, -1):
            raise Unsupported("gather")
        i = _index(index)
        rows_ = np.arange(i.shape[0])[:, None]
        return self._map(lambda x: x[rows_, i])

    def take_along_dim(self, index, dim=None):
        return self.gather(dim, index)

    def argmax(self, dim=None):
        return T(A.int_array(np.asarray(self.v.argmax(axis=dim))), None, True)

    def masked_fill(self, m, x):
        return where(m, T(_obj(np.broadcast_to(x, self.shape))), self)

    def backward(self, *a, **k):
        if self.v.size != 1:
            raise RuntimeError("grad can be implicitly created only for scalar outputs")
        if not self.g:
            raise RuntimeError("element 0 of tensors does not require grad and does not have a grad_fn")
        for (p, i), d in self.g.items():
            if p.grad is None:
                p.grad = np.empty(p.shape, dtype=object)
                p.grad[...] = 0.0
            p.grad[i] = p.grad[i] + A._to_obj(d).ravel()[0]


def _red(x, ax, keep):
    r = x.sum(axis=ax, keepdims=keep)
    return r if isinstance(r, np.ndarray) else _obj(r)


def _t(x):
    return x if isinstance(x, T) else T(_obj(_arr(x)))


def einsum(spec, *ops):
    """Products over the joint index, summed: differentiable as such."""
    if len(ops) == 1 and isinstance(ops[0], (tuple, list)):
        ops = ops[0]
    spec = spec.replace(" ", "")
    if "." in spec:
        raise Unsupported("einsum with an ellipsis")
    ins, _, out = spec.partition("->")
    ins = ins.split(",")
    if "->" not in spec:
        letters = "".join(ins)
        out = "".join(sorted(c for c in set(letters) if letters.count(c) == 1))
    order = out + "".join(sorted(set("".join(ins)) - set(out)))
    prod = None
    for sub, t in zip(ins, ops):
        t = _t(t)
        if len(set(sub)) != len(sub):
            raise Unsupported("einsum with a repeated index")
        perm = [sub.index(c) for c in order if c in sub]
        t = t._map(lambda x: x.transpose(tuple(perm)))
        t = t._map(lambda x: x.reshape(tuple(t.shape[[c for c in order if c in sub].index(c)] if c in sub else 1 for c in order)))
        prod = t if prod is None else prod * t
    for _ in range(len(order) - len(out)):
        prod = prod.sum(-1)
    return prod


def matmul(a, b):
    a, b = _t(a), _t(b)
    if a.ndim == 1 and b.ndim == 1:
        return (a * b).sum()
    if b.ndim == 1:
        return (a * b).sum(-1)
    if a.ndim == 1:
        return (a.unsqueeze(-1) * b).sum(-2)
    return (a.unsqueeze(-1) * b.unsqueeze(-3)).sum(-2)


def one_hot(t, num_classes=-1):
    i = _index(t)
    k = int(i.max()) + 1 if num_classes == -1 else int(num_classes)
    return T(_obj(np.eye(k)[i]))


def _full(shape, c, *a, **k):
    return T(_obj(np.broadcast_to(A._to_obj(_arr(c)), tuple(shape) if isinstance(shape, (tuple, list)) else (shape,))))


def where(c, a, b):
    cv = A._to_obj(_arr(c))
    a = a if isinstance(a, T) else T(_obj(np.broadcast_to(A._to_obj(_arr(a)), cv.shape)))
    b = b if isinstance(b, T) else T(_obj(np.broadcast_to(A._to_obj(_arr(b)), cv.shape)))
    cv = np.broadcast_to(cv, np.broadcast_shapes(cv.shape, a.shape, b.shape))

    def pick(x, y):
        x, y = np.broadcast_to(A._to_obj(x), cv.shape), np.broadcast_to(A._to_obj(y), cv.shape)
        out = np.empty(cv.shape, dtype=object)
        for i in np.ndindex(cv.shape):
            out[i] = core.ite(cv[i], x[i], y[i]) if is_sym(cv[i]) else (x[i] if bool(cv[i]) else y[i])
        return A.sa(out)

    z = np.zeros(())
    g = {k: pick(a.g.get(k, z), b.g.get(k, z)) for k in set(a.g) | set(b.g)}
    return T(pick(a.v, b.v), g)


class Parameter(T):
    """A leaf whose elements are differentiated for."""

    def __init__(self, values):
        super().__init__(_obj(values))
        self.leaf()

    def leaf(self):
        self.g = {}
        for i in np.ndindex(self.v.shape):
            d = np.zeros(self.v.shape)
            d[i] = 1.0
            self.g[(self, i)] = _obj(d)

    def requires_grad_(self, *a):
        return self


# -- modules -------------------------------------------------------------------------
class Module:
    training = True

    def train(self, mode=True):
        self.training = mode
        return self

    def eval(self):
        return self.train(False)

    def parameters(self):
        out = []
        for v in self.__dict__.values():
            if isinstance(v, Parameter):
                out.append(v)
            elif isinstance(v, Module):
                out += v.parameters()
        return out

    def zero_grad(self):
        for p in self.parameters():
            p.grad = None

    def __call__(self, x):
        return self.forward(x)

    def forward(self, x):
        raise Unsupported(f"layer {type(self).__name__}")


class Linear(Module):
    def __init__(self, in_features, out_features, bias=True):
        self.in_features, self.out_features = in_features, out_features


def _layer(name):
    def init(self, *a, **k):
        self.__dict__.update(k)
        if name == "Softmax" and a:
            self.dim = a[0]

    return type(name, (Module,), {"__init__": init})


class Sequential(Module):
    def __init__(self, *layers):
        if len(layers) == 1 and hasattr(layers[0], "items"):
            layers = layers[0].values()
        self.layers = list(layers)

    def children(self):
        return iter(self.layers)

    def parameters(self):
        return []


def mse_loss(a, b, reduction="mean"):
    d = a - b
    if a.shape != b.shape:
        raise Unsupported("mse_loss of different shapes")
    r = d * d
    return r.mean() if reduction == "mean" else (r.sum() if reduction == "sum" else r)


# -- optimisers -----------------------------------------------------------------------
class Optimizer:
    def __init__(self, params, **kw):
        self.params = list(params)
        self.kw = kw
        self.steps = 0
        self.state = {}

    def zero_grad(self, *a, **k):
        for p in self.params:
            p.grad = None

    def step(self, *a):
        self.steps += 1
        for p in self.params:
            if p.grad is None:
                continue
            p.v = self.update(p, A.sa(p.grad.copy()))
            p.leaf()

    def update(self, p, g):
        raise Unsupported("several steps of this optimiser")


class SGD(Optimizer):
    def update(self, p, g):
        k = self.kw
        if k.get("weight_decay"):
            g = g + p.v * k["weight_decay"]
        m = k.get("momentum", 0.0)
        if is_sym(m) or m:
            b = self.state.get(p)
            b = g if b is None else b * m + g
            self.state[p] = b
            g = g + b * m if k.get("nesterov") else b
        return _arr(p.v - g * k["lr"])


class Fixed(Optimizer):
    """Optimisers whose arithmetic is not modelled: one step only."""

    def update(self, p, g):
        if self.steps > 1 and not self.kw.get("frozen"):
            raise Unsupported("several steps of this optimiser")
        return p.v


class Adam(Fixed):
    pass


class Adagrad(Fixed):
    pass


# -- data ------------------------------------------------------------------------------
class Subset:
    def __init__(self, dataset, indices):
        self.dataset, self.indices = dataset, list(indices)

    def __getitem__(self, i):
        return self.dataset[self.indices[i]]

    def __len__(self):
        return len(self.indices)


def stack(ts, dim=0):
    ts = [t if isinstance(t, T) else T(_obj(t)) for t in ts]
    keys = set().union(*[set(t.g) for t in ts])
    z = [np.zeros(t.shape) for t in ts]
    g = {k: A.sa(np.stack([A._to_obj(t.g[k]) if k in t.g else zz.astype(object) for t, zz in zip(ts, z)], dim)) for k in keys}
    v = np.stack([A._to_obj(t.v).astype(object) for t in ts], dim)
    return T(A.sa(v), g, builtins.all(t.integer for t in ts))


def cat(ts, dim=0, axis=None):
    dim = dim if axis is None else axis
    keys = set().union(*[set(t.g) for t in ts])
    g = {k: A.sa(np.concatenate([A._to_obj(t.g[k]) if k in t.g else np.zeros(t.shape).astype(object) for t in ts], dim)) for k in keys}
    v = np.concatenate([A._to_obj(t.v).astype(object) for t in ts], dim)
    return T(A.sa(v), g)


class DataLoader:
    def __init__(self, dataset, batch_size=1, shuffle=False, drop_last=False, **k):
        self.dataset, self.batch_size, self.shuffle, self.drop_last = dataset, batch_size, shuffle, drop_last

    def __len__(self):
        return -(-len(self.dataset) // self.batch_size)

    def __iter__(self):
        idx = list(range(len(self.dataset)))
        if self.shuffle and len(idx) > 1:
            perms = list(itertools.permutations(idx))
            self.ctx.n_shuffles = getattr(self.ctx, "n_shuffles", 0) + 1
            idx = list(perms[self.ctx.choice(f"shuffle{self.ctx.n_shuffles}", len(perms))])
        for s in range(0, len(idx), self.batch_size):
            b = idx[s:s + self.batch_size]
            if self.drop_last and len(b) < self.batch_size:
                return
            rows = [self.dataset[i] for i in b]
            yield [stack([r[j] for r in rows]) for j in range(len(rows[0]))]


def partition(ctx, n, sizes):
    """An arbitrary split of range(n) into parts of the given sizes."""
    if sum(sizes) != n:
        raise ValueError("Sum of input lengths does not equal the length of the input dataset!")
    ctx.n_splits = getattr(ctx, "n_splits", 0) + 1
    perms = []
    seen = set()
    for p in itertools.permutations(range(n)):
        parts, s = [], 0
        for m in sizes:
            parts.append(tuple(sorted(p[s:s + m])))
            s += m
        if tuple(parts) not in seen:
            seen.add(tuple(parts))
            perms.append(parts)
    return perms[ctx.choice(f"split{ctx.n_splits}", len(perms))]


class no_grad:
    def __enter__(self):
        self.old = _GRAD[0]
        _GRAD[0] = False

    def __exit__(self, *a):
        _GRAD[0] = self.old
        return False

    def __call__(self, f):
        def g(*a, **k):
            with no_grad():
                return f(*a, **k)

        return g


class _NS:
    def __init__(self, **k):
        self.__dict__.update(k)

    def __getattr__(self, name):
        raise Unsupported(f"torch: {name}")


def _tensor(x, *a, **k):
    return x if isinstance(x, T) else T(_obj(x))


def _like(c):
    return lambda t, *a, **k: T(_obj(np.full(t.shape, c)))


def recorder(ctx, cls):
    """Remembers how optimisers are set up."""

    def make(params, *a, **kw):
        params = list(params)
        o = cls(params, *a, **kw)
        if not hasattr(ctx, "optims"):
            ctx.optims = []
        ctx.optims.append((cls.__name__, dict(kw), params, o))
        return o

    return make


def install(ctx, put):
    import torch

    from . import proxy

    def split(dataset, sizes, *a, **k):
        parts = partition(ctx, len(dataset), [int(s) for s in sizes])
        sub = Subset if ctx.sym else torch.utils.data.Subset
        return [sub(dataset, list(p)) for p in parts]

    if not ctx.sym:
        data = proxy.ModuleProxy2(torch.utils.data, {"random_split": split})
        opt = proxy.ModuleProxy2(torch.optim, {n: recorder(ctx, getattr(torch.optim, n)) for n in ("SGD", "Adam", "Adagrad")})
        put(torch, proxy.ModuleProxy2(torch, {"utils": proxy.ModuleProxy2(torch.utils, {"data": data}), "optim": opt}))
        put(torch.optim, opt)
        return
    _GRAD[0] = True
    layers = {n: _layer(n) for n in ("Identity", "Sigmoid", "Tanh", "ReLU", "ELU", "Softmax", "Dropout")}
    named = {n: (lambda t, *a, _n=n, **k: getattr(_t(t), _n)(*a, **k)) for n in ("softmax", "log_softmax", "sigmoid")}
    functional = _NS(mse_loss=mse_loss, one_hot=one_hot, **named)
    nn = _NS(Module=Module, Linear=Linear, Sequential=Sequential, Parameter=Parameter, functional=functional, **layers)
    optim = _NS(**{n: recorder(ctx, c) for n, c in (("SGD", SGD), ("Adam", Adam), ("Adagrad", Adagrad))})
    data = _NS(DataLoader=type("DataLoader", (DataLoader,), {"ctx": ctx}), random_split=split, Subset=Subset, Dataset=object)
    unary = {n: (lambda t, *a, _n=n, **k: getattr(t, _n)(*a, **k)) for n in "log exp sqrt abs sum mean var std clamp clip square flatten unsqueeze squeeze reshape argmax neg pow mul div add sub gather multiply divide true_divide subtract reciprocal permute transpose index_select softmax log_softmax logsumexp sigmoid cumsum take_along_dim diagonal ravel numel eq ne lt gt le ge masked_fill clone broadcast_to tile".split()}
    t = _NS(
        Tensor=T,
        from_numpy=lambda x: T(_arr(x)),
        tensor=_tensor,
        as_tensor=_tensor,
        arange=lambda *a, **k: T(A.int_array(np.arange(*a)), None, True),
        long="long",
        int64="long",
        float="float",
        float32="float",
        float64="float",
        zeros=lambda *s, **k: T(_obj(np.zeros(s[0] if isinstance(s[0], (tuple, list)) else s))),
        ones=lambda *s, **k: T(_obj(np.ones(s[0] if isinstance(s[0], (tuple, list)) else s))),
        full=_full,
        full_like=lambda t, c, *a, **k: _full(t.shape, c),
        eye=lambda n, *a, **k: T(_obj(np.eye(n))),
        einsum=einsum,
        matmul=matmul,
        mm=matmul,
        mv=matmul,
        dot=matmul,
        bmm=matmul,
        inference_mode=no_grad,
        is_tensor=lambda x: isinstance(x, T),
        FloatTensor=_tensor,
        zeros_like=_like(0.0),
        ones_like=_like(1.0),
        stack=stack,
        cat=cat,
        concat=cat,
        where=where,
        minimum=lambda a, b: where(a < b, a, b),
        maximum=lambda a, b: where(a > b, a, b),
        no_grad=no_grad,
        manual_seed=lambda s: None,
        nn=nn,
        optim=optim,
        utils=_NS(data=data),
        **unary,
    )
    put(torch, t)
    put(torch.nn, nn)
    put(torch.optim, optim)
    put(torch.nn.functional, functional)
    put(torch.nn.functional.mse_loss, mse_loss)


# -- networks that are arbitrary functions ------------------------------------------------
def make_net(ctx, fn, params):
    """A network with the given parameter arrays; fn(lib, params, x) is its output.

    In symbolic mode its parameters are solver terms; on the real code it is a real
    torch module with the same values.
    """
    if ctx.sym:

        class Net(Module):
            def __init__(self):
                self.calls = 0
                self.modes = []
                for i, p in enumerate(params):
                    setattr(self, f"p{i}", Parameter(p))

            def forward(self, x):
                self.calls += 1
                self.modes.append(self.training)
                return fn(self, [getattr(self, f"p{i}") for i in range(len(params))], x)

            def values(self, i=0):
                return getattr(self, f"p{i}").v

            def gradient(self, i=0):
                g = getattr(self, f"p{i}").grad
                return None if g is None else A.sa(g.copy())

        return Net()
    import torch

    class Net(torch.nn.Module):
        def __init__(self):
            super().__init__()
            self.calls = 0
            self.modes = []
            self.ps = torch.nn.ParameterList([torch.nn.Parameter(torch.tensor(np.asarray(p, dtype=float))) for p in params])

        def forward(self, x):
            self.calls += 1
            self.modes.append(self.training)
            return fn(self, list(self.ps), x)

        def values(self, i=0):
            return self.ps[i].detach().numpy().copy()

        def gradient(self, i=0):
            g = self.ps[i].grad
            return None if g is None else g.numpy().copy()

    return Net()


def tensor_of(ctx, values):
    """A constant tensor of the mode's kind."""
    if ctx.sym:
        return T(_obj(values))
    import torch

    return torch.tensor(np.asarray(values, dtype=float))


def values_of(x):
    """Concrete rows (lists of floats) of a tensor of contexts."""
    v = x.v if isinstance(x, T) else x.detach().numpy()
    return A._to_obj(v)
