"""Rebinds, inside the loaded obp modules, the names of the environment.

In both modes: randomness, progress bars and model cloning become stubs.
In symbolic mode additionally numpy/math become the symbolic stand-ins.
The code under check itself is never replaced.
"""
import contextlib
import math
import re
import sys

import numpy as np


def obp_modules():
    return [
        m for n, m in list(sys.modules.items()) if n == "obp" or n.startswith("obp.")
        if m is not None
    ]


class _Tqdm:
    """tqdm(iterable) without output."""

    def __init__(self, it=None, *a, **k):
        self.it = it

    def __iter__(self):
        return iter(self.it if self.it is not None else ())

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False

    def update(self, *a, **k):
        pass

    def set_postfix(self, *a, **k):
        pass

    def set_description(self, *a, **k):
        pass

    def close(self):
        pass


class _TqdmMod:
    tqdm = _Tqdm
    trange = staticmethod(lambda n, *a, **k: range(n))

    def __call__(self, *a, **k):
        return _Tqdm(*a, **k)


@contextlib.contextmanager
def patched(ctx, extra=None):
    """extra: {original object: replacement} for both modes."""
    from . import proxy, stubs

    import tqdm as tqdm_mod
    from tqdm import tqdm as tqdm_cls

    table = {}  # id(original) -> (original, replacement)

    def put(orig, repl):
        table[id(orig)] = (orig, repl)

    put(tqdm_cls, _Tqdm)
    put(tqdm_mod, _TqdmMod())
    stubs.install(ctx, put)
    if extra:
        for o, r in extra:
            put(o, r)
    rnd = stubs.RandomModule(ctx)
    if ctx.sym:
        np_p = proxy.numpy_proxy(rnd)
        put(np, np_p)
        put(math, proxy.math_proxy())
        for name in dir(np):
            try:
                v = getattr(np, name)
            except AttributeError:
                continue
            if isinstance(v, np.ufunc) or (
                callable(v) and not isinstance(v, type) and name in _FROM
            ):
                if id(v) not in table:
                    put(v, getattr(np_p, name))
    else:
        put(np, proxy.ModuleProxy2(np, {"random": rnd}))
    saved = []
    seen_mod = set()
    try:
        for m in obp_modules():
            if id(m) in seen_mod:
                continue
            seen_mod.add(id(m))
            d = m.__dict__
            for k, v in list(d.items()):
                if k.startswith("__"):
                    continue
                hit = table.get(id(v))
                if hit is not None and hit[0] is v:
                    saved.append((d, k, v))
                    d[k] = hit[1]
            if ctx.sym:
                for k, v in stubs.BUILTINS.items():
                    if k not in d and _calls(m, k):
                        saved.append((d, k, _MISSING))
                        d[k] = v
        yield
    finally:
        for d, k, v in reversed(saved):
            if v is _MISSING:
                d.pop(k, None)
            else:
                d[k] = v


@contextlib.contextmanager
def real_pandas(read_csv):
    """The real pandas, reading tables from the given function, inside the obp modules."""
    import pandas

    from .mpd import PandasModule

    from . import array as A
    from .core import is_sym

    saved = []
    orig = pandas.read_csv
    vals = pandas.Series.values

    def values(self):
        v = vals.fget(self)
        if isinstance(v, np.ndarray) and v.dtype == object and any(is_sym(x) for x in v):
            return A.sa(v.copy())
        return v

    try:
        pandas.Series.values = property(values)
        pandas.read_csv = read_csv
        for m in obp_modules():
            for k, v in list(m.__dict__.items()):
                if isinstance(v, PandasModule):
                    saved.append((m.__dict__, k, v))
                    m.__dict__[k] = pandas
                elif v is orig:
                    saved.append((m.__dict__, k, v))
                    m.__dict__[k] = read_csv
        yield
    finally:
        pandas.read_csv = orig
        pandas.Series.values = vals
        for d, k, v in reversed(saved):
            d[k] = v


_MISSING = object()
_SRC = {}


def _calls(mod, name):
    """Whether the module's source calls the builtin as a function."""
    f = getattr(mod, "__file__", None)
    if f is None:
        return False
    if f not in _SRC:
        with open(f) as fh:
            _SRC[f] = fh.read()
    return re.search(r"(?<![\w.])" + name + r"\(", _SRC[f]) is not None


_FROM = set(
    "sum mean var std sqrt log exp average where clip zeros ones array arange argmax "
    "argmin argsort sort concatenate vstack hstack stack tile repeat dot einsum "
    "cumsum cumprod prod any all unique percentile quantile isclose allclose "
    "zeros_like ones_like full full_like empty empty_like eye identity asarray "
    "expand_dims squeeze append delete diag tril triu roll abs outer copy".split()
)
