"""What the check files import."""
import numpy as np

from . import array as A
from .core import PathAbort, Unsupported, is_sym, s_max, s_min
from .harness import AssumeFailed, CheckFailed, Ctx

HARNESSES = []


SIZE_KEYS = {"n", "k", "L", "pos", "D", "S", "K", "layout", "m"}


def harness(cases=None, thorough=None, ints=(), **opts):
    """Registers a harness.

    cases: list of dicts (bounds and variants) of the quick tier;
    thorough: further cases of the thorough tier;
    ints: groups of inputs that are also given as integer arrays (zeros and
    ones; deterministic policies), in every variant at the first size.
    """
    cases = list(cases or [{}])
    size = {k: v for k, v in cases[0].items() if k in SIZE_KEYS}
    at = [c for c in cases if all(c.get(k) == v for k, v in size.items())]
    cases += [dict(c, ints=tuple(g)) for g in ints for c in at]

    def deco(f):
        HARNESSES.append((f.__name__, f, cases, list(thorough or []), opts))
        return f

    return deco


def total(xs):
    r = 0.0
    for i, x in enumerate(xs):
        r = x if i == 0 else r + x
    return r


def mean(xs):
    xs = list(xs)
    return total(xs) / float(len(xs))


def prod(xs):
    r = 1.0
    for i, x in enumerate(xs):
        r = x if i == 0 else r * x
    return r


def smin(a, b):
    return s_min(a, b)


def smax(a, b):
    return s_max(a, b)


def where(c, a, b):
    from .core import ite

    return ite(c, a, b)


def product(**axes):
    """Cross product of case axes."""
    import itertools

    keys = list(axes)
    return [dict(zip(keys, v)) for v in itertools.product(*axes.values())]
