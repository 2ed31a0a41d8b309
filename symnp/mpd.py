"""A small stand-in for the pandas operations applied to symbolic columns.

Only used in symbolic mode, and only for frames built column by column; anything
it does not know raises Unsupported (the path then is not decided).
"""
import numpy as np
import pandas as pd

from . import array as A
from .core import Unsupported, decide, is_sym, s_cmp, s_max, s_min, to_b


def _same(a, b):
    if is_sym(a) or is_sym(b):
        r = s_cmp(a, b, "==")
        return decide(to_b(r)) if is_sym(r) else bool(r)
    return a == b


class MSeries:
    def __init__(self, values, index=None):
        self._v = list(values)
        self._index = list(index) if index is not None else None

    def __array__(self, dtype=None):
        return np.asarray(A.build(self._v))

    def _arr(self):
        return A.build(self._v) if A.has_sym(self._v) else A.rewrap(np.array(self._v))

    values = property(_arr)

    def to_numpy(self, *a, **k):
        return self._arr()

    @property
    def shape(self):
        return (len(self._v),)

    def __len__(self):
        return len(self._v)

    def __iter__(self):
        return iter(self._v)

    def unique(self):
        out = []
        for x in self._v:
            if not any(_same(x, y) for y in out):
                out.append(x)
        return A.build(out) if A.has_sym(out) else np.array(out)

    def nunique(self, *a, **k):
        return len(self.unique())

    def _cmp(self, o, op):
        ov = list(o) if hasattr(o, "__iter__") else [o] * len(self._v)
        return MSeries([s_cmp(x, y, op) for x, y in zip(self._v, ov)])

    def __lt__(self, o):
        return self._cmp(o, "<")

    def __le__(self, o):
        return self._cmp(o, "<=")

    def __gt__(self, o):
        return self._cmp(o, ">")

    def __ge__(self, o):
        return self._cmp(o, ">=")

    def __ne__(self, o):
        return self._cmp(o, "!=")

    def __eq__(self, o):
        return self._cmp(o, "==")

    __hash__ = None

    def _ar(self, o, op):
        ov = list(o) if hasattr(o, "__iter__") and not is_sym(o) else [o] * len(self._v)
        return MSeries([op(x, y) for x, y in zip(self._v, ov)])

    def __add__(self, o):
        return self._ar(o, lambda x, y: x + y)

    def __sub__(self, o):
        return self._ar(o, lambda x, y: x - y)

    def __mul__(self, o):
        return self._ar(o, lambda x, y: x * y)

    def __truediv__(self, o):
        return self._ar(o, lambda x, y: x / y)

    def __array_ufunc__(self, ufunc, method, *inputs, **kwargs):
        ins = [i._arr() if isinstance(i, MSeries) else i for i in inputs]
        r = getattr(ufunc, method)(*ins, **kwargs)
        return MSeries(list(r)) if isinstance(r, np.ndarray) else r

    def sum(self):
        return A.build(self._v).sum() if A.has_sym(self._v) else np.sum(self._v)

    def mean(self):
        return self._arr().mean()

    def any(self):
        return np.any(self._arr())

    def all(self):
        return np.all(self._arr())

    def max(self):
        return np.max(self._arr())

    def min(self):
        return np.min(self._arr())

    def _acc(self, f):
        out = []
        for x in self._v:
            out.append(x if not out else f(out[-1], x))
        return MSeries(out)

    def cummin(self):
        return self._acc(s_min)

    def cummax(self):
        return self._acc(s_max)

    def diff(self):
        return MSeries([float("nan")] + [b - a for a, b in zip(self._v, self._v[1:])])

    def expanding(self):
        return _Expanding([self])

    def __getitem__(self, i):
        if isinstance(i, (int, np.integer)):
            return self._v[i]
        if isinstance(i, slice):
            return MSeries(self._v[i])
        raise Unsupported("series indexing")

    def __getattr__(self, n):
        raise Unsupported(f"pandas Series.{n} on symbolic data")


class _Expanding:
    def __init__(self, parts):
        self._parts = parts

    def min(self):
        return MSeries([x for p in self._parts for x in p.cummin()._v])

    def max(self):
        return MSeries([x for p in self._parts for x in p.cummax()._v])


class _GroupBy:
    def __init__(self, df, keys, col=None):
        self._df, self._col = df, col
        self._keys = keys
        kv = list(zip(*[df._c[k]._v for k in keys]))
        self._vals = sorted(set(kv))
        self._rows = [[i for i, x in enumerate(kv) if x == v] for v in self._vals]

    def __getitem__(self, c):
        return _GroupBy(self._df, self._keys, c)

    def __iter__(self):
        for v, r in zip(self._vals, self._rows):
            yield (v[0] if len(v) == 1 else v), self._part(r)

    def _part(self, r):
        d = self._df._take(r)
        return d if self._col is None else d[self._col]

    def apply(self, f, *a, **k):
        return MSeries([f(self._part(r), *a, **k) for r in self._rows], index=self._vals)

    agg = apply

    def expanding(self):
        return _Expanding([self._part(r) for r in self._rows])

    def _scatter(self, f):
        n = len(self._df)
        out = [None] * n
        for r in self._rows:
            for i, x in zip(r, f(self._part(r))._v):
                out[i] = x
        return MSeries(out)

    def cummin(self):
        return self._scatter(lambda s: s.cummin())

    def cummax(self):
        return self._scatter(lambda s: s.cummax())

    def diff(self):
        return self._scatter(lambda s: s.diff())

    def nunique(self):
        return self.apply(lambda s: s.nunique())

    def sum(self):
        return self.apply(lambda s: s.sum())

    def mean(self):
        return self.apply(lambda s: s.mean())

    def size(self):
        return MSeries([len(r) for r in self._rows], index=self._vals)

    def __getattr__(self, n):
        raise Unsupported(f"pandas GroupBy.{n} on symbolic data")


class MFrame:
    def __init__(self, data=None):
        self._c = {}
        for k, v in (data or {}).items():
            self[k] = v

    def __setitem__(self, k, v):
        if isinstance(v, (int, float, str)) or is_sym(v):
            v = [v] * len(self)
        self._c[k] = MSeries(list(v))

    def __getitem__(self, k):
        if isinstance(k, str):
            return self._c[k]
        if isinstance(k, list) and all(isinstance(x, str) for x in k):
            r = MFrame()
            for x in k:
                r._c[x] = self._c[x]
            return r
        raise Unsupported("frame indexing")

    def __len__(self):
        return len(next(iter(self._c.values()))) if self._c else 0

    @property
    def shape(self):
        return (len(self), len(self._c))

    @property
    def columns(self):
        return list(self._c)

    def _take(self, rows):
        r = MFrame()
        for k, v in self._c.items():
            r._c[k] = MSeries([v._v[i] for i in rows])
        return r

    def _rows(self, cols):
        cols = [cols] if isinstance(cols, str) else list(cols)
        for c in cols:
            if A.has_sym(self._c[c]._v):
                raise Unsupported("symbolic keys")
        return list(zip(*[self._c[c]._v for c in cols]))

    def duplicated(self, subset=None, keep="first"):
        seen, out = set(), []
        for r in self._rows(subset if subset is not None else list(self._c)):
            out.append(r in seen)
            seen.add(r)
        return MSeries(out)

    def drop_duplicates(self, subset=None, **k):
        d = self.duplicated(subset)
        return self._take([i for i, x in enumerate(d._v) if not x])

    def sort_values(self, by, ascending=True, **k):
        if ascending is not True:
            raise Unsupported("descending sort")
        rows = self._rows(by)
        return self._take(sorted(range(len(rows)), key=lambda i: rows[i]))

    def reset_index(self, drop=False, **k):
        return self

    def copy(self, *a, **k):
        return self._take(range(len(self)))

    def groupby(self, by, **k):
        by = [by] if isinstance(by, str) else list(by)
        self._rows(by)
        return _GroupBy(self, by)

    def __getattr__(self, n):
        if n in self.__dict__.get("_c", {}):
            return self._c[n]
        raise Unsupported(f"pandas DataFrame.{n} on symbolic data")


class PandasModule:
    def DataFrame(self, data=None, *a, **k):
        if not a and not k and (data is None or (isinstance(data, dict) and A.has_symarray(list(data.values())))):
            return MFrame(data)
        return pd.DataFrame(data, *a, **k)

    def __getattr__(self, n):
        return getattr(pd, n)
