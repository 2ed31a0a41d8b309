"""Many ways of writing array computations (loaded as a module of obp, so that the environment is replaced in it)."""
import functools
import itertools
import math
import operator

import numpy as np
import pandas as pd
from scipy import special
from scipy.special import expit, logsumexp, softmax as sp_softmax

I4 = np.array([1, 3, 0])
G = np.array([0, 1, 0])
R = np.arange(3)

E = {
    "einsum": lambda x, w: np.einsum("ij,i->j", x, w),
    "einsum2": lambda x, w: np.einsum("ij,ij->i", x, x),
    "einsum3": lambda x, w: np.einsum("...j,j", x, x[0]),
    "einsum4": lambda x, w: np.einsum("ij,kj->ik", x, x),
    "take_along_axis": lambda x, w: np.take_along_axis(x, I4[:, None], axis=1)[:, 0],
    "take": lambda x, w: np.take(x, I4, axis=1),
    "take2": lambda x, w: x.take([0, 2], axis=0),
    "choose": lambda x, w: np.choose([0, 1, 2, 0], x),
    "put_along_axis": lambda x, w: (lambda y: (np.put_along_axis(y, I4[:, None], 9.0, axis=1), y)[1])(x.copy()),
    "average": lambda x, w: np.average(x, axis=0, weights=w),
    "average2": lambda x, w: np.average(x[:, 0], weights=w),
    "average3": lambda x, w: np.average(x),
    "clip": lambda x, w: np.clip(x, None, 1.0),
    "clip2": lambda x, w: x.clip(-1, 1),
    "clip3": lambda x, w: np.clip(x, a_min=0.0, a_max=np.inf),
    "clip4": lambda x, w: x.clip(max=1),
    "where": lambda x, w: np.where(x > 0.6, x, 0.0),
    "where1": lambda x, w: np.where(x[0] > 0.6)[0],
    "nonzero": lambda x, w: np.nonzero(x[0] > 0.6)[0],
    "flatnonzero": lambda x, w: np.flatnonzero(x > 0.6),
    "argwhere": lambda x, w: np.argwhere(x > 0.6),
    "count_nonzero": lambda x, w: np.count_nonzero(x > 0.6),
    "count_nonzero2": lambda x, w: np.count_nonzero(x > 0.6, axis=1),
    "add.at": lambda x, w: (lambda y: (np.add.at(y, G, x[:, 0]), y)[1])(np.zeros(2)),
    "add.at2": lambda x, w: (lambda y: (np.add.at(y, (G, I4), 1.5), y)[1])(x.copy()),
    "bincount": lambda x, w: np.bincount(G, weights=x[:, 0]),
    "bincount2": lambda x, w: np.bincount(G, weights=w, minlength=4),
    "add.reduceat": lambda x, w: np.add.reduceat(x[0], [0, 2]),
    "add.reduce": lambda x, w: np.add.reduce(x, axis=1),
    "multiply.reduce": lambda x, w: np.multiply.reduce(x, axis=1),
    "maximum.reduce": lambda x, w: np.maximum.reduce(x),
    "maximum.accumulate": lambda x, w: np.maximum.accumulate(x[0]),
    "add.outer": lambda x, w: np.add.outer(w, w),
    "subtract.outer": lambda x, w: np.subtract.outer(w, w),
    "outer": lambda x, w: np.outer(w, x[0]),
    "multiply.outer": lambda x, w: np.multiply.outer(w, x[0]),
    "inner": lambda x, w: np.inner(w, w),
    "vdot": lambda x, w: np.vdot(w, w),
    "dot": lambda x, w: np.dot(w, x),
    "dotm": lambda x, w: x.T.dot(w),
    "matmul": lambda x, w: w @ x,
    "matmul2": lambda x, w: x @ x.T,
    "matmul3": lambda x, w: np.matmul(x[None], x.T[None]),
    "tensordot": lambda x, w: np.tensordot(x, w, axes=(0, 0)),
    "tensordot2": lambda x, w: np.tensordot(w, x, axes=1),
    "kron": lambda x, w: np.kron(w, [1.0, 2.0]),
    "unique": lambda x, w: np.unique(x),
    "unique2": lambda x, w: np.unique(np.round(x), return_counts=True)[1],
    "isin": lambda x, w: np.isin(x, [0.5, 2.0]),
    "in1d": lambda x, w: np.in1d(x[0], [0.5, 2.0]),
    "sumwhere": lambda x, w: np.sum(x, axis=1, where=x > 0),
    "meanwhere": lambda x, w: np.mean(x, axis=1, where=x > 0),
    "method sum where": lambda x, w: x.sum(where=x > 0),
    "sum initial": lambda x, w: np.sum(x, axis=0, initial=1.0),
    "max initial": lambda x, w: np.max(x, axis=0, initial=1.0),
    "sum keepdims": lambda x, w: x / x.sum(axis=1, keepdims=True),
    "sum tuple axis": lambda x, w: x.sum(axis=(0, 1)),
    "builtin sum": lambda x, w: sum(x),
    "builtin sum2": lambda x, w: sum(a * b for a, b in zip(w, w)),
    "math.fsum": lambda x, w: math.fsum(w),
    "math.sqrt": lambda x, w: math.sqrt(w[0] * w[0]),
    "math.log": lambda x, w: math.log(w[0]) - np.log(w[0]),
    "math.exp": lambda x, w: math.exp(w[0]) - np.exp(w[0]),
    "math.prod": lambda x, w: math.prod(list(w)),
    "math.isclose": lambda x, w: math.isclose(w[0], 0.2),
    "math.isinf": lambda x, w: math.isinf(w[0]),
    "math.isnan": lambda x, w: math.isnan(w[0]),
    "math.isfinite": lambda x, w: math.isfinite(w[0]),
    "math.ceil": lambda x, w: math.ceil(x[0, 0]),
    "math.floor": lambda x, w: math.floor(x[0, 1]),
    "math.fabs": lambda x, w: math.fabs(x[0, 1]),
    "math.pow": lambda x, w: math.pow(x[0, 1], 2),
    "builtin max": lambda x, w: max(w),
    "builtin max2": lambda x, w: max(range(3), key=lambda i: w[i]),
    "builtin min": lambda x, w: min(w[0], w[1]),
    "builtin sorted": lambda x, w: np.array(sorted(x[0])),
    "builtin sorted key": lambda x, w: np.array(sorted(range(4), key=lambda i: -x[0, i])),
    "builtin abs": lambda x, w: abs(x),
    "builtin pow": lambda x, w: pow(x, 2),
    "builtin round": lambda x, w: round(x[0, 0], 1),
    "builtin any": lambda x, w: any(v < 0 for v in x.ravel()),
    "builtin all": lambda x, w: all(x.ravel() < 5),
    "float()": lambda x, w: float(w[0]),
    "float() arr": lambda x, w: float(np.mean(w)),
    "item": lambda x, w: w[0].item() + x.sum().item(),
    "tolist": lambda x, w: np.array(x.tolist()),
    "nan_to_num": lambda x, w: np.nan_to_num(x),
    "ix_": lambda x, w: x[np.ix_([0, 2], [1, 3])],
    "cumsum": lambda x, w: x.cumsum(axis=1),
    "cumsum0": lambda x, w: np.cumsum(x, axis=0),
    "cumprod": lambda x, w: np.cumprod(x, axis=1),
    "searchsorted": lambda x, w: np.searchsorted(np.cumsum(w), 0.4),
    "digitize": lambda x, w: np.digitize(0.4, np.cumsum(w)),
    "argsort": lambda x, w: np.argsort(x, axis=1),
    "argsort desc": lambda x, w: np.argsort(-x, axis=1)[:, :2],
    "argsort method": lambda x, w: x[0].argsort()[::-1],
    "argsort stable": lambda x, w: np.argsort(x[0], kind="stable"),
    "lexsort": lambda x, w: np.lexsort((x[0], np.array([0, 1, 0, 1]))),
    "argpartition": lambda x, w: np.argpartition(x[0], 1)[:1],
    "sort": lambda x, w: np.sort(x, axis=0),
    "sort inplace": lambda x, w: (lambda y: (y.sort(), y)[1])(x.copy()),
    "partition": lambda x, w: np.partition(x[0], 1)[0],
    "argmax": lambda x, w: x.argmax(axis=1),
    "argmin": lambda x, w: np.argmin(x),
    "nanargmax": lambda x, w: np.nanargmax(x, axis=1),
    "unravel": lambda x, w: np.unravel_index(np.argmax(x), x.shape),
    "max": lambda x, w: x.max(1),
    "amax": lambda x, w: np.amax(x, axis=0),
    "ptp": lambda x, w: np.ptp(x, axis=1),
    "quantile": lambda x, w: np.quantile(x, 0.3, axis=1),
    "percentile": lambda x, w: np.percentile(x[0], [25, 75]),
    "median": lambda x, w: np.median(x, axis=1),
    "nanmean": lambda x, w: np.nanmean(x, axis=1),
    "nansum": lambda x, w: np.nansum(x, axis=1),
    "nanmax": lambda x, w: np.nanmax(x),
    "nanvar": lambda x, w: np.nanvar(x, axis=1),
    "std": lambda x, w: np.std(x, axis=1, ddof=1) ** 2,
    "var": lambda x, w: x.var(ddof=1),
    "cov": lambda x, w: np.cov(x[0], ddof=1),
    "broadcast_to": lambda x, w: np.broadcast_to(w[:, None], (3, 4)) * x,
    "stack": lambda x, w: np.stack([w, w], axis=-1),
    "hstack": lambda x, w: np.hstack([x, x]),
    "vstack": lambda x, w: np.vstack((x, x[0])),
    "dstack": lambda x, w: np.dstack((x, x)),
    "column_stack": lambda x, w: np.column_stack([w, x]),
    "concatenate": lambda x, w: np.concatenate([x, w[:, None]], axis=1),
    "append": lambda x, w: np.append(w, 1.0),
    "c_": lambda x, w: np.c_[x, w],
    "r_": lambda x, w: np.r_[w, 1.0],
    "block": lambda x, w: np.block([x, w[:, None]]),
    "tile": lambda x, w: np.tile(w, (2, 1)),
    "repeat": lambda x, w: np.repeat(x, 2, axis=0),
    "repeat method": lambda x, w: w.repeat(2),
    "repeat list": lambda x, w: np.repeat(w, [1, 2, 0]),
    "delete": lambda x, w: np.delete(x, 1, axis=1),
    "insert": lambda x, w: np.insert(w, 0, 1.0),
    "split": lambda x, w: np.split(x, 2, axis=1)[1],
    "array_split": lambda x, w: np.array_split(x, 2)[0],
    "flip": lambda x, w: np.flip(x, axis=1),
    "fliplr": lambda x, w: np.fliplr(x),
    "roll": lambda x, w: np.roll(x, 1, axis=1),
    "rot90": lambda x, w: np.rot90(x),
    "swapaxes": lambda x, w: x.swapaxes(0, 1),
    "moveaxis": lambda x, w: np.moveaxis(x, 0, 1),
    "transpose": lambda x, w: np.transpose(x),
    "expand_dims": lambda x, w: np.expand_dims(x, 1),
    "squeeze": lambda x, w: np.squeeze(x[:, :1]),
    "atleast": lambda x, w: np.atleast_2d(w),
    "atleast3": lambda x, w: np.atleast_3d(x),
    "ravel": lambda x, w: np.ravel(x, order="F"),
    "reshape": lambda x, w: np.reshape(x, (4, 3)),
    "reshape-1": lambda x, w: x.reshape(-1, 2),
    "flatten": lambda x, w: x.flatten(),
    "flat": lambda x, w: np.array(list(x.flat)),
    "diag": lambda x, w: np.diag(w),
    "diag2": lambda x, w: np.diag(x @ x.T),
    "diagonal": lambda x, w: (x @ x.T).diagonal(),
    "trace": lambda x, w: np.trace(x @ x.T),
    "eye": lambda x, w: np.eye(3) * w,
    "identity": lambda x, w: np.identity(3) + w,
    "one hot": lambda x, w: np.eye(4)[I4] * x,
    "triu": lambda x, w: np.triu(x @ x.T),
    "tril": lambda x, w: np.tril(x),
    "diff": lambda x, w: np.diff(x, axis=1),
    "ediff1d": lambda x, w: np.ediff1d(w),
    "gradient": lambda x, w: np.gradient(w),
    "cross": lambda x, w: np.cross(w, w[::-1]),
    "apply_along_axis": lambda x, w: np.apply_along_axis(lambda r: r[0] - r[1], 1, x),
    "vectorize": lambda x, w: np.vectorize(lambda v: v * 2)(w),
    "fromiter": lambda x, w: np.fromiter((v * 2 for v in w), dtype=float),
    "fromiter2": lambda x, w: np.fromiter((v * 2 for v in w), dtype=float, count=3),
    "frompyfunc": lambda x, w: np.frompyfunc(lambda v: v * 2, 1, 1)(w).astype(float),
    "array of list": lambda x, w: np.array([v * 2 for v in w]),
    "asarray": lambda x, w: np.asarray([[a, b] for a, b in zip(w, w)], dtype=float),
    "asarray2": lambda x, w: np.asarray(x, dtype=np.float64),
    "ascontiguous": lambda x, w: np.ascontiguousarray(x.T),
    "empty fill": lambda x, w: (lambda y: (y.__setitem__(slice(None), w), y)[1])(np.empty(3)),
    "empty_like": lambda x, w: (lambda y: (y.__setitem__(slice(None), 1.0), y)[1])(np.empty_like(x)),
    "full": lambda x, w: np.full(3, w[0]),
    "full_like": lambda x, w: np.full_like(x, w[0]),
    "zeros_like": lambda x, w: np.zeros_like(x) + x,
    "ones": lambda x, w: np.ones(3) * w,
    "copy": lambda x, w: np.copy(x),
    "copyto": lambda x, w: (lambda y: (np.copyto(y, w), y)[1])(np.zeros(3)),
    "putmask": lambda x, w: (lambda y: (np.putmask(y, y > 0.6, 0.0), y)[1])(x.copy()),
    "place": lambda x, w: (lambda y: (np.place(y, y > 0.6, [0.0]), y)[1])(x.copy()),
    "put": lambda x, w: (lambda y: (np.put(y, [0, 2], [9.0, 8.0]), y)[1])(w.copy()),
    "fill": lambda x, w: (lambda y: (y.fill(2.0), y)[1])(w.copy()),
    "fill_diagonal": lambda x, w: (lambda y: (np.fill_diagonal(y, 0.0), y)[1])(x @ x.T),
    "compress": lambda x, w: np.compress([True, False, True], x, axis=0),
    "extract": lambda x, w: np.extract(x > 0.6, x),
    "mask": lambda x, w: x[x > 0.6],
    "mask rows": lambda x, w: x[G == 0],
    "mask rows2": lambda x, w: x[~(w > 0.25)],
    "mask set": lambda x, w: (lambda y: (y.__setitem__(y > 0.6, 0.0), y)[1])(x.copy()),
    "mask set2": lambda x, w: (lambda y: (y.__setitem__(y > 0.6, y[y > 0.6] * 2), y)[1])(x.copy()),
    "mask iadd": lambda x, w: (lambda y, m: (y.__setitem__(m, y[m] + 1), y)[1])(x.copy(), x > 0.6),
    "mask mult": lambda x, w: (x > 0.6) * x,
    "mask astype": lambda x, w: (x > 0.6).astype(float) * x,
    "mask astype int": lambda x, w: (x > 0.6).astype(int).sum(),
    "logical": lambda x, w: np.logical_and(x > 0, x < 1),
    "logical2": lambda x, w: (x > 0) & ~(x < 1) | (x == 2),
    "logical_or.reduce": lambda x, w: np.logical_or.reduce(x > 0, axis=1),
    "select": lambda x, w: np.select([x > 1, x > 0], [x, -x], 0.0),
    "piecewise": lambda x, w: np.piecewise(w, [w > 0.25], [lambda v: v * 2, 0.0]),
    "heaviside": lambda x, w: np.heaviside(x, 0.5),
    "sign": lambda x, w: np.sign(x),
    "fmax": lambda x, w: np.fmax(x, 0.0),
    "square": lambda x, w: np.square(x),
    "power": lambda x, w: np.power(x, 2),
    "float_power": lambda x, w: np.float_power(x, 2),
    "reciprocal": lambda x, w: np.reciprocal(w),
    "negative": lambda x, w: np.negative(x),
    "positive": lambda x, w: +x,
    "abs": lambda x, w: np.absolute(x) + np.fabs(x),
    "divide out where": lambda x, w: np.divide(w, w, out=np.zeros_like(w), where=w > 0.25),
    "divide where": lambda x, w: np.divide(w, x[:, 0], out=np.zeros(3), where=x[:, 0] > 0.25),
    "multiply out": lambda x, w: (lambda y: (np.multiply(x, 2, out=y), y)[1])(np.zeros((3, 4))),
    "true_divide": lambda x, w: np.true_divide(x, 2),
    "floor_divide": lambda x, w: x // 1,
    "mod": lambda x, w: np.mod(x, 1.0),
    "floor": lambda x, w: np.floor(x) + np.ceil(x) + np.trunc(x) + np.rint(x),
    "round": lambda x, w: x.round(1),
    "log": lambda x, w: np.log(w) - np.log(w),
    "log1p": lambda x, w: np.log1p(w) - np.log(1 + w),
    "expm1": lambda x, w: np.expm1(w) - np.exp(w) + 1,
    "exp": lambda x, w: np.exp(w) * np.exp(-w),
    "log2": lambda x, w: np.log2(w) - np.log(w) / np.log(2),
    "sqrt": lambda x, w: np.sqrt(w) ** 2,
    "hypot": lambda x, w: np.hypot(w, w) ** 2,
    "isclose": lambda x, w: np.isclose(w, [0.2, 0.4, 0.5]),
    "allclose": lambda x, w: np.allclose(w.sum(), 1),
    "array_equal": lambda x, w: np.array_equal(w, w[::-1]),
    "isfinite": lambda x, w: np.isfinite(x).all(),
    "isinf": lambda x, w: np.isinf(x).any(),
    "all": lambda x, w: np.all(x < 5),
    "any": lambda x, w: (x < 0).any(axis=1),
    "alltrue": lambda x, w: bool((x < 5).all()),
    "linalg.solve": lambda x, w: np.linalg.solve(np.eye(3) * 2.0 + np.outer(w, w), w),
    "linalg.inv": lambda x, w: np.linalg.inv(np.eye(2) + np.outer(w[:2], w[:2])),
    "linalg.pinv": lambda x, w: np.linalg.pinv(np.eye(2) + np.outer(w[:2], w[:2])),
    "linalg.norm": lambda x, w: np.linalg.norm(w) ** 2,
    "linalg.norm2": lambda x, w: np.linalg.norm(x, axis=1) ** 2,
    "linalg.det": lambda x, w: np.linalg.det(np.eye(2) + np.outer(w[:2], w[:2])),
    "linalg.multi_dot": lambda x, w: np.linalg.multi_dot([w, x, x.T]),
    "linalg.matrix_power": lambda x, w: np.linalg.matrix_power(x @ x.T, 2),
    "meshgrid": lambda x, w: np.meshgrid(w, w)[0],
    "convolve": lambda x, w: np.convolve(w, [1.0, 1.0]),
    "interp": lambda x, w: np.interp(0.5, [0.0, 1.0], [1.0, 2.0]) * w,
    "pad": lambda x, w: np.pad(w, (1, 0)),
    "newaxis": lambda x, w: x * w[:, np.newaxis],
    "ellipsis": lambda x, w: x[..., 0],
    "neg idx": lambda x, w: x[:, -1] + x[-1, :3],
    "fancy": lambda x, w: x[R, I4],
    "fancy set": lambda x, w: (lambda y: (y.__setitem__((R, I4), w), y)[1])(x.copy()),
    "fancy list": lambda x, w: x[[0, 1, 2], I4.tolist()],
    "functools.reduce": lambda x, w: functools.reduce(operator.mul, w),
    "accumulate": lambda x, w: np.array(list(itertools.accumulate(w))),
    "enumerate": lambda x, w: sum(i * v for i, v in enumerate(w)),
    "ndenumerate": lambda x, w: sum(v * i[0] for i, v in np.ndenumerate(x)),
    "ndindex": lambda x, w: sum(x[i] for i in np.ndindex(x.shape)),
    "nditer": lambda x, w: sum(v for v in np.nditer(x)),
    "map": lambda x, w: np.array(list(map(lambda a, b: a - b, w, x[:, 0]))),
    "zip star": lambda x, w: np.array(list(zip(*x))),
    "dict": lambda x, w: np.array(list({i: v for i, v in enumerate(w)}.values())),
    "len": lambda x, w: len(x) * w,
    "shape": lambda x, w: w / x.shape[0] + x.size + x.ndim,
    "T": lambda x, w: x.T / 2,
    "ternary": lambda x, w: 1.0 if w[0] > 0.1 else 0.0,
    "chained": lambda x, w: 0 < w[0] < 1,
    "isinstance": lambda x, w: isinstance(w[0], float),
    "isinstance np": lambda x, w: isinstance(w[0], np.floating),
    "isscalar": lambda x, w: np.isscalar(w[0]),
    "isinstance arr": lambda x, w: isinstance(w, np.ndarray),
    "np.float64()": lambda x, w: np.float64(w[0]),
    "np.array(scalar)": lambda x, w: np.array(w[0]) + 1,
    "dtype": lambda x, w: np.zeros(3, dtype=w.dtype) + w,
    "result_type": lambda x, w: np.zeros(3, dtype=float) + w,
    "astype copy": lambda x, w: x.astype(float, copy=True),
    "astype f64": lambda x, w: x.astype(np.float64),
    "astype f32": lambda x, w: (x * 4).astype(np.float32) / 4,
    "prod": lambda x, w: x.prod(axis=1),
    "mean method": lambda x, w: x.mean(axis=0, keepdims=True),
    "mean of bool": lambda x, w: (x > 0).mean(),
    "sum of bool": lambda x, w: (x > 0).sum(axis=1),
    "divmod": lambda x, w: np.divmod(x, 1.0)[1],
    "inplace": lambda x, w: (lambda y: (y.__iadd__(1), y)[1])(x.copy()),
    "slice inplace": lambda x, w: (lambda y: (y[1:].__imul__(2), y)[1])(x.copy()),
    "maximum": lambda x, w: np.maximum(x, np.array(0.5)),
    "minimum": lambda x, w: np.minimum(x, w[:, None]),
    "cumsum manual": lambda x, w: np.array([w[: i + 1].sum() for i in range(3)]),
    "groupby": lambda x, w: np.array([w[G == g].sum() for g in np.unique(G)]),
    "logaddexp": lambda x, w: np.logaddexp(w, w) - w - np.log(2),
    "as_strided": lambda x, w: np.lib.stride_tricks.sliding_window_view(w, 2).sum(axis=1),
    "histogram": lambda x, w: np.histogram(w, bins=[0, 0.25, 1.0])[0],
    "trapz": lambda x, w: np.trapz(w),
    "poly": lambda x, w: np.polyval([1.0, 2.0], w),
    "union": lambda x, w: np.union1d(w, [0.2]),
    "setdiff": lambda x, w: np.setdiff1d(w, [0.2]),
    "nan compare": lambda x, w: np.isnan(w).sum(),
    "sp.softmax": lambda x, w: sp_softmax(x, axis=1).sum(axis=1),
    "sp.expit": lambda x, w: expit(w) - 1 / (1 + np.exp(-w)),
    "sp.special.expit": lambda x, w: special.expit(w) - 1 / (1 + np.exp(-w)),
    "sp.softmax2": lambda x, w: special.softmax(w)[0] * np.exp(w).sum() - np.exp(w[0]),
    "3d idx": lambda x, w: np.stack([x, x + 1], axis=2)[R, I4, G],
    "3d idx2": lambda x, w: np.stack([x, x + 1], axis=2)[R, :, G],
    "3d einsum": lambda x, w: np.einsum("ijk,ij->ik", np.stack([x, x + 1], axis=2), x),
    "3d sum": lambda x, w: (np.stack([x, x + 1], axis=2) * x[:, :, None]).sum(1),
    "3d take": lambda x, w: np.take_along_axis(np.stack([x, x + 1], axis=2), G[:, None, None], axis=2).squeeze(-1),
    "3d swap": lambda x, w: np.transpose(np.stack([x, x + 1], axis=2), (2, 0, 1)),
    "3d tensordot": lambda x, w: np.tensordot(np.stack([x, x + 1], axis=2), [1.0, 2.0], axes=([2], [0])),
    "zeros int idx": lambda x, w: (lambda z: (z.__setitem__((R, I4), 1), z)[1])(np.zeros((3, 4), dtype=int)) * x,
    "int mask": lambda x, w: (I4[:, None] == np.arange(4)[None, :]) * x,
    "int mask where": lambda x, w: np.where(np.arange(4) == I4[:, None], x, 0).sum(axis=1),
    "bool array": lambda x, w: np.zeros(3, dtype=bool) | (w > 0.25),
    "any loop": lambda x, w: [bool(v > 0.25) for v in w],
    "count loop": lambda x, w: sum(1 for v in w if v > 0.25),
    "counter": lambda x, w: np.array([list(G).count(g) for g in set(G.tolist())]) * 1.0,
    "ravel_multi": lambda x, w: x.ravel()[np.ravel_multi_index((R, I4), x.shape)],
    "unravel2": lambda x, w: x[np.unravel_index([1, 5], (3, 4))],
    "np.r index": lambda x, w: x[np.r_[0, 2]],
    "slice obj": lambda x, w: x[slice(0, 2)],
    "while": lambda x, w: _loop(w),
    "lambda sort": lambda x, w: np.array([v for _, v in sorted(zip(I4.tolist(), list(w)))]),
    "max default": lambda x, w: max([v for v in w if v > 5], default=0.0),
    "np.max of list": lambda x, w: np.max([w[0], w[1], 0.1]),
    "np.mean of list": lambda x, w: np.mean([w[0], w[1], 0.1]),
    "np.sum of gen": lambda x, w: np.sum([v for v in w]),
    "np.array dtype": lambda x, w: np.array([w, w], dtype=np.float64),
    "np.asarray f": lambda x, w: np.asarray(w, float),
    "len nonzero": lambda x, w: len(np.nonzero(w > 0.25)[0]),
    "flatnonzero idx": lambda x, w: w[np.flatnonzero(w > 0.25)],
    "ufunc where": lambda x, w: np.add(w, 1.0, where=[True, True, True]),
    "np.power arr": lambda x, w: w ** np.array([1, 2, 3]),
    "inf": lambda x, w: np.minimum(w, np.inf),
    "-inf": lambda x, w: np.maximum(w, -np.inf),
    "nan where": lambda x, w: np.where(np.isnan(w), 0.0, w),
    "inf where": lambda x, w: np.where(np.isinf(w), 1.0, w),
    "where inf": lambda x, w: np.where(w > 0.25, w, -np.inf).max(),
    "where inf argmax": lambda x, w: np.where(np.arange(3) == 2, -np.inf, w).argmax(),
    "ma": lambda x, w: np.where(w > 0.25, w, 0).sum() / np.maximum((w > 0.25).sum(), 1),
    "errstate": lambda x, w: _err(w),
    "walrus": lambda x, w: (s := w.sum()) * s,
    "starred": lambda x, w: np.array([*w, *w]),
    "f-string": lambda x, w: len(f"{w[0]}") * 0.0,
    "dict sum": lambda x, w: sum({"a": w[0], "b": w[1]}.values()),
    "divide const": lambda x, w: np.divide(1, w),
    "floor div len": lambda x, w: w[: len(w) // 2 + 1],
    "np.abs": lambda x, w: np.abs(x - x.mean()),
    "np.float32": lambda x, w: w.astype("float64"),
    "astype str": lambda x, w: w.astype("f8"),
    "order": lambda x, w: x.flatten("F"),
    "view": lambda x, w: x.view(),
    "nan init": lambda x, w: _naninit(w),
    "resize": lambda x, w: np.resize(w, 5),
    "cumsum rev": lambda x, w: np.cumsum(w[::-1])[::-1],
    "minmax": lambda x, w: (w - w.min()) / (w.max() - w.min()),
    "polyadd": lambda x, w: np.add(w, w, dtype=float),
    "sum dtype": lambda x, w: w.sum(dtype=float),
    "list.index": lambda x, w: list(I4).index(3) * w[0],
    "np.all list": lambda x, w: np.all([w[0] > 0, w[1] > 0]),
    "not any": lambda x, w: not np.any(w > 5),
    "is True": lambda x, w: (w[0] > 0.1) == True,
    "bool()": lambda x, w: bool(w[0] > 0.1),
    "int()": lambda x, w: int(w[0] > 0.1),
    "np.bool": lambda x, w: (w > 0.25).astype(bool),
    "and or": lambda x, w: (w[0] > 0.1) and (w[1] > 0.1),
    "xor": lambda x, w: np.logical_xor(w > 0.25, w > 0.4),
    "sum of eq": lambda x, w: (w == w[0]).sum(),
    "argmax bool": lambda x, w: np.argmax(w > 0.25),
    "pd.Series": lambda x, w: pd.Series(w).mean() if not hasattr(w, "view") else np.mean(w),
}


def _loop(w):
    i, t = 0, 0.0
    while i < len(w):
        if w[i] < 0.25:
            i += 1
            continue
        t += w[i]
        i += 1
    return t


def _err(w):
    with np.errstate(divide="ignore", invalid="ignore"):
        return w / w.sum()


def _naninit(w):
    r = np.full(3, np.nan)
    for i in range(3):
        r[i] = w[i]
    return r
