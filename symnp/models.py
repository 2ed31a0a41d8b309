"""Stub machine-learning models: arbitrary functions of the feature vector.

A fitted stub is an arbitrary (symbolic) function of the row it predicts for:
equal rows get equal predictions, different rows unrelated ones.  Every fit is
recorded, so a harness can state what a model must have been trained on.
"""
import numpy as np

from . import array as A
from .core import Unsupported, is_sym


def rows(X, symbolic=False):
    """Feature rows as tuples (of concrete values unless symbolic)."""
    o = A._to_obj(X if isinstance(X, np.ndarray) else np.asarray(X))
    if o.ndim != 2:
        raise ValueError(f"Expected 2D array, got shape {o.shape}")
    out = []
    for i in range(o.shape[0]):
        r = []
        for v in o[i]:
            if is_sym(v):
                if symbolic:
                    r.append(v)
                    continue
                raise Unsupported("symbolic feature given to a stub model")
            r.append(round(float(v), 6) + 0.0)
        out.append(tuple(r))
    return out


def fmt(row):
    return "(" + ",".join(f"{v:g}" for v in row) + ")"


class Fit:
    """One call of fit."""

    def __init__(self, X, y, w, owner):
        self.X = rows(X, True)
        self.y = list(A._to_obj(y).ravel())
        self.w = None if w is None else list(A._to_obj(w).ravel())
        self.owner = owner


def make_model(ctx, kind, name="model", labels=None, wide=False):
    """A model class whose instances are arbitrary functions once fitted.

    kind: "classifier" or "regressor"; labels: classes of the classifier when
    the training labels are symbolic; wide: with many classes, the probability
    of the c-th class is c + 1 times an arbitrary number per feature row
    and the predicted class a fixed function of it.
    """
    from sklearn.base import BaseEstimator, ClassifierMixin, RegressorMixin

    mixin = ClassifierMixin if kind == "classifier" else RegressorMixin
    fits = []

    class Model(BaseEstimator, mixin):
        def __init__(self, cv=None):
            self.id = None
            self.cv = cv  # folds of probability calibration

        def get_params(self, deep=True):
            return {"cv": self.cv}

        def __deepcopy__(self, memo):
            m = type(self)()
            m.__dict__.update(self.__dict__)
            return m

        def fit(self, X, y, sample_weight=None):
            n = len(X)
            if n == 0:
                raise ValueError("Found array with 0 sample(s)")
            if len(y) != n or (sample_weight is not None and len(sample_weight) != n):
                raise ValueError("Found input variables with inconsistent numbers of samples")
            f = Fit(X, y, sample_weight, self)
            f.cv = self.cv
            self.id = len(fits)
            fits.append(f)
            if kind == "classifier":
                if labels is not None:
                    self.classes_ = np.array(labels)
                else:
                    self.classes_ = np.unique([int(v) for v in f.y])
            return self

        def _ready(self):
            if self.id is None:
                from sklearn.exceptions import NotFittedError

                raise NotFittedError("not fitted")

        def predict_proba(self, X):
            if kind != "classifier":
                raise AttributeError("predict_proba")
            self._ready()
            rs = rows(X)
            if not rs:
                raise ValueError("Found array with 0 sample(s)")
            out = np.empty((len(rs), len(self.classes_)), dtype=object)
            for i, r in enumerate(rs):
                out[i] = proba(self.id, r, len(self.classes_))
            return A.sa(out) if ctx.sym else out.astype(float)

        def decision_function(self, X):
            raise AttributeError("decision_function")

        def predict(self, X):
            self._ready()
            rs = rows(X)
            if not rs:
                raise ValueError("Found array with 0 sample(s)")
            if kind == "regressor":
                out = np.empty(len(rs), dtype=object)
                for i, r in enumerate(rs):
                    out[i] = value(self.id, r)
                return A.sa(out) if ctx.sym else out.astype(float)
            out = [self.classes_[label(self.id, r, len(self.classes_))] for r in rs]
            return A.int_array(np.array(out)) if ctx.sym else np.array(out)

    def proba(mid, row, k):
        """Class probabilities of model mid at a feature row."""
        if wide:
            v = ctx.real(f"{name}{mid}{fmt(row)}", lo=0, hi=1.0 / (2 * k), lo_open=True)
            return [v * float(c + 1) for c in range(k)]
        p = ctx.simplex(f"{name}{mid}{fmt(row)}", k, positive=True)
        return list(A._to_obj(p))

    def value(mid, row):
        return ctx.real(f"{name}{mid}{fmt(row)}", nice=(-2, 2))

    def label(mid, row, k):
        if wide:
            return int(sum((j + 3) * 17 * v for j, v in enumerate(row))) % k
        return ctx.choice(f"{name}{mid}{fmt(row)}", k)

    Model.fits = fits
    Model.proba = staticmethod(proba)
    Model.value = staticmethod(value)
    Model.label = staticmethod(label)
    return Model


def calibrated(estimator=None, *, cv=None, base_estimator=None, **k):
    """CalibratedClassifierCV of a stub is a stub; of a real model, the real thing."""
    from sklearn.calibration import CalibratedClassifierCV

    m = estimator if estimator is not None else base_estimator
    if hasattr(type(m), "fits"):
        return type(m)(cv=cv)
    return CalibratedClassifierCV(estimator=m, cv=cv, **k)
