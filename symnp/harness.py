"""Harness context, path exploration and obligation solving.

A harness is a function of a context.  It declares inputs, calls the code under
check and states obligations.  The same function runs
  * symbolically (inputs are solver variables; obligations go to the solver), and
  * concretely on the real code (witnesses of every path, counterexamples).
"""
import math
import os
import random
import sys
import time
import traceback
import warnings
from fractions import Fraction

import numpy as np
import z3

from . import array as A
from . import core, norm
from .core import Path, PathAbort, SBool, SReal, Stats, Unsupported, is_sym
from .patch import patched

TOL = 1e-6


class CheckFailed(Exception):
    def __init__(self, label, detail):
        super().__init__(f"{label}: {detail}")
        self.label = label
        self.detail = detail


class AssumeFailed(BaseException):
    pass


class Ctx:
    """Shared interface of both modes."""

    def __init__(self, sym, values=None, rnd=None, path=None, cfg=None):
        self.sym = sym
        self.values = values if values is not None else {}
        self.rnd = rnd
        self.path = path
        self.calls = []
        self.draws = []  # discrete draws in order
        self.folds = []  # test folds of cross-validation, in order
        self.n_rng = 0
        self.decl = {}  # name -> (lo, hi, nice)
        self.failures = []
        self.obligations = 0
        self.observed = []
        self.cfg = cfg
        self.labels = {}
        self.perturb = None
        self.binary = set()
        self.int_names = ()  # inputs given as integer arrays

    # -- inputs -------------------------------------------------------------
    def real(self, name, lo=None, hi=None, lo_open=False, hi_open=False, nice=None):
        if self.sym:
            if name in self.decl:
                return SReal(self.decl[name][3])
            v = z3.Real(name)
            p = self.path
            if lo is not None:
                p.assumptions.append(v > core.rv(lo) if lo_open else v >= core.rv(lo))
            if hi is not None:
                p.assumptions.append(v < core.rv(hi) if hi_open else v <= core.rv(hi))
            if lo is not None and lo >= 0:
                p.set_sign(v, "pos" if lo > 0 or lo_open else "nonneg")
            elif hi is not None and hi <= 0:
                p.set_sign(v, "neg" if hi < 0 or hi_open else "nonpos")
            n = nice or (lo, hi)
            n = (
                n[0] if n[0] is not None else (hi - 4 if hi is not None else -3),
                n[1] if n[1] is not None else (lo + 4 if lo is not None else 3),
            )
            self.decl[name] = (lo, hi, n, v)
            return SReal(v)
        if name not in self.values:
            if self.rnd is None:
                raise AssumeFailed(f"no value for {name}")
            n = nice or (lo, hi)
            a = n[0] if n[0] is not None else (hi - 4 if hi is not None else -3)
            b = n[1] if n[1] is not None else (lo + 4 if lo is not None else 3)
            if self.rnd.random() < 0.15:
                x = self.rnd.choice([a, b, (a + b) / 2])
            else:
                x = self.rnd.uniform(a, b)
            self.values[name] = round(x, 6)
        x = float(self.values[name])
        if self.perturb is not None and ("p", name) not in self.labels:
            self.labels[("p", name)] = True
            w = self.perturb * self.rnd.uniform(-1, 1)
            x2 = x + w
            if (lo is None or x2 > lo) and (hi is None or x2 < hi):
                x = x2
            self.values[name] = x
        if (lo is not None and (x < lo or (lo_open and x <= lo))) or (
            hi is not None and (x > hi or (hi_open and x >= hi))
        ):
            raise AssumeFailed(name)
        return np.float64(x)

    def integer(self, name, lo, hi):
        """A symbolic integer in [lo, hi] (a Python int when replayed)."""
        if self.sym:
            if name not in self.decl:
                v = z3.ToReal(z3.Int(name))
                self.path.assumptions += [v >= lo, v <= hi]
                self.decl[name] = (lo, hi, (lo, hi), v)
            return core.SInt(self.decl[name][3])
        if name not in self.values:
            if self.rnd is None:
                raise AssumeFailed(f"no value for {name}")
            self.values[name] = self.rnd.randint(lo, hi)
        x = int(round(float(self.values[name])))
        if not lo <= x <= hi:
            raise AssumeFailed(name)
        return x

    def reals(self, name, shape, **k):
        shape = (shape,) if isinstance(shape, (int, np.integer)) else tuple(shape)
        if name in self.int_names:
            if k.get("lo") == 0 and k.get("lo_open"):
                return self.typed(np.ones(shape, dtype=int))
            return self.bits(name, shape)
        out = np.empty(shape, dtype=object)
        for p in np.ndindex(shape):
            out[p] = self.real(name + "[" + ",".join(map(str, p)) + "]", **k)
        return A.sa(out) if self.sym else out.astype(float)

    def simplex(self, name, shape, positive=False):
        """Arrays whose last axis is a probability distribution."""
        shape = (shape,) if isinstance(shape, (int, np.integer)) else tuple(shape)
        out = np.empty(shape, dtype=object)
        k = shape[-1]
        if name in self.int_names and not positive:
            out[...] = 0
            for p in np.ndindex(shape[:-1]):
                # one free choice; the other rows follow it
                out[p + ((self.choice(name, k) + sum((i + 1) * j for i, j in enumerate(p))) % k,)] = 1
            return self.typed(out)
        for p in np.ndindex(shape[:-1]):
            base = name + "[" + ",".join(map(str, p)) + "]"
            if not self.sym and self.rnd is not None and k > 1 and f"{base}.0" not in self.values:
                w = [self.rnd.expovariate(1.0) for _ in range(k)]
                if not positive and self.rnd.random() < 0.2:
                    w[self.rnd.randrange(k)] = 0.0
                t = sum(w) or 1.0
                for j in range(k - 1):
                    self.values[f"{base}.{j}"] = round(w[j] / t, 6)
            acc = 0.0
            for j in range(k - 1):
                x = self.real(f"{base}.{j}", lo=0, hi=1, lo_open=positive)
                out[p + (j,)] = x
                acc = x if j == 0 else acc + x
            last = 1.0 - acc
            if self.sym:
                if k > 1:
                    e = last.e
                    self.path.assumptions.append(e > 0 if positive else e >= 0)
                    self.path.set_sign(e, "pos" if positive else "nonneg")
            else:
                if -1e-9 < last < 0:
                    last = 0.0
                if last < 0 or (positive and last <= 0):
                    raise AssumeFailed(base)
            out[p + (k - 1,)] = last
        return A.sa(out) if self.sym else out.astype(float)

    def choice(self, name, k):
        """An integer in range(k), explored exhaustively by forking."""
        k = int(k)
        if k <= 0:
            raise AssumeFailed(name)
        if self.sym:
            if name in self.values:
                return self.values[name]
            self.values[name] = self.path.choose(k) if k > 1 else 0
            return self.values[name]
        if name not in self.values:
            if self.rnd is None:
                raise AssumeFailed(f"no value for {name}")
            self.values[name] = self.rnd.randrange(k)
        v = int(self.values[name])
        if not 0 <= v < k:
            raise AssumeFailed(name)
        return v

    def pick(self, name, options):
        return options[self.choice(name, len(options))]

    def ints(self, name, shape, k, lo=0):
        shape = (shape,) if isinstance(shape, (int, np.integer)) else tuple(shape)
        out = np.zeros(shape, dtype=int)
        for p in np.ndindex(shape):
            out[p] = lo + self.choice(name + "[" + ",".join(map(str, p)) + "]", k)
        return A.int_array(out) if self.sym else out

    def bernoulli(self, name, p):
        """0/1 value: 1 only if p > 0 and 0 only if p < 1 (not forked)."""
        if self.sym:
            if name in self.decl:
                v = self.decl[name][3]
            else:
                v = z3.Real(name)
                self.path.assumptions.append(z3.Or(v == 0, v == 1))
                self.path.set_sign(v, "nonneg")
                self.decl[name] = (0, 1, (0, 1), v)
                self.binary.add(name)
            if is_sym(p):
                e = core.to_z(p)
                self.path.assumptions.append(z3.Implies(v == 1, e > 0))
                self.path.assumptions.append(z3.Implies(v == 0, e < 1))
            else:
                if not p > 0:
                    return 0.0
                if not p < 1:
                    return 1.0
            return SReal(v)
        if name not in self.values:
            if self.rnd is None:
                return 1 if p >= 1 else 0
            self.values[name] = int(self.rnd.random() < p)
        v = int(round(float(self.values[name])))
        if not is_sym(p) and ((v == 1 and p <= 0) or (v == 0 and p >= 1)):
            raise AssumeFailed(name)
        return v

    def arr(self, x):
        """A concrete float array as the code receives it."""
        x = np.array(x.tolist() if isinstance(x, np.ndarray) else x, dtype=float) if not A.has_sym(x) else x
        return A.sa(x) if self.sym else np.asarray(x, dtype=float)

    def bits(self, name, shape):
        """Array of 0/1 values (symbolic, not forked)."""
        shape = (shape,) if isinstance(shape, (int, np.integer)) else tuple(shape)
        out = np.empty(shape, dtype=object)
        for p in np.ndindex(shape):
            out[p] = self.bernoulli(name + "[" + ",".join(map(str, p)) + "]", 0.5)
        return self.typed(out)

    def typed(self, out):
        """An array of integer type (of possibly symbolic values)."""
        return out.astype(object).view(A.SymTyped) if self.sym else out.astype(int)

    # -- assumptions and obligations ------------------------------------------
    def assume(self, cond):
        conds = cond if isinstance(cond, np.ndarray) else [cond]
        for c in np.ravel(A._to_obj(conds)) if isinstance(conds, np.ndarray) else conds:
            if is_sym(c):
                self.path.assumptions.append(core.to_b(c))
                self.path.note_positive(core.to_b(c))
                self.path.decide_cache.clear()
            elif not bool(c):
                if self.sym:
                    raise PathAbort("infeasible", "assumption")
                raise AssumeFailed()

    def eq(self, label, a, b, tol=TOL):
        """a and b are equal, elementwise (up to rounding)."""
        a = A.build(a) if isinstance(a, (list, tuple)) else a
        b = A.build(b) if isinstance(b, (list, tuple)) else b
        if np.shape(a) != np.shape(b):
            self._fail(label, f"shape {np.shape(a)} instead of {np.shape(b)}")
            return
        xs, ys = np.ravel(A._to_obj(a)), np.ravel(A._to_obj(b))
        if not self.sym:
            self.obligations += 1
            for i, (x, y) in enumerate(zip(xs, ys)):
                x, y = float(x), float(y)
                self.observed.append(x)
                if x == y or (x != x and y != y):
                    continue
                if not abs(x - y) <= tol * (1.0 + abs(y)):
                    raise CheckFailed(label, f"[{i}] got {x!r}, expected {y!r}")
            return
        self.obligations += 1
        self.observed.extend(xs)
        pend = []
        for x, y in zip(xs, ys):
            if not is_sym(x) and not is_sym(y):
                x, y = float(x), float(y)
                if x == y or (x != x and y != y) or abs(x - y) <= tol * (1 + abs(y)):
                    continue
                self._fail(label, f"got {x!r}, expected {y!r}")
                return
            for v in (x, y):
                if not is_sym(v) and not math.isfinite(v):
                    self._fail(label, "a non-finite value")
                    return
            pend.append((core.to_z(x), core.to_z(y)))
        if pend:
            self._solve_eq(label, pend, tol)

    def check(self, label, cond):
        """Every given condition holds."""
        if isinstance(cond, np.ndarray):
            conds = list(np.ravel(A._to_obj(cond)))
        elif isinstance(cond, (list, tuple)):
            conds = list(cond)
        else:
            conds = [cond]
        self.obligations += 1
        if not self.sym:
            for c in conds:
                if not bool(c):
                    raise CheckFailed(label, "condition is false")
            return
        goal = []
        for c in conds:
            if is_sym(c):
                goal.append(core.to_b(c))
            elif not bool(c):
                self._fail(label, "condition is false")
                return
        if goal:
            self._solve_goal(label, z3.And(goal))

    def le(self, label, a, b, tol=TOL):
        """a <= b up to rounding in concrete mode, exactly in symbolic mode."""
        if self.sym:
            self.check(label, a <= b)
        else:
            self.check(label, np.all(np.asarray(a) <= np.asarray(b) + tol * (1 + np.abs(b))))

    def raises(self, label, fn, types=(ValueError, TypeError)):
        """fn() is rejected with an error."""
        self.obligations += 1
        try:
            fn()
        except (PathAbort, AssumeFailed):
            raise
        except Unsupported:
            raise
        except types:
            return True
        self._fail(label, "no error was raised")

    def accepts(self, label, fn):
        """fn() runs without an error; its result."""
        self.obligations += 1
        try:
            return fn()
        except Unsupported:
            raise
        except Exception as e:
            self._fail(label, f"raised {type(e).__name__}: {e}")

    def _fail(self, label, detail):
        if not self.sym:
            raise CheckFailed(label, detail)
        self.failures.append((label, detail, [], "exact"))
        if self.cfg is not None:
            raise PathAbort("failed", label)

    # -- solving ----------------------------------------------------------------
    def _solve_eq(self, label, pend, tol):
        if getattr(self, "skip_solver", False):
            return
        p = self.path
        open_ = []
        for x, y in pend:
            if x.eq(y):
                continue
            d = x - y
            n = norm.numerator(d)
            if n is not None and core.const_of(n) == 0:
                p.stats.normalised += 1
                continue
            if norm.first_ite(d) is None and norm.same_up_to_rounding(x, y):
                p.stats.normalised += 1
                continue
            open_.append((x, y, d))
        for x, y, d in open_:
            st = self._zero(d, [], 0)
            if st == "unsat":
                continue
            marg = core.rv(1e-5)
            bad = z3.Or(d > marg, d < -marg)
            box = magnitude_box(self)
            r, m = p.query([bad] + box)
            if r == "unsat":
                continue  # equal up to 1e-5 (rounded constants) for inputs of ordinary size
            # the difference relative to the value, as the replay judges it
            rel = [marg * y, -marg * y]
            bad = z3.Or(z3.And([d > marg] + [d > q for q in rel]), z3.And([-d > marg] + [-d > q for q in rel]))
            r2, m = p.query([bad] + box)
            if r2 == "unsat":
                continue
            r = "sat" if r2 == "sat" else "unknown"
            if r == "sat":
                self.failures.append((label, "values differ", [bad] + box, "margin"))
            else:
                self.failures.append((label, "not decided", [bad] + box, "unknown"))
            return

    def _zero(self, d, conds, depth):
        """'unsat' if d == 0 under the path and conds; 'sat'/'unknown' otherwise."""
        p = self.path
        n = norm.numerator(d)
        if n is not None and core.const_of(n) == 0:
            p.stats.normalised += 1
            return "unsat"
        it = norm.first_ite(d) if depth < 14 else None
        if it is not None:
            c = it.arg(0)
            res = "unsat"
            for val in (True, False):
                cc = c if val else z3.Not(c)
                r, _ = p.query(conds + [cc], timeout=3000)
                if r == "unsat":
                    continue
                d2 = z3.simplify(z3.substitute(d, (c, z3.BoolVal(val))))
                r2 = self._zero(d2, conds + [cc], depth + 1)
                if r2 != "unsat":
                    return r2
            return res
        target = n if n is not None else d
        r, _ = p.query(conds + [target != 0])
        return r

    def _solve_goal(self, label, goal):
        if getattr(self, "skip_solver", False):
            return
        r, m = self.path.query([z3.Not(goal)])
        if r == "unsat":
            return
        self.failures.append(
            (label, "condition can be false", [z3.Not(goal)], "margin" if r == "sat" else "unknown")
        )


def model_values(ctx, m):
    """Concrete inputs of a model."""
    vals = dict(ctx.values)
    for name, (lo, hi, nice, v) in ctx.decl.items():
        x = m.eval(v, model_completion=True)
        vals[name] = float(num(x))
    return vals


def num(x):
    if z3.is_algebraic_value(x):
        x = x.approx(20)
    c = core.const_of(x)
    if c is None:
        s = x.as_decimal(20).rstrip("?")
        return Fraction(s)
    return c


def nice_cons(ctx, level):
    """Constraints that keep a model away from degenerate values (no claim)."""
    out = []
    for name, (lo, hi, (a, b), v) in ctx.decl.items():
        if name in ctx.binary:
            continue
        if lo == 0 and hi == 1 and (a, b) == (0, 1):
            box = z3.And(v >= core.rv(0.05), v <= core.rv(0.95))
            if level == 0:
                out.append(box)
            elif level == 1:
                out.append(z3.Or(box, v == 0, v == 1))
            continue
        w = (b - a) * (0.02 if level <= 1 else 0.0)
        out.append(z3.And(v >= core.rv(a + w), v <= core.rv(b - w)))
        if level <= 1:
            nz = z3.Or(v > core.rv(0.01), v < core.rv(-0.01))
            out.append(nz if level == 0 else z3.Or(v == 0, nz))
    return out


# Where an equality rests on rounded constants (sqrt(n) as a double, say), and for
# every reported witness, inputs are kept at sizes at which double rounding cannot
# be mistaken for a difference.
BIG = 1e6


def magnitude_box(ctx):
    out = []
    for name, (lo, hi, nice, v) in ctx.decl.items():
        if hi is None or hi > BIG:
            out.append(v <= core.rv(BIG))
        if lo is None or lo < -BIG:
            out.append(v >= core.rv(-BIG))
    return out


def oversized(values):
    return any(isinstance(v, float) and abs(v) > 10 * BIG for v in values.values())


def find_model(ctx, extra, timeout=4000):
    p = ctx.path
    for level in (0, 1, 2, 3, None):
        cons = list(extra)
        if level == 3:
            cons += magnitude_box(ctx)
        elif level is not None:
            cons += nice_cons(ctx, level)
        r, m = p.query(cons, timeout=timeout)
        if r == "sat":
            return model_values(ctx, m), m
        if r == "unsat" and level is None:
            return "unsat", None
    return None, None


def _margin(c, neg, out):
    """Strict versions, with a margin, of the comparisons a path condition consists of."""
    if z3.is_not(c):
        return _margin(c.arg(0), not neg, out)
    if (z3.is_and(c) and not neg) or (z3.is_or(c) and neg):
        for d in c.children():
            _margin(d, neg, out)
        return
    le = z3.is_le(c) or z3.is_lt(c)
    ge = z3.is_ge(c) or z3.is_gt(c)
    if not (le or ge):
        return
    a, b = c.arg(0), c.arg(1)
    if ge:
        a, b = b, a
    if neg:
        a, b = b, a
    out.append(a + core.rv(0.001) <= b)


def robust_model(ctx, timeout=3000):
    """A model of the path away from the boundaries of its branches (rounding cannot leave the path)."""
    p = ctx.path
    cons = []
    for c in p.pc:
        _margin(c, False, cons)
    for level in (0, 1, None):
        r, m = p.query(cons + (nice_cons(ctx, level) if level is not None else []), timeout=timeout)
        if r == "sat":
            return model_values(ctx, m), m
    return None, None


_FUNCS = set()


def _prof(frame, event, arg):
    if event == "call":
        c = frame.f_code
        f = c.co_filename
        if "/obp/" in f:
            _FUNCS.add((f, c.co_qualname, c.co_firstlineno))


def run_concrete(fn, case, values, rnd=None, perturb=None, profile=False):
    """('ok'|'fail'|'error'|'reject', detail, ctx) on the real code."""
    ctx = Ctx(False, values=dict(values), rnd=rnd)
    ctx.perturb = perturb
    ctx.case = case
    case = dict(case)
    ctx.int_names = case.pop("ints", ())
    core.set_cur(None)
    try:
        with warnings.catch_warnings(), np.errstate(all="ignore"):
            warnings.simplefilter("ignore")
            with patched(ctx):
                if profile:
                    sys.setprofile(_prof)
                try:
                    fn(ctx, **{k: v for k, v in case.items() if k != "ints"})
                finally:
                    if profile:
                        sys.setprofile(None)
        return "ok", "", ctx
    except AssumeFailed as e:
        return "reject", str(e), ctx
    except CheckFailed as e:
        return "fail", str(e), ctx
    except Exception as e:
        tb = traceback.extract_tb(e.__traceback__)
        loc = next(
            (f"{os.path.basename(t.filename)}:{t.lineno}" for t in reversed(tb) if "/obp/" in t.filename),
            None,
        )
        where = loc or f"{os.path.basename(tb[-1].filename)}:{tb[-1].lineno}"
        kind = "error" if loc else "harness"
        return kind, f"{type(e).__name__}: {e} ({where})", ctx


class Result:
    def __init__(self, name, case):
        self.name = name
        self.case = case
        self.paths = 0
        self.vacuous = 0
        self.decisions = 0
        self.obligations = 0
        self.validated = 0
        self.compared = 0
        self.queries = 0
        self.solver_s = 0.0
        self.normalised = 0
        self.violation = None  # (label, values)
        self.inconclusive = []
        self.functions = set()
        self.sample = None
        self.labels = {}
        self.wall = 0.0
        self.fallback_points = 0
        self.complete = True
        self.inputs = 0


def explore(name, fn, case, seed=1, time_limit=120.0, max_paths=4000, timeout_ms=10000, verbose=False):
    res = Result(name, case)
    stats = Stats()
    stats.normalised = 0
    rnd = random.Random(f"{seed}/{name}/{case}")
    t0 = time.time()
    deadline = t0 + time_limit
    stack = [[]]
    _FUNCS.clear()

    def try_reproduce(values, n=25, first=0):
        """Replays values (and perturbations) on the real code."""
        for i in range(first, n):
            st, det, c = run_concrete(
                fn, case, values, rnd=rnd if i else None, perturb=None if i == 0 else (1e-3 if i < 6 else 0.2)
            )
            if st in ("fail", "error") and not oversized(c.values):
                return st, det, c.values
            if time.time() > deadline + 20:
                break
        return None

    def fallback(n):
        for i in range(n):
            st, det, c = run_concrete(fn, case, {}, rnd=rnd)
            if st != "reject":
                res.fallback_points += 1
            if st in ("fail", "error"):
                return st, det, c.values
            if time.time() > deadline + 30:
                break
        return None

    reasons = []
    while stack and res.violation is None:
        if time.time() > deadline or res.paths >= max_paths:
            res.complete = False
            reasons.append("time limit" if time.time() > deadline else "path limit")
            break
        prefix = stack.pop()
        path = Path(prefix, stats, timeout_ms)
        path.deadline = deadline
        core.set_cur(path)
        ctx = Ctx(True, path=path, cfg=True)
        ctx.case = case
        ctx.int_names = case.get("ints", ())
        abort = None
        try:
            with warnings.catch_warnings(), np.errstate(all="ignore"):
                warnings.simplefilter("ignore")
                with patched(ctx):
                    fn(ctx, **{k: v for k, v in case.items() if k != "ints"})
        except PathAbort as e:
            abort = ("abort", e.kind, str(e))
        except Unsupported as e:
            abort = ("unsupported", "unsupported", _loc(e))
        except Exception as e:
            abort = ("exception", type(e).__name__, _loc(e))
        finally:
            core.set_cur(None)
        for i in range(len(prefix), len(path.trace)):
            val, alt = path.trace[i]
            if alt:
                stack.append(path.trace[:i] + [(not val, False)])
        core.set_cur(path)
        res.decisions += len(path.trace)
        if abort and abort[1] == "infeasible":
            res.vacuous += 1
            core.set_cur(None)
            continue
        if abort and abort[1] == "time":
            res.complete = False
            reasons.append("time limit")
            core.set_cur(None)
            break
        res.paths += 1
        res.obligations += ctx.obligations
        res.inputs = max(res.inputs, len(ctx.decl) + len(ctx.values))
        if verbose:
            print("path", res.paths, "dec", len(path.trace), "obl", ctx.obligations, "abort", abort, "fail", ctx.failures[:2], f"{time.time()-t0:.1f}s", flush=True)
        # candidate violations
        for label, detail, extra, kind in ctx.failures:
            core.set_cur(path)
            vals, m = find_model(ctx, extra)
            core.set_cur(None)
            if vals == "unsat":
                continue
            got = None
            if isinstance(vals, dict):
                got = try_reproduce(vals)
            if got is None and isinstance(vals, dict):
                # other points of the same path
                got = None
            if got is None:
                got = fallback(60)
            if got is not None:
                res.violation = (label, got[1], got[2])
                break
            reasons.append(f"{label}: candidate ({kind}, {detail}) not reproduced")
            res.complete = False
        if res.violation:
            break
        if abort and abort[0] in ("exception", "unsupported") or (abort and abort[1] not in ("failed",)):
            core.set_cur(path)
            vals, m = find_model(ctx, [])
            core.set_cur(None)
            if vals == "unsat":
                res.vacuous += 1
                res.paths -= 1
                continue
            got = None
            if isinstance(vals, dict):
                got = try_reproduce(vals, 3)
            if got is None:
                got = fallback(30)
            if got is not None:
                res.violation = ("abnormal end", got[1], got[2])
                break
            reasons.append(f"{abort[1]}: {abort[2]}")
            res.complete = False
            if len(reasons) > 6:
                break
            continue
        if ctx.failures:
            core.set_cur(None)
            continue
        # witness of the path: vacuity guard and engine validation
        core.set_cur(path)
        vals, m = find_model(ctx, [], timeout=3000)
        core.set_cur(None)
        if vals == "unsat":
            res.vacuous += 1
            res.paths -= 1
            continue
        if isinstance(vals, dict):
            st, det, c = run_concrete(fn, case, vals, profile=True)
            bad = mismatch(ctx, path, m, c, res) if st == "ok" else None
            if st in ("fail", "error") or bad:
                # rounding may have pushed the run across a branch of the path
                core.set_cur(path)
                vals2, m2 = robust_model(ctx)
                core.set_cur(None)
                if vals2 is not None:
                    vals, m = vals2, m2
                    st, det, c = run_concrete(fn, case, vals, profile=True)
                    bad = mismatch(ctx, path, m, c, res) if st == "ok" else None
                elif bad:
                    bad = None  # the path is only a boundary: nothing to compare
                elif st == "fail":
                    # the encoding holds here; believe the run only if it also fails off the boundary
                    got = try_reproduce(vals, first=1)
                    if got is None:
                        st = "boundary"
                    else:
                        res.violation = ("path witness", got[1], got[2])
                        break
            if st == "ok":
                res.validated += 1
                if res.sample is None:
                    res.sample = {k: vals[k] for k in list(vals)[:40]}
                if bad:
                    reasons.append(f"engine mismatch: {bad}")
                    res.complete = False
            elif st in ("fail", "error") and not oversized(c.values):
                res.violation = ("path witness", det, c.values)
                break
            elif st == "harness":
                reasons.append(f"harness: {det}")
                res.complete = False
    if res.violation is None and reasons:
        got = fallback(80)
        if got is not None:
            res.violation = ("concrete fallback", got[1], got[2])
    if res.violation is not None and res.violation[1].startswith("harness"):
        pass
    if res.paths == 0 and res.violation is None:
        reasons.append("no feasible path (vacuous harness)")
        res.complete = False
    res.inconclusive = reasons
    res.queries, res.solver_s, res.normalised = stats.queries, stats.solver_s, stats.normalised
    res.functions = set(_FUNCS)
    res.wall = time.time() - t0
    return res


def mismatch(ctx, path, m, c, res):
    """First value on which the encoding and the real run differ, on the same inputs."""
    if path.ufs or path.exp_cache or len(c.observed) != len(ctx.observed):
        return None
    for a, b in zip(ctx.observed, c.observed):
        if is_sym(a):
            try:
                a = float(num(m.eval(core.to_z(a), model_completion=True)))
            except Exception:
                continue
        if a == a and abs(a - b) > 1e-4 * (1 + abs(b)):
            return f"{a} vs {b}"
        res.compared += 1
    return None


def _loc(e):
    tb = traceback.extract_tb(e.__traceback__)
    w = [f"{os.path.basename(t.filename)}:{t.lineno}" for t in tb[-3:]]
    o = [f"{os.path.basename(t.filename)}:{t.lineno}" for t in tb if "/obp/" in t.filename][-1:]
    return f"{type(e).__name__}: {e} at {' < '.join(reversed(w))} {o}"
