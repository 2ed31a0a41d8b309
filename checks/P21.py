"""P21: logged data files become aligned, time-ordered bandit data."""
import contextlib
import pathlib

import pandas

from symnp.api import *
from symnp.patch import real_pandas
from checks.common import ctx_arr
from obp.dataset import OpenBanditDataset

BOUNDS = (
    "2-4 logged rows with 2 user features, 3 items; clicks and propensities arbitrary reals, every order of the time "
    "stamps, every item and position in a small range, every test share and every resampled row"
)
ASSUMPTIONS = ["time stamps are distinct; the item file lists the items in the order of their identifiers", "pandas' CSV reader returns the rows of the file"]

STAMPS = ["2019-11-24 00:00:03.8+00:00", "2019-11-24 09:00:03.8+00:00", "2019-11-24 10:00:00+00:00", "2019-12-01 00:00:00+00:00"]
USERS = [("b", "x"), ("a", "y"), ("c", "x"), ("a", "x")]
ITEM = {"item_feature_0": [0.5, -1.5, 2.0], "item_feature_1": ["q", "p", "q"], "item_feature_2": ["k", "m", "c"]}


def obj(xs):
    out = np.empty(len(xs), dtype=object)
    for i, x in enumerate(xs):
        out[i] = x
    return out


def column(ctx, xs):
    xs = list(A._to_obj(xs)) if isinstance(xs, np.ndarray) else list(xs)
    return obj(xs) if ctx.sym else np.array(xs, dtype=float)


class Files:
    """The two files of a campaign."""

    def __init__(self, ctx, n, offset=1, items=None, poss=None):
        self.n = n
        idx = list(range(n))
        self.stamp = [idx.pop(ctx.choice(f"time{i}", len(idx))) for i in range(n)]
        self.item = [int(v) for v in (ctx.ints("item", n, 3) if items is None else items)]
        self.pos = [int(v) for v in (ctx.ints("pos", n, 3) if poss is None else poss)]
        self.click = ctx.reals("click", n, lo=0, hi=1)
        self.ps = ctx.reals("ps", n, lo=0, hi=1, lo_open=True)
        self.ctx = ctx
        self.offset = offset
        self.read = []
        self.order = sorted(range(n), key=lambda i: self.stamp[i])

    def read_csv(self, path, *a, **k):
        path = str(path)
        self.read.append(path)
        if path.endswith("item_context.csv"):
            return pandas.DataFrame({"item_id": [0, 1, 2], **ITEM})
        n = self.n
        return pandas.DataFrame(
            {
                "timestamp": [STAMPS[s] for s in self.stamp],
                "item_id": self.item,
                "position": [p + self.offset for p in self.pos],
                "click": column(self.ctx, self.click),
                "propensity_score": column(self.ctx, self.ps),
                "user_feature_0": [USERS[i][0] for i in range(n)],
                "user_feature_1": [USERS[i][1] for i in range(n)],
                "user-item_affinity_0": [0.25 * i for i in range(n)],
            }
        )

    def contexts(self):
        u = [USERS[i] for i in range(self.n)]
        out = []
        for i in self.order:
            r = []
            for f in (0, 1):
                cats = sorted({x[f] for x in u})
                r += [1.0 if u[i][f] == c else 0.0 for c in cats[1:]]
            out.append(r)
        return out

    def expected(self, rows):
        """The reported arrays for these places of the time order."""
        cats = sorted(set(self.pos))
        cx = self.contexts()
        o = [self.order[r] for r in rows]
        return dict(
            action=[self.item[i] for i in o], position=[cats.index(self.pos[i]) for i in o], reward=[self.click[i] for i in o],
            pscore=[self.ps[i] for i in o], context=[cx[r] for r in rows],
        )


@contextlib.contextmanager
def opened(f, **kw):
    with real_pandas(f.read_csv):
        yield OpenBanditDataset(behavior_policy="random", campaign="men", data_path=pathlib.Path("/nonexistent"), **kw)


def num_rows(ctx, x):
    x = A._to_obj(x)
    return ctx_arr(ctx, [[v if is_sym(v) else float(v) for v in r] for r in x]) if len(x) else []


def same(ctx, fb, want, n):
    ctx.check("number of rounds", int(fb["n_rounds"]) == n)
    for k in ("action", "position"):
        ctx.check(k, [int(v) for v in fb[k]] == want[k])
    for k in ("reward", "pscore"):
        ctx.check(f"length of {k}", len(fb[k]) == n)
        if n:
            ctx.eq(k, list(A._to_obj(fb[k])), want[k])
    ctx.check("number of contexts", len(fb["context"]) == n)
    if n:
        ctx.eq("context", num_rows(ctx, fb["context"]), ctx_arr(ctx, want["context"]))


def item_table(ctx, fb):
    want = []
    for a in range(3):
        want.append([float(sorted(set(ITEM[c])).index(ITEM[c][a])) for c in ("item_feature_1", "item_feature_2")] + [ITEM["item_feature_0"][a]])
    ctx.eq("item features in the order of the items", num_rows(ctx, fb["action_context"]), ctx_arr(ctx, want))


@harness(cases=[dict(n=2, items=None, poss=None), dict(n=3, items=[2, 0, 1], poss=None), dict(n=3, items=None, poss=[2, 0, 2]), dict(n=3, items=[1, 1, 0], poss=[0, 1, 2])],
         thorough=[dict(n=4, items=[1, 2, 0, 1], poss=[2, 0, 2, 1]), dict(n=3, items=None, poss=None)])
def batch(ctx, n, items, poss):
    f = Files(ctx, n, items=items, poss=poss)
    with opened(f) as ds:
        fb = ds.obtain_batch_bandit_feedback()
        ctx.check("files of the campaign", sorted(f.read) == ["/nonexistent/random/men/item_context.csv", "/nonexistent/random/men/men.csv"])
        same(ctx, fb, f.expected(range(n)), n)
        item_table(ctx, fb)
        ctx.check("sizes", [int(fb["n_actions"]) == max(f.item) + 1, ds.n_actions == max(f.item) + 1, ds.n_rounds == n, ds.len_list == len(set(f.pos)), ds.dim_context == len(f.contexts()[0])])


@harness(cases=[dict(n=n) for n in (2, 3)], thorough=[dict(n=4)])
def split(ctx, n):
    """Training data strictly precedes test data; together they are all of it."""
    f = Files(ctx, n, items=[1, 2, 0, 1][:n], poss=[2, 0, 2, 1][:n])
    share = ctx.real("share", lo=0, hi=1)
    with opened(f) as ds:
        tr, te = ds.obtain_batch_bandit_feedback(test_size=share, is_timeseries_split=True)
        m = int(tr["n_rounds"])
        kept = n * (1.0 - share)
        tol = 0.0 if ctx.sym else 1e-9
        ctx.check("training share, rounded down", [m <= kept + tol, kept - tol < m + 1])
        same(ctx, tr, f.expected(range(m)), m)
        same(ctx, te, f.expected(range(m, n)), n - m)
        for fb in (tr, te):
            item_table(ctx, fb)
            ctx.check("number of actions", int(fb["n_actions"]) == max(f.item) + 1)


@harness(cases=product(n=[2], ts=[False], size=[None, 1]) + product(n=[3], ts=[True], size=[None, 1]), thorough=product(n=[3], ts=[False], size=[None, 2]))
def resampled(ctx, n, ts, size):
    """The same rows are resampled in every array."""
    f = Files(ctx, n, items=[1, 2, 0, 1][:n], poss=[2, 0, 2, 1][:n])
    with opened(f) as ds:
        fb = ds.sample_bootstrap_bandit_feedback(sample_size=size, test_size=0.3, is_timeseries_split=ts, random_state=3)
        pool = int(n * 0.7) if ts else n
        m = pool if size is None else size
        rows = list(ctx.draws)
        ctx.check("one drawn row per round", len(rows) == m and all(0 <= r < pool for r in rows))
        if len(rows) == m:
            same(ctx, fb, f.expected(rows), m)
        item_table(ctx, fb)
        again = ds.obtain_batch_bandit_feedback()
        same(ctx, again, f.expected(range(n)), n)


@harness(cases=product(n=[2, 3], ts=[False, True]))
def on_policy_value(ctx, n, ts):
    f = Files(ctx, n, items=[1, 2, 0][:n], poss=[0, 1, 2][:n])
    with real_pandas(f.read_csv):
        got = OpenBanditDataset.calc_on_policy_policy_value_estimate(behavior_policy="bts", campaign="all", data_path=pathlib.Path("/nonexistent"), test_size=0.5, is_timeseries_split=ts)
        ctx.check("files of the campaign", sorted(f.read) == ["/nonexistent/bts/all/all.csv", "/nonexistent/bts/all/item_context.csv"])
    rows = range(int(n * 0.5), n) if ts else range(n)
    ctx.eq("average click of the test data", got, mean(f.click[f.order[r]] for r in rows))


@harness(cases=product(bad=["policy", "campaign", "path", "share", "share low", "share type", "flag", "sample", "sample low"]))
def refused(ctx, bad):
    f = Files(ctx, 2, items=[0, 1], poss=[0, 1])
    kw = dict(behavior_policy="random", campaign="men", data_path="/nonexistent")
    over = ctx.real("over", lo=1, lo_open=True, nice=(1.1, 2))
    low = ctx.real("low", hi=0, hi_open=True, nice=(-2, -0.1))
    with real_pandas(f.read_csv):
        if bad == "policy":
            ctx.raises("refused", lambda: OpenBanditDataset(**dict(kw, behavior_policy="aaa")))
        elif bad == "campaign":
            ctx.raises("refused", lambda: OpenBanditDataset(**dict(kw, campaign="kids")))
        elif bad == "path":
            ctx.raises("refused", lambda: OpenBanditDataset(**dict(kw, data_path=3)))
        else:
            ds = OpenBanditDataset(**kw)
            if bad == "share":
                ctx.raises("refused", lambda: ds.obtain_batch_bandit_feedback(test_size=over, is_timeseries_split=True))
            elif bad == "share low":
                ctx.raises("refused", lambda: ds.obtain_batch_bandit_feedback(test_size=low, is_timeseries_split=True))
            elif bad == "share type":
                ctx.raises("refused", lambda: ds.obtain_batch_bandit_feedback(test_size="0.5", is_timeseries_split=True))
            elif bad == "flag":
                ctx.raises("refused", lambda: ds.obtain_batch_bandit_feedback(is_timeseries_split="True"))
            elif bad == "sample":
                ctx.raises("refused", lambda: ds.sample_bootstrap_bandit_feedback(sample_size=3))
            else:
                ctx.raises("refused", lambda: ds.sample_bootstrap_bandit_feedback(sample_size=-1))
