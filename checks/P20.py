"""P20: classification data becomes bandit data with the stated policies, rewards and ground truth."""
from symnp.api import *
from symnp.models import make_model
from checks.common import flat, is_zero
from obp.dataset import MultiClassToBanditReduction

BOUNDS = (
    "3-4 classified rows, 2-3 classes with any integer labels, every choice of 1-3 held-out rows in any order; mixture "
    "parameters, random numbers and given policies arbitrary reals; classifiers arbitrary functions of the features; plus 200 classes or 1500 rows with a fixed classifier and split"
)


def data(ctx, labels):
    n = len(labels)
    X = np.array([[10.0 + i, 1.0] for i in range(n)])
    return X, np.array(labels), [sorted(set(labels)).index(v) for v in labels]


LAB = [
    ([0, 1, 1], 1),
    ([1, 0, 1, 0], 2),
    ([7, -2, 7], 2),
    ([3, 5, 9], 1),
    ([2, 0, 5, 2], 2),
    ([9, 4, 4, 1], 1),
]


def predicted(ctx, Mo, fid, X, rows, train, dense):
    """The label the classifier predicts for each of the rows."""
    classes = sorted({dense[i] for i in train})
    return [classes[Mo.label(fid, (X[i, 0], X[i, 1]), len(classes))] for i in rows]


def check_fit(ctx, f, X, dense, train):
    ctx.check("trained on the training rows only", sorted(f.X) == sorted((X[i, 0], X[i, 1]) for i in train))
    lab = {(X[i, 0], X[i, 1]): dense[i] for i in train}
    ctx.check("trained on the re-indexed labels", [lab.get(x) == int(y) for x, y in zip(f.X, f.y)])


@harness(
    cases=[dict(labels=l, m=m, de=0) for l, m in LAB[:5]] + [dict(labels=[3, 5, 9], m=1, de=1), dict(labels=[3, 5, 9], m=1, de=2), dict(labels=[1, 0, 1], m=2, de=1)],
    thorough=[dict(labels=[2, 0, 5, 2], m=2, de=1), dict(labels=[9, 4, 4, 1], m=3, de=0)],
)
def logged_data(ctx, labels, m, de):
    X, y, dense = data(ctx, labels)
    k = len(set(labels))
    alpha = ctx.real("alpha", lo=0, hi=1, hi_open=True)
    Mo = make_model(ctx, "classifier", "clf")
    base = Mo()
    ds = MultiClassToBanditReduction(X=X, y=y, base_classifier_b=base, alpha_b=alpha, n_deficient_actions=de)
    ctx.check("sizes", [ds.n_actions == k, ds.n_rounds == len(labels), ds.len_list == 1])
    ds.split_train_eval(eval_size=m, random_state=3)
    train, test = ctx.split
    fb = ds.obtain_batch_bandit_feedback(random_state=5)
    ctx.check("one classifier", len(Mo.fits) == 1)
    check_fit(ctx, Mo.fits[0], X, dense, train)
    ctx.check("the given classifier is not fitted", base.id is None)
    pred = predicted(ctx, Mo, 0, X, test, train, dense)
    ctx.check("sizes of the data", [fb["n_actions"] == k, fb["n_rounds"] == m, fb["position"] is None, np.shape(fb["pi_b"]) == (m, k, 1)])
    ctx.eq("contexts are the held-out rows", fb["context"], X[test])
    pi = fb["pi_b"][:, :, 0]
    act = [int(a) for a in fb["action"]]
    for i in range(m):
        want = [(1 - alpha) / k + (alpha if a == pred[i] else 0.0) for a in range(k)]
        if de:
            sup = [a for a in range(k) if not is_zero(pi[i, a])]
            ctx.check("number of supported actions", len(sup) == k - de)
            t = total(want[a] for a in sup)
            want = [want[a] / t if a in sup else 0.0 for a in range(k)]
        ctx.eq("behaviour policy", [pi[i, a] for a in range(k)], want)
        ctx.eq("propensity", fb["pscore"][i], want[act[i]])
        ctx.eq("reward is one exactly for the true class", fb["reward"][i], 1.0 if act[i] == dense[test[i]] else 0.0)
    us = [x for c in ctx.calls if c[1] in ("uniform", "random") for x in flat(c[3])]
    ctx.check("one random number per round", len(us) == m)
    for i in range(m):
        low = total(pi[i, b] for b in range(act[i])) if act[i] else 0.0
        if not ctx.sym and min(abs(us[i] - low), abs(us[i] - low - pi[i, act[i]])) < 1e-9:
            continue
        ctx.check("action drawn from the behaviour policy", [low <= us[i], us[i] < low + pi[i, act[i]]])


@harness(cases=[dict(labels=l, m=m, own=o) for (l, m) in LAB[:5] for o in (True, False)])
def evaluation_policy(ctx, labels, m, own):
    X, y, dense = data(ctx, labels)
    k = len(set(labels))
    alpha = ctx.real("alpha", lo=0, hi=1)
    Mb = make_model(ctx, "classifier", "clfb")
    Me = make_model(ctx, "classifier", "clfe")
    ds = MultiClassToBanditReduction(X=X, y=y, base_classifier_b=Mb(), alpha_b=0.5)
    ds.split_train_eval(eval_size=m, random_state=3)
    train, test = ctx.split
    pi = ds.obtain_action_dist_by_eval_policy(base_classifier_e=Me() if own else None, alpha_e=alpha)
    Mo = Me if own else Mb
    ctx.check("the right classifier is used", [len(Mo.fits) == 1, len(Me.fits) + len(Mb.fits) == 1])
    check_fit(ctx, Mo.fits[0], X, dense, train)
    pred = predicted(ctx, Mo, 0, X, test, train, dense)
    ctx.check("shape", np.shape(pi) == (m, k, 1))
    for i in range(m):
        ctx.eq("evaluation policy", [pi[i, a, 0] for a in range(k)], [(1 - alpha) / k + (alpha if a == pred[i] else 0.0) for a in range(k)])


@harness(cases=[dict(labels=l, m=m) for l, m in LAB])
def ground_truth(ctx, labels, m):
    X, y, dense = data(ctx, labels)
    k = len(set(labels))
    ds = MultiClassToBanditReduction(X=X, y=y, base_classifier_b=make_model(ctx, "classifier", "clf")(), alpha_b=0.5)
    ds.split_train_eval(eval_size=m, random_state=3)
    _, test = ctx.split
    pi = ctx.simplex("pi", (m, k))
    got = ds.calc_ground_truth_policy_value(action_dist=pi[:, :, np.newaxis])
    ctx.eq("probability of the true class", got, mean(pi[i, dense[test[i]]] for i in range(m)))
    ctx.raises("wrong number of rows", lambda: ds.calc_ground_truth_policy_value(action_dist=np.concatenate([pi, pi])[:, :, np.newaxis]))
    ctx.raises("wrong number of dimensions", lambda: ds.calc_ground_truth_policy_value(action_dist=pi))


@harness(cases=[dict(size=s, n=n) for s, n in [(0.25, 4), (0.5, 3), (2, 4), (0.3, 4)]])
def split_sizes(ctx, size, n):
    """The held-out rows are the asked share, each with its own label."""
    labels = [4, 8, 4, 8][:n]
    X, y, dense = data(ctx, labels)
    Mo = make_model(ctx, "classifier", "clf")
    ds = MultiClassToBanditReduction(X=X, y=y, base_classifier_b=Mo(), alpha_b=0.0)
    ds.split_train_eval(eval_size=size, random_state=3)
    train, test = ctx.split
    m = size if isinstance(size, int) else int(np.ceil(size * n))
    ctx.check("sizes", [len(test) == m, ds.n_rounds_ev == m])
    fb = ds.obtain_batch_bandit_feedback(random_state=5)
    for i in range(m):
        ctx.eq("context", fb["context"][i], X[test[i]])
        ctx.check("reward", int(fb["reward"][i]) == int(int(fb["action"][i]) == dense[test[i]]))
        ctx.eq("uniform policy", [fb["pi_b"][i, a, 0] for a in range(2)], [0.5, 0.5])


@harness(cases=product(bad=["alpha_b", "alpha_b low", "alpha_e", "alpha_e low", "classifier", "deficient", "deficient low", "rows"]))
def refused(ctx, bad):
    X, y, _ = data(ctx, [3, 5, 9])
    hi = ctx.real("hi", lo=1, nice=(1, 2))
    over = ctx.real("over", lo=1, lo_open=True, nice=(1.1, 2))
    low = ctx.real("low", hi=0, hi_open=True, nice=(-2, -0.1))
    kw = dict(X=X, y=y, base_classifier_b=make_model(ctx, "classifier", "clf")(), alpha_b=0.5)
    if bad == "alpha_b":
        kw["alpha_b"] = hi
    elif bad == "alpha_b low":
        kw["alpha_b"] = low
    elif bad == "classifier":
        kw["base_classifier_b"] = make_model(ctx, "regressor", "reg")()
    elif bad == "deficient":
        kw["n_deficient_actions"] = 3
    elif bad == "deficient low":
        kw["n_deficient_actions"] = -1
    elif bad == "rows":
        kw["y"] = y[:2]
    else:
        ds = MultiClassToBanditReduction(**kw)
        ds.split_train_eval(eval_size=1, random_state=3)
        ctx.raises("refused", lambda: ds.obtain_action_dist_by_eval_policy(alpha_e=over if bad == "alpha_e" else low))
        return
    ctx.raises("refused", lambda: MultiClassToBanditReduction(**kw))


@harness(cases=[dict(k=200, n=420, m=150), dict(k=3, n=1500, m=1100)])
def many_classes(ctx, k, n, m):
    """Many classes or rows: fixed classifier, split and random numbers, any mixture parameter."""
    ctx.fixed_draws = "fine"
    ctx.fixed_choices = True
    labels = [int((i * 7 + i // 5) % k) * 3 - 5 for i in range(n)]
    labels[:k] = [c * 3 - 5 for c in range(k)]
    X, y, dense = data(ctx, labels)
    alpha = ctx.real("alpha", lo=0, hi=1, hi_open=True)
    Mo = make_model(ctx, "classifier", "clf", wide=True)
    ds = MultiClassToBanditReduction(X=X, y=y, base_classifier_b=Mo(), alpha_b=0.75)
    ds.split_train_eval(eval_size=m, random_state=3)
    train, test = ctx.split
    pe = ds.obtain_action_dist_by_eval_policy(alpha_e=alpha)
    check_fit(ctx, Mo.fits[0], X, dense, train)
    pred = predicted(ctx, Mo, 0, X, test, train, dense)
    want = np.array([[(1 - alpha) / k] * k for _ in range(1)], dtype=object)[0]
    ctx.check("shape", np.shape(pe) == (m, k, 1))
    for i in range(m):
        row = [want[a] + (alpha if a == pred[i] else 0.0) for a in range(k)]
        ctx.eq("evaluation policy", [pe[i, a, 0] for a in range(k)], row)
    ctx.eq("ground truth", ds.calc_ground_truth_policy_value(action_dist=pe), mean(pe[i, dense[test[i]], 0] for i in range(m)))
    fb = ds.obtain_batch_bandit_feedback(random_state=5)
    pred = predicted(ctx, Mo, 1, X, test, train, dense)
    us = [x for c in ctx.calls if c[1] in ("uniform", "random") for x in flat(c[3])]
    ok = len(us) == m and len(fb["action"]) == m
    ctx.check("one random number per round", ok)
    if not ok:
        return
    p = np.full((m, k), 0.25 / k)
    p[np.arange(m), pred] += 0.75
    cum = np.cumsum(p, axis=1)
    act = [int(a) for a in fb["action"]]
    ctx.check("behaviour policy", bool(np.allclose(np.asarray(fb["pi_b"][:, :, 0], dtype=float), p, rtol=1e-9, atol=0)))
    ctx.check("actions drawn from the behaviour policy", all(0 <= a < k and cum[i, a] - p[i, a] - 1e-9 <= us[i] <= cum[i, a] + 1e-9 for i, a in enumerate(act)))
    ctx.check("propensity", bool(np.allclose(np.asarray(fb["pscore"], dtype=float), [p[i, a] for i, a in enumerate(act)], rtol=1e-9, atol=0)))
    ctx.check("reward is one exactly for the true class", [int(r) for r in fb["reward"]] == [int(a == dense[test[i]]) for i, a in enumerate(act)])
