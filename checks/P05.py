"""P05: bias estimates and concentration bounds."""
from symnp.api import *
from symnp.stubs import t_quantile
from obp.ope.helper import (
    estimate_bernstein_lower_bound,
    estimate_bias_in_ope,
    estimate_high_probability_upper_bound_bias,
    estimate_hoeffding_lower_bound,
    estimate_student_t_lower_bound,
)

BOUNDS = "2-4 samples; samples, weights, predictions and the failure probability arbitrary reals"
ASSUMPTIONS = ["quantiles of Student's t are an uninterpreted function of the level"]


def maximum(xs):
    m = xs[0]
    for x in xs[1:]:
        m = smax(m, x)
    return m


def variance(xs):
    m = mean(xs)
    return mean((x - m) * (x - m) for x in xs)


@harness(cases=product(n=[1, 2, 3], q=[False, True]), thorough=product(n=[4, 5], q=[False, True]), ints=[("reward",), ("reward", "q")])
def bias(ctx, n, q):
    r = ctx.reals("reward", n, nice=(-2, 2))
    iw = ctx.reals("iw", n, lo=0, nice=(0, 4))
    iw_hat = ctx.reals("iw_hat", n, lo=0, nice=(0, 4))
    qh = ctx.reals("q", n, nice=(-2, 2)) if q else None
    z = mean((iw[i] - iw_hat[i]) * (r[i] - (qh[i] if q else 0.0)) for i in range(n))
    b = where(z >= 0, z, -z)
    ctx.eq("bias", estimate_bias_in_ope(reward=r, iw=iw, iw_hat=iw_hat, q_hat=qh), b)
    delta = ctx.real("delta", lo=0, hi=1, lo_open=True)
    got = estimate_high_probability_upper_bound_bias(reward=r, iw=iw, iw_hat=iw_hat, q_hat=qh, delta=delta)
    lg = np.log(2.0 / delta)
    want = b + np.sqrt(2.0 * mean(x * x for x in iw) * lg / n) + 2.0 * maximum(list(iw)) * lg / (3.0 * n)
    ctx.eq("upper bound of the bias", got, want)


@harness(cases=product(n=[2, 3], given=[False, True]), thorough=product(n=[4, 5], given=[False, True]))
def lower_bounds(ctx, n, given):
    x = ctx.reals("x", n, nice=(-2, 2))
    xs = list(x)
    delta = ctx.real("delta", lo=0, hi=1, lo_open=True)
    top = maximum(xs)
    if given:
        xmax = ctx.real("xmax", nice=(0, 4))
        ctx.assume(xmax >= top)
    else:
        xmax = None
    m = xmax if given else top
    mu = mean(xs)
    ctx.eq(
        "hoeffding",
        estimate_hoeffding_lower_bound(x=x, x_max=xmax, delta=delta),
        mu - m * np.sqrt(np.log(1.0 / delta) / (2.0 * n)),
    )
    lg = np.log(2.0 / delta)
    v = variance(xs)
    ctx.eq(
        "bernstein",
        estimate_bernstein_lower_bound(x=x, x_max=xmax, delta=delta),
        mu - 7.0 * m * lg / (3.0 * (n - 1)) - np.sqrt(2.0 * lg * v / (n - 1.0)),
    )
    ctx.eq(
        "student-t",
        estimate_student_t_lower_bound(x=x, delta=delta),
        mu - np.sqrt(v / (n - 1.0)) * t_quantile(n - 1, 1.0 - delta),
    )


@harness(cases=[dict(n=2), dict(n=3)])
def rejects(ctx, n):
    """Bounds refuse a maximum below the data and levels outside [0, 1]."""
    x = ctx.reals("x", n, nice=(-2, 2))
    bad = ctx.real("bad", nice=(-4, 4))
    ctx.assume(bad < maximum(list(x)))
    ctx.raises("hoeffding x_max", lambda: estimate_hoeffding_lower_bound(x=x, x_max=bad))
    ctx.raises("bernstein x_max", lambda: estimate_bernstein_lower_bound(x=x, x_max=bad))
    d = ctx.real("delta", nice=(-3, 3))
    if d > 0.5:
        ctx.assume(d > 1)
    else:
        ctx.assume(d < 0)
    r = ctx.reals("reward", n, nice=(-2, 2))
    iw = ctx.reals("iw", n, lo=0, nice=(0, 4))
    ctx.raises("hoeffding delta", lambda: estimate_hoeffding_lower_bound(x=x, delta=d))
    ctx.raises("bernstein delta", lambda: estimate_bernstein_lower_bound(x=x, x_max=None, delta=d))
    ctx.raises("student delta", lambda: estimate_student_t_lower_bound(x=x, delta=d))
    ctx.raises("bias delta", lambda: estimate_high_probability_upper_bound_bias(reward=r, iw=iw, iw_hat=iw, delta=d))
