"""S00 (not a property): the array layer agrees with numpy on many ways of writing the same computation."""
import importlib.util
import os
import sys

from symnp.api import *

BOUNDS = "fixed values carried by symbolic variables"
C = np.array([[0.5, -1.25, 2.0, 0.75], [1.5, 0.25, -0.5, 3.0], [0.1, 2.5, 1.0, -2.0]])
W = np.array([0.2, 0.3, 0.5])
spec = importlib.util.spec_from_file_location("obp._selftest", os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "tools", "selftest_expr.py"))
M = importlib.util.module_from_spec(spec)
sys.modules["obp._selftest"] = M
spec.loader.exec_module(M)
E = M.E


@harness(cases=[dict(name=k) for k in E])
def agree(ctx, name):
    x = ctx.reals("x", (3, 4), nice=(-3, 3))
    w = ctx.reals("w", 3, nice=(0, 1))
    for s, c in [(x, C), (w, W)]:
        for a, b in zip(s.ravel(), c.ravel()):
            ctx.assume(a == float(b))
    got = E[name](x, w)
    want = E[name](C.copy(), W.copy())
    ctx.check("shape", np.shape(got) == np.shape(want))
    g, v = np.ravel(A._to_obj(got) if not isinstance(got, tuple) else np.array(got)), np.ravel(np.array(want))
    for a, b in zip(g, v):
        ctx.eq("value", a * 1.0 if not isinstance(a, (bool, np.bool_)) and ctx.sym and hasattr(a, "__mul__") else a, float(b) if not isinstance(b, (bool, np.bool_)) else b)
