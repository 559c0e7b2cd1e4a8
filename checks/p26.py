"""Index lookup for uniform and variable coordinates."""
import math

from hypothesis import strategies as st

from gmg.common import flat  # noqa: F401
from gmg.core import Info, Part, expect
from gmg.driver import Exc

RULE = ("uniform: drawn resolutions (1e-3 to 1e6) and distances. variable: 1 to 40 distinct drawn coordinates with spacings from 1e-3 to "
        "1e5, offset up to 1e7, in drawn order, ascending or descending; indices of every coordinate, of points inside every cell and "
        "outside the range are compared with a reference and tested for strict monotonicity. invalid: non-positive resolutions and empty "
        "coordinates must raise. An evaluation is one lookup. Non-trivial: variable with at least 3 coordinates of different spacing.")
TARGETS = ["driver"]


@st.composite
def uniform(draw):
    return {"dx": draw(st.floats(1e-3, 1e6)), "x": draw(st.lists(st.one_of(st.floats(-1e7, 1e7), st.integers(-5, 1000)), min_size=1, max_size=40))}


def run_uniform(case, ctx):
    dx = case["dx"]
    xs = [x * dx if isinstance(x, int) else x for x in case["x"]]
    res = ctx.run([["X_uniform", "x", dx], ["X_index", "x", len(xs), xs]])
    for x, g in zip(xs, res[1]):
        expect(abs(g - x / dx) <= 1e-12 * max(1.0, abs(x / dx)), "uniform index of %r with resolution %r is %r", x, dx, g)
    return Info(False, [], len(xs))


@st.composite
def variable(draw):
    n = draw(st.one_of(st.integers(1, 12), st.integers(1, 40)))
    steps = draw(st.lists(st.one_of(st.sampled_from([1.0, 100.0, 0.001, 1e5]), st.floats(1e-3, 1e5)), min_size=n - 1, max_size=n - 1))
    return {"x0": draw(st.one_of(st.sampled_from([0.0, -1000.0]), st.floats(-1e7, 1e7))), "steps": steps, "desc": draw(st.integers(0, 1)),
            "order": draw(st.permutations(range(n))), "f": draw(st.lists(st.floats(0.0, 1.0), min_size=1, max_size=4)),
            "out": draw(st.lists(st.one_of(st.floats(1e-3, 1e6), st.just(float("inf"))), max_size=3))}


def run_variable(case, ctx):
    x = [case["x0"]]
    for s in case["steps"]:
        x.append(x[-1] + s)
    n = len(x)
    if any(b <= a for a, b in zip(x, x[1:])):
        return Info(False, ["degenerate"], 1)
    given_ = [x[i] for i in case["order"]]
    line = x[::-1] if case["desc"] else x
    dist, want, tol = [], [], []
    eps = 4 * 2.3e-16 * max(abs(x[0]), abs(x[-1]), 1e-3)

    def add(d, w, i):
        # a coordinate can be found from either side
        h = min(abs(line[j + 1] - line[j]) for j in range(max(i - 1, 0), min(i + 2, n - 1))) if n > 1 else 1.0
        dist.append(d)
        want.append(w)
        tol.append(1e-9 + 4 * eps / h)

    for i in range(n):
        add(abs(line[i] - line[0]), float(i), min(i, n - 2) if n > 1 else 0)
        if i < n - 1:
            for f in sorted(case["f"]):
                add(abs(line[i] - line[0]) + f * abs(line[i + 1] - line[i]), i + f, i)
    total = abs(line[-1] - line[0])
    outs = ([-o for o in case["out"]], [total + o for o in case["out"]])
    alld = dist + outs[0] + outs[1]
    res = ctx.run([["X_variable", "x", case["desc"], n, given_], ["X_index", "x", len(alld), alld]])
    got = res[1]
    expect(len(got) == len(alld), "lookup returned %r", got)
    if n == 1:
        expect(got[0] == 0.0, "index of distance 0 with one coordinate is %r", got[0])
        return Info(False, [], 1)
    prev = None
    for d, w, t, g in zip(dist, want, tol, got):
        expect(not isinstance(g, Exc) and abs(g - w) <= t, "index of distance %r in %r is %r, expected %r", d, line, g, w)
        if prev is not None and d - prev[0] > 8 * eps:
            expect(g > prev[1], "index is not increasing: distance %r gives %r and %r gives %r in %r", prev[0], prev[1], d, g, line)
        prev = (d, g)
    k = len(dist)
    for d, g in zip(outs[0], got[k:]):
        expect(g < 0.0 or d > -8 * eps, "index of distance %r before the first coordinate of %r is %r", d, line, g)
    for d, g in zip(outs[1], got[k + len(outs[0]):]):
        expect(g > n - 1 or d - total < 8 * eps, "index of distance %r after the last coordinate of %r is %r", d, line, g)
    s = case["steps"]
    return Info(n > 2 and max(s) > 1.001 * min(s), ["descending"] if case["desc"] else ["ascending"], len(alld))


@st.composite
def invalid(draw):
    return {"dx": draw(st.one_of(st.sampled_from([0.0, -0.0, -1.0, -1e-300, float("-inf")]), st.floats(max_value=0.0, allow_nan=False))),
            "order": draw(st.integers(0, 1)), "same": draw(st.integers(1, 20)), "x": draw(st.floats(-1e6, 1e6))}


def run_invalid(case, ctx):
    res = ctx.run([["X_uniform", "a", case["dx"]], ["X_variable", "b", case["order"], 0, []],
                   # repeated coordinates must not read outside the array
                   ["X_variable", "c", case["order"], case["same"], [case["x"]] * case["same"]], ["X_index", "c", 2, [0.0, 1.0]]])
    expect(isinstance(res[0][0], Exc), "resolution %r was accepted", case["dx"])
    expect(isinstance(res[1][0], Exc), "no coordinates were accepted")
    return Info(False, [], 2)


PARTS = [Part("uniform", uniform(), run_uniform, 1500, 30000), Part("variable", variable(), run_variable, 6000, 100000),
         Part("invalid", invalid(), run_invalid, 800, 8000)]
