"""Batches partition the grid."""
import numpy as np
from hypothesis import strategies as st

from gmg.core import Info, Part, expect
from gmg.pyclient import PyExc

RULE = ("Grids of 1 to 40 points per axis (2-D and 3-D, including degenerate axes) with maximum batch sizes from 1 to beyond the grid, "
        "perfect squares and cubes and their neighbours, or none. Every batch is marked in an array of the grid. An evaluation is one grid "
        "with one size. Non-trivial: there is more than one batch. The part 'large' uses grids up to 10^5 points per axis and checks "
        "sizes, ranges and the total number of points.")
TARGETS = ["stage"]

AXIS = st.one_of(st.integers(1, 5), st.integers(1, 40))


@st.composite
def cases(draw):
    nd = draw(st.sampled_from([2, 3, 3]))
    dims = [draw(AXIS) for _ in range(nd)]
    total = int(np.prod(dims))
    near = [d ** k + e for d in range(1, 12) for k in (2, 3) for e in (-1, 0, 1) if d ** k + e > 0]
    near += [dims[0] * dims[1] + e for e in (-1, 0, 1)] + [dims[-1] * dims[0], dims[-1] * dims[1], dims[0], dims[1], dims[-1]]
    sizes = [draw(st.one_of(st.integers(1, 30), st.integers(1, max(1, total)), st.sampled_from([s for s in near if s > 0]),
                            st.sampled_from([total, total + 1, max(1, total - 1), None]))) for _ in range(8)]
    return {"dims": dims, "sizes": [s and max(s, total // 1500) for s in sizes]}


def run(case, ctx):
    dims = case["dims"]
    total = int(np.prod(dims))
    many = 0
    for size in case["sizes"]:
        bs = ctx.py().call("batches", dims, size)
        what = "batches of a grid of %r points with at most %r points" % (dims, size)
        expect(not isinstance(bs, PyExc), "%s: %r", what, bs)
        seen = np.zeros(dims, dtype=int)
        for b in bs:
            expect(b[-1], "%s have ranges that are not integers", what)
            r = b[:-1]
            expect(all(0 <= a < e <= n for (a, e), n in zip(r, dims)), "%s include %r", what, r)
            n = int(np.prod([e - a for a, e in r]))
            expect(size is None or n <= size, "%s include %r with %d points", what, r, n)
            seen[tuple(slice(a, e) for a, e in r)] += 1
        expect(np.all(seen == 1), "%s cover %d points %d times and miss %d", what, int(np.sum(seen > 1)), int(seen.max()), int(np.sum(seen == 0)))
        if size is None or size >= total:
            expect(len(bs) == 1, "%s are %d batches", what, len(bs))
        many += len(bs) > 1
    return Info(many > 0, ["%d-D" % len(dims)], len(case["sizes"]))


@st.composite
def large(draw):
    nd = draw(st.sampled_from([2, 3]))
    hi = 100000 if nd == 2 else 3000
    axis = draw(st.sampled_from([st.one_of(st.integers(1, 20), st.integers(1, hi)), st.integers(hi // 2, hi)]))
    dims = [draw(axis) for _ in range(nd)]
    total = int(np.prod(dims))
    return {"dims": dims, "size": draw(st.integers(max(1, total // 1000), total + 10))}


def run_large(case, ctx):
    dims, size = case["dims"], case["size"]
    bs = ctx.py().call("batches", dims, size)
    what = "batches of a grid of %r points with at most %r points" % (dims, size)
    expect(not isinstance(bs, PyExc), "%s: %r", what, bs)
    count, seen = 0, set()
    for b in bs:
        r = b[:-1]
        expect(all(0 <= a < e <= n for (a, e), n in zip(r, dims)), "%s include %r", what, r)
        n = 1
        for a, e in r:
            n *= e - a
        expect(n <= size, "%s include %r with %d points", what, r, n)
        seen.add(tuple(a for a, _ in r))
        count += n
    expect(len(seen) == len(bs), "%s repeat", what)
    expect(count == int(np.prod(dims)), "%s hold %d points", what, count)
    return Info(len(bs) > 1, ["%d-D" % len(dims)], 1)


PARTS = [Part("partition", cases(), run, 1500, 40000), Part("large", large(), run_large, 150, 3000)]
