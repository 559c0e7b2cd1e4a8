"""Direct reads of datasets and slab access."""
import math
import os

import h5py
import numpy as np
from hypothesis import strategies as st

from gmg.core import Info, Part, expect
from gmg.driver import Exc
from gmg.models import NODATA, grid_hash

RULE = ("boxes: a dataset of rank 1-5 with drawn sizes, storage type, chunking and compression and a sequence of boxes, some of them "
        "outside the dataset or of another rank, are read directly and compared with the written array. slabs: a 3- or 4-dimensional "
        "dataset (sizes up to 70 points), a drawn slab size and a sequence of fractional indices (grid points, cell faces, dataset corners, "
        "far jumps, outside) alternating between interpolation and nearest-value access on the same slab object. An evaluation is one box "
        "or index. Non-trivial: a box is a proper part of the dataset, or the slab is smaller than the dataset and access moves it.")
TARGETS = ["driver"]

DTYPES = ["<f4", "<f8", ">f4", ">f8", "<i2", "<i4", ">i4", "<u2"]


def make(path, shape, seed, dtype, chunk, nodata=0.0):
    h = grid_hash(seed, shape)
    v = np.round(h * 30000.0) / 4.0 - 1000.0
    if dtype[1] in "iu":
        v = np.round(np.abs(v))
    if nodata:
        v[grid_hash(seed + 1, shape) < nodata] = NODATA
    a = v.astype(dtype)
    kw = {}
    if chunk:
        kw = {"chunks": tuple(max(1, min(n, c)) for n, c in zip(shape, chunk))}
        if sum(chunk) % 2:
            kw["compression"] = "gzip"
    with h5py.File(path, "w") as f:
        f.create_group("g").create_dataset("d", data=a, **kw)
        f["g"].create_dataset("other", data=np.full((2, 2), 7.0))
    return a.astype(np.float64)


@st.composite
def boxes(draw):
    nd = draw(st.integers(1, 5))
    shape = [draw(st.integers(1, 9 if nd > 2 else 30)) for _ in range(nd)]
    bs = []
    for _ in range(draw(st.integers(1, 12))):
        k = draw(st.integers(0, 9))
        r = nd if k else draw(st.integers(1, 6))
        o, d = [], []
        for i in range(r):
            n = shape[i] if i < nd else 3
            a = draw(st.integers(0, n - 1))
            o.append(a)
            d.append(draw(st.integers(1, n - a)))
        if k == 1:
            i = draw(st.integers(0, r - 1))
            o[i], d[i] = draw(st.sampled_from([[shape[i], 1], [0, shape[i] + 1], [shape[i] - 1, 2], [2 ** 40, 1], [2 ** 63 - 1, 1]])) if i < nd else [5, 1]
        bs.append([o, d])
    return {"shape": shape, "seed": draw(st.integers(1, 10 ** 6)), "dtype": draw(st.sampled_from(DTYPES)),
            "chunk": draw(st.one_of(st.none(), st.tuples(*[st.integers(1, 5) for _ in range(nd)]))), "boxes": bs}


def run_boxes(case, ctx):
    p = os.path.join(ctx.dir, "a.h5")
    a = make(p, tuple(case["shape"]), case["seed"], case["dtype"], case["chunk"])
    cmds = [["H_new", "h"], ["H_open", "h", p], ["H_dims", "h", "/g/d"]]
    cmds += [["H_read", "h", "/g/d", len(o), o, d] for o, d in case["boxes"]]
    res = ctx.run(cmds)
    expect(res[2] == [a.ndim] + case["shape"], "dimensions are %r, expected %r", res[2], case["shape"])
    part = False
    for (o, d), got in zip(case["boxes"], res[3:]):
        good = len(o) == a.ndim and all(i + j <= n for i, j, n in zip(o, d, a.shape))
        if not good:
            expect(isinstance(got[0], Exc), "reading box origin %r size %r of a dataset of shape %r gave %r", o, d, a.shape, got[:10])
            continue
        want = a[tuple(slice(i, i + j) for i, j in zip(o, d))].ravel()
        expect(not isinstance(got[0], Exc) and len(got) == len(want) and all(x == y for x, y in zip(got, want)),
               "box origin %r size %r of a dataset of shape %r is %r, expected %r", o, d, a.shape, got[:20], want[:20])
        part = part or (len(want) < a.size and len(want) > 1)
    return Info(part, ["rank %d" % a.ndim], len(case["boxes"]))


IDX = st.one_of(st.sampled_from([0.0, 1.0]), st.floats(0.0, 1.0))


@st.composite
def slabs(draw):
    sd = draw(st.sampled_from([2, 3, 3]))
    shape = [draw(st.one_of(st.integers(2, 8), st.integers(2, 20 if sd == 3 else 70))) for _ in range(sd)]
    nv = draw(st.integers(1, 4))
    dims = [draw(st.one_of(st.integers(2, n + 2), st.sampled_from([2, 3]))) for n in shape]
    acc = []
    for _ in range(draw(st.integers(1, 30))):
        kind = draw(st.integers(0, 7))
        if kind == 0:
            idx = [float(draw(st.integers(0, n - 1))) for n in shape]
        elif kind == 1:
            idx = [draw(st.sampled_from([0.0, float(n - 1)])) for n in shape]
        elif kind == 2:
            idx = [draw(st.integers(0, n - 2)) + draw(st.sampled_from([0.0, 0.5, 0.25, 1.0, 0.999, 0.49, 0.499999, 0.500001,
                   0.5001, 0.505, 1e-3, 1e-6, 1.0 - 1e-6])) for n in shape]
        elif kind == 3 and draw(st.booleans()):
            idx = [draw(IDX) * (n - 1) for n in shape]
            i = draw(st.integers(0, sd - 1))
            idx[i] = draw(st.sampled_from([-0.001, -1.0, -1e300, shape[i] - 0.5, float(shape[i]), shape[i] + 1e6, float("nan"), float("inf")]))
        else:
            idx = [draw(IDX) * (n - 1) for n in shape]
        acc.append([draw(st.sampled_from(["S_interp", "S_interp", "S_near"])), idx])
    return {"shape": shape, "nv": nv, "dims": dims, "seed": draw(st.integers(1, 10 ** 6)), "dtype": draw(st.sampled_from(DTYPES[:4])),
            "chunk": draw(st.one_of(st.none(), st.tuples(*[st.integers(1, 5) for _ in range(sd + 1)]))),
            "nodata": draw(st.sampled_from([0.0, 0.05])), "acc": acc, "short": draw(st.integers(0, 12)) == 0}


def corners(idx, shape):
    """Grid cells (lower index, weight) alternatives per axis: a point on a face may use the cell of either side."""
    out = []
    for x, n in zip(idx, shape):
        lo = min(int(math.floor(x)), n - 2)
        alt = [(lo, x - lo)]
        r = round(x)
        if abs(x - r) < 1e-9:
            for c in (r - 1, r):
                if 0 <= c <= n - 2 and (c, x - c) not in alt:
                    alt.append((c, x - c))
        out.append(alt)
    return out


def run_slabs(case, ctx):
    shape, nv = case["shape"], case["nv"]
    sd = len(shape)
    p = os.path.join(ctx.dir, "a.h5")
    a = make(p, tuple(shape) + (nv,), case["seed"], case["dtype"], case["chunk"], case["nodata"])
    nd = a <= -9.9e19
    dims = list(case["dims"])
    rank = sd + 1
    if case["short"]:
        rank = sd if sd == 3 else sd + 2
        dims = (dims + [3] * 3)[:rank - 1]
    cmds = [["H_new", "h"], ["H_open", "h", p], ["S_new", "s", "h", "/g/d", rank, dims + [nv]]]
    if case["short"]:
        res = ctx.run(cmds)
        expect(isinstance(res[2][0], Exc), "a slab of rank %d of a dataset of rank %d was accepted", rank, sd + 1)
        return Info(False, ["wrong rank"], 1)
    cmds += [[op, "s", nv, sd, 1, idx] for op, idx in case["acc"]]
    res = ctx.run(cmds)
    expect(res[2] == ["ok"], "slab of size %r of a dataset of shape %r: %r", dims, shape, res[2])
    nout = 0
    for (op, idx), got in zip(case["acc"], res[3:]):
        inside = all(0.0 <= x <= n - 1 for x, n in zip(idx, shape))
        if not inside:
            expect(isinstance(got[0], Exc), "access %s at %r outside a dataset of shape %r gave %r", op, idx, shape, got)
            nout += 1
            continue
        expect(not isinstance(got[0], Exc), "access %s at %r in a dataset of shape %r raised %r", op, idx, shape, got)
        got = got[1:]
        if op == "S_near":
            cands = []
            alts = []
            for x, n in zip(idx, shape):
                f = math.floor(x)
                alts.append([f, f + 1] if abs(x - f - 0.5) < 1e-9 else [int(round(x))])
            cands = [a[i] for i in _prod(alts)]
            expect(any(all(g == (NODATA if w <= -9.9e19 else w) for g, w in zip(got, c)) for c in cands),
                   "nearest value at %r of a dataset of shape %r is %r, expected %r", idx, shape, got, [list(c) for c in cands])
            continue
        for k in range(nv):
            good = False
            wants = []
            for combo in _prod(corners(idx, shape)):
                v, bad, scale = 0.0, False, 1.0
                for c in _prod([[0, 1]] * sd):
                    w = 1.0
                    for (lo, t), b in zip(combo, c):
                        w *= t if b else 1.0 - t
                    at = tuple(lo + b for (lo, _), b in zip(combo, c)) + (k,)
                    bad = bad or nd[at]
                    v += w * a[at]
                    scale = max(scale, abs(a[at]))
                wants.append(NODATA if bad else v)
                good = good or (bad and sd == 2)  # only specified in three dimensions
                good = good or (got[k] == NODATA if bad else abs(got[k] - v) <= 1e-9 * scale)
            expect(good, "interpolation at %r of value %d in a dataset of shape %r with slab %r is %r, expected one of %r", idx, k, shape, dims, got[k], wants)
    small = any(d < n for d, n in zip(dims, shape))
    return Info(small and len(case["acc"]) - nout > 2, ["%d-D" % sd] + (["outside"] if nout else []), len(case["acc"]))


def _prod(alts):
    out = [()]
    for a in alts:
        out = [o + (x,) for o in out for x in a]
    return out


PARTS = [Part("boxes", boxes(), run_boxes, 2500, 40000), Part("slabs", slabs(), run_slabs, 3000, 50000)]
