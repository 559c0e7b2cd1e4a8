"""Creating a model in batches gives the same file as creating it at once."""
import os

import numpy as np
from hypothesis import strategies as st

from checks.p21 import made
from gmg import create
from gmg.core import Info, Part, expect

RULE = ("A case is a generated configuration (as for P21) and one to three batch sizes from 1 to 500 points. The model is created once without "
        "batches and once for each batch size with a data source that is a function of location; datasets, their types and metadata are "
        "compared, the recorded locations and surface elevations of every batch with the corresponding part of the whole grid. "
        "An evaluation is one batch size. Non-trivial: a surface or block was created in two or more batches.")
TARGETS = ["stage"]


@st.composite
def cases(draw):
    return {"config": draw(create.configs(max_cells=5)), "sizes": draw(st.lists(st.one_of(st.integers(1, 30), st.integers(1, 500)), min_size=1,
                                                                               max_size=3, unique=True)), "seed": draw(st.integers(0, 50))}


def run(case, ctx):
    c = case["config"]
    d = ctx.sub()

    def make(i, size):
        h5 = os.path.join(d, "m%d.h5" % i)
        rec = made(ctx.py().call("create", create.write(c, d, h5, batch=size, name="c%d_" % i), {"all_steps": True}, "smooth", case["seed"]))
        return rec, create.read(h5)
    rec0, got0 = make(0, None)
    whole = {r[0]: r for r in rec0}
    expect(len(whole) == len(rec0), "without batches the data source was asked more than once for the same grid: %r", [r[0] for r in rec0])
    many = 0
    for i, size in enumerate(case["sizes"]):
        rec, got = make(i + 1, size)
        counts = {}
        for kind, rng, pts, values, elev in rec:
            counts[kind] = counts.get(kind, 0) + 1
            if rng is None:
                continue
            sl = tuple(slice(*r) for r in rng)
            _, _, p0, v0, e0 = whole[kind]
            what = "of batch %r (size %d) of block %s differ from the whole grid" % (rng, size, kind)
            expect(pts.shape == p0[sl].shape and np.allclose(pts, p0[sl], rtol=1e-12, atol=1e-9), "locations " + what)
            expect((elev is None) == (e0 is None), "surface elevations " + what)
            if elev is not None:
                expect(elev.shape == e0[sl[:2]].shape and np.array_equal(elev, e0[sl[:2]]), "surface elevations " + what)
        many = max([many] + list(counts.values()))
        expect(set(got["data"]) == set(got0["data"]), "datasets with batch size %d: %r, without batches: %r", size, sorted(got["data"]),
               sorted(got0["data"]))
        for k, a in got0["data"].items():
            b = got["data"][k]
            expect(a.shape == b.shape and got["layout"][k] == got0["layout"][k], "layout of %s with batch size %d: %r %r, without: %r %r", k, size,
                   b.shape, got["layout"][k], a.shape, got0["layout"][k])
            bad = ~np.isclose(a, b, rtol=1e-6, atol=1e-7)
            expect(not bad.any(), "%s with batch size %d differs at %r: %r, without batches %r", k, size, tuple(map(int, np.argwhere(bad)[0]))
                   if bad.any() else None, b[bad][:4].tolist(), a[bad][:4].tolist())
        expect(got["attrs"] == got0["attrs"], "metadata with batch size %d: %r, without: %r", size, got["attrs"], got0["attrs"])
    return Info(many > 1, ["surface"] * bool(c["top"]) + ["batches %s" % ("many" if many > 20 else "several" if many > 1 else "one")], len(case["sizes"]))


PARTS = [Part("batches", cases(), run, 700, 10000)]
