"""Placement of points in a model, and containment."""
import math

from hypothesis import strategies as st

from gmg import models
from gmg.common import flat, ok, q_init, split_rows, write_models
from gmg.core import Info, Part, expect

RULE = ("location: a generated model whose three stored values are the logical coordinates of each grid point is queried at "
        "generated points in a drawn input CRS, and the values are compared with the documented placement computed with pyproj. "
        "contains: points inside, outside and close to every face of generated models are tested for containment, also after the input CRS was changed. edges: models "
        "with exactly representable geometry are tested on, just inside and just outside every face. An evaluation is one point. "
        "Non-trivial: at least one point is inside and (contains, edges) one outside, or (location) the model is rotated or has a "
        "top surface or the input CRS differs.")
TARGETS = ["driver"]

F = st.one_of(st.sampled_from([0.0, 1.0, 0.5, 0.001, 0.999]), st.floats(0.0, 1.0, width=32))


@st.composite
def location(draw):
    m = draw(models.models(nvalues=3, names=["X", "Y", "Z"], big=draw(st.integers(0, 3)) == 0))
    for b in m["blocks"]:
        b["coord"] = m["dims"][:2]
        b["dtype"] = "<f8"
    return {"model": m, "crs": draw(st.sampled_from(models.INPUT_CRS)),
            "points": draw(st.lists(st.tuples(F, F, F), min_size=1, max_size=24))}


def run_location(case, ctx):
    spec, crs = case["model"], case["crs"]
    files = write_models([spec], ctx.dir)
    ref = models.Ref(spec, crs)
    d = spec["dims"]
    pts = []
    for f in case["points"]:
        xm, ym, zm = f[0] * d[0], f[1] * d[1], -f[2] * d[2]
        pts.append([float(v) for v in ref.to_input(xm, ym, ref.unsqueeze(xm, ym, zm))])
    res = ctx.run(q_init(files, spec["names"], crs) + [["Q_query", "q", 3, len(pts), flat(pts)]])
    ok(res[1], "initialize")
    n = 0
    for pt, row in zip(pts, split_rows(res[2], len(pts), 3)):
        x, y, elev = ref.to_model(*pt)
        zm = ref.squeeze(x, y, elev)
        expect(isinstance(row, tuple), "query at %r raised %r", pt, row)
        if row[0] != 0:
            expect(ref.inside(x, y, zm) != 1, "point %r at model coordinates %r gave status %d", pt, (x, y, zm), row[0])
            continue
        n += 1
        for name, got, want, k in zip("xyz", row[1], (x, y, zm), range(3)):
            slope = 1.0
            tol = 2e-5 + 1e-9 * d[k] + (2e-4 if k == 2 and zm > -1e-3 else 0.0)
            if k == 2 and spec["top"]:
                # Horizontal rounding times the slope of the top surface.
                slope = spec["top"]["amp"] * (spec["top"]["n"][0] / d[0] + spec["top"]["n"][1] / d[1])
                tol += 1e-5 * slope * 20.0
            expect(abs(got - want) <= tol, "point %r is at model %s %r, expected %r (of %r)", pt, name, got, want, (x, y, zm))
    labels = ["top surface"] if spec["top"] else []
    return Info(n > 0 and (spec["azimuth"] % 360.0 != 0.0 or spec["top"] or crs != spec["crs"]), labels, max(n, 1))


OFF = st.one_of(st.sampled_from([-0.2, -1e-4, -1e-6, 0.0, 1e-6, 1e-4, 0.3, 0.5, 1.0 - 1e-4, 1.0 - 1e-6, 1.0, 1.0 + 1e-6, 1.0 + 1e-4, 1.3]),
                st.floats(-0.5, 1.5, width=32))


@st.composite
def contains(draw):
    m = draw(models.models(nvalues=1, big=False))
    return {"model": m, "crs": draw(st.sampled_from(models.INPUT_CRS)),
            "before": draw(st.one_of(st.none(), st.none(), st.none(), st.sampled_from(models.INPUT_CRS))),
            "points": draw(st.lists(st.tuples(st.one_of(OFF, F), st.one_of(OFF, F), st.one_of(OFF, F)), min_size=4, max_size=40))}


def open_model(ctx, path, crs, mid="m"):
    return [["M_new", mid], ["M_incrs", mid, crs], ["M_open", mid, path], ["M_load", mid], ["M_init", mid]]


def run_contains(case, ctx):
    spec, crs = case["model"], case["crs"]
    files = write_models([spec], ctx.dir)
    ref = models.Ref(spec, crs)
    d = spec["dims"]
    pts = []
    for f in case["points"]:
        xm, ym, zm = f[0] * d[0], f[1] * d[1], -f[2] * d[2]
        elev = ref.unsqueeze(xm, ym, zm) if ref.horizontal(xm, ym) != 0 else zm
        pts.append([float(v) for v in ref.to_input(xm, ym, elev)])
    pts = [p for p in pts if all(map(math.isfinite, p))]
    cmds = open_model(ctx, files[0], crs)
    if case.get("before"):  # The CRS of the points is changed after the model was initialized.
        cmds = open_model(ctx, files[0], case["before"]) + [["M_incrs", "m", crs], ["M_init", "m"]]
    res = ctx.run(cmds + [["M_contains", "m", len(pts), flat(pts)]])
    for r in res[:-1]:
        ok(r, "opening the model")
    ins = outs = 0
    for pt, got in zip(pts, res[-1]):
        x, y, elev = ref.to_model(*pt)
        h = ref.horizontal(x, y)
        zm = ref.squeeze(x, y, elev)
        state = 0 if h == 0 else ref.inside(x, y, zm)
        if state is None:
            continue
        expect(got == state, "contains(%r) is %r, expected %d (model coordinates %r, dimensions %r)", pt, got, state, (x, y, zm), d)
        ins += state
        outs += 1 - state
    return Info(ins and outs, [], max(ins + outs, 1))


@st.composite
def edges(draw):
    """Exact geometry: no rotation (or a multiple of a full turn is not exact, so 0), same CRS, integer sizes."""
    dims = [float(draw(st.integers(1, 4000)) * 4), float(draw(st.integers(1, 4000)) * 4), float(draw(st.integers(1, 2000)) * 4)]
    origin = [500000.0 + draw(st.integers(-9999, 9999)), 4100000.0 + draw(st.integers(-9999, 9999))]
    return {"dims": dims, "origin": origin,
            "points": draw(st.lists(st.tuples(*[st.tuples(st.sampled_from([0, 1, 2, 2, 3, 4]), st.floats(0.125, 0.875, width=16))
                                                for _ in range(3)]), min_size=6, max_size=40))}


def run_edges(case, ctx):
    d, org = case["dims"], case["origin"]
    spec = {"name": "e.h5", "crs": models.UTM10, "dims": d, "origin": org, "azimuth": 0.0, "names": ["Vp"], "units": ["m/s"],
            "top": None, "topo": None, "vlen": True, "format": 0,
            "blocks": [{"name": "b", "n": [3, 3, 3], "x": None, "y": None, "z": None, "z_top": 0.0, "z_bot": -d[2], "seed": 1,
                        "lo": 0.0, "span": 1.0, "dtype": "<f8", "chunk": 0, "nodata": [], "perm": 0}]}
    files = write_models([spec], ctx.dir)
    pts, want = [], []
    for p in case["points"]:
        pt, w = [], 1
        for k, (c, f) in enumerate(p):
            lo, hi = (org[k], org[k] + d[k]) if k < 2 else (-d[2], 0.0)
            if c == 0:
                v, i = (lo - (2.0 ** -20 if k < 2 else 2.0 ** -10), 0)
            elif c == 1:
                v, i = lo, 1
            elif c == 2:
                v, i = lo + f * (hi - lo), 1
            elif c == 3:
                v, i = hi, 1
            else:
                v, i = (hi + (2.0 ** -20 if k < 2 else 2.0 ** -10), 0)
            pt.append(v)
            w &= i
        pts.append(pt)
        want.append(w)
    res = ctx.run(open_model(ctx, files[0], models.UTM10) + [["M_contains", "m", len(pts), flat(pts)]])
    for pt, got, w in zip(pts, res[5], want):
        expect(got == w, "contains(%r) is %r, expected %d (origin %r, dimensions %r)", pt, got, w, org, d)
    return Info(0 in want and 1 in want, [], len(pts))


PARTS = [Part("location", location(), run_location, 900, 15000), Part("contains", contains(), run_contains, 900, 15000),
         Part("edges", edges(), run_edges, 300, 5000)]
