"""Elevation queries."""
import math

from hypothesis import strategies as st

from gmg import models
from gmg.common import flat, ok, q_init, write_models
from gmg.core import Info, Part, expect

RULE = ("One case is a generated model (no surface, top surface, both, or topography/bathymetry alone; 2-135 points per axis, "
        "uniform or variable axes, 4 storage types) and up to 24 locations on grid points, in cells and outside, given in a drawn "
        "input CRS (some with other vertical units); an evaluation is one location for which both elevations are compared with "
        "the bilinear reference. Non-trivial: a location inside a model with at least one surface of nonzero relief was compared. "
        "Edges: points exactly on the edges of models without rotation whose lengths and numbers of grid points are chosen so that rounding puts the "
        "far edge outside the grid; non-trivial if a point is on a far edge.")
TARGETS = ["driver"]


@st.composite
def cases(draw):
    m = draw(models.models(nvalues=1, surfaces=("top", "both", "both", "topo", "none"), max_blocks=2))
    pts = []
    for _ in range(draw(st.integers(1, 24))):
        if draw(st.integers(0, 5)) == 0:
            pts.append(["out", draw(st.floats(-1.0, 2.0, width=32)), draw(st.floats(-1.0, 2.0, width=32))])
        else:
            pts.append([draw(st.sampled_from(["top", "topo"])), draw(st.integers(0, 140)), draw(W), draw(st.integers(0, 140)), draw(W)])
    return {"model": m, "crs": draw(st.sampled_from(models.INPUT_CRS)), "points": pts}


W = st.one_of(st.sampled_from([0.0, 0.5, 1.0]), st.floats(0.0, 1.0, width=32))


def place(ref, spec, p):
    d = spec["dims"]
    if p[0] == "out":
        return p[1] * d[0], p[2] * d[1]
    s = spec[p[0]] or spec["top"] or spec["topo"]
    if s is None:
        return (p[1] % 7 / 7.0) * d[0], (p[3] % 7 / 7.0) * d[1]
    out = []
    for k in range(2):
        c = models.axis_coords(s["xy"[k]], s["n"][k], d[k])
        i = p[1 + 2 * k] % (s["n"][k] - 1)
        f = p[2 + 2 * k]
        out.append(min(float(c[i] + f * (c[i + 1] - c[i])), d[k]))
    return out


def run(case, ctx):
    spec, crs = case["model"], case["crs"]
    files = write_models([spec], ctx.dir)
    ref = models.Ref(spec, crs)
    pts = []
    for p in case["points"]:
        xm, ym = place(ref, spec, p)
        q = ref.to_input(xm, ym, 0.0)
        if all(math.isfinite(v) for v in q[:2]):
            pts.append([float(v) for v in q[:2]])
    res = ctx.run(q_init(files, spec["names"], crs) + [["Q_top", "q", len(pts), flat(pts)], ["Q_topo", "q", len(pts), flat(pts)]])
    ok(res[1], "initialize")
    inside = evals = 0
    for i, pt in enumerate(pts):
        x, y, _ = ref.to_model(pt[0], pt[1], 0.0)
        h = ref.horizontal(x, y)
        got = res[2][i], res[3][i]
        if h == 0:
            expect(got == (models.NODATA, models.NODATA), "location %r outside the model has elevations %r", pt, got)
            evals += 1
            continue
        for what, v, e, s in (("top", got[0], ref.ground(x, y), spec["top"]),
                              ("topography/bathymetry", got[1], ref.topobathy(x, y), spec["topo"] or spec["top"])):
            if h is None and v == models.NODATA:
                continue
            if s is None:
                expect(v == 0.0, "%s elevation at %r is %r, but the model has no surface", what, pt, v)
                continue
            t = ref.to_input(x, y, e)
            want = float(t[2])
            unit = abs(float(ref.to_input(x, y, e + 1.0)[2]) - want)
            tol = unit * (1e-5 * s["amp"] + 1e-9 * abs(e) + 1e-7)
            expect(abs(v - want) <= tol, "%s elevation at %r (model %r) is %r, expected %r", what, pt, (x, y), v, want)
        inside += 1 if h else 0
        evals += 1
    s = spec["top"] or spec["topo"]
    labels = ["top" if spec["top"] else "-", "topo" if spec["topo"] else "-"]
    if crs in models.INPUT_CRS[-3:]:
        labels.append("other units")
    return Info(inside and s and s["amp"] > 0, [" ".join(labels)], max(evals, 1))


def run_edges(case, ctx):
    spec = case["model"]
    files = write_models([spec], ctx.dir)
    ref = models.Ref(spec, spec["crs"])
    pts = [xy for _, xy in models.edge_points(case)]
    res = ctx.run(q_init(files, spec["names"], spec["crs"]) + [["Q_top", "q", len(pts), flat(pts)], ["Q_topo", "q", len(pts), flat(pts)]])
    ok(res[1], "initialize")
    for i, p in enumerate(case["logical"]):
        for what, v, e, s in (("top", res[2][i], ref.ground(*p[:2]), spec["top"]),
                              ("topography/bathymetry", res[3][i], ref.topobathy(*p[:2]), spec["topo"] or spec["top"])):
            want, tol = (0.0, 0.0) if s is None else (e, 1e-5 * s["amp"] + 1e-9 * abs(e) + 1e-7)
            expect(abs(v - want) <= tol, "%s elevation at %r on the edge of the model (model coordinates %r) is %r, expected %r", what, pts[i], p, v, want)
    d = spec["dims"]
    return Info(any(p[0] == d[0] or p[1] == d[1] for p in case["logical"]) and (spec["top"] or spec["topo"]), ["far edge"], len(pts))


PARTS = [Part("elevation", cases(), run, 1500, 30000), Part("edges", models.edge_cases(), run_edges, 300, 5000)]
