"""Trilinear interpolation."""
from hypothesis import strategies as st

from gmg import models
from gmg.common import flat, ok, q_init, split_rows, write_models
from gmg.core import Info, Part, expect

RULE = ("One case is a generated model (1-3 blocks, 2-135 points per axis, uniform or variable axes, 1-4 values, 6 storage "
        "types, 4 chunk layouts, rotation, 5 model CRS, with or without surfaces) and up to 24 points placed on vertices, "
        "faces and inside cells, given in a drawn input CRS; an evaluation is one point compared with the reference "
        "interpolation. Non-trivial: at least one point strictly inside a cell was compared with a value whose tolerance "
        "is below 1e-4 of the spread of the cell corners. Edges: points exactly on the edges of models without rotation whose lengths and "
        "numbers of grid points are chosen so that rounding puts the far edge outside the grid; non-trivial if a point is on a far edge.")
TARGETS = ["driver"]


@st.composite
def cases(draw, nodata=False):
    m = draw(models.models(nodata=nodata))
    return {"model": m, "crs": draw(st.sampled_from(models.INPUT_CRS)),
            "points": draw(st.lists(models.grid_points(), min_size=1, max_size=24))}


def run(case, ctx):
    spec, crs = case["model"], case["crs"]
    files = write_models([spec], ctx.dir)
    ref = models.Ref(spec, crs)
    pts, want, labels = [], [], set()
    for p in case["points"]:
        xm, ym, zm = ref.place(p)
        q = ref.to_input(xm, ym, ref.unsqueeze(xm, ym, zm))
        pts.append([float(v) for v in q])
    nv = len(spec["names"])
    res = ctx.run(q_init(files, spec["names"], crs) + [["Q_query", "q", nv, len(pts), flat(pts)]])
    ok(res[1], "initialize")
    interior, evals = False, 0
    for p, pt, row in zip(case["points"], pts, split_rows(res[2], len(pts), nv)):
        x, y, elev = ref.to_model(*pt)
        zm = ref.squeeze(x, y, elev)
        state = ref.inside(x, y, zm)
        expect(isinstance(row, tuple), "query at %r raised %r", pt, row)
        if row[0] != 0:
            expect(state != 1, "point %r inside the model (model coordinates %r) gave status %d", pt, (x, y, zm), row[0])
            labels.add("boundary point outside")
            continue
        evals += 1
        outs = ref.outcomes(x, y, zm)
        for v in range(nv):
            expect(models.match(row[1][v], outs[v]), "value %s at %r (model coordinates %r) is %r, expected %r",
                   spec["names"][v], pt, (x, y, zm), row[1][v], outs[v])
        if all(0.0 < f < 1.0 for f in p[2::2]):
            interior = True
    if max(max(b["n"]) for b in spec["blocks"]) > 60:
        labels.add("grid larger than the read window")
    if any(b[a] for b in spec["blocks"] for a in "xyz"):
        labels.add("variable axis")
    labels.add("%d blocks" % len(spec["blocks"]))
    labels.add("top surface" if spec["top"] else "no top surface")
    return Info(interior and evals > 0, labels, max(evals, 1))


def run_edges(case, ctx):
    spec = case["model"]
    files = write_models([spec], ctx.dir)
    ref = models.Ref(spec, spec["crs"])
    pts = [xy + [float(ref.unsqueeze(p[0], p[1], p[2]))] for p, xy in models.edge_points(case)]
    nv = len(spec["names"])
    res = ctx.run(q_init(files, spec["names"], spec["crs"]) + [["Q_query", "q", nv, len(pts), flat(pts)]])
    ok(res[1], "initialize")
    for p, pt, row in zip(case["logical"], pts, split_rows(res[2], len(pts), nv)):
        expect(isinstance(row, tuple) and row[0] == 0, "query at %r on the edge of the model (model coordinates %r) gives %r", pt, p, row)
        outs = ref.outcomes(p[0], p[1], ref.squeeze(p[0], p[1], pt[2]))
        for v in range(nv):
            expect(models.match(row[1][v], outs[v]), "value %s at %r (model coordinates %r) is %r, expected %r", spec["names"][v], pt, p, row[1][v], outs[v])
    d = spec["dims"]
    return Info(any(p[0] == d[0] or p[1] == d[1] for p in case["logical"]), ["far edge"], len(pts))


PARTS = [Part("query", cases(), run, 1500, 30000), Part("edges", models.edge_cases(nvalues=2), run_edges, 300, 5000)]
