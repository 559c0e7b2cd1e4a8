"""NODATA handling."""
from hypothesis import strategies as st

from gmg import models
from gmg.common import flat, ok, q_init, split_rows, write_models
from gmg.core import Info, Part, expect

RULE = ("One case is a generated model with up to 8 grid entries per block marked NODATA (floating point storage of 4 or 8 bytes, "
        "either byte order) and up to 24 points placed around the marked entries (in the 8 cells next to them, on their faces, at "
        "weights down to 1e-4) and elsewhere; an evaluation is one value at one point. Non-trivial: the case has a point with at "
        "least one value required to be NODATA and one with a value required to be interpolated from data.")
TARGETS = ["driver"]

W = st.one_of(st.sampled_from([0.0, 1.0, 0.5, 1.0e-4, 0.9999, 0.25]), st.floats(0.0009765625, 0.9990234375, width=32))


@st.composite
def near(draw):
    """A point next to a marked entry: block, number of the entry, and per axis which cell and where in it."""
    p = ["near", draw(st.integers(0, 3)), draw(st.integers(0, 7))]
    for _ in range(3):
        p += [draw(st.integers(0, 1)), draw(W)]
    return p


@st.composite
def cases(draw):
    m = draw(models.models(nodata=True))
    return {"model": m, "crs": draw(st.sampled_from([m["crs"], m["crs"]] + models.INPUT_CRS)),
            "points": draw(st.lists(st.one_of(near(), near(), models.grid_points()), min_size=2, max_size=24))}


def resolve(spec, p):
    if p[0] != "near":
        return p
    b = p[1] % len(spec["blocks"])
    blk = spec["blocks"][b]
    nd = blk["nodata"]
    e = nd[p[2] % len(nd)] if nd else [0, 0, 0, 0]
    out = [b]
    for k in range(3):
        out += [min(max(e[k] - p[3 + 2 * k], 0), blk["n"][k] - 2), p[4 + 2 * k]]
    return out


def run(case, ctx):
    spec, crs = case["model"], case["crs"]
    files = write_models([spec], ctx.dir)
    ref = models.Ref(spec, crs)
    pts = []
    for p in case["points"]:
        xm, ym, zm = ref.place(resolve(spec, p))
        pts.append([float(v) for v in ref.to_input(xm, ym, ref.unsqueeze(xm, ym, zm))])
    nv = len(spec["names"])
    res = ctx.run(q_init(files, spec["names"], crs) + [["Q_query", "q", nv, len(pts), flat(pts)]])
    ok(res[1], "initialize")
    nd = data = mixed = evals = 0
    for pt, row in zip(pts, split_rows(res[2], len(pts), nv)):
        x, y, elev = ref.to_model(*pt)
        zm = ref.squeeze(x, y, elev)
        expect(isinstance(row, tuple), "query at %r raised %r", pt, row)
        if row[0] != 0:
            expect(ref.inside(x, y, zm) != 1, "point %r inside the model gave status %d", pt, row[0])
            continue
        outs = ref.outcomes(x, y, zm)
        kinds = []
        for v in range(nv):
            evals += 1
            expect(models.match(row[1][v], outs[v]), "value %s at %r (model coordinates %r) is %r, expected %r",
                   spec["names"][v], pt, (x, y, zm), row[1][v], outs[v])
            kinds.append({k for k, _, _ in outs[v]})
        nd += {"nodata"} in kinds
        data += {"value"} in kinds
        mixed += {"nodata"} in kinds and {"value"} in kinds
    labels = ["values differ at a point"] if mixed else []
    return Info(nd and data, labels, max(evals, 1))


PARTS = [Part("nodata", cases(), run, 1600, 30000)]
