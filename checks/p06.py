"""Overlapping models."""
import math

from hypothesis import strategies as st

from gmg import models
from gmg.common import flat, ok, split_rows, write_models
from gmg.core import Info, Part, expect

RULE = ("One case is 2-4 generated models (different CRS, rotation, size, surfaces, depth and order of values) placed so that "
        "their domains overlap, listed in a drawn order, and up to 32 points in, between and outside them with optional squashing; "
        "every value and elevation query of the list is compared with queries of each model alone. An evaluation is one point. "
        "Non-trivial: two points are answered by different models and one of them is in the overlap of at least two models.")
TARGETS = ["driver"]


@st.composite
def cases(draw):
    n = draw(st.integers(2, 4))
    pool = ["Vp", "Vs", "density", "Qp"]
    units = {"Vp": "m/s", "Vs": "m/s", "density": "kg/m**3", "Qp": "None"}
    first = None
    ms, places = [], []
    for i in range(n):
        nm = draw(st.permutations(pool))[:draw(st.integers(2, 4))]
        if "Vs" not in nm:
            nm = nm[:-1] + ["Vs"]
        dims = None
        if first:
            dims = [first["dims"][k] * draw(st.sampled_from([0.3, 0.7, 1.0, 1.6])) for k in range(3)]
        m = draw(models.models(names=list(nm), big=False, max_blocks=2, dims=dims, name="m%d.h5" % i, nodata=draw(st.booleans()),
                               surfaces=("none", "top", "both", "top")))
        m["units"] = [units[k] for k in nm]
        for j, b in enumerate(m["blocks"]):
            b["lo"] = 1000.0 * (i + 1)
            b["dtype"] = draw(st.sampled_from(["<f8", "<f4"]))
        first = first or m
        ms.append(m)
        places.append([draw(st.floats(-0.625, 0.875, width=32)), draw(st.floats(-0.625, 0.875, width=32))])
    pts = draw(st.lists(st.tuples(st.integers(0, n), st.floats(-0.25, 1.25, width=32), st.floats(-0.25, 1.25, width=32),
                                  st.one_of(st.floats(0.0625, 0.5, width=32), st.floats(-0.125, 1.125, width=32), st.sampled_from([0.0, 0.001]))), min_size=4, max_size=32))
    return {"models": ms, "places": places, "crs": draw(st.sampled_from(models.INPUT_CRS[:7] + [models.UTM10])), "points": pts,
            "names": draw(st.sampled_from([["Vs"], ["vs", "VS"]])), "squash": draw(st.sampled_from([0, 0, 1, 2])),
            "minelev": draw(st.sampled_from([-100.0, -3000.0, -1.0e4]))}


def place(case, ctx):
    """Points and files of a case."""
    ms, crs = case["models"], case["crs"]
    for i, (m, p) in enumerate(zip(ms, case["places"])):
        if i:
            # Place the origin relative to the first model's domain.
            r0 = models.Ref(ms[0], m["crs"])
            q = r0.to_input(p[0] * ms[0]["dims"][0], p[1] * ms[0]["dims"][1], 0.0)
            m["origin"] = [float(q[0]), float(q[1])]
    files = write_models(ms, ctx.dir)
    refs = [models.Ref(m, crs) for m in ms]
    pts = []
    for mi, fx, fy, fz in case["points"]:
        k = mi % len(ms)
        d = ms[k]["dims"]
        x, y = fx * d[0], fy * d[1]
        q = refs[k].to_input(x, y, refs[k].unsqueeze(x, y, -fz * d[2]))
        if all(math.isfinite(v) for v in q):
            pts.append([float(v) for v in q])
    return pts, files


def run(case, ctx):
    pts, files = place(case, ctx)
    ms, crs = case["models"], case["crs"]
    refs = [models.Ref(m, crs) for m in ms]
    locs = [p[:2] for p in pts]
    names = case["names"]
    nv = len(names)

    def script(fs):
        return [["Q_new", "q"], ["Q_init", "q", crs, len(fs), fs, nv, names], ["Q_minelev", "q", case["minelev"]],
                ["Q_squash", "q", case["squash"]], ["Q_query", "q", nv, len(pts), flat(pts)],
                ["Q_top", "q", len(pts), flat(locs)], ["Q_topo", "q", len(pts), flat(locs)], ["Q_del", "q"]]

    res = ctx.run(script(files) + [c for f in files for c in script([f])])
    for i in range(len(files) + 1):
        ok(res[8 * i + 1], "initialize")
    multi = res[:8]
    single = [res[8 * (i + 1):8 * (i + 2)] for i in range(len(files))]
    rows = [split_rows(s[4], len(pts), nv) for s in single]
    used, overlap = set(), 0
    for i, (pt, row) in enumerate(zip(pts, split_rows(multi[4], len(pts), nv))):
        expect(isinstance(row, tuple), "query at %r raised %r", pt, row)
        want, who = (1, [models.NODATA] * nv), None
        for j, r in enumerate(rows):
            expect(isinstance(r[i], tuple), "query of model %d alone at %r raised %r", j, pt, r[i])
            if r[i][0] == 0:
                want, who = r[i], j
                break
        used.add(who)
        overlap += sum(r[i][0] == 0 for r in rows) > 1
        expect(row == want, "query at %r gives %r, but %s gives %r", pt, row,
               "no model contains it and it" if who is None else "model %d is the first that contains it and" % who, want)
        for what, k in (("top", 5), ("topography/bathymetry", 6)):
            w = models.NODATA
            for s in single:
                if s[k][i] != models.NODATA:
                    w = s[k][i]
                    break
            expect(multi[k][i] == w, "%s elevation at %r is %r, but the first model that contains it gives %r", what, pt, multi[k][i], w)
    # Containment of each model alone agrees with the reference.
    if case["squash"] == 0:
        for j, r in enumerate(rows):
            for i, pt in enumerate(pts):
                x, y, e = refs[j].to_model(*pt)
                h = refs[j].horizontal(x, y)
                s = 0 if h == 0 else refs[j].inside(x, y, refs[j].squeeze(x, y, e))
                if s is not None:
                    expect((r[i][0] == 0) == bool(s), "model %d alone gives status %d at %r, but %s it", j, r[i][0], pt,
                           "contains" if s else "does not contain")
    labels = ["squash %d" % case["squash"]] + (["outside all"] if None in used else [])
    return Info(len(used - {None}) > 1 and overlap, labels, len(pts))


PARTS = [Part("overlap", cases(), run, 900, 15000)]
