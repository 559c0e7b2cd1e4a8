"""The elevation query application."""
import os

from hypothesis import strategies as st

from gmg import appgen, models
from gmg.common import flat, ok, write_models
from gmg.core import Info, Part, expect

RULE = ("One case is 1-2 generated models (no surface, top surface, topography/bathymetry, both), a points file of up to 25 (rarely 1500) locations "
        "(drawn number formats, separators, line ends, with or without a final newline) and a command line with drawn surface, input "
        "CRS, log, and option order and spelling; every row of the output is compared with the library's answer for that location. An "
        "evaluation is one row. Non-trivial: at least two different elevations inside a model that has a surface, and the two surfaces "
        "differ, or the file has no final newline or an unusual layout.")
TARGETS = ["driver", "app_queryelev"]


@st.composite
def cases(draw):
    ms = draw(appgen.model_sets(big=False, names=["Vs"], surfaces=("both", "both", "top", "topo", "none")))
    return {"models": ms, "points": draw(appgen.relative_points()), "layout": draw(appgen.layout()), "repeat": draw(st.sampled_from([1] * 15 + [60])),
            "crs": draw(st.sampled_from([None, None] + models.INPUT_CRS)),
            "surface": draw(st.sampled_from([None, "top_surface", "topography_bathymetry", "topography_bathymetry"])),
            "log": draw(st.booleans()), "sp": draw(appgen.spelling(7))}


def run(case, ctx):
    ms = case["models"]
    d = ctx.sub()
    files = write_models(ms, d)
    crs = case["crs"] or "EPSG:4326"
    refs = [models.Ref(m, crs) for m in ms]
    pts = appgen.place(ms, refs, case["points"], 2)
    pts = pts * case["repeat"]
    text = appgen.points_text(pts, case["layout"])
    pf, of, lf = os.path.join(d, "points.in"), os.path.join(d, "elev.out"), os.path.join(d, "log.txt")
    with open(pf, "w", newline="") as f:
        f.write(text)
    opts = [("models", ",".join(files)), ("points", pf), ("output", of)]
    if case["crs"]:
        opts.append(("points-coordsys", case["crs"]))
    if case["surface"]:
        opts.append(("surface", case["surface"]))
    if case["log"]:
        opts.append(("log", lf))
    r = ctx.app("queryelev", appgen.spell("queryelev", opts, case["sp"]))
    expect(r.rc == 0, "geomodelgrids_queryelev failed (%d): %s%s", r.rc, r.out, r.err)
    res = ctx.run([["Q_new", "q"], ["Q_init", "q", crs, len(files), files, 0, []], ["Q_top", "q", len(pts), flat(pts)],
                   ["Q_topo", "q", len(pts), flat(pts)]])
    ok(res[1], "initialize")
    e = res[3] if case["surface"] == "topography_bathymetry" else res[2]
    expect(len(e) == len(pts), "the library gave %d elevations for %d points", len(e), len(pts))
    appgen.check_rows(of, ["x0", "x1", "elevation"], [list(p) + [v] for p, v in zip(pts, e)], "geomodelgrids_queryelev")
    if case["log"]:
        expect(os.path.isfile(lf), "no log file was written")
    inside = {v for v in e if v not in (models.NODATA, 0.0)}
    unusual = not text.endswith("\n") or "\r" in text or "\n\n" in text or res[2] != res[3]
    return Info(len(inside) > 1 and unusual, ["surface %s" % case["surface"], "models %d" % len(ms)], max(len(pts), 1))


PARTS = [Part("rows", cases(), run, 900, 20000)]
