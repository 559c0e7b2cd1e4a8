"""The query application."""
import os

from hypothesis import strategies as st

from gmg import appgen, models
from gmg.common import flat, ok, split_rows, write_models
from gmg.core import Info, Part, expect

RULE = ("One case is 1-2 generated models, a points file of up to 25 (rarely 1500) points (inside, outside, on the surface; drawn number formats, "
        "separators, line ends, blank lines, with or without a final newline), and a command line with drawn values, input CRS, "
        "squashing options, log, and option order and spelling; every row of the output is compared with the library's answer for "
        "that point. An evaluation is one row. Non-trivial: at least two rows with different values inside a model, and the file has "
        "no final newline or an unusual layout, or squashing is on.")
TARGETS = ["driver", "app_query"]


@st.composite
def cases(draw):
    ms = draw(appgen.model_sets(nodata=draw(st.booleans()), big=False))
    req = draw(st.lists(st.sampled_from([n for n in ms[0]["names"]] + [n.upper() for n in ms[0]["names"]]), min_size=1, max_size=4))
    return {"models": ms, "values": req, "points": draw(appgen.relative_points()), "layout": draw(appgen.layout()), "repeat": draw(st.sampled_from([1] * 15 + [60])),
            "crs": draw(st.sampled_from([None, None] + models.INPUT_CRS)),
            "surface": draw(st.sampled_from([None, None, "none", "top_surface", "topography_bathymetry"])),
            "minelev": draw(st.sampled_from([None, None, "-10.0e+3", "-2500", "-1.0", "-37.5e2"])),
            "log": draw(st.booleans()), "out": draw(st.sampled_from(["out.txt", "out file", "d.out"])), "sp": draw(appgen.spelling(9))}


def run(case, ctx):
    ms, names = case["models"], case["values"]
    d = ctx.sub()
    files = write_models(ms, d)
    crs = case["crs"] or "EPSG:4326"
    refs = [models.Ref(m, crs) for m in ms]
    pts = appgen.place(ms, refs, case["points"])
    pts = pts * case["repeat"]
    text = appgen.points_text(pts, case["layout"])
    pf, of, lf = os.path.join(d, "points.in"), os.path.join(d, case["out"]), os.path.join(d, "log.txt")
    with open(pf, "w", newline="") as f:
        f.write(text)
    opts = [("values", ",".join(names)), ("models", ",".join(files)), ("points", pf), ("output", of)]
    if case["crs"]:
        opts.append(("points-coordsys", case["crs"]))
    surf = 0
    if case["surface"]:
        opts.append(("squash-surface", case["surface"]))
        surf = {"none": 0, "top_surface": 1, "topography_bathymetry": 2}[case["surface"]]
    if case["minelev"]:
        opts.append(("squash-min-elev", case["minelev"]))
        if not case["surface"]:
            surf = 1
    if case["log"]:
        opts.append(("log", lf))
    r = ctx.app("query", appgen.spell("query", opts, case["sp"]))
    expect(r.rc == 0, "geomodelgrids_query failed (%d): %s%s", r.rc, r.out, r.err)
    nv = len(names)
    cmds = [["Q_new", "q"], ["Q_init", "q", crs, len(files), files, nv, names]]
    if surf:
        cmds += [["Q_minelev", "q", float(case["minelev"] or -1e4)], ["Q_squash", "q", surf]]
    res = ctx.run(cmds + [["Q_query", "q", nv, len(pts), flat(pts)]])
    ok(res[1], "initialize")
    rows = split_rows(res[-1], len(pts), nv)
    want = [list(p) + list(v[1]) for p, v in zip(pts, rows)]
    appgen.check_rows(of, ["x0", "x1", "x2"] + names, want, "geomodelgrids_query")
    if case["log"]:
        expect(os.path.isfile(lf), "no log file was written")
    inside = {tuple(w[3:]) for w in want if w[3] != models.NODATA}
    unusual = not text.endswith("\n") or "\r" in text or "\n\n" in text or surf
    return Info(len(inside) > 1 and unusual, ["squash %d" % surf, "models %d" % len(ms), "no newline" if not text.endswith("\n") else "-"],
                max(len(pts), 1))


PARTS = [Part("rows", cases(), run, 900, 20000)]
