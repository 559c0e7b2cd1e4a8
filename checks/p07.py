"""Selection of values by name and consistency of models."""
from hypothesis import strategies as st

from gmg import models
from gmg.common import flat, split_rows, write_models
from gmg.core import Info, Part, expect
from gmg.driver import Exc

RULE = ("One case is 1-3 generated models that store values from a pool of 14 names in drawn orders and letter cases, with drawn units, "
        "and a request of 1-6 names with drawn letter cases and repeats (C++ and C interfaces); the outcome (values in the order of the "
        "request, or an error that names the offending value) is compared with a selection model. An evaluation is one request. "
        "Non-trivial: the request differs from the stored order in order, case or number and, if several models, they store different "
        "orders; or the request must be rejected.")
TARGETS = ["driver"]

POOL = ["Vp", "Vs", "density", "Qp", "Qs", "fault_block_id", "zone-id", "Vp1", "V", "temperature (C)", "porosity", "a", "AB", "Poisson ratio"]
UNITS = ["m/s", "kg/m**3", "None", "km/s", "unitless", "degC", "meters per second", "meters per second squared", "milligal per kilometer",
         "milligal per kilometre", "m", ""]


def recase(draw, s):
    k = draw(st.integers(0, 3))
    return s if k == 0 else s.upper() if k == 1 else s.lower() if k == 2 else s.swapcase()


@st.composite
def cases(draw):
    n = draw(st.integers(1, 3))
    base = draw(st.permutations(POOL))[:draw(st.integers(1, 6))]
    unit = {k: draw(st.sampled_from(UNITS)) for k in POOL}
    ms = []
    for i in range(n):
        nm = list(draw(st.permutations(base)))
        if draw(st.integers(0, 3)) == 0:
            nm = nm + [x for x in draw(st.permutations(POOL))[:2] if x not in nm]
        if draw(st.integers(0, 5)) == 0 and len(nm) > 1:
            nm = nm[:-1]
        names = [recase(draw, x) for x in nm]
        m = draw(models.models(names=names, big=False, max_blocks=1, surfaces=("none",), crs=models.UTM10, dims=[6e4, 6e4, 5e4],
                               name="m%d.h5" % i))
        m["azimuth"], m["origin"] = 0.0, [5e5 + 25e3 * i, 41e5]
        m["units"] = [recase(draw, unit[x]) for x in nm]
        if draw(st.integers(0, 4)) == 0:
            k = draw(st.integers(0, len(nm) - 1))
            m["units"][k] = draw(st.sampled_from(UNITS))
        m["blocks"][0]["dtype"] = "<f8"
        ms.append(m)
    req = [recase(draw, draw(st.sampled_from(base))) for _ in range(draw(st.integers(1, 6)))]
    if draw(st.integers(0, 9)) == 0:
        req.insert(draw(st.integers(0, len(req))), draw(st.sampled_from(["missing", "Vpp", "vp ", "", "dens"])))
    return {"models": ms, "request": req,
            "points": draw(st.lists(st.tuples(*[st.floats(0.0625, 0.9375, width=16)] * 3), min_size=1, max_size=6))}


def run(case, ctx):
    ms, req = case["models"], case["request"]
    files = write_models(ms, ctx.dir)
    refs = [models.Ref(m, models.UTM10) for m in ms]
    pts, want = [], []
    for f in case["points"]:
        x, y, z = 5e5 + f[0] * 110e3, 41e5 + f[1] * 6e4, -f[2] * 5e4
        pts.append([x, y, z])
    # The selection model.
    problem, units = None, {}
    for m in ms:
        low = [n.lower() for n in m["names"]]
        for r in req:
            if r.lower() not in low:
                problem = problem or ("missing", r)
        if problem:
            break
        for r in req:
            u = m["units"][low.index(r.lower())].lower()
            if units.setdefault(r.lower(), u) != u:
                problem = problem or ("units", r)
    nv = len(req)
    res = ctx.run([["Q_new", "q"], ["Q_init", "q", models.UTM10, len(files), files, nv, req], ["Q_names", "q"],
                   ["Q_query", "q", nv, len(pts), flat(pts)], ["C_new", "c"],
                   ["C_init", "c", models.UTM10, len(files), files, nv, req], ["C_err", "c"]])
    if problem:
        e = res[1][0]
        expect(isinstance(e, Exc), "initialize succeeded although %r is %s (models %r, request %r)", problem[1],
               "missing from a model" if problem[0] == "missing" else "given in different units",
               [(m["names"], m["units"]) for m in ms], req)
        bad = [r for r in req if any(r.lower() not in [n.lower() for n in m["names"]] for m in ms)]
        bad += [r for r in req if len({dict(zip([n.lower() for n in m["names"]], [u.lower() for u in m["units"]])).get(r.lower())
                                       for m in ms}) > 1]
        expect(any(("'%s'" % b).lower() in e.what.lower() for b in bad), "the error %r does not name any of %r", e, bad)
        expect(res[5][0] != 0, "the C interface initialized although the C++ interface raised %r", e)
        expect(res[6][0] == 2, "the C error handler has status %r after a failed initialize", res[6])
        return Info(True, [problem[0]])
    expect(not isinstance(res[1][0], Exc), "initialize raised %r for models %r, request %r", res[1][0],
           [(m["names"], m["units"]) for m in ms], req)
    expect(res[5][0] == 0, "the C interface failed to initialize: %r", res[6])
    expect([t.lower() for t in res[2]] == [r.lower() for r in req], "value names are %r for request %r", res[2], req)
    seen = set()
    for pt, row in zip(pts, split_rows(res[3], len(pts), nv)):
        want = None
        for i, (m, ref) in enumerate(zip(ms, refs)):
            x, y, e = ref.to_model(*pt)
            s = ref.inside(x, y, ref.squeeze(x, y, e))
            if s:
                want = (i, ref.outcomes(x, y, ref.squeeze(x, y, e)))
                break
            if s is None:
                want = "?"
                break
        if want == "?":
            continue
        if want is None:
            expect(row[0] == 1 and all(v == models.NODATA for v in row[1]), "point %r outside gives %r", pt, row)
            continue
        i, outs = want
        seen.add(i)
        low = [n.lower() for n in ms[i]["names"]]
        for k, r in enumerate(req):
            expect(row[0] == 0 and models.match(row[1][k], outs[low.index(r.lower())]),
                   "value %d (%s) at %r is %r, expected %r (model %d stores %r, request %r)", k, r, pt, row[1][k],
                   outs[low.index(r.lower())], i, ms[i]["names"], req)
    differs = any([r for r in req] != m["names"] for m in ms)
    return Info(differs and seen and (len(ms) == 1 or len({tuple(n.lower() for n in m["names"]) for m in ms}) > 1 or len(req) > 1),
                ["accepted"] + (["repeats"] if len({r.lower() for r in req}) < len(req) else []))


PARTS = [Part("selection", cases(), run, 1600, 30000)]
