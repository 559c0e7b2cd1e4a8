"""Models created from an EarthVision model have the surfaces of its grids and the values its rules give."""
import json
import os

import numpy as np
from hypothesis import assume, strategies as st

from checks.p21 import made
from gmg import create
from gmg.core import Info, Part, expect

RULE = ("A case is a generated configuration (as for P21, uniform z), an EarthVision model (fault blocks separated by x, zones separated by y and "
        "elevation, some without a name; one to three grids per surface; units m, km or ft for horizontal and vertical coordinates), rules that "
        "depend on fault block, zone, x, y and depth and give integers or floats, and a batch size. The EarthVision programs are stand-ins that "
        "evaluate that model from the files and formulas they are given. The model is created at once and in batches; the stored surfaces are "
        "compared with the maximum of the grids, the stored values with the rule of the fault block and zone at the grid point, and their ids. "
        "An evaluation is one grid point. Non-trivial: at least two different fault blocks or zones were stored.")
TARGETS = ["stage"]
ASSUMPTIONS = ["EarthVision is proprietary: ev_facedump, ev_label and ev_fp are replaced by stand-ins that follow the file formats the code reads.",
               "Grid points within rounding of a boundary between fault blocks or zones are not compared; coordinates reach the rules in single "
               "precision."]
UNITS = {"m": 1.0, "meter": 1.0, "km": 1000.0, "ft": 0.3048, "feet": 0.3048, "kilometer": 1000.0}
NODATA = -1.0e20
BIN = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "gmg", "evbin")
RULES = '''"""Rules of a generated model."""
import json
import os

PARAMS = json.load(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "rules.json"), encoding="utf-8"))


def get_rules(faultblock, zone):
    p = PARAMS["rules"][faultblock + "|" + zone]

    def rule(x, y, depth):
        if p["kind"] == "constant":
            return tuple(p["a"])
        v = [a + b * (x - PARAMS["x0"]) + c * (y - PARAMS["y0"]) + d * depth for a, b, c, d in zip(p["a"], p["b"], p["c"], p["d"])]
        return tuple(v) if p["kind"] == "tuple" else v

    return rule
'''
NAME = st.one_of(st.sampled_from(["Bay", "East Bay Hills", "Franciscan (Berkeley)", "Great Valley Sequence, upper", "Zone-1.b", "[3] odd"]),
                 st.text(st.sampled_from("abcXYZ -_.()1"), min_size=1, max_size=12).map(str.strip).filter(
                     lambda s: s and s == " ".join(s.split(" "))))
COEF = st.integers(-8, 8).map(lambda k: k / 8.0)


@st.composite
def cases(draw):
    c = draw(create.configs(max_cells=4, zvar=False, geo=None))
    assume(c["top"] or c["topo"])
    nv = len(c["values"])
    blocks = draw(st.lists(NAME, min_size=1, max_size=3, unique=True))
    zones = draw(st.lists(NAME, min_size=1, max_size=4, unique=True))
    ids = [draw(st.lists(st.integers(0, 40), min_size=len(l), max_size=len(l), unique=True)) for l in (blocks, zones)]
    ntx, ntz = draw(st.integers(0, 2)), draw(st.integers(0, 3))

    def pick(names, n):
        return [draw(st.sampled_from(names + [""])) for _ in range(n)]
    m = {"blocks": blocks, "zones": zones, "ids": ids, "tx": sorted(draw(st.sets(st.integers(1, 99), min_size=ntx, max_size=ntx))),
         "tz": sorted(draw(st.sets(st.integers(1, 99), min_size=ntz, max_size=ntz))), "ty": draw(st.integers(1, 120)),
         "ix": pick(blocks, ntx + 1), "iz": pick(zones, 2 * (ntz + 1)),
         "hunits": draw(st.sampled_from(sorted(UNITS))), "vunits": draw(st.sampled_from(sorted(UNITS)))}
    rules = {}
    for f in blocks + [""]:
        for z in zones + [""]:
            k = draw(st.sampled_from(["tuple", "tuple", "constant", "list"]))
            rules[f + "|" + z] = {"kind": "tuple" if k == "list" else k, "a": [draw(st.one_of(st.integers(-5000, 9000), st.integers(
                -40000, 72000).map(lambda q: q / 8.0))) for _ in range(nv)], "b": [draw(COEF) for _ in range(nv)],
                "c": [draw(COEF) for _ in range(nv)], "d": [draw(COEF) for _ in range(nv)]}
            if k == "constant" and draw(st.booleans()):
                rules[f + "|" + z]["a"] = [NODATA] * nv
    m["rules"] = rules
    m["grids"] = {k: [[draw(st.integers(-30, 30)) for _ in range(3)] for _ in range(draw(st.integers(1, 3)))] for k in ("top", "topo")}
    return {"config": c, "model": m, "batch": draw(st.sampled_from([None, 25, 60, 200])), "deep": draw(st.booleans()),
            "single": draw(st.booleans())}


def planes(c, m, key):
    """Base, slopes and reference point of the grids of a surface, in m."""
    lx, ly, lz = [float(v) for v in c["dims"]]
    amp = 0.3 * min(lx, ly, lz)
    out = []
    for g in m["grids"][key]:
        out.append([g[0] / 30.0 * amp, g[1] / 30.0 * 0.3 * amp / (lx + ly), g[2] / 30.0 * 0.3 * amp / (lx + ly), c["origin"][0], c["origin"][1]])
    return out


def setup(case, d):
    """The EarthVision model in its own folder; thresholds in m."""
    c, m = case["config"], case["model"]
    h, v = UNITS[m["hunits"]], UNITS[m["vunits"]]
    ev = os.path.join(d, "evmodel")
    os.mkdir(ev)
    lx, ly, lz = [float(x) for x in c["dims"]]
    X, Y = create.to_crs(c, np.array([0.0, lx, 0.0, lx]), np.array([0.0, 0.0, ly, ly]))
    t = {"tx": [X.min() + (X.max() - X.min()) * k / 100.07 for k in m["tx"]], "tz": [-lz + lz * 1.3 * k / 100.07 for k in m["tz"]],
         "ty": float(Y.min() + (Y.max() - Y.min()) * m["ty"] / 100.07)}
    with open(os.path.join(ev, "geology.seq"), "w", encoding="utf-8") as f:
        json.dump({"tx": [x / h for x in t["tx"]], "ty": t["ty"] / h, "tz": [x / v for x in t["tz"]], "blocks": m["ix"], "zones": m["iz"]}, f)
    lines = ["Faces file geology.faces", "Number of faces: 17", "[7] not a name", "", "Fault Block Names"]
    lines += ["[%d] %s" % p for p in zip(m["ids"][0], m["blocks"])] + ["", "Zone Names:"]
    lines += ["  [%d] %s" % p for p in zip(m["ids"][1], m["zones"])] + ["", "[99] other", "End"]
    with open(os.path.join(ev, "geology.faces"), "w", encoding="utf-8") as f:
        f.write("\n".join(lines) + "\n")
    for key in ("top", "topo"):
        for i, p in enumerate(planes(c, m, key)):
            with open(os.path.join(ev, "%s%d.2grd" % (key, i)), "w") as f:
                json.dump([p[0] / v, p[1] * h / v, p[2] * h / v, p[3] / h, p[4] / h], f)
    name = "rules_" + os.path.basename(d).replace("-", "_")
    pkg = os.path.join(d, "pkg_" + name) if case["deep"] else d
    os.makedirs(pkg, exist_ok=True)
    for fn, text in (("rules.json", json.dumps({"rules": m["rules"], "x0": c["origin"][0], "y0": c["origin"][1]})), (name + ".py", RULES)) + (
            (("__init__.py", ""),) if case["deep"] else ()):
        with open(os.path.join(pkg, fn), "w", encoding="utf-8") as f:
            f.write(text)
    fn = ("pkg_" + name + "." if case["deep"] else "") + name + ".get_rules"
    ext = ["", "[earthvision]", "model_dir = %s" % ev, "geologic_model = geology.seq", "elev_units = %s" % m["vunits"], "xy_units = %s" % m["hunits"],
           "rules_fn = %s" % case.get("rules_fn", fn), "rules_pythonpath = %s" % case.get("rules_path", d)]
    for key, sec in (("top", "top_surface_2grd"), ("topo", "topography_bathymetry_2grd")):
        names = ["%s%d.2grd" % (key, i) for i in range(len(m["grids"][key]))]
        ext.append("%s = %s" % (sec, names[0] if len(names) == 1 and case["single"] else "[" + ", ".join(names) + "]"))
    ext += ["", "[earthvision.environment]", "PATH = %s:/usr/bin:/bin" % BIN, "LM_LICENSE_FILE = /nonexistent/license.dat"]
    return ev, t, "\n".join(ext)


def expected_surface(c, m, key, s):
    X, Y = create.to_crs(c, *np.meshgrid(*create.grid_axes(c, s), indexing="ij"))
    ps = planes(c, m, key)
    err = max(abs(p[1]) + abs(p[2]) for p in ps) * 2e-8 * max(np.abs(X).max(), np.abs(Y).max()) + 1e-4
    return np.max([p[0] + p[1] * (X - p[3]) + p[2] * (Y - p[4]) for p in ps], axis=0), err


def rule_value(c, m, f, z, k, x, y, depth, xtol, ztol):
    """Value number k of the rule of fault block f and zone z with its tolerance."""
    r = m["rules"][f + "|" + z]
    want, tol = r["a"][k], 1e-6
    if r["kind"] != "constant":
        want += r["b"][k] * (x - c["origin"][0]) + r["c"][k] * (y - c["origin"][1]) + r["d"][k] * depth
        tol += (abs(r["b"][k]) + abs(r["c"][k])) * xtol + abs(r["d"][k]) * ztol
    return want, want, tol + 1e-6 * abs(want)


def check_model(case, t, got, what, rule=rule_value):
    c, m = case["config"], case["model"]
    surfs = {}
    for key, sec in (("top", "top_surface"), ("topo", "topography_bathymetry")):
        if not c[key]:
            expect("surfaces/" + sec not in got["data"], "%s was created without being configured", sec)
            continue
        want, err = expected_surface(c, m, key, c[key])
        data = got["data"]["surfaces/" + sec][:, :, 0].astype(np.float64)
        expect(data.shape == want.shape, "%s has size %r, expected %r", sec, data.shape, want.shape)
        bad = ~(np.abs(data - want) <= err + 1e-6 * np.abs(want))
        expect(not bad.any(), "%s created %s: elevation %r at point %r, the highest of the grids is %r", sec, what, float(data[bad][0]) if
               bad.any() else None, tuple(map(int, np.argwhere(bad)[0])) if bad.any() else None, float(want[bad][0]) if bad.any() else None)
        surfs[key] = data
    ref = "topo" if c["topo"] else "top"
    labels, n = set(), 0
    nv = len(c["values"]) - 2
    fid = dict(zip(m["blocks"], m["ids"][0]))
    zid = dict(zip(m["zones"], m["ids"][1]))
    zid[""] = fid[""] = NODATA
    for b in c["blocks"]:
        axes = create.block_axes(c, b)
        lx, ly, Z = create.block_locations(c, b, surfs.get("top"))
        X, Y = create.to_crs(c, lx, ly)
        gx, gy = create.grid_axes(c, c[ref])
        S = surfs[ref][np.ix_(create.matching(gx, axes[0]), create.matching(gy, axes[1]))][:, :, None]
        depth = S - Z  # of the grid points themselves, without the offset of the top points
        Zl = Z.copy()
        Zl[:, :, 0] += float(b["offset"])
        data = got["data"]["blocks/" + b["name"]].astype(np.float64)
        expect(data.shape == X.shape + (nv + 2,), "block %s has size %r, expected %r", b["name"], data.shape, X.shape + (nv + 2,))
        etol = 2e-8 * max(np.abs(X).max(), np.abs(Y).max()) + 1e-3
        near = np.zeros(X.shape, dtype=bool)
        ix, iz = np.zeros(X.shape, dtype=int), np.zeros(X.shape, dtype=int)
        for v in t["tx"]:
            near |= np.abs(X - v) < etol
            ix += X > v
        near |= np.abs(Y - t["ty"]) < etol
        for v in t["tz"]:
            near |= np.abs(Zl - v) < 1e-3 + 1e-6 * abs(v)
            iz += Zl > v
        iz += (len(t["tz"]) + 1) * (Y > t["ty"])
        xtol = 1.2e-7 * max(np.abs(X).max(), np.abs(Y).max())
        for i in np.ndindex(X.shape):
            if near[i]:
                continue
            f, z = m["ix"][ix[i]], m["iz"][iz[i]]
            labels.add((f, z))
            n += 1
            row = data[i]
            for k, want in ((nv, float(fid[f])), (nv + 1, float(zid[z]))):
                expect(abs(row[k] - want) <= 1e-6 * abs(want), "%s of block %s created %s at %r is %r, the point is in fault block %r and zone %r (%r)",
                       "fault block id" if k == nv else "zone id", b["name"], what, i, row[k], f, z, want)
            for k in range(nv):
                lo, hi, tol = rule(c, m, f, z, k, float(X[i]), float(Y[i]), float(depth[i]), xtol, 1e-3 + 1e-6 * abs(float(S[i[0], i[1], 0])))
                expect(lo - tol <= row[k] <= hi + tol, "value %r of block %s created %s at grid point %r (x %r, y %r, depth %r) is %r, the rule of "
                       "fault block %r and zone %r gives %r", c["values"][k], b["name"], what, i, float(X[i]), float(Y[i]), float(depth[i]), row[k], f,
                       z, lo)
    return labels, n


def run(case, ctx, rule=rule_value):
    case = dict(case, config=dict(case["config"], values=case["config"]["values"] + ["fault_block_id", "zone_id"],
                                  units=case["config"]["units"] + ["None", "None"]))
    c = case["config"]
    d = ctx.sub()
    ev, t, ext = setup(case, d)
    before = sorted(os.listdir(ev))
    seen, n = set(), 0
    for i, size in enumerate([None] + [case["batch"]] * bool(case["batch"])):
        h5 = os.path.join(d, "m%d.h5" % i)
        files = create.write(c, d, h5, source="geomodelgrids.create.data_srcs.earthvision.datasrc.RulesDataSrc", batch=size, extra=ext, name="c%d_" % i)
        made(ctx.py().call("create", files, {"all_steps": True}))
        expect(sorted(os.listdir(ev)) == before, "files in the folder of the EarthVision model after creating the model: %r, before: %r",
               sorted(os.listdir(ev)), before)
        l, k = check_model(case, t, create.read(h5), "in batches of %d points" % size if size else "at once", rule)
        seen |= l
        n += k
    return Info(len(seen) > 1, ["unnamed"] * any(not z for _, z in seen) + ["batches"] * bool(case["batch"]) + ["topography"] * bool(c["topo"]), n)


PARTS = [Part("earthvision", cases(), run, 250, 4000)]
