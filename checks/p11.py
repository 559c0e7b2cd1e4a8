"""Coordinate systems: transformations, axis order and units."""
import math

from hypothesis import strategies as st
from pyproj import CRS, Transformer
from pyproj.exceptions import CRSError

from gmg.core import Info, Inconclusive, Part, expect
from gmg.driver import Exc

RULE = ("transform: pairs of generated CRS definitions (EPSG codes of geographic, projected, feet and compound systems, PROJ strings "
        "with drawn projection, centre, units and datum shift, and their WKT) and points in the area both cover; the transformation is "
        "compared with pyproj in the CRSs' own axis order and its inverse returns the points. order: axis-normalizing transformation "
        "against the axis directions pyproj reports. units: units of each axis against pyproj for every subset of requested axes. bad: "
        "definitions pyproj rejects must raise and leave later transformations working. An evaluation is one point or definition. "
        "Non-trivial: the CRSs differ (transform), axes are swapped or not metres (order, units), always (bad).")
TARGETS = ["driver"]

UNITS = ["m", "km", "ft", "us-ft", "yd", "cm", "mm", "dm"]


@st.composite
def proj_string(draw, lon0=-120.0):
    kind = draw(st.sampled_from(["utm", "tmerc", "lcc", "aea", "merc", "laea", "longlat", "bound"]))
    u = draw(st.sampled_from(UNITS))
    lat0 = draw(st.sampled_from([0.0, 35.0, 37.5]))
    lon = lon0 + draw(st.sampled_from([0.0, 1.5, -3.25]))
    datum = draw(st.sampled_from(["+datum=WGS84", "+datum=NAD83", "+ellps=GRS80", "+ellps=clrk66"]))
    tail = " +no_defs +type=crs"
    if kind == "longlat":
        return "+proj=longlat %s%s" % (datum, tail)
    if kind == "bound":
        return "+proj=tmerc +lat_0=%r +lon_0=%r +ellps=GRS80 +towgs84=%d,%d,%d +units=%s%s" % (
            lat0, lon, draw(st.integers(-100, 100)), draw(st.integers(-100, 100)), draw(st.integers(-100, 100)), u, tail)
    v = draw(st.sampled_from(["", "", "", " +vunits=m", " +vunits=ft", " +vunits=us-ft", " +vunits=km"]))
    if kind == "utm":
        return "+proj=utm +zone=10 %s +units=%s%s%s" % (datum, u, v, tail)
    par = {"tmerc": "+lat_0=%r +lon_0=%r +k=0.9996 +x_0=%d" % (lat0, lon, draw(st.sampled_from([0, 500000]))),
           "lcc": "+lat_0=%r +lon_0=%r +lat_1=33 +lat_2=45" % (lat0, lon), "aea": "+lat_0=%r +lon_0=%r +lat_1=34 +lat_2=40.5" % (lat0, lon),
           "merc": "+lon_0=%r" % lon, "laea": "+lat_0=37 +lon_0=%r" % lon}[kind]
    return "+proj=%s %s %s +units=%s%s%s" % (kind, par, datum, u, v, tail)


EPSG = ["EPSG:4326", "EPSG:4269", "EPSG:4979", "EPSG:26910", "EPSG:32610", "EPSG:3310", "EPSG:3488", "EPSG:2227", "EPSG:2229", "EPSG:3857",
        "EPSG:26911", "EPSG:4267", "EPSG:26710", "EPSG:5070", "EPSG:6340", "EPSG:2285", "OGC:CRS84", "EPSG:3395", "EPSG:4152"]
COMPOUND = ["EPSG:26910+5703", "EPSG:2227+6360", "EPSG:4326+5773", "EPSG:32610+3855", "EPSG:4269+5703", "EPSG:7405", "EPSG:5498"]


# Systems elsewhere, most of them with northing before easting.
FAR = ["EPSG:2193", "EPSG:3035", "EPSG:2180", "EPSG:31466", "EPSG:3006", "EPSG:27700", "EPSG:3067", "EPSG:25832", "EPSG:2443", "EPSG:6677",
       "EPSG:7850", "EPSG:5641", "EPSG:31370", "EPSG:3812", "EPSG:21781", "EPSG:2056"]


def locate(s, p):
    """Longitude, latitude, elevation of a drawn point: moved into the area of a system elsewhere."""
    if s not in FAR:
        return p
    a = CRS(s).area_of_use
    return [a.west + (p[0] + 126.0) / 11.0 * (a.east - a.west), a.south + (p[1] - 31.0) / 15.0 * (a.north - a.south), p[2]]


@st.composite
def crs(draw, compound=False):
    k = draw(st.integers(0, 11))
    if k >= 10:
        return draw(st.sampled_from(FAR))
    if k < 4:
        s = draw(st.sampled_from(EPSG))
    elif k < 8 or not compound:
        s = draw(proj_string())
    else:
        s = draw(st.sampled_from(COMPOUND))
    if draw(st.integers(0, 5)) == 0 and "EPSG" in s:
        s = CRS(s).to_wkt(draw(st.sampled_from(["WKT2_2019"] + (["WKT1_GDAL"] if s not in ("EPSG:4979", "EPSG:5498") else []))), pretty=draw(st.booleans())) if "+" not in s and s != "EPSG:7405" else s
    return s


LL = st.tuples(st.floats(-126.0, -115.0), st.floats(31.0, 46.0), st.sampled_from([0.0, 0.0, 100.0, -2500.0, 1234.5]))


@st.composite
def transform(draw):
    return {"src": draw(crs()), "dst": draw(crs()), "points": draw(st.lists(LL, min_size=1, max_size=20)), "nulls": draw(st.booleans())}


def close(a, b, tol):
    return a == b or (math.isfinite(a) and math.isfinite(b) and abs(a - b) <= tol)


def run_transform(case, ctx):
    src, dst = case["src"], case["dst"]
    to_src = Transformer.from_crs("EPSG:4326", src, always_xy=False)
    pts = []
    for p in case["points"]:
        lon, lat, z = locate(dst if dst in FAR else src, p)
        x, y = to_src.transform(lat, lon)
        if math.isfinite(x) and math.isfinite(y):
            pts.append([x, y, z])
    if not pts:
        raise Inconclusive
    ref = Transformer.from_crs(src, dst, always_xy=False)
    mode = "2" if case["nulls"] else "3"
    res = ctx.run([["T_new", "t", src, dst], ["T_fwd", "t", mode, len(pts), [c for p in pts for c in p]]])
    expect(res[0] == ["ok"], "transformation %r -> %r failed: %r", src, dst, res[0])
    out = [res[1][3 * i:3 * i + 3] for i in range(len(pts))]
    n = 0
    want = [ref.transform(*p) for p in pts]
    for p, o, w in zip(pts, out, want):
        for k in range(2 if case["nulls"] else 3):
            expect(close(o[k], w[k], 1e-9 * max(1.0, abs(w[k]))), "%r -> %r of %r gives %r, PROJ gives %r", src, dst, p, o, w)
        if case["nulls"]:
            expect(o[2] == 12345.678, "z was written though not requested: %r", o)
        n += 1
    # and back, using the exact z
    good = [(p, w) for p, w in zip(pts, want) if all(map(math.isfinite, w))]
    res = ctx.run([["T_new", "t", src, dst], ["T_inv", "t", mode, len(good), [c for _, w in good for c in w]]])
    back = [res[1][3 * i:3 * i + 3] for i in range(len(good))]
    geo = CRS(src).is_geographic
    s_unit = 1.0 if geo else CRS(src).axis_info[0].unit_conversion_factor
    for (p, w), b in zip(good, back):
        inv = ref.transform(*w, direction="INVERSE")
        for k in range(2 if case["nulls"] else 3):
            tol = (3e-8 if geo else 3e-3 / s_unit) if k < 2 else 1e-3 / zunit(src)
            if all(abs(a - c) <= tol for a, c in zip(inv[:k + 1], p)):
                expect(close(b[k], p[k], 2 * tol), "%r -> %r -> back of %r gives %r", src, dst, p, b)
            expect(close(b[k], inv[k], 1e-9 * max(1.0, abs(inv[k]))), "inverse of %r -> %r of %r gives %r, PROJ gives %r", src, dst, w, b, inv)
    return Info(src != dst and n > 0, ["src " + kind(src), "dst " + kind(dst)], n)


def zunit(s):
    ax = CRS(s).axis_info
    return ax[2].unit_conversion_factor if len(ax) > 2 else 1.0


def kind(s):
    c = CRS(s)
    return c.type_name


@st.composite
def order(draw):
    return {"crs": draw(crs(compound=True)), "points": draw(st.lists(LL, min_size=1, max_size=10))}


def run_order(case, ctx):
    c = CRS(case["crs"])
    dirs = [a.direction.lower() for a in c.axis_info]
    if sorted(dirs[:2]) != ["east", "north"]:
        raise Inconclusive
    to = Transformer.from_crs("EPSG:4326", case["crs"], always_xy=False)
    at = [locate(case["crs"], p) for p in case["points"]]
    pts = [list(to.transform(p[1], p[0])) + [p[2]] for p in at]
    pts = [p for p in pts if all(map(math.isfinite, p))]
    if not pts:
        raise Inconclusive
    res = ctx.run([["T_geoxy", "g", case["crs"]], ["T_fwd", "g", "3", len(pts), [v for p in pts for v in p]],
                   ["T_inv", "g", "3", len(pts), [v for p in pts for v in [p[dirs.index("east")], p[dirs.index("north")], p[2]]]]])
    expect(res[0] == ["ok"], "axis order transformation of %r failed: %r", case["crs"], res[0])
    for i, p in enumerate(pts):
        o, b = res[1][3 * i:3 * i + 3], res[2][3 * i:3 * i + 3]
        w = [p[dirs.index("east")], p[dirs.index("north")], p[2]]
        expect(all(close(x, y, 1e-9 * max(1.0, abs(y))) for x, y in zip(o, w)), "normalized %r of %r is %r, expected %r", p, case["crs"], o, w)
        expect(all(close(x, y, 1e-9 * max(1.0, abs(y))) for x, y in zip(b, p)), "inverse of normalized %r of %r is %r", w, case["crs"], b)
    return Info(dirs[0] == "north" or c.is_compound, [kind(case["crs"])], len(pts))


@st.composite
def units(draw):
    return {"crs": draw(crs(compound=True)), "mask": draw(st.sampled_from(["111", "111", "111", "110", "001", "010", "100", "011", "101", "000"]))}


NAMES = {"metre": "meter", "kilometre": "kilometer"}


def run_units(case, ctx):
    c = CRS(case["crs"])
    got = ctx.run([["T_units", case["crs"], case["mask"]]])[0]
    ax = (c.source_crs if c.is_bound else c).axis_info
    names = [NAMES.get(a.unit_name.lower(), a.unit_name) for a in ax]
    names += ["meter (assumed)"] * (3 - len(names))
    for k in range(3):
        want = names[k] if case["mask"][k] == "1" else "?"
        expect(got[k] == want, "unit of axis %d of %r is %r, expected %r", k, case["crs"], got[k], want)
    return Info(set(names) - {"meter", "meter (assumed)"}, [kind(case["crs"])], 1)


BAD = st.one_of(
    st.sampled_from(["EPSG:0", "EPSG:999999", "EPSG:", "EPSG", "nonsense", "+proj=unknown_projection +type=crs", "+proj=utm +zone=99 +type=crs",
                     "GEOGCS[\"x\"", "PROJCS[]", "{}", "{\"type\": \"x\"}", " ", "EPSG:4326+", "+proj=", "+type=crs", "urn:ogc:def:crs:EPSG::1", "\n",
                     "EPSG:26910+EPSG", "NOAUTH:4326"]),
    st.text(st.characters(codec="ascii", exclude_categories=["Cc"]), min_size=1, max_size=20),
    st.tuples(st.sampled_from(EPSG), st.integers(0, 400), st.integers(0, 400)).map(lambda t: CRS(t[0]).to_wkt()[:t[1]] + CRS(t[0]).to_wkt()[t[1] + t[2]:]))


@st.composite
def bad(draw):
    return {"bad": draw(BAD), "good": draw(crs()), "dst": draw(crs()), "side": draw(st.booleans()), "point": draw(LL)}


def run_bad(case, ctx):
    b = case["bad"]
    try:
        CRS(b)
        is_crs = True
    except CRSError:
        is_crs = False
    to = Transformer.from_crs("EPSG:4326", case["good"], always_xy=False)
    at = locate(case["good"], case["point"])
    pt = list(to.transform(at[1], at[0])) + [0.0]
    pair = [b, case["dst"]] if case["side"] else [case["good"], b]
    probe = [["T_new", "t", case["good"], case["dst"]], ["T_fwd", "t", "3", 1, pt]]
    # `b` first so that later state can be compared with that of a fresh process.
    base = ctx.run(probe)
    cmds = [["T_new", "b"] + pair, ["T_geoxy", "g", b], ["T_units", b, "111"]] + probe + [
        ["T_reinit", "t"] + pair, ["T_reinit", "t", case["good"], case["dst"]], ["T_fwd", "t", "3", 1, pt]]
    res = ctx.run(cmds)
    expect(res[3:5] == base and res[6:8] == base, "transformation %r -> %r gives %r after using %r, but %r before", case["good"], case["dst"],
           res[3:], b, base)
    if not is_crs:
        for what, r in (("initialize", res[0]), ("createGeoToXYAxisOrder", res[1]), ("initialize", res[5])):
            expect(isinstance(r[0], Exc), "%s of %r did not raise: %r", what, b, r)
        # PROJ also accepts objects that are not CRSs; only what is certainly unknown must be an error.
        if all(ch.isalnum() or ch in ":_ " for ch in b) and b.strip() and (b.upper().startswith("EPSG:") and (b[5:] in ("0", "999999") or not b[5:].strip())
                                                                          or b in ("nonsense", "NOAUTH:4326")):
            expect(isinstance(res[2][0], Exc), "getCRSUnits of %r did not raise: %r", b, res[2])
    return Info(not is_crs, [], 1)


PARTS = [Part("transform", transform(), run_transform, 320, 12000), Part("order", order(), run_order, 200, 6000),
         Part("units", units(), run_units, 300, 8000), Part("bad", bad(), run_bad, 160, 6000)]
