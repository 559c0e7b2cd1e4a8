"""GeoTIFF files."""
import math
import os
import struct

import h5py
from hypothesis import strategies as st
from pyproj import CRS

from gmg import models
from gmg.core import Info, Part, expect
from gmg.driver import Exc

RULE = ("One case is a sequence of up to 8 operations on one or two raster objects: write a drawn raster (rows, columns, bands, labels, bounding "
        "box in any quadrant, CRS, no-data value, float32 pixels including infinities, NaN and the no-data value), read one back, read "
        "an unreadable file, close, write with an object that is deleted, with writing one file overlapped with reading another when there are two objects; every file is "
        "also read with GDAL itself. The second part reads rasters of other programs (written with GDAL: pixel types, tiles, compression, "
        "without CRS or labels) and of the library one after another with one object. An evaluation is one file compared. Non-trivial: a raster with at least two rows or columns and "
        "two different pixel values that is read back.")
TARGETS = ["gdriver"]

CRSS = ["EPSG:4326", "EPSG:4269", "EPSG:26910", "EPSG:32610", "EPSG:3311", "EPSG:2227", "EPSG:3857", "EPSG:5070", "EPSG:32733",
        models.TMERC, "+proj=longlat +datum=WGS84 +no_defs +type=crs", "+proj=utm +zone=10 +datum=WGS84 +units=km +no_defs +type=crs"]
PIXEL = st.one_of(st.floats(width=32, allow_nan=False), st.floats(0.0, 8192.0, width=32), st.floats(0.0, 8192.0, width=32),
                  st.sampled_from([models.NODATA, float("inf"), float("-inf"), float("nan"), -0.0, 0.0]))


@st.composite
def rasters(draw):
    r, c, b = draw(st.integers(1, 9)), draw(st.integers(1, 9)), draw(st.integers(1, 4))
    if draw(st.integers(0, 9)) == 0:
        r, c = draw(st.sampled_from([(300, 2), (2, 300), (70, 20), (1, 1)]))
    crs = draw(st.sampled_from(CRSS))
    scale = draw(st.sampled_from([1.0, 1.0e-3, 1.0e5]))
    if CRS(crs).is_geographic:
        x0, w = draw(st.floats(-180.0, 170.0)), draw(st.floats(0.015625, 10.0))
        y0, h = draw(st.floats(-90.0, 80.0)), draw(st.floats(0.015625, 10.0))
    else:
        x0, w = scale * draw(st.floats(-9.0, 9.0)), scale * draw(st.floats(0.015625, 10.0))
        y0, h = scale * draw(st.floats(-90.0, 90.0)), scale * draw(st.floats(0.015625, 10.0))
    shape = draw(st.integers(0, 9))
    if shape == 0:
        x0, w, y0, h = 0.0, float(c), 0.0, float(r)
    elif shape < 3:
        w = h * c / r * (1.0 + draw(st.sampled_from([1.0, -1.0])) * 10.0 ** draw(st.integers(-8, -2)))  # almost square pixels
    elif shape == 3:
        x0 = round(x0) + draw(st.sampled_from([1e-7, -1e-5, 1e-3]))  # almost round coordinates
        y0 = round(y0) - draw(st.sampled_from([1e-7, -1e-5, 1e-3]))
    label = st.one_of(st.sampled_from(["Vs=1000", "Vs=2500", "Vp=1.5e+06", "depth (m)", ""]),
                      st.text(st.characters(min_codepoint=33, max_codepoint=0x2fff, exclude_categories=("Cs", "Cc", "Cn", "Zs", "Zl", "Zp")), max_size=12))
    n = r * c * b
    v = draw(st.lists(PIXEL, min_size=1, max_size=min(n, 60)))
    return {"rows": r, "cols": c, "bands": b, "crs": crs, "bbox": [x0, x0 + w, y0, y0 + h],
            "nodata": draw(st.sampled_from([models.NODATA, -999.0, 0.0, 1.5])),
            "labels": draw(st.lists(label, min_size=b, max_size=b)), "values": v}


OPS = st.lists(st.one_of(st.tuples(st.just("write"), st.integers(0, 1), st.integers(0, 2)),
                         st.tuples(st.just("write"), st.integers(0, 1), st.integers(0, 2)),
                         st.tuples(st.just("read"), st.integers(0, 1), st.integers(0, 2)),
                         st.tuples(st.just("read"), st.integers(0, 1), st.integers(0, 2)),
                         st.tuples(st.just("bad"), st.integers(0, 1), st.sampled_from(["missing", "text", "empty", "folder", "truncated", "hdf5"])),
                         st.tuples(st.just("unwritable"), st.integers(0, 1), st.integers(0, 2)),
                         st.tuples(st.just("close"), st.integers(0, 1)),
                         st.tuples(st.just("scope"), st.integers(0, 2), st.booleans()),
                         st.tuples(st.just("across"), st.integers(0, 2), st.integers(0, 2))), min_size=1, max_size=8)


@st.composite
def cases(draw):
    return {"rasters": draw(st.lists(rasters(), min_size=1, max_size=3)), "ops": draw(OPS)}


def ok(t, what):
    expect(not (t and isinstance(t[0], Exc)), "%s: exception %r", what, t[0] if t else None)
    return t


def f32(v):
    return struct.unpack("<f", struct.pack("<f", v))[0]


def pixels(r):
    n, v = r["rows"] * r["cols"] * r["bands"], r["values"]
    # Different in every position also when few values were drawn.
    out = []
    for i in range(n):
        x = v[i % len(v)]
        out.append(f32(x) if i < len(v) or not math.isfinite(x) or abs(x) > 1e6 else f32(x + i // len(v)))
    return out


def same(a, b):
    return len(a) == len(b) and all(x == y and math.copysign(1, x) == math.copysign(1, y) or x != x and y != y for x, y in zip(a, b))


def same_crs(got, want):
    g, w = CRS(got), CRS(want)
    if g.equals(w, ignore_axis_order=True):
        return True
    # The TIFF does not store how the CRS was written; compare what it means.
    return (g.is_geographic == w.is_geographic and g.ellipsoid == w.ellipsoid and g.prime_meridian == w.prime_meridian
            and (g.coordinate_operation is None) == (w.coordinate_operation is None) and same_map(g, w))


def same_map(g, w):
    from pyproj import Transformer
    t = Transformer.from_crs(g, w, always_xy=True)
    for x, y in ((0.0, 0.0), (10.0, 20.0), (-100.0, 35.0)) if g.is_geographic else ((0.0, 0.0), (5.0e5, 4.0e6), (-2.0e5, 1.0e5)):
        u, v = t.transform(x, y)
        if not (abs(u - x) < 1e-6 and abs(v - y) < 1e-6):
            return False
    return True


def setup(g, r):
    return ["G_set", g, r["rows"], r["cols"], r["bands"], r["crs"], r["bbox"], r["nodata"], len(r["labels"]), r["labels"]]


def write(g, r, path):
    return [setup(g, r), ["G_create", g, path], ["G_fill", g, pixels(r)], ["G_flush", g]]


def check_box(got, r, what):
    b = r["bbox"]
    for i, name in enumerate(["minimum x", "maximum x", "minimum y", "maximum y"]):
        k = i // 2 * 2
        tol = 1e-12 * (abs(b[k]) + abs(b[k + 1])) + 1e-9 * (b[k + 1] - b[k])
        expect(abs(got[i] - b[i]) <= tol, "%s: %s of the bounding box is %r, expected %r", what, name, got[i], b[i])


def check_got(t, r, what, crs=True, values=True):
    expect(t[:3] == [r["rows"], r["cols"], r["bands"]], "%s: rows, columns, bands are %r, expected %r", what, t[:3], [r["rows"], r["cols"], r["bands"]])
    if crs:
        expect(same_crs(t[3], r["crs"]), "%s: the CRS is %r, expected %r", what, t[3], r["crs"])
    check_box(t[4:8], r, what)
    k = t[8]
    expect(t[9:9 + k] == r["labels"], "%s: the labels are %r, expected %r", what, t[9:9 + k], r["labels"])
    if values:
        v = [float(x) for x in t[9 + k:]]
        expect(same(v, pixels(r)), "%s: the pixel values differ: %r, expected %r", what, v[:40], pixels(r)[:40])


def check_raw(t, r, what):
    expect(t[0] != "unreadable", "%s: GDAL cannot read the file", what)
    expect(t[:3] == [r["rows"], r["cols"], r["bands"]], "%s: GDAL sees rows, columns, bands %r, expected %r", what, t[:3], [r["rows"], r["cols"], r["bands"]])
    expect(same_crs(t[3], r["crs"]), "%s: GDAL sees the CRS %r, expected %r", what, t[3], r["crs"])
    g = t[5:11]
    expect(t[4] == 0 and g[2] == 0.0 and g[4] == 0.0, "%s: GDAL sees the transform %r", what, t[4:11])
    check_box([g[0], g[0] + g[1] * r["cols"], g[3] + g[5] * r["rows"], g[3]], r, what + " (GDAL)")
    p, n, q = pixels(r), r["rows"] * r["cols"], 11
    for b in range(r["bands"]):
        expect(t[q] == r["labels"][b], "%s: GDAL sees the label %r, expected %r", what, t[q], r["labels"][b])
        expect(t[q + 1] == 1 and float(t[q + 2]) == f32(r["nodata"]), "%s: GDAL sees the no-data value %r, expected %r", what, t[q + 1:q + 3], f32(r["nodata"]))
        v = [float(x) for x in t[q + 3:q + 3 + n]]
        expect(same(v, p[b * n:(b + 1) * n]), "%s: GDAL sees other pixel values in band %d: %r, expected %r", what, b, v[:30], p[b * n:(b + 1) * n][:30])
        q += 3 + n


def bad_file(d, kind, good):
    p = os.path.join(d, "bad_" + kind)
    if kind == "text":
        with open(p, "w") as f:
            f.write("not a raster\n")
    elif kind == "empty":
        open(p, "w").close()
    elif kind == "folder":
        os.makedirs(p, exist_ok=True)
    elif kind == "truncated":
        if not os.path.exists(good):
            return os.path.join(d, "bad_missing")
        with open(good, "rb") as f, open(p, "wb") as g:
            g.write(f.read()[:16])
    elif kind == "hdf5":
        with h5py.File(p, "w") as h:
            h.attrs["a"] = 1
    return p


def run(case, ctx):
    d = ctx.sub()
    rs = case["rasters"]
    path = [os.path.join(d, "r%d.tif" % i) for i in range(len(rs))]
    name = ["g0", "g1"]
    ctx.run([["G_new", "g0"], ["G_new", "g1"]] + write("g0", rs[0], path[0]) + [["G_close", "g0"]], "gdriver")
    cmds, checks = [["G_new", "g0"], ["G_new", "g1"]], []
    written = [0]
    n = 0

    def add(c, check=None):
        cmds.append(c)
        checks.append((len(cmds) - 1, check))

    def okay(what):
        return lambda t: ok(t, what)

    def getting(r, what, **kw):
        return lambda t: check_got(ok(t, what), r, what, **kw)

    def failing(what):
        return lambda t: expect(t and isinstance(t[0], Exc) and t[0].what, "%s did not raise an exception: %r", what, t)
    log = []
    for op in case["ops"]:
        if op[0] == "write":
            g, i = name[op[1]], op[2] % len(rs)
            log.append("write %d with %s" % (i, g))
            for c in write(g, rs[i], path[i]):
                add(c, okay(str(log)))
            add(["G_close", g], okay(str(log)))
            add(["G_get", g], lambda t, r=rs[i], w=str(log): check_got(t, r, w, crs=False, values=False))
            add(["G_raw", path[i]], lambda t, r=rs[i], w=str(log): check_raw(ok(t, w), r, w))
            if i not in written:
                written.append(i)
            n += 1
        elif op[0] == "read":
            g, i = name[op[1]], written[op[2] % len(written)]
            log.append("read %d with %s" % (i, g))
            add(["G_read", g, path[i]], okay(str(log)))
            add(["G_get", g], getting(rs[i], str(log)))
            n += 1
        elif op[0] == "bad":
            g = name[op[1]]
            p = bad_file(d, op[2], path[0])
            log.append("read %s with %s" % (p, g))
            add(["G_read", g, p], failing(str(log)))
        elif op[0] == "unwritable":
            g, i = name[op[1]], op[2] % len(rs)
            log.append("create in a missing folder with %s" % g)
            add(setup(g, rs[i]), okay(str(log)))
            add(["G_create", g, os.path.join(d, "none", "r.tif")], failing(str(log)))
        elif op[0] == "close":
            log.append("close %s" % name[op[1]])
            add(["G_close", name[op[1]]], okay(str(log)))
        elif op[0] == "scope":
            # The object that wrote the file is deleted, without or after closing the file.
            i = op[1] % len(rs)
            log.append("write %d with an object that is deleted %s" % (i, "after closing" if op[2] else "without closing"))
            for c in [["G_new", "gx"]] + write("gx", rs[i], path[i]) + [["G_close", "gx"]] * op[2] + [["G_del", "gx"]]:
                add(c, okay(str(log)))
            add(["G_raw", path[i]], lambda t, r=rs[i], w=str(log): check_raw(ok(t, w), r, w))
            if i not in written:
                written.append(i)
            n += 1
        else:
            # g0 writes one file while g1 reads another.
            i, j = op[1] % len(rs), written[op[2] % len(written)]
            if i == j:
                continue
            log.append("write %d with g0 while reading %d with g1" % (i, j))
            w = write("g0", rs[i], path[i])
            for c in w[:2]:
                add(c, okay(str(log)))
            add(["G_read", "g1", path[j]], okay(str(log)))
            add(["G_get", "g1"], getting(rs[j], str(log)))
            add(w[2], okay(str(log)))
            add(["G_close", "g1"], okay(str(log)))
            add(w[3], okay(str(log)))
            add(["G_close", "g0"], okay(str(log)))
            add(["G_raw", path[i]], lambda t, r=rs[i], w=str(log): check_raw(ok(t, w), r, w))
            if i not in written:
                written.append(i)
            n += 2
    res = ctx.run(cmds, "gdriver")
    for k, c in checks:
        if c:
            c(res[k])
    big = any(r["rows"] * r["cols"] > 1 and len(set(map(repr, pixels(r)))) > 1 for r in rs)
    return Info(n > 0 and big and any(o[0] in ("read", "across") for o in case["ops"]), [o[0] for o in case["ops"]], max(n, 1))


TYPES = {"Byte": (0, 255, True), "Int16": (-32768, 32767, True), "UInt16": (0, 65535, True), "Int32": (-8388608, 8388607, True), "Float32": (-1e6, 1e6, False),
         "Float64": (-1e6, 1e6, False)}
OPTIONS = [["COMPRESS=LZW"], ["COMPRESS=DEFLATE", "TILED=YES"], ["TILED=YES", "BLOCKXSIZE=16", "BLOCKYSIZE=16"], ["INTERLEAVE=BAND"], ["INTERLEAVE=PIXEL"], []]


@st.composite
def others(draw):
    """Rasters of another program and of the library, read one after another with the same object."""
    out = []
    for _ in range(draw(st.integers(2, 4))):
        r = draw(rasters())
        r["type"] = draw(st.sampled_from([None] + sorted(TYPES)))
        if r["type"]:
            lo, hi, whole = TYPES[r["type"]]
            n = r["rows"] * r["cols"] * r["bands"]
            v = draw(st.lists(st.integers(lo, hi) if whole else st.floats(lo, hi, width=32), min_size=1, max_size=min(n, 20)))
            r["values"] = [float(v[i % len(v)] if i < len(v) or not whole else lo + (int(v[i % len(v)]) - lo + 7 * (i // len(v))) % (hi - lo + 1)) for i in range(n)]
            r["values"] = [v + 0.0 for v in r["values"]]
            r["options"] = draw(st.sampled_from(OPTIONS))
            if draw(st.booleans()):
                r["crs"] = ""
            r["labels"] = [v if draw(st.booleans()) else "" for v in r["labels"]]
        out.append(r)
    return {"rasters": out, "close": draw(st.booleans())}


def run_others(case, ctx):
    d = ctx.sub()
    cmds, checks = [["G_new", "g"]], []
    for i, r in enumerate(case["rasters"]):
        p = os.path.join(d, "o%d.tif" % i)
        if r["type"] is None:
            cmds += [["G_new", "w"]] + write("w", r, p) + [["G_close", "w"], ["G_del", "w"]]
        else:
            cmds.append(["G_ext", p, r["rows"], r["cols"], r["bands"], r["crs"]] + [r["bbox"], r["type"], len(r["options"]), r["options"],
                                                                                 len(r["labels"]), r["labels"], r["values"]])
            checks.append((len(cmds) - 1, None, r))
        cmds += [["G_read", "g", p], ["G_get", "g"]]
        checks.append((len(cmds) - 2, len(cmds) - 1, r))
        if case["close"]:
            cmds.append(["G_close", "g"])
    res = ctx.run(cmds, "gdriver")
    for i, j, r in checks:
        if j is None:
            if res[i] != ["ok"]:
                return Info(False, ["GDAL cannot write it"])
            continue
        what = "reading a raster of type %s (%r)" % (r["type"], r.get("options"))
        ok(res[i], what)
        check_got(ok(res[j], what), dict(r, values=r["values"]), what, crs=bool(r["crs"]), values=r["type"] is None)
        if not r["crs"]:
            expect(res[j][3] == "", "%s: the CRS is %r, but the file has none", what, res[j][3])
        if r["type"]:
            v = [float(x) for x in res[j][9 + res[j][8]:]]
            expect(same(v, [f32(x) for x in r["values"]]), "%s: the pixel values differ: %r, expected %r", what, v[:40], r["values"][:40])
    kinds = [r["type"] for r in case["rasters"]]
    return Info(any(kinds) and len(set(kinds)) > 1, sorted({str(k) for k in kinds}), len(kinds))


PARTS = [Part("rasters", cases(), run, 1500, 30000), Part("rasters of other programs", others(), run_others, 400, 8000)]
