"""The isosurface application."""
import math
import os

import numpy as np
from hypothesis import assume
from hypothesis import strategies as st
from pyproj import CRS

from checks import p17
from gmg import appgen, models
from gmg.common import flat, ok, split_rows, write_models
from gmg.core import Info, Part, expect

RULE = ("One case is 1-2 generated models (values increasing with depth in every column, with jumps between blocks and constant layers; or "
        "arbitrary columns), a bounding box of up to 36 pixels in a drawn CRS (partly outside the models, sides often not a multiple of the "
        "resolution), 1-3 isosurfaces, maximum depth (also below the model), vertical resolution, number of search points, depth "
        "reference, direction of the search, and option order and spelling; every pixel is compared with the crossings of the library's "
        "values at the ends of every grid interval below the pixel, and one band with that of a run without the other isosurfaces. An evaluation is one pixel of one band. Non-trivial: at least two "
        "pixels with different depths, at least one crossing strictly between the surface and the maximum depth.")
ASSUMPTIONS = ["Where a layer has exactly the requested value, rounding decides whether the layer counts as reaching it; either answer is accepted."]
TARGETS = ["driver", "gdriver", "app_isosurface"]

CRSS = ["EPSG:4326", "EPSG:4326", "EPSG:26910", "EPSG:26910", "EPSG:32610", "EPSG:3311", "EPSG:4269", "EPSG:2227", "EPSG:32611",
        "+proj=longlat +datum=WGS84 +no_defs +type=crs", models.TMERC, "+proj=utm +zone=10 +datum=WGS84 +units=km +no_defs +type=crs"]


@st.composite
def cases(draw):
    rise = draw(st.integers(0, 2)) != 1
    wide = not rise and draw(st.integers(0, 4)) != 1
    ms = draw(appgen.model_sets(big=False, max_blocks=1 if wide else 2, surfaces=("top", "both", "none", "topo")))
    for m in ms:
        lo, step = draw(st.sampled_from([200.0, 1500.0, -5.0])), draw(st.sampled_from([10.0, 2000.0, 300.0]))
        for b in m["blocks"]:
            if rise:
                b["rise"] = 1
                b["lo"] = lo
                b["span"] = step * draw(st.sampled_from([1.0, 0.5, 0.25, 1.0, 3.0, 0.0]))
                b["dtype"] = draw(st.sampled_from(["<f8", "<f4", ">f8"]))
                lo = lo + b["span"] + step * draw(st.sampled_from([0.0, 0.0, 0.5]))
            elif draw(st.booleans()):
                b["n"][2] = draw(st.integers(2, 6))
                b["z"] = None
    iso = draw(st.lists(st.tuples(st.sampled_from(ms[0]["names"]), st.one_of(
        *[st.integers(1, 99).map(lambda i: (i + 45) % 99 / 99.0)] * 4, st.floats(-0.125, 1.125, width=32), st.integers(0, 2))),
        min_size=1, max_size=3))
    if draw(st.integers(0, 3)) == 1:
        # Several values of the same name, often increasing.
        iso = [(iso[0][0], f) for _, f in sorted(iso + draw(st.lists(st.tuples(st.just(iso[0][0]), st.floats(0.125, 0.875, width=16)), min_size=1, max_size=2)),
                                                 key=lambda v: v[1])]
    return {"models": ms, "crs": draw(st.sampled_from([None] + CRSS)), "rise": rise, "alone": draw(st.integers(0, 3)), "iso": iso,
            "at": draw(st.tuples(st.integers(0, 1), *[st.floats(0.0, 1.0, width=32).map(lambda f: (f + 0.55) % 1.0)] * 2)),
            "size": draw(st.tuples(*[st.floats(0.0625, 0.75, width=32)] * 2)), "pixels": draw(st.sampled_from([3, 2, 1, 3, 4, 5, 6])),
            "exact": draw(st.booleans()), "round": draw(st.sampled_from([None, 2, 3, 6])),
            "depth": draw(st.sampled_from([1.0, 0.5, 0.99, 0.6, 1.3, 2.0, 1.0, 0.8, 1.1, 0.9, 0.07] if draw(st.integers(0, 19)) != 7 else [1e-7, 1e-5])), "levels": draw(st.sampled_from([100, 3, 9, 10, 1, 100, 81, 400, 37.7, 2500, 0.5])),
            "search": draw(st.sampled_from([40, 60, 23, 90])) if wide else draw(st.sampled_from([None, 3, 4, 5, 8, 11, 17])),
            "default": draw(st.booleans()), "reference": draw(st.sampled_from([None, "top_surface", "topography_bathymetry", "TOP_SURFACE"])),
            "deep": draw(st.booleans()), "log": draw(st.integers(0, 5)) == 0, "sp": draw(appgen.spelling(17))}


def text(v, digits=None):
    return repr(float(v)) if digits is None else "%.*g" % (digits + 6, v)


def column(ctx, init, refs, names, xy, top, md, zunit):
    """For each pixel: depths and values of the ends of the grid intervals, in order of depth, as far as the model reaches."""
    pts, idx = [], []
    for i, (x, y) in enumerate(xy):
        if top[i] == models.NODATA:
            idx.append(None)
            continue
        nodes, eps = set(), 2e-4 / zunit
        for r in refs:
            xm, ym, _ = r.to_model(x, y, 0.0)
            # Horizontal rounding times the slope of the top surface.
            g = r.ground(xm, ym)
            slope = sum(abs(r.ground(xm + dx, ym + dy) - g) for dx, dy in ((1e-2, 0), (-1e-2, 0), (0, 1e-2), (0, -1e-2))) / 1e-2
            eps = max(eps, (2e-4 + 1e-5 * slope) / zunit)
            for b in r.s["blocks"]:
                z = models.axis_coords(b["z"], b["n"][2], b["z_top"] - b["z_bot"]) if b["z"] is None else np.array(b["z"])
                z = b["z_top"] - np.asarray(z) if b["z"] is None else z
                for v in z:
                    e = r.unsqueeze(xm, ym, float(v)) / zunit
                    nodes.add(r.unsqueeze(*r.to_model(x, y, e)[:2], float(v)) / zunit)  # datum shifts depend on height
        depths = {min(1e-4, 0.5 * md), md}
        for e in nodes:
            for d in (top[i] - e - eps, top[i] - e, top[i] - e + eps):
                if 1e-4 < d < md:
                    depths.add(d)
        depths = sorted(depths) + [md + eps]
        idx.append((len(pts), depths))
        pts += [[x, y, top[i] - d] for d in depths]
    res = ctx.run(init + [["Q_query", "q", len(names), len(pts), flat(pts)]])
    rows = split_rows(res[-1], len(pts), len(names))
    out = []
    for t in idx:
        if t is None:
            out.append(None)
            continue
        k, depths = t
        out.append((np.array(depths), np.array([rows[k + j][1] for j in range(len(depths))], dtype=float)))
    return out


def judge(d, depths, v, target, w, md, spacing, case):
    """Why the reported depth d is wrong (None if it is acceptable), and whether it is a crossing below the surface."""
    ends = v[-1] == models.NODATA  # the model ends at (to rounding) or above the maximum depth
    depths, v = depths[:-1], v[:-1]
    valid = v != models.NODATA
    n = int(np.argmin(valid)) if not valid.all() else len(v)
    if n == 0 or valid[n:].any():
        return None, False  # a gap at the reference surface or between models
    z, f = depths[:n], v[:n]
    rise = (np.diff(f) >= -1e-9 * np.abs(f[1:])).all()  # two models on top of each other need not rise
    cut = n < len(v) or ends
    tol = 1e-9 * abs(target) + 1e-7 * float(np.ptp(f)) + 1e-12
    nod = d == models.NODATA
    if f[0] > target + tol and rise:
        return (None if abs(d) <= 2e-4 else "the value at the surface (%r) exceeds the target" % f[0]), False
    if rise and f[-1] < target - tol:
        return (None if nod else "the values only reach %r" % f[-1]), False
    bottom = z[-1]
    if nod:
        if not rise:
            return strong(d, z, f, target, w, spacing, cut, case, tol), False
        # The crossing may lie in the last, incomplete interval above the bottom of the model, or be a tie.
        late = np.interp(max(bottom - w, 0.0), z, f) if cut else f[-1]
        flat_ = abs(f - target) <= tol  # a layer with the requested value: rounding decides whether it is reached
        tie = (f[-1] <= target + tol if not cut else late <= target + tol) or (flat_[1:] & flat_[:-1]).any()
        return (None if tie else "NODATA, but the value is %r at depth %r" % (late, bottom)), False
    if not math.isfinite(d):
        return "not a number", False
    if abs(d) <= 2e-4 and f[0] >= target - tol:
        return None, False
    if d < 0.0 or d > bottom + w:
        return "outside 0 to %r" % bottom, False
    a, b = max(d - w, z[0]), min(d + w, bottom)
    inner = f[(z >= a) & (z <= b)]
    vals = np.concatenate([[np.interp(a, z, f)], inner, [np.interp(b, z, f)]])
    if vals.min() > target + tol or vals.max() < target - tol:
        return "the values within the vertical resolution are %r to %r" % (vals.min(), vals.max()), False
    if not rise:
        return strong(d, z, f, target, w, spacing, cut, case, tol), True
    return None, True


def strong(d, z, f, target, w, spacing, cut, case, tol):
    """Which crossing must be found, if the values stay on one side of the target for longer than the distance of search points."""
    g = f - target
    if abs(g).min() <= tol or g[0] > 0.0:
        return None
    s = np.nonzero((g[1:] > 0) != (g[:-1] > 0))[0]
    c = [z[i] + (z[i + 1] - z[i]) * (-g[i]) / (g[i + 1] - g[i]) for i in s]
    if not case["deep"]:
        if not c or (c[1] if len(c) > 1 else z[-1]) - c[0] <= 1.001 * spacing:
            return None
        want = c[0]
    else:
        if len(c) % 2 == 0 or z[-1] - c[-1] <= 1.001 * spacing or c[-1] - (c[-2] if len(c) > 1 else z[0]) <= 1.001 * spacing:
            return None
        want = c[-1]
    case.setdefault("strong", 0)
    if len(c) > 1:
        case["strong"] += 1
    if abs(d - want) > w:
        return "the %s crossing is at depth %r of %r" % ("deepest" if case["deep"] else "shallowest", want, c)
    return None


def run(case, ctx):
    case = dict(case)
    ms, names = case["models"], case["models"][0]["names"]
    d = ctx.sub()
    files = write_models(ms, d)
    crs = case["crs"] or "EPSG:4326"
    refs = [models.Ref(m, crs) for m in ms]
    # Bounding box around a location in one of the models, in the order of the CRS.
    k, fx, fy = case["at"]
    r, m = refs[k % len(ms)], ms[k % len(ms)]
    c0 = r.to_input(fx * m["dims"][0], fy * m["dims"][1])
    far = [r.to_input(fx * m["dims"][0] + s * m["dims"][0], fy * m["dims"][1] + t * m["dims"][1]) for s, t in ((0.01, 0), (0, 0.01))]
    unit = [100 * math.hypot(far[j][0] - c0[0], far[j][1] - c0[1]) for j in (0, 1)]
    assume(all(math.isfinite(u) and u > 0 for u in unit))
    size = [case["size"][j] * min(unit) for j in (0, 1)]
    h = max(size) / case["pixels"]
    if case["round"]:
        h = float("%.*g" % (case["round"], h))
    if case["exact"]:
        size = [max(1, round(s / h)) * h for s in size]
    box = [c0[0] - size[0] / 2, c0[0] + size[0] / 2, c0[1] - size[1] / 2, c0[1] + size[1] / 2]
    if case["round"]:
        box = [float(text(v, case["round"])) for v in box]
    swap = CRS(crs).is_geographic and CRS(crs).axis_info[0].direction == "north"
    x0, x1, y0, y1 = (box[2], box[3], box[0], box[1]) if swap else box
    assume(x1 > x0 and y1 > y0)
    num = [(x1 - x0) / h + 0.5, (y1 - y0) / h + 0.5]
    assume(all(abs(q - round(q)) > 1e-6 for q in num))
    nx, ny = int(num[0]), int(num[1])
    assume(1 <= nx <= 8 and 1 <= ny <= 8)
    # Isosurfaces.
    los = [b["lo"] for b in m["blocks"]]
    his = [b["lo"] + b["span"] for b in m["blocks"]]
    iso = []
    for name, f in case["iso"]:
        v = float(los[f % len(los)]) if isinstance(f, int) else float("%.7g" % (min(los) + f * (max(his) - min(los))))
        iso.append((name, v))
    # Vertical units of the input CRS, relative to those of the model.
    zunit = r.t.transform(c0[0], c0[1], 1000.0)[2] - r.t.transform(c0[0], c0[1], 0.0)[2]
    zunit /= 1000.0
    assume(math.isfinite(zunit) and zunit > 0)
    md = float("%.8g" % (case["depth"] * m["dims"][2] / zunit))
    vr, n = float("%.6g" % (md / case["levels"])), case["search"]
    out = os.path.join(d, "iso.tiff")
    opts = [("bbox", ",".join(text(v) for v in box)), ("hresolution", text(h)), ("max-depth", text(md)), ("models", ",".join(files)),
            ("output", out)] + [("isosurface", "%s,%s" % (a, text(v))) for a, v in iso]
    if case["default"] and 0.0005 < md / 10.0 < 2000:
        vr = 10.0
    else:
        opts.append(("vresolution", text(vr)))
    if n is not None:
        opts.append(("num-search-points", str(n)))
    if case["reference"]:
        opts.append(("depth-reference", case["reference"]))
    if case["deep"]:
        opts.append(("prefer-deep", None))
    if case["crs"]:
        opts.append(("bbox-coordsys", case["crs"]))
    if case["log"]:
        opts.append(("log", os.path.join(d, "log.txt")))
    sp = case["sp"]
    keep = [i for i in sp["order"] if i < len(opts)]
    iso_at = sorted(keep.index(i) for i in range(5, 5 + len(iso)))
    for j, i in zip(iso_at, range(5, 5 + len(iso))):
        keep[j] = i  # isosurfaces stay in order: it is the order of the bands
    run_ = ctx.app("isosurface", appgen.spell("isosurface", opts, {"order": keep, "how": sp["how"]}))
    expect(run_.rc == 0, "geomodelgrids_isosurface failed (%d): %s%s", run_.rc, run_.out, run_.err)
    res = ctx.run([["G_raw", out]], "gdriver")[0]
    labels = ["%s=%s" % (a, "%g" % v) for a, v in iso]
    expect(res[0] != "unreadable" and res[:3] == [ny, nx, len(iso)], "rows, columns, bands are %r, expected %r", res[:3], [ny, nx, len(iso)])
    expect(p17.same_crs(res[3], crs), "the CRS is %r, expected %r", res[3], crs)
    g = res[5:11]
    for got, want, size_, what in ((g[0], x0, x1 - x0, "left"), (g[1] * nx, nx * h, x1 - x0, "width"), (g[3], y0 + ny * h, y1 - y0, "top"),
                                   (g[5] * ny, -ny * h, y1 - y0, "height")):
        expect(abs(got - want) <= 1e-9 * size_ + 1e-12 * abs(want), "%s of the raster is %r, expected %r", what, got, want)
    expect(g[2] == 0 and g[4] == 0, "the raster is rotated: %r", g)
    q, bands = 11, []
    for b in range(len(iso)):
        expect(res[q] == labels[b], "label of band %d is %r, expected %r", b, res[q], labels[b])
        expect(res[q + 1] == 1 and float(res[q + 2]) == p17.f32(models.NODATA), "no-data value of band %d is %r", b, res[q + 1:q + 3])
        bands.append([float(v) for v in res[q + 3:q + 3 + nx * ny]])
        q += 3 + nx * ny
    if case.get("alone", 0) > 1 and len(iso) > 1:
        # The same isosurface without the others.
        a = case["alone"] % len(iso) or len(iso) - 1
        one, o1 = os.path.join(d, "one.tiff"), []
        for o in opts:
            if o[0] == "output":
                o = ("output", one)
            if o[0] != "isosurface" or o == ("isosurface", "%s,%s" % (iso[a][0], text(iso[a][1]))):
                o1.append(o)
        o1 = [o for j, o in enumerate(o1) if o not in o1[:j]]
        r1 = ctx.app("isosurface", appgen.spell("isosurface", o1, {"order": list(range(len(o1))), "how": sp["how"]}))
        expect(r1.rc == 0, "geomodelgrids_isosurface failed (%d) with one isosurface: %s%s", r1.rc, r1.out, r1.err)
        same = [float(v) for v in ctx.run([["G_raw", one]], "gdriver")[0][14:14 + nx * ny]]
        expect(same == bands[a], "band %d (%s) is %r, but %r without the other isosurfaces %r", a, labels[a], bands[a], same, labels)
    xy = []
    for row in range(ny):
        for col in range(nx):
            x, y = g[0] + (col + 0.5) * g[1], g[3] + (row + 0.5) * g[5]
            xy.append((y, x) if swap else (x, y))
    init = [["Q_new", "q"], ["Q_init", "q", crs, len(files), files, len(names), names]]
    cmd = "Q_top" if (case["reference"] or "").lower() == "top_surface" else "Q_topo"
    t = ctx.run(init + [[cmd, "q", len(xy), flat(xy)]])
    ok(t[1], "initialize")
    top = [float(v) for v in t[2]]
    cols = column(ctx, init, refs, names, xy, top, md, zunit)
    nodata32 = p17.f32(models.NODATA)
    found, edges = set(), [rr.horizontal(*rr.to_model(p[0], p[1], 0.0)[:2]) for rr in refs for p in xy]
    near_edge = [any(edges[k * len(xy) + i] is None for k in range(len(refs))) for i in range(len(xy))]
    for b, (name, target) in enumerate(iso):
        for i in range(len(xy)):
            got = bands[b][i]
            if near_edge[i]:
                continue
            if cols[i] is None:
                expect(got == nodata32, "%s at %r outside the models is %r", labels[b], xy[i], got)
                continue
            depths, v = cols[i]
            w = vr * (1.0 + 1e-6) + 5e-4 / zunit + 1e-6 * abs(got if got != nodata32 else 0.0) + 1e-9 * abs(top[i])
            spacing = md / ((n or 10) - 1)
            why, cross = judge(models.NODATA if got == nodata32 else got, depths, v[:, names.index(name)], target, w, md, spacing, case)
            expect(why is None, "depth of %s at %r is %r (maximum depth %r, vertical resolution %r, %r search points): %s",
                   labels[b], xy[i], got, md, vr, n, why)
            if cross:
                found.add(got)
    return Info(len(found) > 1, ["found %d" % min(len(found), 2), "pixels %d" % min(2, len(xy)), "depth %g" % case["depth"], "inside %d" % min(2, sum(c is not None for c in cols)),
                "rise" if case["rise"] else "any", "deep" if case["deep"] else "shallow", "inexact" if not case["exact"] else "exact"]
                + (["several crossings"] if case.get("strong") else []), len(iso) * len(xy))


PARTS = [Part("pixels", cases(), run, 900, 18000)]
