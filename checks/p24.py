"""Models created from CSV files."""
import itertools
import os

import numpy as np
from hypothesis import strategies as st

from checks.p21 import check_attrs, made
from gmg import create, models
from gmg.common import ok, split_rows
from gmg.core import Info, Part, Violation, expect

RULE = ("A case is a generated configuration without surfaces (as for P21), a drawn subset of the grid points of its 1-3 blocks written as rows "
        "of a CSV file in drawn order, with drawn order of columns, separators, comments and blank lines, coordinates in a drawn CRS and "
        "displaced by up to a fifth of the grid spacing. The stored grids are compared with the rows: the value of a grid point's own row, "
        "NODATA where no row is nearest; points near several rows (at the interface of blocks) may have the values of any of them. "
        "Models with a row for every grid point are queried with C++ at points given in the CRS of the CSV file. An evaluation is one grid point. Non-trivial: at least 5 points with a row and one without.")
TARGETS = ["driver", "stage"]
CSV_CRS = ["EPSG:4326", "EPSG:4326", "EPSG:4979", "EPSG:26910", "EPSG:3311", "EPSG:2227", models.TMERC,
           "+proj=utm +zone=10 +datum=WGS84 +units=km +no_defs +type=crs", "+proj=utm +zone=10 +datum=WGS84 +units=m +vunits=us-ft +no_defs +type=crs",
           "+proj=longlat +datum=WGS84 +vunits=km +no_defs +type=crs"]
NODATA32 = np.float32(models.NODATA)


@st.composite
def cases(draw):
    c = draw(create.configs(surfaces=False, max_cells=4, geo="east"))
    return {"config": c, "crs": draw(st.sampled_from(CSV_CRS)), "seed": draw(st.integers(0, 10**6)),
            "fraction": draw(st.sampled_from([1.0, 0.95, 0.6, 0.1])), "jitter": draw(st.sampled_from([0.0, 1e-6, 0.05, 0.2])),
            "sort": draw(st.booleans()), "sep": draw(st.sampled_from([" ", "\t", ",", ", ", "  ", " , "])),
            "comment": draw(st.sampled_from([None, "#", "!", "//"])), "extra": draw(st.integers(0, 2)), "one": draw(st.integers(0, 9)) == 0}


def spacing(ax):
    """Distance to the nearest neighbour of every point of an axis."""
    d = np.abs(np.diff(ax))
    return np.minimum(np.concatenate([[np.inf], d]), np.concatenate([d, [np.inf]]))


def rows(case):
    """Rows (block, i, j, k) and their logical coordinates and values."""
    c = case["config"]
    rng = np.random.default_rng([case["seed"], 24])
    out, loc = [], []
    nb = len(c["blocks"])
    for ib, b in enumerate(c["blocks"]):
        axes = create.block_axes(c, b)
        n = [len(a) for a in axes]
        use = rng.uniform(size=n) < case["fraction"]
        jit = rng.uniform(-1.0, 1.0, size=n + [3]) * case["jitter"]
        for i, j, k in np.argwhere(use):
            at_interface = (ib > 0 and k == 0) or (ib < nb - 1 and k == n[2] - 1)
            p = []
            for a, (ax, q) in enumerate(zip(axes, (i, j, k))):
                p.append(ax[q] + (0.0 if a == 2 and at_interface else jit[i, j, k, a] * spacing(ax)[q]))
            out.append((ib, int(i), int(j), int(k)))
            loc.append(p)
    if not out:
        b = create.block_axes(c, c["blocks"][0])
        out, loc = [(0, 0, 0, 0)], [[float(a[0]) for a in b]]
    loc = np.array(loc)
    order = np.arange(len(out)) if case["sort"] else rng.permutation(len(out))
    if case["one"]:
        order = order[:1]
    return [out[i] for i in order], loc[order], np.round(rng.uniform(-100.0, 9000.0, size=(len(order), len(c["values"]))), 3)


def write_csv(case, path, loc, vals):
    c = case["config"]
    rng = np.random.default_rng([case["seed"], 25])
    x, y = create.to_crs(c, loc[:, 0], loc[:, 1])
    t = models.Transformer.from_crs(case["crs"], c["crs"], always_xy=True)
    x, y, z = t.transform(x, y, loc[:, 2], direction="INVERSE")
    ncol = 3 + vals.shape[1] + case["extra"]
    perm = [int(v) for v in rng.permutation(ncol)]
    data = np.full((len(loc), ncol), -7.0)
    for i, col in enumerate([x, y, z] + list(vals.T)):
        data[:, perm[i]] = col
    com = case["comment"] or "#"
    with open(path, "w") as f:
        f.write(com + " header, of the, file\n")
        for i, r in enumerate(data):
            f.write(case["sep"].join("%.17g" % v for v in r) + (" " + com + " row" if case["comment"] and i % 7 == 3 else "") + "\n")
            if i % 11 == 5:
                f.write("\n" + com + "comment\n")
    opts = ["", "[csv]", "filename = %s" % path, "crs = %s" % case["crs"]]
    if case["comment"]:
        opts.append("comment_flag = %s" % case["comment"])
    opts += ["", "[csv.columns]"] + ["%s = %d" % (n, p) for n, p in zip(["x", "y", "z"] + c["values"], perm)]
    return "\n".join(opts)


def run(case, ctx):
    c = case["config"]
    d = ctx.sub()
    own, loc, vals = rows(case)
    extra = write_csv(case, os.path.join(d, "points.txt"), loc, vals)
    h5 = os.path.join(d, "model.h5")
    files = create.write(c, d, h5, source="geomodelgrids.create.data_srcs.csv.datasrc.CSVFile", extra=extra)
    made(ctx.py().call("create", files, {"all_steps": True}))
    got = create.read(h5)
    hist = got["attrs"]["/"].get("history", "")
    expect(hist.startswith(c["info"]["history"]), "history %r does not keep the configured %r", hist, c["info"]["history"])
    check_attrs(dict(c, info=dict(c["info"], history=hist)), got)
    vals32 = vals.astype(np.float32)
    n = with_row = without = 0
    for ib, b in enumerate(c["blocks"]):
        data = got["data"]["blocks/" + b["name"]]
        axes = create.block_axes(c, b)
        shape = tuple(len(a) for a in axes)
        expect(data.shape == shape + (len(c["values"]),), "block %s has size %r", b["name"], data.shape)
        cand = {}
        close = []
        for a, ax in enumerate(axes):
            step = np.abs(np.diff(ax))
            wide = np.maximum(np.concatenate([[0.0], step]), np.concatenate([step, [0.0]]))
            dist = np.abs(ax[None, :] - loc[:, a, None])
            # a row half way between grid points is as close to either
            close.append((dist <= 0.51 * wide[None, :]) & (dist <= 1.05 * dist.min(axis=1)[:, None] + 1e-9 * wide.max()))
        for r in np.flatnonzero(close[0].any(axis=1) & close[1].any(axis=1) & close[2].any(axis=1)):
            for p in itertools.product(*[[int(q) for q in np.flatnonzero(m[r])] for m in close]):
                cand.setdefault(p, []).append(int(r))
        mine = {o[1:]: r for r, o in enumerate(own) if o[0] == ib}
        for i, j, k in np.ndindex(*shape):
            v = data[i, j, k]
            rs = cand.get((i, j, k), [])
            n += 1
            if not rs:
                without += 1
                expect(np.all(v == NODATA32), "grid point (%d, %d, %d) of %s holds %r without a row", i, j, k, b["name"], v.tolist())
                continue
            r = mine.get((i, j, k))
            if r is not None and rs == [r]:
                with_row += 1
                expect(np.array_equal(v, vals32[r]), "grid point (%d, %d, %d) of %s holds %r, its row %r", i, j, k, b["name"], v.tolist(),
                       vals32[r].tolist())
            else:
                expect(any(np.array_equal(v, vals32[q]) for q in rs) or (r is None and np.all(v == NODATA32)),
                       "grid point (%d, %d, %d) of %s holds %r, the values of none of the nearby rows", i, j, k, b["name"], v.tolist())
    labels = ["jitter %g" % case["jitter"], "blocks %d" % len(c["blocks"])]
    if case["fraction"] == 1.0 and not case["one"]:
        nq, bad = query(c, case["crs"], ctx, h5, got)
        expect(not bad, "%s", bad)
        labels += ["queried"] * (nq > 0)
    return Info(with_row >= 5 and without, labels, n)


def query(c, crs, ctx, h5, got):
    """Query points of a model without NODATA, given in the CRS of the CSV file: number of points compared and first difference."""
    nv = len(c["values"])
    unit = 1.0e5 if create.is_geo(c["crs"]) else 1.0
    cmds, plan = [["Q_new", "q"], ["Q_init", "q", crs, 1, [h5], nv, c["values"]]], []
    for b in c["blocks"]:
        axes = create.block_axes(c, b)
        space = unit * min(np.diff(axes[0]).min(), np.diff(axes[1]).min())
        dz = np.abs(np.diff(axes[2])).min()
        if space < 10.0:
            continue  # transformations of CRS agree to a millimeter
        p = create.nudge(axes, 0.02)
        p = p[:: len(p) // 60 + 1]
        data = got["data"]["blocks/" + b["name"]]
        if np.any(data == NODATA32):
            continue
        want = create.interp(axes, data, p)
        x, y = create.to_crs(c, p[:, 0], p[:, 1])
        pts = np.stack(models.transformer(c["crs"], crs).transform(x, y, p[:, 2]), axis=1)
        plan.append((len(cmds), b, p, pts, want, 0.02 + 1.0e4 * (3e-3 / space + 1e-6 / dz)))
        cmds.append(["Q_query", "q", nv, len(pts), [float(v) for v in pts.ravel()]])
    res = ctx.run(cmds)
    ok(res[1], "initialize")
    n = 0
    for k, b, p, pts, want, tol in plan:
        for i, r in enumerate(split_rows(res[k], len(pts), nv)):
            if not (isinstance(r, tuple) and r[0] == 0 and np.abs(np.array(r[1]) - want[i]).max() <= tol):
                return n, "query at %r of %s (block %s, logical coordinates %r) gives %r, rows of the CSV file %r" % (
                    pts[i].tolist(), crs, b["name"], p[i].tolist(), r, want[i].tolist())
            n += 1
    return n, None


# ------------------------------------------------------------------------------------------------- known finding
def north_first_cases():
    info = {k: "x" for k in create.STRINGS}
    info.update(keywords=["a"], authors=["b"], references=["c"])
    ax = {"x": {"res": "1000"}, "y": {"res": "1000"}, "z": {"res": "1000", "top": "0", "bot": "-2000"}, "name": "block0", "offset": "0.0"}
    return st.just({"config": {"crs": "EPSG:2193", "origin": [1591995.0, 5376443.0], "azimuth": 0.0, "info": info, "values": ["Vp"],
                               "units": ["m/s"], "dims": ["3000", "2000", "2000"], "top": None, "topo": None, "blocks": [ax], "order": "sorted",
                               "split": False}, "crs": "EPSG:4979", "seed": 1, "fraction": 1.0, "jitter": 0.0, "sort": True, "sep": " ",
                    "comment": None, "extra": 0, "one": False})


def run_north_first(case, ctx):
    """The layout of the documented example: a model CRS whose first axis is northing, with x of the model along easting."""
    c = case["config"]
    d = ctx.sub()
    _, loc, vals = rows(case)
    extra = write_csv(case, os.path.join(d, "points.txt"), loc, vals)
    h5 = os.path.join(d, "model.h5")
    files = create.write(c, d, h5, source="geomodelgrids.create.data_srcs.csv.datasrc.CSVFile", extra=extra)
    made(ctx.py().call("create", files, {"all_steps": True}))
    # Queries use the order of the axes of the model CRS; the locations of the rows are those with easting along x.
    east = dict(c, crs="+proj=tmerc +lat_0=0 +lon_0=173 +k=0.9996 +x_0=1600000 +y_0=10000000 +ellps=GRS80 +towgs84=0,0,0 +units=m +no_defs +type=crs")
    n, bad = query(east, case["crs"], ctx, h5, create.read(h5))
    if bad:
        v = Violation(bad)
        v.finding = "north-first-crs"
        raise v
    return Info(True, [], n)


PARTS = [Part("csv", cases(), run, 900, 15000), Part("north_first", north_first_cases(), run_north_first, 1, 1)]
