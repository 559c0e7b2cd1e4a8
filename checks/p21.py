"""Models created with the Python tools return the data supplied by the data source."""
import os

import numpy as np
from hypothesis import strategies as st

from gmg import create
from gmg.core import Info, Part, Violation, expect
from gmg.pyclient import PyExc
from gmg.common import flat, ok, split_rows

RULE = ("A case is a generated configuration (model CRS, origin, azimuth, dimensions; 1-3 blocks and up to two surfaces with uniform or "
        "variable coordinates in any order, with nested resolutions; offsets of the top points; one or two files) and a data source that "
        "returns unrelated values for every grid point and records the locations it was asked for. The model is created, at once or in "
        "batches; recorded locations are compared with reference locations, stored values and metadata with what was supplied, and the "
        "C++ query with the supplied values next to every grid point and at interior locations. An evaluation is one grid point. "
        "Non-trivial: at least 8 grid points whose queried values were compared.")
TARGETS = ["driver", "stage"]
ASSUMPTIONS = ["Variable z coordinates: the recorded locations may be mirrored, which is a known finding (variable-z-mirrored)."]
FRACTION = 1e-5


@st.composite
def cases(draw):
    return {"config": draw(create.configs()), "batch": draw(st.sampled_from([None, None, 20, 64, 300])), "seed": draw(st.integers(0, 10**6)),
            "points": draw(st.lists(st.tuples(*[st.integers(1, 999)] * 3), min_size=4, max_size=12))}


def made(res):
    if isinstance(res, PyExc):
        raise Violation("creating the model failed: %s: %s\n%s" % (res.type, res.what, res.tb[-1200:]))
    return res


def assemble(records, kind):
    recs = [r for r in records if r[0] == kind]
    expect(recs, "the data source was never asked for %s", kind)
    return recs


def check_attrs(c, got):
    for name, want in create.expected_attrs(c).items():
        have = got["attrs"].get(name)
        expect(have is not None, "%s is missing from the model file", name)
        for k, v in want.items():
            expect(k in have and have[k] == v, "attribute %s of %s is %r, configured %r", k, name, have.get(k), v)
        if name != "/":
            expect(set(have) == set(want), "attributes of %s are %r, expected %r", name, sorted(have), sorted(want))


def run(case, ctx):
    c = case["config"]
    d = ctx.sub()
    h5 = os.path.join(d, "model.h5")
    files = create.write(c, d, h5, batch=case["batch"])
    records = made(ctx.py().call("create", files, {"all_steps": True}, "random", case["seed"]))
    got = create.read(h5)
    check_attrs(c, got)
    tol = 1e-9 * max(float(v) for v in c["dims"]) + 1e-6
    surfs = {}
    for sec, key in (("top_surface", "top"), ("topography_bathymetry", "topo")):
        s, name = c[key], "surfaces/" + sec
        if not s:
            expect(name not in got["data"], "%s was created without being configured", sec)
            continue
        data = got["data"][name]
        gx, gy = create.grid_axes(c, s)
        expect(data.shape == (len(gx), len(gy), 1), "%s has size %r, expected %r", sec, data.shape, (len(gx), len(gy), 1))
        data = data[:, :, 0]
        surfs[key] = data
        recs = assemble(records, sec)
        X, Y = create.to_crs(c, *np.meshgrid(gx, gy, indexing="ij"))
        _compare_surface(sec, recs, X, Y, data, tol)
    top = surfs.get("top")
    n = 0
    mirrored = False
    for b in c["blocks"]:
        data = got["data"]["blocks/" + b["name"]]
        axes = create.block_axes(c, b)
        shape = tuple(len(a) for a in axes)
        expect(data.shape == shape + (len(c["values"]),), "block %s has size %r, expected %r", b["name"], data.shape, shape)
        recs = assemble(records, b["name"])
        mirrored |= _compare_block(c, b, recs, data, top, tol)
        n += int(np.prod(shape))
    evals = _query(c, case, ctx, h5, got, surfs)
    labels = ["batches" if case["batch"] else "at once"]
    labels += ["variable z" for b in c["blocks"] if "coords" in b["z"]][:1] + ["variable x" for b in c["blocks"] if "coords" in b["x"]][:1]
    return Info(evals >= 8, labels + ["reversed " + c["order"]] * (c["order"] == "reversed"), n)


def _compare_surface(name, recs, X, Y, data, tol):
    seen = np.zeros(data.shape, dtype=int)
    XY = np.stack([X, Y], axis=-1)
    for _, _, pts, elev, _ in recs:
        expect(pts.ndim == 3 and pts.shape[2] >= 2, "points of %s have shape %r", name, pts.shape)
        # place of the first point in the grid
        d = np.abs(XY - pts[0, 0, :2]).max(axis=-1)
        i, j = np.unravel_index(np.argmin(d), d.shape)
        ref = XY[i:i + pts.shape[0], j:j + pts.shape[1]]
        expect(ref.shape == pts[..., :2].shape, "points of %s %r do not fit the grid %r at %r", name, pts.shape, data.shape, (i, j))
        err = np.abs(ref - pts[..., :2])
        expect(err.max() <= tol, "points of %s differ from the grid points by %r", name, float(err.max()))
        sl = (slice(i, i + pts.shape[0]), slice(j, j + pts.shape[1]))
        seen[sl] += 1
        expect(np.array_equal(data[sl], elev[..., 0].astype(data.dtype)), "stored elevations of %s differ from those supplied", name)
    expect(np.all(seen == 1), "grid points of %s were requested %d to %d times", name, int(seen.min()), int(seen.max()))


def _compare_block(c, b, recs, data, top, tol):
    X, Y, Z = create.block_locations(c, b, top)
    CX, CY = create.to_crs(c, X, Y)
    Zm = create.block_locations(c, b, top, mirrored=True)[2] if "coords" in b["z"] else None
    off = float(b["offset"])
    Z[:, :, 0] += off
    if Zm is not None:
        Zm[:, :, 0] += off
    seen = np.zeros(X.shape, dtype=int)
    used = False
    for _, rng, pts, values, elev in recs:
        sl = tuple(slice(*r) for r in rng) if rng else (slice(None),) * 3
        expect(pts.shape == X[sl].shape + (3,), "points of block %s have shape %r, expected %r", b["name"], pts.shape, X[sl].shape)
        for k, ref in ((0, CX), (1, CY)):
            err = np.abs(pts[..., k] - ref[sl]).max()
            expect(err <= tol, "coordinate %s of points of block %s differs from the grid by %r", "xy"[k], b["name"], float(err))
        err = np.abs(pts[..., 2] - Z[sl]).max()
        if err > 1e-9 * float(c["dims"][2]) + 1e-7:
            merr = np.abs(pts[..., 2] - Zm[sl]).max() if Zm is not None else np.inf
            used = True
            expect(merr <= 1e-9 * float(c["dims"][2]) + 1e-7, "elevations of points of block %s (top %r, offset %r) differ from the grid by %r",
                   b["name"], b["z"], off, float(min(err, merr)))
        if top is not None:
            S = top[np.ix_(create.matching(create.grid_axes(c, c["top"])[0], X[:, 0, 0]),
                           create.matching(create.grid_axes(c, c["top"])[1], Y[0, :, 0]))]
            expect(elev is not None and np.array_equal(elev, S[sl[:2]].astype(np.float64)),
                   "surface elevations for block %s differ from the stored surface", b["name"])
        seen[sl] += 1
        expect(np.array_equal(data[sl], values.astype(data.dtype)), "values stored for block %s differ from those supplied", b["name"])
    expect(np.all(seen == 1), "grid points of block %s were requested %d to %d times", b["name"], int(seen.min()), int(seen.max()))
    return used


def _query(c, case, ctx, h5, got, surfs):
    nv = len(c["values"])
    top = surfs.get("top")
    slope = 0.0
    if top is not None:
        gx, gy = create.grid_axes(c, c["top"])
        slope = np.abs(np.diff(top, axis=0)).max() / np.diff(gx).min() + np.abs(np.diff(top, axis=1)).max() / np.diff(gy).min()
    cmds = [["Q_new", "q"], ["Q_init", "q", c["crs"], 1, [h5], nv, c["values"]]]
    plan = []
    for b in c["blocks"]:
        axes = create.block_axes(c, b)
        p = create.nudge(axes, FRACTION)
        if len(p) > 400:
            p = p[:: len(p) // 400 + 1]
        extra = np.array([[a[0] + f * 0.00100093 * (a[-1] - a[0]) for a, f in zip(axes, q)] for q in case["points"]])
        p = np.concatenate([p, extra])
        want = create.interp(axes, got["data"]["blocks/" + b["name"]], p)
        x, y = create.to_crs(c, p[:, 0], p[:, 1])
        z = create.elevation(c, top, p)
        pts = np.stack([x, y, z], axis=1)
        if 1e-8 * slope > 0.1 * FRACTION * np.abs(np.diff(axes[2])).min():
            continue  # the nudge is within rounding of a very steep surface
        # rounding of the horizontal coordinates changes the elevation of a steep surface
        vtol = 0.02 + 1.0e4 * 1e-8 * slope / np.abs(np.diff(axes[2])).min() + 1.0e4 * 1e-8 / min(np.diff(axes[0]).min(), np.diff(axes[1]).min())
        plan.append((len(cmds), b, p, pts, want, vtol))
        cmds.append(["Q_query", "q", nv, len(pts), [float(v) for v in pts.ravel()]])
    splan = []
    for key, cmd in (("top", "Q_top"), ("topo", "Q_topo")):
        if key in surfs:
            axes = create.grid_axes(c, c[key])
            p = create.nudge(axes, FRACTION)[:400]
            want = create.interp(axes, surfs[key], p)
            x, y = create.to_crs(c, p[:, 0], p[:, 1])
            splan.append((len(cmds), cmd, p, want, float(np.ptp(surfs[key])) + float(np.abs(surfs[key]).max())))
            cmds.append([cmd, "q", len(p), [float(v) for v in np.stack([x, y], axis=1).ravel()]])
    res = ctx.run(cmds)
    ok(res[1], "initialize")
    n = 0
    for k, b, p, pts, want, vtol in plan:
        rows = split_rows(res[k], len(pts), nv)
        for i, r in enumerate(rows):
            expect(isinstance(r, tuple) and r[0] == 0, "query at %r (block %s, logical coordinates %r) gives %r", pts[i].tolist(), b["name"],
                   p[i].tolist(), r)
            n += vtol < 100.0
            for v in range(nv):
                expect(abs(r[1][v] - want[i, v]) <= vtol, "query at %r (block %s, logical coordinates %r) gives %r, supplied %r",
                       pts[i].tolist(), b["name"], p[i].tolist(), r[1], want[i].tolist())
    for k, cmd, p, want, scale in splan:
        expect(len(res[k]) == len(p), "%s gives %d results for %d points", cmd, len(res[k]), len(p))
        for i, v in enumerate(res[k]):
            expect(isinstance(v, float) and abs(v - want[i]) <= 1e-6 * scale, "%s at logical coordinates %r gives %r, supplied %r", cmd,
                   p[i].tolist(), v, float(want[i]))
    return n


# ------------------------------------------------------------------------------------------------- command line
@st.composite
def cli_cases(draw):
    return {"config": draw(create.configs(max_cells=3)), "batch": draw(st.sampled_from([None, 40])),
            "split": draw(st.booleans()), "opts": draw(st.lists(st.sampled_from(["--quiet", "--debug", "--log=x.log"]), unique=True)),
            "disabled": draw(st.sampled_from([None, "top_surface", "topography_bathymetry"]))}


def run_cli(case, ctx):
    c = dict(case["config"], disabled=case["disabled"])
    if case["disabled"] == "top_surface":
        c["top"] = None
    elif case["disabled"]:
        c["topo"] = None
    d = ctx.sub()
    a, b = os.path.join(d, "a.h5"), os.path.join(d, "b.h5")
    fa = create.write(c, d, a, batch=case["batch"], name="a")
    fb = create.write(c, d, b, batch=case["batch"], name="b")
    made(ctx.py().call("create", fa, {"all_steps": True}, "smooth", 1))
    base = ["--config=" + ",".join(fb)] + case["opts"]
    runs = [["--import-domain"], ["--import-surfaces"], ["--import-blocks"]] if case["split"] else [["--all"]]
    for r in runs:
        out = ctx.create_model(r + base, d)
        expect(out.rc == 0, "geomodelgrids_create_model %r fails (code %r): %s", r, out.rc, out.err[-600:])
    x, y = create.read(a), create.read(b)
    check_attrs(c, y)
    expect(set(x["data"]) == set(y["data"]), "datasets of the command line %r differ from %r", sorted(y["data"]), sorted(x["data"]))
    for k in x["data"]:
        expect(np.array_equal(x["data"][k], y["data"][k]), "%s created from the command line differs", k)
    expect(("surfaces/" + str(case["disabled"])) not in y["data"], "%s was created although it is disabled", case["disabled"])
    return Info(True, ["steps" if case["split"] else "all", "disabled %s" % case["disabled"]], 1)


# ------------------------------------------------------------------------------------------------- known finding
def run_mirrored(case, ctx):
    c = case["config"]
    d = ctx.sub()
    h5 = os.path.join(d, "model.h5")
    records = made(ctx.py().call("create", create.write(c, d, h5), {"all_steps": True}, "random", 1))
    got = create.read(h5)
    top = got["data"].get("surfaces/top_surface")
    for b in c["blocks"]:
        Z = create.block_locations(c, b, None if top is None else top[:, :, 0])[2]
        for _, _, pts, _, _ in [r for r in records if r[0] == b["name"]]:
            err = float(np.abs(pts[..., 2] - Z).max())
            if err > 1.0:
                v = Violation("locations of block %s with z_coordinates %r are mirrored about its top: elevations %r to %r" % (
                    b["name"], b["z"].get("coords"), float(pts[..., 2].min()), float(pts[..., 2].max())))
                v.finding = "variable-z-mirrored"
                raise v
    return Info(True, [], 1)


def mirrored_cases():
    info = {k: "x" for k in create.STRINGS}
    info.update(keywords=["a"], authors=["b"], references=["c"])
    ax = {"x": {"res": "100"}, "y": {"res": "100"}, "z": {"coords": ["0", "-100", "-300"]}, "name": "block0", "offset": "0.0"}
    return st.just({"config": {"crs": "EPSG:26910", "origin": [520000.0, 4100000.0], "azimuth": 0.0, "info": info, "values": ["Vp"],
                               "units": ["m/s"], "dims": ["200", "200", "300"], "top": None, "topo": None, "blocks": [ax], "order": "sorted",
                               "split": False}})


PARTS = [Part("create", cases(), run, 1500, 20000), Part("cli", cli_cases(), run_cli, 40, 500), Part("mirrored", mirrored_cases(), run_mirrored, 1, 1)]
