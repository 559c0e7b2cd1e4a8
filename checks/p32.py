"""Models created from IRIS EMC files hold the values, grid and metadata of the file."""
import os
import pickle

import numpy as np
from hypothesis import strategies as st

from checks.p21 import made
from gmg import create, models
from gmg.core import Info, Part, expect
from gmg.common import ok, split_rows

RULE = ("A case is a generated Earth model file (longitude, latitude and depth axes with 2-7 points, each in either order and evenly spaced or not, depth "
        "from 0 in m or km; masked arrays or plain ones, values missing or not; "
        "1-4 variables in any order with different values everywhere; attributes present or absent), read through a stand-in for the netCDF4 "
        "module, and a batch size. The model is created at once and in batches; stored values, grid and metadata are compared with the file, and "
        "C++ queries next to every grid point with its values. An evaluation is one grid point. Non-trivial: at least 8 grid points were queried.")
TARGETS = ["driver", "stage"]
ASSUMPTIONS = ["The netCDF4 module is not installed; a stand-in provides the attributes, variables and indexing the code uses.",
               "Depths start at 0 (the domain of a model starts at its top) and are either evenly spaced or at least one differs from even spacing by more than 0.01% of "
               "the spacing; longitudes and latitudes are even or at least one differs from even spacing by more "
               "than 1% of the spacing, which is what the code takes as even."]
TEXT = st.one_of(st.sampled_from(["S362ANI+M", "Global model", "é; x = y", "3.1", "Smith, J., 2020, A model", "a | b, c"]), st.text(st.sampled_from("abc XYZ-"), min_size=1, max_size=9).map(
    lambda s: s.strip() or "a"))
FRACTION = 1e-4


@st.composite
def cases(draw):
    n = [draw(st.integers(2, 7)) for _ in range(3)]
    step = [draw(st.sampled_from([0.5, 1.0, 2.0, 0.1, 0.25])) for _ in range(2)]
    org = [draw(st.integers(-340, 300)) / 2.0, draw(st.integers(-170, 130)) / 2.0]
    if draw(st.booleans()):
        dz = draw(st.sampled_from([5.0, 12.5, 100.0]))
        z = [dz * k for k in range(n[2])]
    else:
        z = [0.0]
        near = draw(st.booleans())  # almost evenly spaced
        for _ in range(n[2] - 1):
            z.append(z[-1] + draw(st.sampled_from([10.0, 10.0, 10.0, 10.02, 10.1, 9.95] if near else [1.0, 2.5, 7.0, 20.0, 50.0])))
    fine = draw(st.sampled_from([1.0, 1.0, 1.0, 1e-3]))
    z = [v * fine for v in z]
    attrs = {k: draw(TEXT) for k in ("title", "id", "summary", "history", "comment", "data_revision", "creator_name", "creator_email",
                                     "creator_institution", "acknowledgement", "license", "author_name", "author_email", "reference", "keywords")
             if draw(st.integers(0, 3))}
    names = draw(st.lists(st.sampled_from(["vs", "vp", "rho", "dvs", "eta", "thickness_of"]), min_size=1, max_size=4, unique=True))
    order = draw(st.permutations(["longitude", "latitude", "depth"] + names))
    return {"n": n, "step": step, "org": org, "z": z, "vunits": draw(st.sampled_from(["km", "m"])), "attrs": attrs, "names": names, "order": order,
            "units": [draw(st.sampled_from(["km.s-1", "kg.m-3", "percent", "1"])) for _ in names], "f4": draw(st.booleans()),
            "masked": draw(st.booleans()), "missing": draw(st.sampled_from([0.0, 0.0, 0.1])), "seed": draw(st.integers(0, 999)), "batch": draw(st.sampled_from([None, 9, 30, 100])),
            "lonlat": draw(st.sampled_from(["degrees", "east"])),
            "uneven": [draw(st.sampled_from([0, 0, 0, 1])) for _ in range(2)], "down": [draw(st.sampled_from([0, 0, 0, 1])) for _ in range(3)]}


def emc(case, path):
    rng = np.random.default_rng(case["seed"])
    lon, lat = [o + s * np.arange(n) for o, s, n in zip(case["org"], case["step"], case["n"])]
    for x, u in zip((lon, lat), case["uneven"]):
        if u:
            off = np.round(rng.uniform(-0.4, 0.4, size=len(x) - 2), 2)
            x[1:-1] += np.where(np.abs(off) < 0.03, 0.0, off) * (x[1] - x[0])
    z = np.array(case["z"])
    names = case["names"]
    data = {k: rng.uniform(1.0, 9.0, size=(len(z), len(lat), len(lon))).astype("f4" if case["f4"] else "f8") for k in names}
    var = {"longitude": lon, "latitude": lat, "depth": z, **data}
    v = {}
    for k in case["order"]:
        a = {"units": dict(zip(names, case["units"])).get(k, "x"), "long_name": "long " + k}
        if k in data and case["masked"]:
            data[k][rng.uniform(size=data[k].shape) < case["missing"]] = np.nan
        v[k] = {"data": var[k] if k in data else var[k].astype("f4" if case["f4"] and k == "depth" else "f8"), "attrs": a, "masked": case["masked"]}
        if k in data and case["masked"]:
            v[k]["mask"] = np.isnan(data[k])
            v[k]["data"] = np.where(v[k]["mask"], v[k]["data"].dtype.type(9.96921e36), v[k]["data"])
            data[k][v[k]["mask"]] = models.NODATA
    east = case["lonlat"] == "east"
    attrs = dict(case["attrs"], geospatial_lon_min=lon[0], geospatial_lon_max=lon[-1], geospatial_lat_min=lat[0], geospatial_lat_max=lat[-1],
                 geospatial_vertical_min=z[0], geospatial_vertical_max=z[-1], geospatial_vertical_units=case["vunits"],
                 geospatial_lon_units="degrees_east " if east else "degrees", geospatial_lat_units="degrees_north" if east else "degrees")
    flip = dict(zip(("longitude", "latitude", "depth"), case["down"]))
    for k in v:
        for i, a in enumerate(("depth", "latitude", "longitude") if k in data else (k,)):
            if flip[a]:
                for x in ("data", "mask"):
                    if x in v[k]:
                        v[k][x] = np.ascontiguousarray(np.flip(v[k][x], i))
    with open(path, "wb") as f:
        pickle.dump({"attrs": attrs, "variables": v}, f)
    return lon, lat, z * (1000.0 if case["vunits"] == "km" else 1.0), [k for k in case["order"] if k in data], data


def run(case, ctx):
    d = ctx.sub()
    nc = os.path.join(d, "model.nc")
    lon, lat, z, names, data = emc(case, nc)
    want = np.stack([np.transpose(data[k]) for k in names], axis=-1).astype(np.float64)
    units = dict(zip(case["names"], case["units"]))
    a = case["attrs"]
    n = 0
    for i, size in enumerate([None] + [case["batch"]] * bool(case["batch"])):
        what = "in batches of %d points" % size if size else "at once"
        h5 = os.path.join(d, "m%d.h5" % i)
        cfg = os.path.join(d, "c%d.cfg" % i)
        with open(cfg, "w", encoding="utf-8") as f:
            f.write("\n".join(["[geomodelgrids]", "filename = " + h5, "data_source = geomodelgrids.create.data_srcs.iris_emc.datasrc.EMCNetCDF",
                               "repository_url = https://example.org/", "repository_name = None", "repository_doi = None", "title = replaced",
                               "", "[domain]"] + (["batch_size = %d" % size] if size else []) +
                              ["", "[block]", "chunk_size = (2, 2, 2, %d)" % len(names), "", "[iris_emc]", "filename = " + nc, ""]))
        made(ctx.py().call("create_emc", [cfg], {"all_steps": True}))
        got = create.read(h5)
        expect(set(got["data"]) == {"blocks/block"}, "datasets of the model created %s are %r", what, sorted(got["data"]))
        have = got["data"]["blocks/block"]
        expect(have.shape == want.shape, "block created %s has size %r, the file has %r (longitude, latitude, depth, values)", what, have.shape, want.shape)
        bad = ~(np.abs(have - want) <= 1e-6 * np.abs(want))
        expect(not bad.any(), "value at grid point %r (longitude, latitude, depth, value) created %s is %r, the file has %r",
               tuple(map(int, np.argwhere(bad)[0])) if bad.any() else None, what, have[bad][:2].tolist(), want[bad][:2].tolist())
        root = got["attrs"]["/"]
        expected = {"title": a.get("title", "unknown"), "id": a.get("id", "unknown"), "description": a.get("summary", ""),
                    "comment": a.get("comment", ""), "version": a.get("data_revision", "unknown"), "creator_name": a.get("author_name", a.get("creator_name", "")),
                    "creator_email": a.get("author_email", a.get("creator_email", "")), "creator_institution": a.get("creator_institution", ""),
                    "license": a.get("license", ""), "acknowledgement": a.get("acknowledgement", ""),
                    "authors": [a["author_name"]] if "author_name" in a else [], "references": [a["reference"]] if "reference" in a else [],
                    "keywords": [k.strip() for k in a.get("keywords", "").split(",")], "repository_name": "None", "repository_doi": "None", "repository_url": "https://example.org/", "data_values": names,
                    "data_units": [units[k] for k in names], "origin_x": float(lon[0]), "origin_y": float(lat[0]),
                    "y_azimuth": 0.0, "data_layout": "vertex"}
        for k, w in expected.items():
            expect(root.get(k) == w, "attribute %s of the model created %s is %r, expected %r", k, what, root.get(k), w)
        expect(str(root.get("history", "")).startswith(a.get("history", "")), "history is %r, the file has %r", root.get("history"), a.get("history"))
        for k, w in (("dim_x", lon[-1] - lon[0]), ("dim_y", lat[-1] - lat[0]), ("dim_z", z[-1])):
            expect(abs(root.get(k) - w) <= 1e-9 * w, "%s of the model is %r, expected %r", k, root.get(k), float(w))
        axes = [lon - lon[0], lat - lat[0], -z]
        p = create.nudge(axes, FRACTION)
        w = create.interp(axes, np.where(want < -1e19, -np.inf, want), p)
        pts = np.stack([p[:, 1] + lat[0], p[:, 0] + lon[0], p[:, 2]], axis=1)
        res = ctx.run([["Q_new", "q"], ["Q_init", "q", "EPSG:4979", 1, [h5], len(names), names],
                       ["Q_query", "q", len(names), len(pts), [float(v) for v in pts.ravel()]]])
        ok(res[1], "initialize")
        for q, r, e in zip(pts, split_rows(res[2], len(pts), len(names)), w):
            expect(isinstance(r, tuple) and r[0] == 0, "query at latitude, longitude, elevation %r gives %r", q.tolist(), r)
            for x, y in zip(r[1], e):
                expect(abs(x - y) <= 1e-4 or x == models.NODATA and not np.isfinite(y), "query at latitude, longitude, elevation %r gives %r, the file has %r", q.tolist(), r[1], e.tolist())
            n += 1
    return Info(n >= 8, ["uniform depth" if np.ptp(np.diff(z)) < 1e-9 else "variable depth", "batches" if case["batch"] else "at once"], n)


PARTS = [Part("emc", cases(), run, 500, 8000)]
