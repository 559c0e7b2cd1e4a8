"""Updating metadata, and importing parts again, changes only what it should."""
import copy
import os

import numpy as np
from hypothesis import strategies as st

from checks import p21
from gmg import create
from gmg.core import Info, Part, expect

RULE = ("A case is a generated configuration (as for P21) and a history of 2-7 steps; each step first changes the configuration (texts, origin, "
        "azimuth, units, CRS, dimensions, uniform to variable coordinates and back, resolution of a surface, omitted surface, auxiliary data, coordinates moved by a few millionths), then imports any "
        "of domain, surfaces, blocks, or updates the metadata, at once or in batches; a step may be repeated. After every step the file is "
        "compared with a model of it: which parts hold which metadata and which arrays. An evaluation is one step. "
        "Non-trivial: at least one part changed while another, present one had to stay the same.")
TARGETS = ["stage"]
FLAGS = ["import_domain", "import_surfaces", "import_blocks", "update_metadata"]
MUTATIONS = ["info", "origin", "azimuth", "units", "scale", "coords_x", "coords_y", "coords_z", "res_x", "res_y", "res_z", "refine", "drop",
             "values", "dim_z", "crs", "aux", "nudge"]


@st.composite
def cases(draw):
    steps = []
    for i in range(draw(st.integers(2, 7))):
        flags = draw(st.lists(st.sampled_from(FLAGS), min_size=1, max_size=3, unique=True)) if i or draw(st.booleans()) else FLAGS[:3]
        steps.append({"mutate": draw(st.lists(st.sampled_from(MUTATIONS), max_size=3, unique=True)) if i else [], "flags": flags,
                      "batch": draw(st.sampled_from([None, None, None, 50])), "seed": draw(st.integers(0, 1000)),
                      "arg": draw(st.integers(0, 1000)), "repeat": draw(st.integers(0, 3)) == 0, "info": draw(create.info()) if i else None,
                      "aux": draw(create.AUX) if i else None})
    return {"config": draw(create.configs(max_cells=4)), "steps": steps}


def grids(c):
    return [g for g in (c["top"], c["topo"]) if g] + c["blocks"]


def times(s, f):
    return "%.10g" % (float(s) * f)


def mutate(c, step):
    c = copy.deepcopy(c)
    arg = step["arg"]
    for m in step["mutate"]:
        if m == "info":
            c["info"] = step["info"]
        elif m == "origin":
            c["origin"] = [c["origin"][0] + arg, c["origin"][1] - 2.0 * arg]
        elif m == "azimuth":
            c["azimuth"] = float(arg % 360)
        elif m == "units":
            c["units"] = ["km/s" if (arg >> i) & 1 else "g/cm**3" for i in range(len(c["units"]))]
        elif m == "values":
            c["values"] = ["v%d_%d" % (arg, i) for i in range(len(c["values"]))]
        elif m == "crs":
            c["crs"] = ["EPSG:26910", "EPSG:32610", "EPSG:3311"][arg % 3]
        elif m == "aux":
            c["aux"] = step["aux"]
        elif m == "nudge":
            for g in grids(c):
                for d in "xyz":
                    if d in g and "coords" in g[d]:
                        co = g[d]["coords"]
                        g[d]["coords"] = co[:1] + [repr(float(x) * (1.0 + (arg % 7 + 1) * 1e-6)) for x in co[1:-1]] + co[-1:]
        elif m == "scale":
            c["dims"] = [times(v, 2) for v in c["dims"]]
            for g in grids(c):
                for d in "xyz":
                    if d in g:
                        g[d] = {k: [times(x, 2) for x in v] if k == "coords" else times(v, 2) for k, v in g[d].items()}
        elif m == "dim_z":
            c["dims"][2] = times(c["dims"][2], 1.5)
        elif m.startswith("coords_") or m.startswith("res_"):
            d = m[-1]
            for g in grids(c):
                if d not in g or ("coords" in g[d]) == m.startswith("coords"):
                    continue
                ax = create.block_axes(c, g)["xyz".index(d)] if d == "z" else create.grid_axes(c, g)["xy".index(d)]
                if m.startswith("coords"):
                    g[d] = {"coords": ["%.10g" % v for v in ax]}
                else:
                    step_ = "%.10g" % (abs(ax[-1] - ax[0]) / (len(ax) - 1))
                    g[d] = {"res": step_}
                    if d == "z":
                        g[d].update(top="%.10g" % ax[0], bot="%.10g" % ax[-1])
        elif m == "refine" and c["top"] and "res" in c["top"]["x"]:
            c["top"]["x"] = {"res": times(c["top"]["x"]["res"], 0.5)}
        elif m == "drop":
            c["topo"] = None
    return c


def compatible(c, state):
    """Whether blocks can be created from the stored top surface."""
    if not c["top"]:
        return True
    name = "surfaces/top_surface"
    if name not in state["attrs"] or state["attrs"][name] != create.expected_attrs(c)[name]:
        return False
    g = create.grid_axes(c, c["top"])
    if state["data"][name].shape[:2] != tuple(len(a) for a in g):
        return False
    for b in c["blocks"]:
        for d, ax, fine in zip("xy", create.grid_axes(c, b), g):
            if ("coords" in b[d]) != ("coords" in c["top"][d]):
                return False
            if np.abs(fine[create.matching(fine, ax)] - ax).max() > 1e-6:
                return False
            if "res" in b[d] and abs(float(b[d]["res"]) / float(c["top"][d]["res"]) % 1.0) not in (0.0, 1.0) and \
                    abs((float(b[d]["res"]) / float(c["top"][d]["res"]) + 0.5) % 1.0 - 0.5) > 1e-8:
                return False
    return True


def run(case, ctx):
    c = case["config"]
    d = ctx.sub()
    h5 = os.path.join(d, "model.h5")
    state = {"attrs": {"/": {}}, "data": {}}
    evals, nontrivial, labels = 0, False, set()
    for n, step in enumerate(case["steps"]):
        c = mutate(c, step)
        names = ["surfaces/" + s for s, k in (("top_surface", "top"), ("topography_bathymetry", "topo")) if c[k]]
        blocks = ["blocks/" + b["name"] for b in c["blocks"]]
        flags = list(step["flags"])
        after = set(state["data"]) | (set(names) if "import_surfaces" in flags else set()) | (set(blocks) if "import_blocks" in flags else set())
        if "import_blocks" in flags:
            probe = {"attrs": dict(state["attrs"]), "data": dict(state["data"])}
            if "import_surfaces" in flags and c["top"]:
                probe["attrs"]["surfaces/top_surface"] = create.expected_attrs(c)["surfaces/top_surface"]
                probe["data"]["surfaces/top_surface"] = np.zeros([len(a) for a in create.grid_axes(c, c["top"])] + [1])
            if not compatible(c, probe):
                flags.remove("import_blocks")
                after -= set(blocks) - set(state["data"])
        if "update_metadata" in flags and not set(names + blocks) <= after:
            flags.remove("update_metadata")
        if not flags:
            continue
        what = "step %d (%s)" % (n, ", ".join(flags))
        files = create.write(c, d, h5, batch=step["batch"], name="s%d_" % n)
        rec = p21.made(ctx.py().call("create", files, {f: True for f in flags}, "random", step["seed"]))
        if not os.path.exists(h5):
            expect(flags == ["import_surfaces"] and not names, "%s created no file", what)
            continue
        got = create.read(h5)
        want = create.expected_attrs(c)
        touched = (names if "import_surfaces" in flags else []) + (blocks if "import_blocks" in flags else [])
        meta = set(touched) | ({"/"} if "import_domain" in flags else set()) | \
            ({"/"} | set(names + blocks) if "update_metadata" in flags else set())
        for k in meta:
            state["attrs"][k] = want[k]
        for k, v in state["attrs"].items():
            expect(got["attrs"].get(k) == v, "after %s the metadata of %s is %r, expected %r", what, k, got["attrs"].get(k), v)
        expect(set(got["data"]) == set(state["data"]) | set(touched), "after %s the file holds %r, expected %r", what, sorted(got["data"]),
               sorted(set(state["data"]) | set(touched)))
        for k, a in state["data"].items():
            if k not in touched:
                expect(got["data"][k].shape == a.shape and np.array_equal(got["data"][k], a), "%s changed the data of %s", what, k)
        _check_data(c, touched, rec, got)
        if set(state["data"]) - set(touched) or (meta and meta != set(state["attrs"])):
            nontrivial = True
        for k in touched:
            state["data"][k] = got["data"][k]
        evals += 1
        labels |= {"flags %d" % len(flags)} | set(flags)
        if step["repeat"]:
            p21.made(ctx.py().call("create", files, {f: True for f in flags}, "random", step["seed"]))
            again = create.read(h5)
            expect(again["attrs"] == got["attrs"] and again["layout"] == got["layout"], "repeating %s changed metadata: %r, before %r", what,
                   again["attrs"], got["attrs"])
            for k, a in got["data"].items():
                expect(np.array_equal(a, again["data"][k]), "repeating %s changed the data of %s", what, k)
            evals += 1
            labels.add("repeated")
    return Info(nontrivial, sorted(labels), max(evals, 1))


def _check_data(c, touched, rec, got):
    tol = 1e-9 * max(float(v) for v in c["dims"]) + 1e-6
    top = got["data"]["surfaces/top_surface"][:, :, 0] if c["top"] and "surfaces/top_surface" in got["data"] else None
    for k in touched:
        kind = k.split("/")[1]
        recs = p21.assemble(rec, kind)
        if k.startswith("surfaces"):
            X, Y = create.to_crs(c, *np.meshgrid(*create.grid_axes(c, c["top" if kind == "top_surface" else "topo"]), indexing="ij"))
            p21._compare_surface(kind, recs, X, Y, got["data"][k][:, :, 0], tol)
        else:
            b = [b for b in c["blocks"] if b["name"] == kind][0]
            p21._compare_block(c, b, recs, got["data"][k], top if c["top"] else None, tol)


PARTS = [Part("history", cases(), run, 1200, 15000)]
