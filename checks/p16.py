"""The info application."""
import os
import re

import h5py
import numpy as np
from hypothesis import strategies as st
from pyproj import CRS

from gmg import appgen, models
from gmg.core import Info, Part, expect

RULE = ("One case is a list of 1-3 generated model files (uniform or variable coordinates, surfaces, blocks, and metadata text), each conforming or "
        "with one drawn violation (a missing attribute; a surface or block that does not span the domain, by 1e-5 or more; a resolution that "
        "is no multiple of that of the surface; surfaces with different resolutions; a gap or overlap between blocks; blocks that miss the "
        "top or the bottom), and drawn display and verification options; the report of every model is compared with the report expected "
        "from the metadata. An evaluation is one model reported. Non-trivial: a violation, variable coordinates, or several blocks with a "
        "surface.")
TARGETS = ["app_info"]
ASSUMPTIONS = ["White space between the printed items is not compared.",
               "The resolution shown for an axis with variable coordinates is not compared: there is none."]

TEXT = st.one_of(st.text(st.characters(codec="utf-8", exclude_categories=["Cs", "Cc", "Zl", "Zp"]), max_size=14),
                 st.sampled_from(["", "EPSG:4326", "two words", "line\nbreak", "a,b;c", "\"quoted\" 'x'", "FAIL", "ünïcödé ✓", "x" * 1000, "%s %d", "\\n",
                                  "Doe, J."]))
SEGS = [(6, [1, 2, 3, 6]), (12, [1, 2, 3, 4, 6, 12]), (8, [1, 2, 4, 8]), (5, [1, 5]), (1, [1])]
ROOT = models.INFO_STRINGS + models.INFO_LISTS + ["data_values", "data_units", "data_layout", "dim_x", "dim_y", "dim_z", "crs", "origin_x",
                                                  "origin_y", "y_azimuth"]
EPS = [1e-5, -1e-5, 1e-3, -0.25, 0.5, 1.0]


@st.composite
def specs(draw, i):
    spec = draw(models.models(big=False, max_blocks=4, surfaces=("both", "top", "none", "topo", "both"), name="m%d.h5" % i))
    seg = [draw(st.sampled_from(SEGS)) for _ in range(2)]
    grids = [spec[k] for k in ("top", "topo") if spec[k]] + spec["blocks"]
    for g in grids:
        for k, ax in enumerate("xy"):
            if g[ax] is None:
                g["n"][k] = 1 + (seg[k][0] if "z_top" not in g else draw(st.sampled_from(seg[k][1])))
    for b in spec["blocks"]:
        if b["dtype"] == "<i4":
            b["dtype"] = "<f4"
    if draw(st.booleans()):
        info = {k: draw(TEXT) for k in models.INFO_STRINGS}
        info.update({k: draw(st.lists(TEXT, max_size=4)) for k in models.INFO_LISTS})
        if draw(st.booleans()):
            info["auxiliary"] = draw(TEXT)
        spec["info"] = info
    return spec


@st.composite
def violations(draw, spec):
    nb = len(spec["blocks"])
    surf = [k for k in ("top", "topo") if spec[k]]
    kinds = ["root", "root", "block attr", "span", "span", "span", "z", "z", "z"]
    if surf:
        kinds += ["surface attr", "span"]
    if spec["top"]:
        kinds += ["multiple"] * 5
    if len(surf) == 2:
        kinds += ["differ"]
    kind = draw(st.sampled_from(kinds))
    if kind == "root":
        return [kind, draw(st.sampled_from(ROOT))]
    if kind == "block attr":
        return [kind, draw(st.integers(0, nb - 1)), draw(st.sampled_from(["x", "y", "z", "z_top"]))]
    if kind == "surface attr":
        return [kind, draw(st.sampled_from(surf)), draw(st.sampled_from(["x", "y"]))]
    if kind == "span":
        return [kind, draw(st.sampled_from(surf + list(range(nb)))), draw(st.sampled_from(["x", "y"])), draw(st.sampled_from(["end", "end", "start"])),
                draw(st.sampled_from(EPS))]
    if kind == "z":
        return [kind, draw(st.sampled_from(["top", "bottom", "dim", "gap", "edge", "edge"])), draw(st.integers(0, nb - 1)), draw(st.sampled_from([0.0, 0.0, 1e-5, 1e-3, 0.01, 0.3])),
                draw(st.booleans())]
    return [kind, draw(st.integers(0, nb - 1)), draw(st.sampled_from(["x", "y"])), draw(st.integers(1, 5))] + (
        [draw(st.sampled_from([0, 0, 1, 2, 3]))] if kind == "multiple" else [])


@st.composite
def cases(draw):
    ms = []
    for i in range(draw(st.sampled_from([1, 1, 2, 3]))):
        s = draw(specs(i))
        ms.append([s, draw(violations(s)) if draw(st.booleans()) else None])
    flags = draw(st.lists(st.sampled_from(["description", "blocks", "coordsys", "values", "verify", "all", "verify"]), min_size=1, max_size=5, unique=True))
    if any(v for _, v in ms) and not {"verify", "all"} & set(flags) and draw(st.booleans()):
        flags = flags[:-1] + ["verify"]
    return {"models": ms, "flags": flags, "sp": draw(appgen.spelling(8))}


# -- what is expected
class Num:
    def __init__(self, v, tol=5.1e-6, absolute=0.0):
        self.v, self.tol = v, tol * abs(v) + absolute


class Any:
    pass


def description(s, drop):
    info = dict(s.get("info") or models.default_info())
    info.pop(drop, None)
    g = lambda k: info.get(k, "")  # noqa: E731
    out = ["Title:", g("title"), "Id:", g("id"), "Description:", g("description"), "Keywords:", ", ".join(info.get("keywords", [])), "History:", g("history"),
           "Comment:", g("comment"), "Creator:", "%s, %s, %s" % (g("creator_name"), g("creator_institution"), g("creator_email")),
           "Authors:", "; ".join(info.get("authors", [])), "References:", "\n".join(info.get("references", [])), "Acknowledgement:", g("acknowledgement"),
           "Repository:", g("repository_name") + " " + g("repository_url"), "DOI:", g("repository_doi"), "Version:", g("version"), "License:", g("license")]
    if g("auxiliary"):
        out += ["Auxiliary information:", g("auxiliary")]
    out.append("Dimensions of model:")
    for k, ax in enumerate("xyz"):
        out += [ax + "=", Any() if drop == "dim_" + ax else Num(s["dims"][k])] + ([","] if k < 2 else [])
    out.append("Bounding box (WGS84):")
    ref = models.Ref(dict(s, blocks=[], top=None, topo=None), "EPSG:4326")
    loose = drop in ("dim_x", "dim_y", "origin_x", "origin_y", "y_azimuth")
    for fx, fy in ((0, 0), (1, 0), (1, 1), (0, 1)):
        lat, lon = ref.to_input(fx * s["dims"][0], fy * s["dims"][1])[:2]
        out += ["(", Any() if loose else Num(lat, 5.1e-6, 2e-6), ",", Any() if loose else Num(lon, 5.1e-7, 2e-6), ")"]
    return out


def coordsys(s, drop):
    out = ["Coordinate system:", "CRS (PROJ, EPSG, WKT):", s["crs"], "Coordinate system units:"]
    unit = CRS(s["crs"]).axis_info[0].unit_name.replace("metre", "meter")
    out += ["x=", unit, ", y=", unit, ", z=", unit, "(assumed)", "Origin: x=", Any() if drop == "origin_x" else Num(s["origin"][0]), ", y=",
            Any() if drop == "origin_y" else Num(s["origin"][1]), "Azimuth (degrees) of y axis from north:",
            Any() if drop == "y_azimuth" else Num(s["azimuth"])]
    return out


def values(s, drop):
    out = ["Values stored in model:"]
    names = [] if drop == "data_values" else s["names"]
    for i, n in enumerate(names):
        out += ["%d:" % i, n, "(" + ("" if drop == "data_units" else s["units"][i]) + ")"]
    return out + ([Any()] if drop == "data_layout" else ["Vertex-based data"])


def blocks(s):
    out = ["Surfaces"]
    for k, title in (("top", "Top surface:"), ("topo", "Topography/bathymetry:")):
        out.append(title)
        g = s[k]
        if not g:
            out.append("None")
            continue
        out += ["Number of points: x=%d, y=%d" % tuple(g["n"]), "Resolution:"]
        for i, ax in enumerate("xy"):
            out += [ax + "=", Any() if g[ax] is not None else Num(s["dims"][i] / (g["n"][i] - 1))] + ([","] if i < 1 else [])
    out.append("Blocks (%d)" % len(s["blocks"]))
    for b in sorted(s["blocks"], key=lambda b: -b["z_top"]):
        h = b["z_top"] - b["z_bot"]
        out += ["Block '%s'" % b["name"], "Resolution:"]
        for i, ax in enumerate("xyz"):
            ln = (s["dims"] + [h])[i] if i < 2 else h
            out += [ax + "=", Any() if b[ax] is not None else Num(ln / (b["n"][i] - 1))] + ([","] if i < 2 else [])
        out += ["Elevation of top of block in logical space:", Num(b["z_top"]), "Number of points: x=%d, y=%d, z=%d" % tuple(b["n"]), "Dimensions:"]
        for i, ax in enumerate("xyz"):
            out += [ax + "=", Num(s["dims"][i] if i < 2 else h)] + ([","] if i < 2 else [])
    return out


def squeeze(t):
    return re.sub(r"\s+", "", t)


def match(text, pieces, what):
    """The text must be exactly the pieces, except for white space."""
    text, pos, last = squeeze(text), 0, ""
    for k, p in enumerate(pieces):
        if isinstance(p, str):
            q = squeeze(p)
            expect(text.startswith(q, pos), "%s: after %r there is %r, expected %r", what, last[-60:], text[pos:pos + 60 + len(q)][:300], q[:300])
            pos += len(q)
            last = q
        else:
            m = re.compile(r"[-+]?(\d+\.?\d*([eE][-+]?\d+)?|inf|nan)|[A-Z][a-z-]*(layout|based)(data)?").match(text, pos)
            expect(m, "%s: after %r there is %r, expected a number", what, last[-60:], text[pos:pos + 40])
            if isinstance(p, Num):
                expect(abs(float(m.group()) - p.v) <= p.tol + 1e-300, "%s: after %r there is %s, expected %r", what, last[-60:], m.group(), p.v)
            pos = m.end()
    return text[pos:]


# -- violations
def break_model(s, v, path):
    """Write the model with its violation; returns (verification that must fail, verifications that may fail, attribute that is missing)."""
    spec = dict(s, blocks=[dict(b) for b in s["blocks"]], top=dict(s["top"]) if s["top"] else None, topo=dict(s["topo"]) if s["topo"] else None)
    title = {"top": "surface 'top surface'", "topo": "surface 'topography/bathymetry'"}
    same = "resolution of top surface matches resolution of topography/bathymetry"
    span = "blocks span vertical dimension of domain"
    order = sorted(range(len(s["blocks"])), key=lambda i: -s["blocks"][i]["z_top"])
    allblocks = ["block '%s'" % b["name"] for b in s["blocks"]]
    every = ["metadata", "model coordinate system", same, span] + list(title.values()) + allblocks
    if v and v[0] == "multiple":
        b, k = spec["blocks"][v[1]], "xy".index(v[2])
        if spec["top"][v[2]] is not None:
            spec["top"] = dict(spec["top"], **{v[2]: None})
        if b[v[2]] is not None:
            b[v[2]] = None
        n = spec["top"]["n"][k] - 1
        near = v[4] if len(v) > 4 else 0
        if near:
            # Nearly a multiple: the surface has one interval more or less than a multiple of those of the block.
            m = [130, 21, 400, 61, 250][v[3] % 5]
            n = near * m + (1 if v[3] % 2 else -1)
            spec["top"]["n"] = list(spec["top"]["n"])
            spec["top"]["n"][k] = n + 1
        else:
            m = [q for q in range(1, 3 * n + 4) if n % q][v[3] % 5]
        b["n"] = list(b["n"])
        b["n"][k] = m + 1
        if b["nodata"]:
            b["nodata"] = []
    if v and v[0] == "differ":
        k = "xy".index(v[2])
        for key in ("top", "topo"):
            spec[key][v[2]] = None
        spec["topo"]["n"] = list(spec["topo"]["n"])
        spec["topo"]["n"][k] = spec["top"]["n"][k] + v[3]
    models.write(spec, path)
    if not v:
        return [], [], None, spec
    must, may, drop = [], [], None
    with h5py.File(path, "r+") as h:
        def obj(w):
            return h["surfaces/" + {"top": "top_surface", "topo": "topography_bathymetry"}[w]] if isinstance(w, str) else h["blocks/" + s["blocks"][w]["name"]]
        if v[0] == "root":
            del h.attrs[v[1]]
            must, may, drop = ["metadata"], every, v[1]
        elif v[0] in ("block attr", "surface attr"):
            o = obj(v[1])
            names = [n for n in o.attrs if n == v[2] or n.startswith(v[2] + "_")]
            if v[2] == "z_top" and "z_top" not in o.attrs:
                names = ["z_coordinates"]
            elif v[2] == "z":
                names = [n for n in names if n != "z_top"]
            for n in names:
                del o.attrs[n]
            must, may = ["metadata"], every
        elif v[0] == "multiple":
            must, may = ["block '%s'" % s["blocks"][v[1]]["name"]], allblocks + [same]
        elif v[0] == "differ":
            must, may = [same], allblocks if s["top"][v[2]] is not None else []
        elif v[0] == "span":
            o, ax, how, eps = obj(v[1]), v[2], v[3], v[4]
            dim = s["dims"]["xy".index(ax)]
            if ax + "_resolution" in o.attrs:
                o.attrs[ax + "_resolution"] = o.attrs[ax + "_resolution"] * (1.0 + eps)
            else:
                c = np.sort(o.attrs[ax + "_coordinates"])
                if how == "start":
                    c[0] = abs(eps) * c[1] if abs(eps) * c[1] > 1e-5 * dim else c[0] - 1e-5 * dim
                    if abs(eps) >= 0.5:
                        c[0] = -abs(eps) * dim
                else:
                    c[-1] = max(c[-1] * (1.0 + eps), c[-2] + (c[-1] - c[-2]) * 0.5) if eps < 0 else c[-1] * (1.0 + eps)
                del o.attrs[ax + "_coordinates"]
                o.attrs[ax + "_coordinates"] = c
            must = [title[v[1]]] if isinstance(v[1], str) else ["block '%s'" % s["blocks"][v[1]]["name"]]
            may = [same] + (allblocks if v[1] == "top" else [])
        else:
            what, i, rel, up = v[1:]
            dz = max(rel * s["dims"][2], 1e-3)
            if what == "dim":
                h.attrs["dim_z"] = s["dims"][2] + (dz if up else -dz)
            else:
                i = order[0] if what == "top" else order[-1] if what == "bottom" else order[i]
                o = obj(i)
                if what == "bottom":
                    if "z_resolution" in o.attrs:
                        n = s["blocks"][i]["n"][2] - 1
                        o.attrs["z_resolution"] = o.attrs["z_resolution"] + (dz if up else -min(dz, 0.5 * n * o.attrs["z_resolution"])) / n
                    else:
                        c = -np.sort(-o.attrs["z_coordinates"])
                        c[-1] -= dz
                        del o.attrs["z_coordinates"]
                        o.attrs["z_coordinates"] = c
                elif what == "edge":
                    # Only the top of the block is moved.
                    dz = min(dz, 0.4 * min(b["z_top"] - b["z_bot"] for b in s["blocks"])) * (1.0 if up else -1.0)
                    if "z_resolution" in o.attrs:
                        n = s["blocks"][i]["n"][2] - 1
                        o.attrs["z_top"] = o.attrs["z_top"] + dz
                        o.attrs["z_resolution"] = o.attrs["z_resolution"] + dz / n
                    else:
                        c = -np.sort(-o.attrs["z_coordinates"])
                        c[0] = c[0] + dz if up else max(c[0] + dz, 0.5 * (c[0] + c[1]))
                        del o.attrs["z_coordinates"]
                        o.attrs["z_coordinates"] = c
                        if "z_top" in o.attrs:
                            o.attrs["z_top"] = c[0]
                else:
                    # The whole block is moved by less than it takes to change the order of the blocks.
                    dz = min(dz, 0.4 * min(b["z_top"] - b["z_bot"] for b in s["blocks"]))
                    if "z_top" in o.attrs:
                        o.attrs["z_top"] = o.attrs["z_top"] + (dz if up else -dz)
                    if "z_coordinates" in o.attrs:
                        c = o.attrs["z_coordinates"] + (dz if up else -dz)
                        del o.attrs["z_coordinates"]
                        o.attrs["z_coordinates"] = c
            must = [span]
    return must, may, drop, spec


def run(case, ctx):
    d = ctx.sub()
    plan = []
    for i, (s, v) in enumerate(case["models"]):
        path = os.path.join(d, s["name"])
        must, may, drop, spec = break_model(s, v, path)
        plan.append((path, spec, v, must, may, drop))
    plan.sort(key=lambda p: p[5] == "crs")  # nothing can be said about a model after one without a CRS
    flags = case["flags"]
    r = ctx.app("info", appgen.spell("info", [("models", ",".join(p[0] for p in plan))] + [(f, None) for f in flags], case["sp"]))
    nocrs = any(p[5] == "crs" for p in plan)
    expect(r.rc == 0 or nocrs, "geomodelgrids_info failed (%d): %s%s", r.rc, r.out, r.err)
    parts = re.split("Model: (%s)\n" % "|".join(re.escape(p[0]) for p in plan), r.out)
    expect(parts[0].strip() == "", "before the first model: %r", parts[0])
    got = list(zip(parts[1::2], parts[2::2]))
    n = [p[0] for p in plan]
    if sum(p[5] == "crs" for p in plan) > 1:
        got = got + [(f, "") for f in n[len(got):]]
    expect([g[0] for g in got] == n, "models reported are %r, expected %r", [g[0] for g in got], n)
    full, verify = "all" in flags, "all" in flags or "verify" in flags
    for (path, s, v, must, may, drop), (_, text) in zip(plan, got):
        what = "%s %r %s" % (os.path.basename(path), v, flags)
        if drop == "crs" and not text and not verify:
            continue
        if verify and not (drop == "crs" and not text):
            want = ["metadata", "model coordinate system"]
            for k, t in (("top", "surface 'top surface'"), ("topo", "surface 'topography/bathymetry'")):
                want += [t] if s[k] else []
            if s["top"] and s["topo"]:
                want.append("resolution of top surface matches resolution of topography/bathymetry")
            want += ["block '%s'" % b["name"] for b in sorted(s["blocks"], key=lambda b: -b["z_top"])] + ["blocks span vertical dimension of domain"]
            head = re.split(r"\n {4}(?:Title: |Coordinate system:|Values stored in model:|Surfaces\n)", text)[0]
            lines = re.findall(r"Verifying (.+?) ?\.\.\.(\w+)", head)
            if drop != "crs":
                structure = v and v[0] in ("block attr", "surface attr")
                expect(structure or [k for k, _ in lines] == want, "%s: verifications are %r, expected %r", what, [k for k, _ in lines], want)
            res = dict(lines)
            for k in must:
                expect(res.get(k) == "FAIL", "%s: verification of %s does not fail: %s", what, k, head)
                if v[0] == "root":
                    expect(re.search(r"/%s\b" % v[1], head), "%s: the report does not name %s: %s", what, v[1], head)
            for k, seg in re.findall(r"Verifying (.+?) ?\.\.\.(.*?)(?=\n *Verifying|\Z)", head, re.S):
                words = [w.strip() for w in seg.strip().split("\n")]
                expect(words == ["OK"] or words[0] == "FAIL" and len(words) > 1 and "OK" not in words[1:] and "FAIL" not in words[1:],
                       "%s: report of the verification of %s is %r", what, k, seg)
            for k in res:
                expect(k in must or k in may or res[k] == "OK", "%s: verification of %s fails although it conforms: %s", what, k, head)
            if not v:
                expect("FAIL" not in head and "WARNING" not in head, "%s: a conforming model fails: %s", what, head)
            text = text[len(head):]
        elif v and must == ["metadata"]:
            expect("WARNING" in text, "%s: no warning about missing metadata: %r", what, text[:300])
            continue
        if drop == "crs" or v and v[0] not in ("root", "multiple", "differ"):
            continue
        pieces = []
        if full or "description" in flags:
            pieces += description(s, drop)
        if full or "coordsys" in flags:
            pieces += coordsys(s, drop)
        if full or "values" in flags:
            pieces += values(s, drop)
        if full or "blocks" in flags:
            pieces += blocks(s)
        rest = match(text, pieces, what)
        expect(rest == "", "%s: also printed: %r", what, rest[:300])
    var = any(g[a] is not None for p in plan for g in p[1]["blocks"] + [p[1][k] for k in ("top", "topo") if p[1][k]] for a in "xy")
    rich = any(len(p[1]["blocks"]) > 1 and (p[1]["top"] or p[1]["topo"]) for p in plan)
    return Info(any(p[2] for p in plan) or var or rich, [p[2][0] if p[2] else "conforming" for p in plan] + flags + ["models %d" % len(plan)], len(plan))


PARTS = [Part("report", cases(), run, 900, 20000)]
