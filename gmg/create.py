"""Generated configurations for creating models, and the reference for the locations of grid points."""
import json
import math
import os

import h5py
import numpy as np
from hypothesis import strategies as st

from . import models

STRINGS = ["title", "id", "description", "history", "comment", "creator_name", "creator_institution", "creator_email", "acknowledgement",
           "repository_name", "repository_url", "repository_doi", "version", "license"]
TEXT = st.one_of(st.sampled_from(["", "CC0", "A model", "1.0.0", "U.S. Geological Survey", "https://doi.org/10.5066/P9 = x", "né à Zürich", "a; b"]),
                 st.text(st.characters(codec="utf-8", exclude_categories=["Cs", "Cc", "Zl", "Zp"], exclude_characters="%#;[]()|,=:\x85\xa0"),
                         max_size=12).map(str.strip))
ITEM = st.one_of(st.sampled_from(["Aagaard", "model", "Zürich", "x"]), st.text(st.sampled_from("abcdeXYZ é-."), min_size=1, max_size=9).map(
    lambda s: s.strip() or "a"))
STEPS = ["1", "2.5", "100", "33.3", "0.7", "1000", "250", "12.1", "0.1"]
# Geographic coordinate systems: definition and a sensible origin in the order of its axes.
GEO_CRS = [("EPSG:4326", (37.5, -122.25)), ("EPSG:4269", (-5.0, 100.0)), ("OGC:CRS84", (-122.25, 37.5)), ("EPSG:4979", (20.0, -160.5)),
           ("+proj=longlat +datum=WGS84 +no_defs +type=crs", (-122.25, 37.5))]
GEO_STEPS = ["0.1", "0.01", "0.005", "0.002", "0.0333", "1", "0.00125"]
EAST_FIRST = ("OGC:CRS84", "+proj=longlat +datum=WGS84 +no_defs +type=crs")


def is_geo(crs):
    return crs in dict(GEO_CRS)


def num(s):
    return float(s)


@st.composite
def _axis(draw, kind, res, n):
    """Uniform: number of cells n. Variable: coordinates starting at 0 and ending at the same length, as strings."""
    if kind == "uniform":
        return None
    inner = sorted(draw(st.sets(st.integers(1, 4 * n - 1), min_size=0, max_size=min(5, 4 * n - 1)))) if n else []
    ks = [0] + inner + [4 * n]
    return ["%.10g" % (k * num(res) * 0.25) if k < 4 * n else "%.10g" % (n * num(res)) for k in ks]


@st.composite
def info(draw):
    d = {s: draw(TEXT) for s in STRINGS}
    for l in ("keywords", "authors", "references"):
        d[l] = draw(st.lists(ITEM, min_size=1, max_size=3))
    return d


WORD = st.text(st.sampled_from("abcXYZ_é 01-"), max_size=6)
AUX = st.one_of(st.none(), st.none(), st.just({}), st.dictionaries(WORD, st.one_of(
    WORD, st.integers(-9, 9), st.floats(-1e6, 1e6, allow_nan=False), st.booleans(), st.none(), st.lists(st.integers(0, 3), max_size=3),
    st.dictionaries(WORD, st.integers(0, 9), max_size=2)), min_size=1, max_size=3))


@st.composite
def configs(draw, surfaces=True, max_cells=6, simple=False, zvar=True, geo="any"):
    """geo: geographic model CRS with any order of axes ("any"), with longitude first ("east"), or none (None)."""
    geographic = geo and draw(st.integers(0, 4)) == 0
    crs, org = draw(st.sampled_from([v for v in GEO_CRS if geo == "any" or v[0] in EAST_FIRST] if geographic else models.MODEL_CRS))
    steps, unit = (GEO_STEPS, 4096.0) if geographic else (STEPS, 8.0)
    c = {"crs": crs, "origin": [org[0] + draw(st.integers(-5000, 5000)) / unit, org[1] + draw(st.integers(-5000, 5000)) / unit],
         "azimuth": draw(st.sampled_from([0.0, 0.0, 330.0, 90.0, 45.5, 180.0])), "info": draw(info())}
    c["values"] = draw(st.lists(st.sampled_from(["Vp", "Vs", "density", "Qp", "one"]), min_size=1, max_size=3, unique=True))
    c["units"] = [draw(st.sampled_from(["m/s", "kg/m**3", "None", "km/s"])) for _ in c["values"]]
    kinds = [draw(st.sampled_from(["uniform", "uniform", "variable"])) for _ in range(2)]
    res = [draw(st.sampled_from(steps)) for _ in range(2)]
    # cells of the coarsest grid; finer grids divide it
    n = [draw(st.integers(1, max_cells)) for _ in range(2)]
    fine = [draw(st.sampled_from([1, 1, 2, 3])) for _ in range(2)]
    coarse = [draw(_axis(kinds[i], res[i], n[i])) for i in range(2)]
    c["dims"] = ["%.10g" % (num(res[i]) * n[i]) for i in range(2)]
    # surfaces: resolution of the finest grid
    def surf():
        ax = {}
        for i, d in enumerate("xy"):
            if kinds[i] == "uniform":
                ax[d] = {"res": "%.10g" % (num(res[i]) / fine[i])}
            else:
                extra = draw(st.lists(st.integers(1, 15), max_size=2))
                pts = sorted(set(coarse[i]) | {"%.10g" % (num(c["dims"][i]) * e / 16.0 * 0.99) for e in extra}, key=float)
                keep = [pts[0]]
                for p in pts[1:]:
                    if float(p) - float(keep[-1]) > 1.0e-4 * num(c["dims"][i]):
                        keep.append(p)
                    elif p in coarse[i]:
                        if keep[-1] in coarse[i]:
                            keep.append(p)
                        else:
                            keep[-1] = p
                ax[d] = {"coords": keep}
        return ax
    c["top"] = surf() if surfaces and draw(st.integers(0, 2)) else None
    c["topo"] = surf() if surfaces and draw(st.booleans()) else None
    c["blocks"] = []
    nb = draw(st.integers(1, 3))
    zs = 0.0
    for b in range(nb):
        ax = {}
        for i, d in enumerate("xy"):
            if kinds[i] == "uniform":
                mult = draw(st.sampled_from([m for m in (1, fine[i], n[i]) if (n[i] * fine[i]) % m == 0]))
                ax[d] = {"res": "%.10g" % (num(res[i]) / fine[i] * mult)}
            else:
                sub = [coarse[i][0]] + [p for p in coarse[i][1:-1] if draw(st.booleans())] + [coarse[i][-1]]
                ax[d] = {"coords": sub}
        dz = num(draw(st.sampled_from(STEPS)))
        m = draw(st.integers(1, 4))
        bot = zs - dz * m
        if zvar and draw(st.integers(0, 2)) == 0:
            inner = sorted(draw(st.sets(st.integers(1, 15), max_size=3)))
            co = [zs] + [zs + (bot - zs) * k / 16.0 for k in inner] + [bot]
            ax["z"] = {"coords": ["%.10g" % v for v in co]}
        else:
            ax["z"] = {"res": "%.10g" % dz, "top": "%.10g" % zs, "bot": "%.10g" % bot}
        ax["name"] = "block%d" % b
        ax["offset"] = draw(st.sampled_from(["0.0", "0.0", "-0.01", "-0.001", "%.6g" % (-0.2 * dz)]))
        c["blocks"].append(ax)
        zs = bot
    c["dims"].append("%.10g" % -zs)
    c["order"] = draw(st.sampled_from(["sorted", "sorted", "reversed"])) if not simple else "sorted"
    c["split"] = draw(st.booleans())
    c["aux"] = draw(AUX)
    return c


def axis_points(ax, length):
    if "coords" in ax:
        return np.array([float(v) for v in ax["coords"]])
    n = int(round(length / float(ax["res"]))) + 1
    return np.arange(n) * float(ax["res"])


def grid_axes(c, g):
    return [axis_points(g["x"], float(c["dims"][0])), axis_points(g["y"], float(c["dims"][1]))]


def block_axes(c, b):
    x, y = grid_axes(c, b)
    if "coords" in b["z"]:
        z = np.array([float(v) for v in b["z"]["coords"]])
    else:
        t = float(b["z"]["top"])
        z = t - axis_points({"res": b["z"]["res"]}, t - float(b["z"]["bot"]))
    return [x, y, z]


def _coords(v, c):
    v = list(v)
    return "[" + ", ".join(v[::-1] if c["order"] == "reversed" else v) + "]"


def write(c, d, h5, source="gmgsrc.Source", batch=None, extra="", name="model"):
    """Write the configuration file(s); returns their names."""
    out = ["[geomodelgrids]"]
    for k in STRINGS:
        out.append("%s = %s" % (k, c["info"][k]))
    out.append("keywords = [%s]" % ", ".join(c["info"]["keywords"]))
    for k in ("authors", "references"):
        out.append("%s = [%s]" % (k, " | ".join(c["info"][k])))
    out += ["filename = %s" % h5, "data_source = %s" % source, "", "[coordsys]", "crs = %s" % c["crs"], "origin_x = %r" % c["origin"][0],
            "origin_y = %r" % c["origin"][1], "y_azimuth = %r" % c["azimuth"], ""]
    rest = ["[data]", "values = [%s]" % ", ".join(c["values"]), "units = [%s]" % ", ".join(c["units"]), "layout = vertex", "",
            "[domain]", "dim_x = %s" % c["dims"][0], "dim_y = %s" % c["dims"][1], "dim_z = %s" % c["dims"][2],
            "blocks = [%s]" % ", ".join(b["name"] for b in c["blocks"])]
    if c.get("aux") is not None:
        rest.insert(4, "auxiliary = %s" % json.dumps(c["aux"], ensure_ascii=len(c["aux"]) > 1))
    if batch:
        rest.append("batch_size = %d" % batch)
    for sec, s in (("top_surface", c["top"]), ("topography_bathymetry", c["topo"])):
        if s:
            shape = [len(a) for a in grid_axes(c, s)] + [1]
            rest += ["", "[%s]" % sec, "use_surface = True"] + _axes(c, s) + ["chunk_size = (%s)" % ", ".join(str(min(n, 4)) for n in shape)]
        elif c.get("disabled") == sec:
            rest += ["", "[%s]" % sec, "use_surface = False", "x_resolution = 1.0", "y_resolution = 1.0", "chunk_size = (1, 1, 1)"]
    for b in c["blocks"]:
        shape = [len(a) for a in block_axes(c, b)] + [len(c["values"])]
        rest += ["", "[%s]" % b["name"]] + _axes(c, b)
        if "coords" in b["z"]:
            rest.append("z_coordinates = %s" % _coords(b["z"]["coords"], c))
        else:
            rest += ["z_resolution = %s" % b["z"]["res"], "z_top = %s" % b["z"]["top"], "z_bot = %s" % b["z"]["bot"]]
        rest += ["z_top_offset = %s" % b["offset"], "chunk_size = (%s)" % ", ".join(str(min(n, 3)) for n in shape)]
    rest.append(extra)
    parts = [out, rest] if c["split"] else [out + rest]
    files = []
    for i, p in enumerate(parts):
        f = os.path.join(d, "%s%d.cfg" % (name, i))
        with open(f, "w", encoding="utf-8") as fo:
            fo.write("\n".join(p) + "\n")
        files.append(f)
    return files


def _axes(c, g):
    r = []
    for d in "xy":
        if "coords" in g[d]:
            r.append("%s_coordinates = %s" % (d, _coords(g[d]["coords"], c)))
        else:
            r.append("%s_resolution = %s" % (d, g[d]["res"]))
    return r


def to_crs(c, x, y):
    """Model coordinates to the coordinates of the model CRS."""
    a = math.radians(c["azimuth"])
    return c["origin"][0] + x * math.cos(a) + y * math.sin(a), c["origin"][1] - x * math.sin(a) + y * math.cos(a)


def to_model(c, x, y):
    a = math.radians(c["azimuth"])
    xr, yr = x - c["origin"][0], y - c["origin"][1]
    return xr * math.cos(a) - yr * math.sin(a), xr * math.sin(a) + yr * math.cos(a)


def matching(fine, coarse):
    """Index in the fine axis of every point of the coarse axis."""
    i = np.argmin(np.abs(np.asarray(fine)[None, :] - np.asarray(coarse)[:, None]), axis=1)
    return i


def read(path):
    """Everything stored in a model file."""
    out = {"attrs": {}, "data": {}, "layout": {}}
    with h5py.File(path, "r") as h:
        def keep(name, obj):
            out["attrs"][name] = {k: _plain(v) for k, v in obj.attrs.items()}
            if isinstance(obj, h5py.Dataset):
                out["data"][name] = obj[()]
                out["layout"][name] = (str(obj.dtype), obj.chunks)
        root = out["attrs"]["/"] = {k: _plain(v) for k, v in h.attrs.items()}
        if "auxiliary" in root:
            root["auxiliary"] = json.dumps(json.loads(root["auxiliary"]), sort_keys=True)
        h.visititems(keep)
    return out


def _plain(v):
    if isinstance(v, np.ndarray):
        return [_plain(x) for x in v.tolist()]
    if isinstance(v, bytes):
        return v.decode("utf-8")
    if isinstance(v, np.generic):
        return _plain(v.item())
    return v


def expected_attrs(c):
    """Attributes the configuration asks for, by object."""
    root = dict(c["info"])
    root.update(data_values=c["values"], data_units=c["units"], data_layout="vertex", crs=c["crs"], origin_x=c["origin"][0],
                origin_y=c["origin"][1], y_azimuth=c["azimuth"], dim_x=float(c["dims"][0]), dim_y=float(c["dims"][1]), dim_z=float(c["dims"][2]),
                auxiliary=json.dumps(c.get("aux") or {}, sort_keys=True))
    out = {"/": root}

    def axes(g):
        r = {}
        for d in "xy":
            if "coords" in g[d]:
                r[d + "_coordinates"] = [float(v) for v in g[d]["coords"]]
            else:
                r[d + "_resolution"] = float(g[d]["res"])
        return r
    for sec, s in (("top_surface", c["top"]), ("topography_bathymetry", c["topo"])):
        if s:
            out["surfaces/" + sec] = axes(s)
    for b in c["blocks"]:
        r = axes(b)
        if "coords" in b["z"]:
            r["z_coordinates"] = [float(v) for v in b["z"]["coords"]]
        else:
            r.update(z_resolution=float(b["z"]["res"]), z_top=float(b["z"]["top"]))
        out["blocks/" + b["name"]] = r
    return out


# ------------------------------------------------------------------------------------------------- reference grids
def block_locations(c, b, top, mirrored=False):
    """Model x, y and elevation of every grid point of a block (without the offset of the top points)."""
    x, y, z = block_axes(c, b)
    if mirrored:
        z = z[0] - z
    X, Y, Z = np.meshgrid(x, y, z, indexing="ij")
    if top is not None:
        gx, gy = grid_axes(c, c["top"])
        S = top[np.ix_(matching(gx, x), matching(gy, y))].astype(np.float64)[:, :, None]
        bot = -float(c["dims"][2])
        Z = bot + (S - bot) / (0.0 - bot) * (Z - bot)
    return X, Y, Z


def interp(axes, a, p):
    """Multilinear interpolation at points p (n, d) on the grid with the given monotonic axes; a may have a trailing value axis."""
    p = np.asarray(p, dtype=np.float64)
    lo, fr = [], []
    for k, ax in enumerate(axes):
        sgn = -1.0 if len(ax) > 1 and ax[1] < ax[0] else 1.0
        ax, v = sgn * np.asarray(ax), sgn * p[:, k]
        i = np.clip(np.searchsorted(ax, v, side="right") - 1, 0, len(ax) - 2)
        lo.append(i)
        fr.append(np.clip((v - ax[i]) / (ax[i + 1] - ax[i]), 0.0, 1.0))
    a = np.asarray(a, dtype=np.float64)
    res = 0.0
    for corner in range(1 << len(axes)):
        w, ix = 1.0, []
        for k in range(len(axes)):
            o = (corner >> k) & 1
            w = w * (fr[k] if o else 1.0 - fr[k])
            ix.append(lo[k] + o)
        v = a[tuple(ix)]
        res = res + (w[:, None] if v.ndim == 2 else w) * v
    return res


def nudge(axes, fraction):
    """Every grid point moved into the adjacent cell: forward by a fraction of its width, the last point backward."""
    out = []
    for ax in axes:
        ax = np.asarray(ax, dtype=np.float64)
        d = np.diff(ax)
        v = ax.copy()
        v[:-1] += fraction * d
        v[-1] -= fraction * d[-1]
        out.append(v)
    return np.stack(np.meshgrid(*out, indexing="ij"), axis=-1).reshape(-1, len(axes))


def elevation(c, top, p):
    """Elevation of logical points p (n, 3)."""
    z = p[:, 2].copy()
    if top is not None:
        s = interp(grid_axes(c, c["top"]), top, p[:, :2])
        bot = -float(c["dims"][2])
        z = bot + (s - bot) / (0.0 - bot) * (z - bot)
    return z
