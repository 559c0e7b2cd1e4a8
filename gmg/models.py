"""Generated models: JSON-able specifications, the HDF5 writer, and a reference implementation of queries.

The reference is written from the documentation (storage layout, coordinate systems) and uses only numpy, h5py-independent
arrays and pyproj; it returns sets of acceptable outcomes where the documentation leaves a tie open (a point on a cell face,
on a block boundary, or within rounding of the model boundary).
"""
import functools
import math

import h5py
import numpy as np
from hypothesis import strategies as st
from pyproj import Transformer
from pyproj.exceptions import ProjError  # noqa: F401

NODATA = -1.0e20
TOL_INDEX = 1.0e-6  # closeness, in grid spacings, at which a face counts as touched
TOL_Z = 1.0e-6

UTM10 = "EPSG:26910"
TMERC = "+proj=tmerc +lat_0=35 +lon_0=-123 +k=0.9996 +x_0=0 +y_0=0 +datum=NAD83 +units=m +no_defs +type=crs"
MODEL_CRS = [  # (definition, a sensible origin)
    (UTM10, (520000.0, 4100000.0)),
    (UTM10, (520000.0, 4100000.0)),
    ("EPSG:32610", (480000.0, 4200000.0)),
    ("EPSG:3311", (-200000.0, -50000.0)),
    (TMERC, (40000.0, 250000.0)),
]
# Input CRS of queries; "geo" ones take (latitude, longitude) in the order of the CRS authority.
INPUT_CRS = [
    "EPSG:4326", "EPSG:4326", "EPSG:26910", "EPSG:32610", "EPSG:32611", "EPSG:3311", "EPSG:4269", "EPSG:2227", "EPSG:4979",
    "+proj=longlat +datum=WGS84 +no_defs +type=crs", TMERC,
    "+proj=utm +zone=10 +datum=WGS84 +units=m +vunits=us-ft +no_defs +type=crs",
    "+proj=utm +zone=10 +datum=WGS84 +units=km +no_defs +type=crs",
    "+proj=longlat +datum=WGS84 +vunits=ft +no_defs +type=crs",
]

INFO_STRINGS = ["title", "id", "description", "history", "comment", "creator_name", "creator_institution", "creator_email",
                "acknowledgement", "repository_name", "repository_url", "repository_doi", "version", "license"]
INFO_LISTS = ["keywords", "authors", "references"]


@functools.lru_cache(maxsize=64)
def transformer(src, dest):
    return Transformer.from_crs(src, dest)


def grid_hash(seed, shape):
    """Deterministic values in [0,1) for every grid entry, unrelated between neighbours."""
    n = int(np.prod(shape))
    with np.errstate(over="ignore"):
        x = np.arange(n, dtype=np.uint64) + np.uint64((seed * 0x9E3779B97F4A7C15) & 0xFFFFFFFFFFFFFFFF)
        x = (x ^ (x >> np.uint64(30))) * np.uint64(0xBF58476D1CE4E5B9)
        x = (x ^ (x >> np.uint64(27))) * np.uint64(0x94D049BB133111EB)
        x = x ^ (x >> np.uint64(31))
    return (x >> np.uint64(11)).astype(np.float64).reshape(shape) / float(1 << 53)


# ------------------------------------------------------------------------------------------------- strategies
def _frac(draw):
    return draw(st.floats(0.0, 1.0, allow_nan=False, width=32))


@st.composite
def axis_sizes(draw, big=True, maxn=6):
    """Number of points along an axis; sometimes larger than an internal read window."""
    if big:
        k = draw(st.integers(0, 19))
        if k == 19:
            return draw(st.integers(63, 70))
        if k == 18:
            return draw(st.integers(126, 135))
    return draw(st.integers(2, maxn))


@st.composite
def axis(draw, n, length):
    """None (uniform) or coordinates 0..length of a variable axis."""
    if n < 3 or n > 20 or draw(st.integers(0, 2)) != 0:
        if n == 2 and draw(st.integers(0, 5)) == 0:
            return [0.0, length]
        return None
    w = [draw(st.integers(1, 12)) for _ in range(n - 1)]
    c = np.concatenate([[0.0], np.cumsum(w)]) / float(sum(w)) * length
    c[-1] = length
    return [float(v) for v in c]


@st.composite
def lengths(draw):
    kind = draw(st.integers(0, 3))
    if kind == 0:
        return float(draw(st.integers(1, 400)) * 500)
    if kind == 1:
        return float(draw(st.integers(100, 100000)))
    if kind == 2:
        return draw(st.integers(1000, 2000000)) / 10.0
    return draw(st.floats(50.0, 2.0e5, allow_nan=False))


@st.composite
def surface(draw, dims, big, base, amp):
    nx, ny = draw(axis_sizes(big)), draw(axis_sizes(big))
    if nx > 20 and ny > 20:
        ny = draw(st.integers(2, 4))
    return {"n": [nx, ny], "x": draw(axis(nx, dims[0])), "y": draw(axis(ny, dims[1])),
            "seed": draw(st.integers(0, 10**6)), "base": base, "amp": amp,
            "dtype": draw(st.sampled_from(["<f8", "<f4", "<f8", ">f4"])),
            "chunk": draw(st.integers(0, 3))}


@st.composite
def models(draw, surfaces=("none", "top", "both", "topo"), big=True, nodata=False, max_blocks=3, nvalues=None, names=None,
           crs=None, dims=None, name="model.h5"):
    """A valid model."""
    if crs is None:
        crs, org = draw(st.sampled_from(MODEL_CRS))
    else:
        org = dict(MODEL_CRS)[crs]
    if dims is None:
        dims = [draw(lengths()), draw(lengths()), draw(lengths())]
    az = draw(st.one_of(st.sampled_from([0.0, 0.0, 90.0, 330.0, -30.0, 45.0, 180.0]), st.floats(-360.0, 360.0)))
    origin = [org[0] + draw(st.integers(-50000, 50000)) * draw(st.sampled_from([1.0, 0.37])),
              org[1] + draw(st.integers(-50000, 50000)) * draw(st.sampled_from([1.0, 0.37]))]
    if names is None:
        k = nvalues if nvalues is not None else draw(st.sampled_from([1, 2, 3, 4] * 4 + [5, 9, 17, 34]))
        names = ["Vp", "Vs", "density", "Qp", "fault_block"][:k] + ["value_%d" % i for i in range(5, k)]
    units = ["m/s", "m/s", "kg/m**3"][:len(names)] + ["None"] * (len(names) - 3)
    surf = draw(st.sampled_from(list(surfaces)))
    spec = {"name": name, "crs": crs, "dims": dims, "origin": origin, "azimuth": az, "names": list(names), "units": units,
            "top": None, "topo": None, "blocks": [], "vlen": draw(st.booleans()), "format": draw(st.integers(0, 2))}
    hz = dims[2]
    if surf in ("top", "both"):
        kind = draw(st.integers(0, 3))
        base = [0.0, 0.05, -0.1, 0.3][kind] * hz
        amp = draw(st.sampled_from([0.0, 0.01, 0.2])) * hz
        if draw(st.integers(0, 7)) == 0:  # close to zero elevation, in metres
            base, amp = draw(st.sampled_from([(0.0, 0.5), (-0.25, 0.5), (0.03125, 0.0), (-0.0078125, 0.0), (1.0, 2.0)]))
        spec["top"] = draw(surface(dims, big, base, amp))
    if surf in ("both", "topo"):
        top_min = spec["top"]["base"] if spec["top"] else 0.0
        amp = draw(st.sampled_from([0.0, 0.02, 0.1])) * hz
        spec["topo"] = draw(surface(dims, big, top_min - amp - draw(st.sampled_from([0.001, 0.05, 0.2, 0.001, 0.05, -0.03, -0.1])) * hz, amp))
    nb = draw(st.integers(1, max_blocks))
    cuts = sorted(draw(st.lists(st.integers(1, 99), min_size=nb - 1, max_size=nb - 1, unique=True)))
    edges = [0.0] + [-c / 100.0 * dims[2] for c in cuts] + [-dims[2]]
    for b in range(nb):
        nx, ny, nz = draw(axis_sizes(big)), draw(axis_sizes(big)), draw(axis_sizes(big))
        if nx > 20:
            ny, nz = min(ny, 4), min(nz, 4)
        elif ny > 20:
            nz = min(nz, 4)
        zt, zb = edges[b], edges[b + 1]
        z = draw(axis(nz, zt - zb))
        if z is not None:
            z = [zt - v for v in z]
            z[-1] = zb
        spec["blocks"].append({
            "name": draw(st.sampled_from(["block", "blk_%d" % (nb - b), "z%d" % b, "a" * 12])) + "_%d" % b,
            "n": [nx, ny, nz], "x": draw(axis(nx, dims[0])), "y": draw(axis(ny, dims[1])), "z": z,
            "z_top": zt, "z_bot": zb, "seed": draw(st.integers(0, 10**6)),
            "lo": draw(st.sampled_from([0.0, 1000.0, -50.0])), "span": draw(st.sampled_from([1.0, 5000.0])),
            "dtype": draw(st.sampled_from(["<f8", "<f4", "<f8", ">f8", "<i4", "<f4"])),
            "chunk": draw(st.integers(0, 3)), "nodata": [], "levels": draw(st.sampled_from([0, 0, 0, 0, 1, 2, 4])),
            "perm": draw(st.integers(0, 2)),
        })
        if nodata:
            blk = spec["blocks"][-1]
            m = draw(st.integers(0, 8))
            blk["nodata"] = [[draw(st.integers(0, nx - 1)), draw(st.integers(0, ny - 1)), draw(st.integers(0, nz - 1)),
                              draw(st.integers(0, len(names) - 1))] for _ in range(m)]
    return spec


# ------------------------------------------------------------------------------------------------- arrays
def surface_array(s):
    a = s["base"] + s["amp"] * grid_hash(s["seed"], tuple(s["n"]))
    return a.astype(np.dtype(s["dtype"])).astype(np.float64)


def block_array(b, nv):
    if b.get("coord"):
        return coord_array(b, nv)
    h = grid_hash(b["seed"], tuple(b["n"]) + (nv,))
    if b.get("levels"):  # values that repeat between grid points
        h = np.floor(h * b["levels"]) / b["levels"]
    a = b["lo"] + b["span"] * h
    if b.get("rise"):
        a = np.sort(a, axis=2)
    dt = np.dtype(b["dtype"])
    if dt.kind == "i":
        a = np.round(a * 10.0)
    a = a.astype(dt).astype(np.float64)
    if dt.kind == "i":
        return a  # an integer type cannot hold the NODATA value
    for i, j, k, v in b["nodata"]:
        a[i, j, k, v] = np.array(NODATA, dtype=dt).astype(np.float64)
    return a


def coord_array(b, nv):
    """Values that are the logical coordinates of the grid point: x, y, z."""
    ln = list(b["coord"]) + [b["z_top"] - b["z_bot"]]
    x, y, z = [axis_coords(b["xyz"[k]], b["n"][k], ln[k]) for k in range(3)]
    if b["z"] is None:
        z = b["z_top"] - z
    return np.stack(np.meshgrid(x, y, z, indexing="ij"), axis=-1)[..., :nv]


def axis_coords(c, n, length):
    if c is not None:
        return np.array(c)
    return np.arange(n) * (length / (n - 1))


# ------------------------------------------------------------------------------------------------- writer
def _attr(obj, name, value, vlen):
    """String or list of strings, of fixed or variable length."""
    if isinstance(value, str):
        if vlen:
            obj.attrs.create(name, value, dtype=h5py.string_dtype("utf-8"))
        else:
            b = value.encode("utf-8")
            obj.attrs.create(name, np.bytes_(b) if b else np.bytes_(b"\0"), dtype="S%d" % max(1, len(b)))
    else:
        if vlen:
            obj.attrs.create(name, np.array(value, dtype=object), dtype=h5py.string_dtype("utf-8"))
        else:
            bs = [v.encode("utf-8") for v in value]
            obj.attrs.create(name, np.array(bs, dtype="S%d" % max([1] + [len(b) for b in bs])))


def default_info():
    d = {k: "The %s" % k for k in INFO_STRINGS}
    d.update(keywords=["key one", "two"], authors=["Doe, J.", "Roe, R."], references=["ref a", "ref b"])
    return d


def _ds_kw(kind, shape):
    if kind == 0:
        return {}
    ch = tuple(max(1, min(s, {1: 2, 2: 3, 3: 16}[kind])) for s in shape)
    kw = {"chunks": ch}
    if kind == 2:
        kw.update(compression="gzip", shuffle=True)
    return kw


def _permuted(c, how):
    if how == 1:
        return list(reversed(c))
    if how == 2:
        return c[1::2] + c[0::2]
    return c


def write(spec, path):
    """Write the model file of a specification."""
    lib = {0: ("earliest", "latest"), 1: ("latest", "latest"), 2: ("earliest", "earliest")}[spec.get("format", 0)]
    if spec.get("format", 0) == 2:
        lib = ("earliest", "v110") if hasattr(h5py.h5f, "LIBVER_V110") else ("earliest", "latest")
    vl = spec["vlen"]
    with h5py.File(path, "w", libver=lib) as h:
        info = spec.get("info") or default_info()
        for k in INFO_STRINGS:
            if k in info:
                _attr(h, k, info[k], vl)
        for k in INFO_LISTS:
            if k in info:
                _attr(h, k, info[k], vl)
        if info.get("auxiliary") is not None:
            _attr(h, "auxiliary", info["auxiliary"], vl)
        _attr(h, "data_values", spec["names"], vl)
        _attr(h, "data_units", spec["units"], vl)
        _attr(h, "data_layout", spec.get("layout", "vertex"), vl)
        _attr(h, "crs", spec["crs"], vl)
        h.attrs["origin_x"], h.attrs["origin_y"] = spec["origin"]
        h.attrs["y_azimuth"] = spec["azimuth"]
        h.attrs["dim_x"], h.attrs["dim_y"], h.attrs["dim_z"] = spec["dims"]
        if spec["top"] or spec["topo"]:
            g = h.create_group("surfaces")
            for key, name in (("top", "top_surface"), ("topo", "topography_bathymetry")):
                s = spec[key]
                if not s:
                    continue
                shape = tuple(s["n"]) + (1,)
                d = g.create_dataset(name, data=surface_array(s).reshape(shape).astype(s["dtype"]), **_ds_kw(s["chunk"], shape))
                for ax, ln, i in (("x", spec["dims"][0], 0), ("y", spec["dims"][1], 1)):
                    if s[ax] is not None:
                        d.attrs[ax + "_coordinates"] = np.array(_permuted(s[ax], s["seed"] % 3))
                    else:
                        d.attrs[ax + "_resolution"] = ln / (s["n"][i] - 1)
        g = h.create_group("blocks")
        for b in spec["blocks"]:
            shape = tuple(b["n"]) + (len(spec["names"]),)
            d = g.create_dataset(b["name"], data=block_array(b, len(spec["names"])).astype(b["dtype"]), **_ds_kw(b["chunk"], shape))
            for ax, ln, i in (("x", spec["dims"][0], 0), ("y", spec["dims"][1], 1)):
                if b[ax] is not None:
                    d.attrs[ax + "_coordinates"] = np.array(_permuted(b[ax], b["perm"]))
                else:
                    d.attrs[ax + "_resolution"] = ln / (b["n"][i] - 1)
            if b["z"] is not None:
                d.attrs["z_coordinates"] = np.array(_permuted(b["z"], b["perm"]))
            else:
                d.attrs["z_resolution"] = (b["z_top"] - b["z_bot"]) / (b["n"][2] - 1)
                d.attrs["z_top"] = b["z_top"]


# ------------------------------------------------------------------------------------------------- reference
def frac_index(c, n, length, x):
    """Fractional index of distance x from the first grid point."""
    if c is None:
        return x / (length / (n - 1))
    c = np.asarray(c)
    d = np.abs(c - c[0])
    i = int(np.clip(np.searchsorted(d, x, side="right") - 1, 0, n - 2))
    return i + (x - d[i]) / (d[i + 1] - d[i])


def cells(t, n):
    """Lower indices of the cells that hold fractional index t."""
    t = min(max(t, 0.0), n - 1.0)
    r = round(t)
    if abs(t - r) <= TOL_INDEX:
        return [i for i in (r - 1, r) if 0 <= i <= n - 2]
    return [min(int(math.floor(t)), n - 2)]


def multilinear(a, lower, t):
    """Interpolate array a (last axis: values) in the cell with the given lower corner."""
    d = len(lower)
    res = 0.0
    for corner in range(1 << d):
        w, ix = 1.0, []
        for k in range(d):
            o = (corner >> k) & 1
            f = t[k] - lower[k]
            w *= f if o else 1.0 - f
            ix.append(lower[k] + o)
        res = res + w * a[tuple(ix)]
    return res


class Ref:
    """Reference queries of one model for one input CRS."""

    def __init__(self, spec, incrs=None):
        self.s = spec
        self.dims, self.origin = spec["dims"], spec["origin"]
        self.nv = len(spec["names"])
        self.arr = [block_array(b, self.nv) for b in spec["blocks"]]
        self.surf = {k: (surface_array(spec[k]) if spec[k] else None) for k in ("top", "topo")}
        az = math.radians(spec["azimuth"])
        self.c, self.sn = math.cos(az), math.sin(az)
        self.t = transformer(incrs, spec["crs"]) if incrs else None

    # -- geometry
    def model_to_crs(self, xm, ym):
        return (xm * self.c + ym * self.sn + self.origin[0], -xm * self.sn + ym * self.c + self.origin[1])

    def crs_to_model(self, x, y):
        xr, yr = x - self.origin[0], y - self.origin[1]
        return xr * self.c - yr * self.sn, xr * self.sn + yr * self.c

    def to_input(self, xm, ym, elev=0.0):
        """Input coordinates of a point given in model x, y and elevation."""
        x, y = self.model_to_crs(xm, ym)
        return self.t.transform(x, y, elev, direction="INVERSE")

    def to_model(self, x, y, z):
        """Model x, y and elevation of an input point."""
        xc, yc, zc = self.t.transform(x, y, z)
        xm, ym = self.crs_to_model(xc, yc)
        return xm, ym, zc

    # -- surfaces
    def surface(self, key, xm, ym):
        """Elevation of a surface (model CRS units) at a model location, None if there is no such surface."""
        s = self.s[key]
        if s is None:
            return None
        t = [min(max(frac_index(s["x"], s["n"][0], self.dims[0], xm), 0.0), s["n"][0] - 1.0),
             min(max(frac_index(s["y"], s["n"][1], self.dims[1], ym), 0.0), s["n"][1] - 1.0)]
        low = [min(int(math.floor(v)), n - 2) for v, n in zip(t, s["n"])]
        return float(multilinear(self.surf[key], low, t))

    def ground(self, xm, ym):
        g = self.surface("top", xm, ym)
        return 0.0 if g is None else g

    def topobathy(self, xm, ym):
        g = self.surface("topo", xm, ym)
        return self.ground(xm, ym) if g is None else g

    def squeeze(self, xm, ym, elev):
        """Vertical logical coordinate (0 at the top surface, -dim_z at the bottom)."""
        zt, zb = self.ground(xm, ym), -self.dims[2]
        return zb * (zt - elev) / (zt - zb)

    def unsqueeze(self, xm, ym, zm):
        zt, zb = self.ground(xm, ym), -self.dims[2]
        return zt - zm * (zt - zb) / zb

    def horizontal(self, xm, ym):
        """1 inside, 0 outside, None within rounding of the boundary."""
        if not (math.isfinite(xm) and math.isfinite(ym)):
            return 0
        res = 1
        for v, d in ((xm, self.dims[0]), (ym, self.dims[1])):
            tol = max(1e-5, 1e-9 * d)
            if v < -tol or v > d + tol:
                return 0
            if v < tol or v > d - tol:
                res = None
        return res

    def inside(self, xm, ym, zm):
        h = self.horizontal(xm, ym)
        if h == 0 or not math.isfinite(zm):
            return 0
        d = self.dims[2]
        tol = max(1e-5, 1e-9 * d)
        if zm < -d - tol or zm > 2e-4 + tol:
            return 0
        if zm < -d + tol or zm > -tol:
            return None
        return h

    # -- values
    def outcomes(self, xm, ym, zm):
        """Acceptable results at logical coordinates, per value: list of (kind, value, tolerance)."""
        res = [[] for _ in range(self.nv)]
        for b, a in zip(self.s["blocks"], self.arr):
            tz = max(1e-6, TOL_INDEX * (b["z_top"] - b["z_bot"]))
            if zm > b["z_top"] + tz and b["z_top"] < 0.0:
                continue
            if zm < b["z_bot"] - tz:
                continue
            ln = [self.dims[0], self.dims[1], b["z_top"] - b["z_bot"]]
            t = []
            for k, v in enumerate((xm, ym, b["z_top"] - zm)):
                f = frac_index(b["xyz"[k]], b["n"][k], ln[k], v)
                t.append(min(max(f, 0.0), b["n"][k] - 1.0))
            for i in cells(t[0], b["n"][0]):
                for j in cells(t[1], b["n"][1]):
                    for k in cells(t[2], b["n"][2]):
                        c8 = a[i:i + 2, j:j + 2, k:k + 2, :].reshape(8, self.nv)
                        val = multilinear(a, (i, j, k), t)
                        for v in range(self.nv):
                            if np.any(c8[:, v] < 0.99 * NODATA):
                                o = ("nodata", NODATA, 0.0)
                            else:
                                rng = float(c8[:, v].max() - c8[:, v].min())
                                o = ("value", float(val[v]), 1e-5 * rng + 1e-9 * float(np.abs(c8[:, v]).max()) + 1e-12)
                            if o not in res[v]:
                                res[v].append(o)
        return res

    def place(self, p):
        """Logical coordinates of a point [block, ix, fx, iy, fy, iz, fz] (grid cell and position in it)."""
        b = self.s["blocks"][p[0] % len(self.s["blocks"])]
        ln = [self.dims[0], self.dims[1], b["z_top"] - b["z_bot"]]
        out = []
        for k in range(3):
            n = b["n"][k]
            d = axis_coords(b["xyz"[k]], n, ln[k])
            d = np.abs(d - d[0])
            i = p[1 + 2 * k] % (n - 1)
            f = p[2 + 2 * k]
            out.append(float(d[i + 1]) if f == 1.0 else float(d[i] + f * (d[i + 1] - d[i])))
        return min(out[0], self.dims[0]), min(out[1], self.dims[1]), max(b["z_top"] - out[2], -self.dims[2])


# Lengths and numbers of cells for which length / (length / cells) rounds to more than the number of cells.
OVER = [(float(d), n) for d in list(range(50, 1200, 7)) + [2500, 3000, 6000, 12500, 17500, 30000] for n in range(2, 56) if d / (d / n) > n]


@st.composite
def edge_cases(draw, nvalues=1):
    """A model without rotation and points on its far edges for which logical coordinates are exact, and rounding puts the edges outside grids."""
    (dx, nx), (dy, ny) = draw(st.sampled_from(OVER)), draw(st.sampled_from(OVER))
    dims = [dx, dy, draw(st.sampled_from([100.0, 4000.0, 30000.0]))]
    m = draw(models(crs=UTM10, dims=dims, big=False, max_blocks=2, nvalues=nvalues, surfaces=("top", "both", "topo", "none")))
    m["azimuth"] = 0.0
    m["origin"] = [float(round(v)) for v in m["origin"]]
    for g in m["blocks"] + [s for s in (m["top"], m["topo"]) if s]:
        for k, (ax, n) in enumerate((("x", nx), ("y", ny))):
            if draw(st.integers(0, 2)):
                g[ax] = None
                g["n"] = [n + 1 if i == k else v for i, v in enumerate(g["n"])]
                if g.get("nodata"):
                    g["nodata"] = []
    f = st.sampled_from(["end", "end", "start", 0.5, 0.25, 0.125])
    pts = []
    for p in draw(st.lists(st.tuples(f, f, st.sampled_from([0.5, 0.25, 0.1])), min_size=1, max_size=8)):
        pts.append([dims[k] if v == "end" else 0.0 if v == "start" else v * dims[k] for k, v in enumerate(p[:2])] + [-p[2] * dims[2]])
    return {"model": m, "logical": pts}


def edge_points(case):
    o = case["model"]["origin"]
    return [(p, [o[0] + p[0], o[1] + p[1]]) for p in case["logical"]]


def match(value, outs):
    return any((k == "nodata" and value == NODATA) or (k == "value" and abs(value - v) <= tol) for k, v, tol in outs)


@st.composite
def grid_points(draw, frac=None, maxi=140):
    """A point in grid terms; vertices, faces, and interior positions."""
    p = [draw(st.integers(0, 5))]
    for _ in range(3):
        p.append(draw(st.integers(0, maxi)))
        k = draw(st.integers(0, 5))
        p.append(0.0 if k == 0 else 1.0 if k == 1 else 0.5 if k == 2 else draw(st.floats(0.0009765625, 0.9990234375, width=32)))
    return p
