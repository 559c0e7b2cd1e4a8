"""Model metadata."""
import os

import h5py
import numpy as np
from hypothesis import strategies as st

from gmg import models
from gmg.common import ok
from gmg.core import Info, Part, expect

RULE = ("One case is 1-3 model files whose metadata are drawn freely (strings of 0 to 70000 characters, lists of 0-40 items, 1-12 blocks, "
        "scalars and coordinates with and without auxiliary information) and stored in drawn ways (fixed length padded or terminated, "
        "variable length, ASCII or UTF-8, scalar or one-item dataspace, 8- to 64-bit integers and 16- to 64-bit floats, either byte "
        "order, several HDF5 versions), loaded one after the other with one model object; everything the object exposes is compared with "
        "what was drawn. An evaluation is one file. Non-trivial: at least two blocks stored in an order other than top to bottom, and "
        "at least one string stored in fixed and one in variable length.")
TARGETS = ["driver"]

TEXT = st.one_of(st.text(st.characters(codec="utf-8", exclude_characters="\x00", exclude_categories=["Cs"]), max_size=12),
                 st.sampled_from(["", " ", "EPSG:4326", "two words", "line\nbreak\n", "a,b;c", "\"quoted\" 'x'", "  padded  ", "ünïcödé ✓", "x" * 1023, "y" * 64,
                                  "-", "Doe, J."]),
                 st.integers(50, 3000).map(lambda n: "abc" * n))
STRINGS = st.one_of(st.lists(TEXT, max_size=4), st.integers(0, 40).map(lambda n: ["item %d" % (i * 977) for i in range(n)]))
NUM = st.one_of(st.integers(1, 120).map(float), st.integers(1, 500000).map(lambda i: i / 4.0), st.floats(1e-3, 1e7))
SIGNED = st.one_of(NUM, NUM.map(lambda v: -v), st.just(0.0))
STORE = st.tuples(st.sampled_from(["vlen", "vascii", "pad", "term", "wide", "wideterm"]), st.booleans())
TYPE = st.tuples(st.sampled_from(["<f8", "<f8", ">f8", "<f4", ">f4", "<i4", ">i2", "<i8", "<u2", "i1", "<f2"]), st.booleans())


@st.composite
def grids(draw, nd):
    n = [draw(st.integers(2, 5)) for _ in range(nd)]
    axes = []
    for k in range(nd):
        if draw(st.booleans()):
            axes.append(draw(NUM))
        else:
            axes.append(draw(st.lists(SIGNED, min_size=n[k], max_size=n[k], unique=True)))
    return {"n": n, "axes": axes, "types": [draw(TYPE) for _ in range(nd + 1)], "top": draw(SIGNED), "dt": draw(st.sampled_from(["<f4", "<f8", ">i2"]))}


NAME = st.one_of(st.text(st.characters(codec="utf-8", exclude_characters="\x00/.", exclude_categories=["Cs", "Zs", "Cc"]), min_size=1, max_size=8),
                 st.integers(0, 99).map(lambda i: "block_%d" % i), st.integers(1, 300).map(lambda n: "n" * n))


@st.composite
def files(draw):
    nb = draw(st.sampled_from([1, 2, 2, 3, 5, 12]))
    names = draw(st.lists(NAME, min_size=nb, max_size=nb, unique=True))
    info = {k: draw(TEXT) for k in models.INFO_STRINGS}
    info.update({k: draw(STRINGS) for k in models.INFO_LISTS})
    if draw(st.booleans()):
        info["auxiliary"] = draw(st.one_of(TEXT, st.just("{\"a\": [1, 2]}" * 5000)))
    nv = draw(st.integers(1, 6))
    return {"info": info, "values": draw(st.lists(TEXT, min_size=nv, max_size=nv)), "units": draw(st.lists(TEXT, min_size=nv, max_size=nv)),
            "layout": draw(st.sampled_from(["vertex", "vertex", "Vertex", "VERTEX"])), "crs": draw(TEXT),
            "nums": [draw(SIGNED) for _ in range(6)], "types": [draw(TYPE) for _ in range(6)],
            "store": [draw(STORE) for _ in range(25)], "surfaces": [draw(st.one_of(st.none(), grids(2))) for _ in range(2)],
            "blocks": list(zip(names, [draw(grids(3)) for _ in range(nb)])), "libver": draw(st.sampled_from(["earliest", "latest"])),
            "extra": draw(st.booleans()), "order": draw(st.booleans())}


def put_text(obj, name, value, how):
    kind, one = how
    lst = not isinstance(value, str)
    vals = [v.encode("utf-8") for v in (value if lst else [value])]
    ascii_ = all(v.isascii() for v in vals)
    longest = max([len(v) for v in vals] + [1])
    if kind.startswith("v") or longest * max(1, len(vals)) > 30000:
        t = h5py.h5t.C_S1.copy()
        t.set_size(h5py.h5t.VARIABLE)
        t.set_cset(h5py.h5t.CSET_ASCII if kind == "vascii" and ascii_ else h5py.h5t.CSET_UTF8)
        data = np.array(vals, dtype=object) if vals else np.zeros(0, dtype=object)
        data = data.astype(h5py.string_dtype("utf-8"))
    else:
        size = longest + (1 if kind in ("term", "wideterm") else 0) + (17 if kind.startswith("wide") else 0)
        t = h5py.h5t.C_S1.copy()
        t.set_size(size)
        t.set_strpad(h5py.h5t.STR_NULLTERM if kind in ("term", "wideterm") else h5py.h5t.STR_NULLPAD)
        t.set_cset(h5py.h5t.CSET_ASCII if ascii_ else h5py.h5t.CSET_UTF8)
        data = np.array(vals, dtype="S%d" % size)
    sp = h5py.h5s.create_simple((len(vals),)) if lst or one else h5py.h5s.create(h5py.h5s.SCALAR)
    a = h5py.h5a.create(obj.id, name.encode(), t, sp)
    if len(vals):
        a.write(data if lst or one else data.reshape(()), mtype=a.get_type() if not kind.startswith("v") and longest * len(vals) <= 30000 else None)


def cast(v, t):
    """The stored type and the value it holds."""
    dt = np.dtype(t[0])
    vs = np.atleast_1d(np.array(v, dtype=float))
    if dt.kind in "iu":
        i = np.iinfo(dt)
        if not (np.all(vs == np.round(vs)) and np.all(vs >= i.min) and np.all(vs <= i.max)):
            dt = np.dtype("<f8")
    elif dt.itemsize < 8:
        with np.errstate(over="ignore"):
            w = vs.astype(dt).astype(float)
        if not np.all(np.isfinite(w)) or len(set(w.tolist())) != len(vs) or np.any((w == 0) != (vs == 0)):
            dt = np.dtype("<f8")
    w = vs.astype(dt)
    return w, [float(x) for x in w.astype(float)]


def put_num(obj, name, v, t):
    w, out = cast(v, t)
    obj.attrs.create(name, w if isinstance(v, list) or t[1] else w[0], dtype=w.dtype)
    return out if isinstance(v, list) else out[0]


def write(f, path):
    """Write the file; returns the values it holds."""
    want = {}
    with h5py.File(path, "w", libver=f["libver"], track_order=f["order"]) as h:
        st_ = iter(f["store"])
        todo = list(f["info"].items()) + [("data_values", f["values"]), ("data_units", f["units"]), ("data_layout", f["layout"]), ("crs", f["crs"])]
        for k, v in todo:
            put_text(h, k, v, next(st_))
        for k, v, t in zip(["dim_x", "dim_y", "dim_z", "origin_x", "origin_y", "y_azimuth"], f["nums"], f["types"]):
            want[k] = put_num(h, k, v, t)
        if f["extra"]:
            h.attrs["other"] = 3
            h.create_group("notes").create_dataset("x", data=[1.0])
        if any(f["surfaces"]) or f["extra"]:
            g = h.create_group("surfaces")
            for key, s in zip(["top_surface", "topography_bathymetry"], f["surfaces"]):
                if s:
                    d = g.create_dataset(key, data=np.zeros(s["n"] + [1], dtype=s["dt"]))
                    want[key] = axes(d, s)
        g = h.create_group("blocks", track_order=f["order"])
        for name, b in f["blocks"]:
            d = g.create_dataset(name, data=np.zeros(b["n"] + [len(f["values"])], dtype=b["dt"]))
            w = axes(d, b)
            if not isinstance(b["axes"][2], list):
                w["top"] = put_num(d, "z_top", b["top"], b["types"][3])
            else:
                w["top"] = max(w["z"])
            want[name] = w
    return want


def axes(d, g):
    w = {}
    for k, v in enumerate(g["axes"]):
        a = "xyz"[k]
        w[a] = put_num(d, a + ("_coordinates" if isinstance(v, list) else "_resolution"), v, g["types"][k])
    return w


class Reader:
    def __init__(self, t):
        self.t, self.i = t, 0

    def get(self, n=1):
        v = self.t[self.i:self.i + n]
        self.i += n
        return v[0] if n == 1 else v

    def strs(self):
        n = self.get()
        return [self.get() for _ in range(n)]

    def coords(self):
        n = self.get()
        return None if n == "-" else [self.get() for _ in range(n)]


def check_axis(what, coords, res, want):
    if isinstance(want, list):
        expect(coords is not None and sorted(coords) == sorted(want), "%s: coordinates %r, stored %r", what, coords, want)
    else:
        expect(coords is None and res == want, "%s: resolution %r, stored %r", what, res, want)


def compare(tokens, f, want):
    r = Reader(tokens)
    expect(r.get() == "I", "no description")
    lists = set(models.INFO_LISTS)
    order = ["title", "id", "description", "keywords", "history", "comment", "creator_name", "creator_institution", "creator_email",
             "acknowledgement", "authors", "references", "repository_name", "repository_url", "repository_doi", "version", "license", "auxiliary"]
    for k in order:
        got = r.strs() if k in lists else r.get()
        expect(got == f["info"].get(k, ""), "%s is %r, stored %r", k, str(got)[:200], str(f["info"].get(k, ""))[:200])
    for k, v in (("value names", f["values"]), ("value units", f["units"])):
        got = r.strs()
        expect(got == v, "%s are %r, stored %r", k, got, v)
    r.get()  # data layout
    for k in ("dim_x", "dim_y", "dim_z", "origin_x", "origin_y", "y_azimuth"):
        got = r.get()
        expect(got == want[k], "%s is %r, stored %r", k, got, want[k])
    got = r.get()
    expect(got == f["crs"], "crs is %r, stored %r", got, f["crs"])
    for key, s in zip(["top_surface", "topography_bathymetry"], f["surfaces"]):
        tag = r.get()
        expect((tag == "S") == bool(s), "%s: %s", key, "missing" if s else "present but not stored")
        if s:
            got = r.get(2)
            expect(got == s["n"], "%s has size %r, stored %r", key, got, s["n"])
            res = r.get(2)
            for k in range(2):
                check_axis("%s %s" % (key, "xy"[k]), r.coords(), res[k], want[key]["xy"[k]])
    n = r.get()
    expect(n == len(f["blocks"]), "%d blocks, stored %d", n, len(f["blocks"]))
    tops = []
    left = dict(f["blocks"])
    for _ in range(n):
        name = r.get()
        expect(name in left, "block %r is not stored (or listed twice)", name)
        b = left.pop(name)
        got = r.get(3)
        expect(got == b["n"], "block %r has size %r, stored %r", name, got, b["n"])
        nv = r.get()
        expect(nv == len(f["values"]), "block %r has %d values, stored %d", name, nv, len(f["values"]))
        res, w = r.get(3), want[name]
        top, bot = r.get(2)
        for k in range(3):
            check_axis("block %r %s" % (name, "xyz"[k]), r.coords(), res[k], w["xyz"[k]])
        z = w["z"]
        low = min(z) if isinstance(z, list) else w["top"] - (b["n"][2] - 1) * z
        expect(top == w["top"], "block %r has its top at %r, stored %r", name, top, w["top"])
        expect(abs(bot - low) <= 1e-12 * (abs(low) + abs(top)), "block %r has its bottom at %r, stored %r", name, bot, low)
        tops.append(top)
    expect(tops == sorted(tops, reverse=True), "blocks are not ordered from top to bottom: %r", tops)


def run(case, ctx):
    d = ctx.sub()
    cmds, wants = [["M_new", "m"]], []
    for i, f in enumerate(case):
        p = os.path.join(d, "model%d.h5" % i)
        wants.append(write(f, p))
        cmds += [["M_open", "m", p], ["M_load", "m"], ["M_meta", "m"], ["M_close", "m"]]
    res = ctx.run(cmds)
    fine = False
    for i, (f, w) in enumerate(zip(case, wants)):
        for j in (1, 2):
            ok(res[4 * i + j], "loading file %d" % i)
        compare(res[4 * i + 3], f, w)
        tops = [w[n]["top"] for n, _ in f["blocks"]]
        kinds = {s[0][0] for s in f["store"]}
        fine = fine or (len(tops) > 1 and sorted([n for n, _ in f["blocks"]], key=lambda n: -w[n]["top"]) != sorted(n for n, _ in f["blocks"])
                        and "v" in kinds and len(kinds) > 1)
    return Info(fine, ["files %d" % len(case)], len(case))


PARTS = [Part("load", st.lists(files(), min_size=1, max_size=3), run, 3000, 60000)]
