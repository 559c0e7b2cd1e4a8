"""Malformed model files."""
import math
import os

import h5py
import numpy as np
from hypothesis import strategies as st

from gmg import appgen, models
from gmg.common import flat, split_rows, write_models
from gmg.core import Info, Part, expect
from gmg.driver import Exc

RULE = ("One case is a generated model file with one defect that must be rejected (missing, truncated, not HDF5; a required group, dataset "
        "or attribute removed, of the wrong kind, rank or size; number of units or coordinates or values that disagree) and/or up to two "
        "that need not be noticed (nonsense numbers, unreadable data types, odd links), read through the C++ or C query object or a model "
        "object, followed by queries and by the use of a valid file with the same object. Rejection must be an exception whose message "
        "names the offending item or file; nothing may crash (address and undefined behaviour sanitizers); a value that is returned must "
        "lie within the range of the file's data; later answers must equal those of a new process. An evaluation is one malformed file. "
        "Non-trivial: a defect inside a readable HDF5 file was rejected, or was not noticed and queried without rejection.")
TARGETS = ["driver"]

STR = models.INFO_STRINGS + ["crs", "data_layout"]
LST = models.INFO_LISTS + ["data_values", "data_units"]
NUM = ["dim_x", "dim_y", "dim_z", "origin_x", "origin_y", "y_azimuth"]
ODD = st.sampled_from([0.0, -1.0, 1e-300, 1e300, 1e-9, 1e9, "nan", "inf", "-inf", -100.0, 1.0])
WHICH = st.tuples(st.sampled_from(["block", "block", "top", "topo"]), st.integers(0, 5))

MUST = st.one_of(
    st.tuples(st.just("file"), st.sampled_from(["missing", "folder", "text", "empty", "superblock"])),
    st.tuples(st.just("truncated"), st.floats(0.0, 1.0, width=32)),
    st.tuples(st.just("del attr"), st.sampled_from(STR + LST + NUM)),
    st.tuples(st.just("str is"), st.sampled_from(STR), st.sampled_from(["number", "two", "none", "null", "compound"])),
    st.tuples(st.just("list is"), st.sampled_from(LST), st.sampled_from(["number", "numbers", "scalar", "matrix", "null"])),
    st.tuples(st.just("num is"), st.sampled_from(NUM), st.sampled_from(["string", "two", "none", "null", "vlen", "compound"])),
    st.tuples(st.just("count"), st.sampled_from(["data_units", "data_values"]), st.integers(-1, 2)),
    st.tuples(st.just("blocks"), st.sampled_from(["missing", "dataset"])),
    st.tuples(st.just("del axis"), WHICH, st.sampled_from("xyz")),
    st.tuples(st.just("axis is"), WHICH, st.sampled_from("xyz"), st.sampled_from(["string", "two", "null"])),
    st.tuples(st.just("coords"), WHICH, st.sampled_from("xyz"), st.sampled_from(["short", "long", "one", "empty", "matrix", "scalar", "string"])),
    st.tuples(st.just("del z_top"), st.integers(0, 5)),
    st.tuples(st.just("z_top is"), st.integers(0, 5), st.sampled_from(["string", "two", "null"])),
    st.tuples(st.just("rank"), WHICH, st.integers(-3, 2)),
    st.tuples(st.just("extent"), WHICH, st.integers(0, 3), st.sampled_from([0, 1, 2, 3])),
    st.tuples(st.just("layout"), st.sampled_from(["cell", "", "vertexes", "vert"])),
    st.tuples(st.just("crs"), st.sampled_from(["", "EPSG:none", "utm 10", "PROJCS[", "+proj=nothing"])))
MAY = st.one_of(
    st.tuples(st.just("odd num"), st.sampled_from(NUM), ODD),
    st.tuples(st.just("odd axis"), WHICH, st.sampled_from("xyz"), ODD),
    st.tuples(st.just("odd coords"), WHICH, st.sampled_from("xyz"), st.sampled_from(["equal", "nan", "inf", "huge", "nearly"])),
    st.tuples(st.just("odd top"), st.integers(0, 5), ODD),
    st.tuples(st.just("type"), WHICH, st.sampled_from(["string", "vlen", "compound", "bool", "enum", "opaque", "i8", "complex"])),
    st.tuples(st.just("data"), WHICH, st.sampled_from(["nan", "inf", "nodata"])),
    st.tuples(st.just("links"), st.sampled_from(["dangling", "external", "group", "soft block", "alias", "datatype"])),
    st.tuples(st.just("no blocks")), st.tuples(st.just("surfaces is dataset")), st.tuples(st.just("surface is group"), st.sampled_from(["top", "topo"])),
    st.tuples(st.just("storage"), WHICH, st.sampled_from(["unwritten", "chunk", "resizable", "external"])))


@st.composite
def cases(draw):
    m = draw(models.models(big=False, max_blocks=2, surfaces=("none", "top", "both", "topo")))
    return {"model": m, "must": draw(st.one_of(st.none(), MUST, MUST, MUST)), "may": draw(st.lists(MAY, max_size=2)),
            "api": draw(st.sampled_from(["Q", "C", "M", "Q", "C"])), "second": draw(st.booleans()), "first": draw(st.booleans()),
            "pts": draw(st.lists(st.tuples(st.just(0), *[st.floats(0.0, 1.0, width=16)] * 3), min_size=1, max_size=6))}


def number(v):
    return float(v) if isinstance(v, str) else v


def null(obj, name, t):
    if name in obj.attrs:
        del obj.attrs[name]
    obj.attrs.create(name, h5py.Empty(t))


def reset(obj, name, v, **kw):
    if name in obj.attrs:
        del obj.attrs[name]
    obj.attrs.create(name, v, **kw)


def dataset(h, which):
    """Path of a dataset, or None."""
    if which[0] == "block":
        ks = sorted(k for k in h["blocks"] if isinstance(h["blocks"].get(k, getlink=True), h5py.HardLink) and isinstance(h["blocks"][k], h5py.Dataset)) if "blocks" in h and isinstance(h["blocks"], h5py.Group) else []
        return "blocks/" + ks[which[1] % len(ks)] if ks else None
    p = "surfaces/" + {"top": "top_surface", "topo": "topography_bathymetry"}[which[0]]
    return p if "surfaces" in h and isinstance(h["surfaces"], h5py.Group) and p in h and isinstance(h[p], h5py.Dataset) else None


def replace(h, p, data, **kw):
    attrs = dict(h[p].attrs.items())
    del h[p]
    d = h.create_dataset(p, data=data, **kw) if data is not None else h.create_dataset(p, **kw)
    for k, v in attrs.items():
        d.attrs[k] = v


def mutate(h, op, d):
    """Apply a defect; returns what the message must name (None if the defect does not apply)."""
    k = op[0]
    if k == "del attr":
        del h.attrs[op[1]]
        return [op[1]]
    if k in ("str is", "num is", "list is"):
        n, how = op[1], op[2]
        if how == "null":
            null(h, n, "f8" if k == "num is" else h5py.string_dtype())
        else:
            reset(h, n, {"number": 3.5, "numbers": [1.0, 2.0], "two": [1.0, 2.0] if k == "num is" else ["a", "b"], "string": "12.5",
                         "none": np.zeros(0) if k == "num is" else np.zeros(0, dtype="S3"), "scalar": "a", "matrix": np.array([[b"a"], [b"b"]]),
                         "vlen": "1.0", "compound": np.zeros((), dtype=[("a", "f8"), ("b", "S3")])}[how],
                  **({"dtype": h5py.string_dtype()} if how == "vlen" else {}))
        return [n]
    if k == "count":
        v = list(h.attrs[op[1]])
        v = v[:-1] if op[2] == -1 else v + ["more"] * (op[2] + 1)
        reset(h, op[1], np.array([x if isinstance(x, bytes) else x.encode() for x in v], dtype="S9"))
        return ["data_units", "data_values", "values"]
    if k == "blocks":
        del h["blocks"]
        if op[1] == "dataset":
            h.create_dataset("blocks", data=np.zeros((3, 3, 3, 1)))
        return ["blocks"]
    if k == "no blocks":
        for n in list(h["blocks"]):
            del h["blocks/" + n]
        return []
    if k in ("del z_top", "z_top is", "odd top"):
        p = dataset(h, ("block", op[1]))
        if not p or "z_resolution" not in h[p].attrs:
            return None
        if k == "del z_top":
            del h[p].attrs["z_top"]
        elif k == "odd top":
            h[p].attrs["z_top"] = number(op[2])
            return []
        elif op[2] == "null":
            null(h[p], "z_top", "f8")
        else:
            reset(h[p], "z_top", "0.0" if op[2] == "string" else [0.0, 1.0])
        return ["z_top"]
    if k == "layout":
        reset(h, "data_layout", np.bytes_(op[1] or "\0"))
        return ["layout"]
    if k == "crs":
        reset(h, "crs", np.bytes_(op[1] or "\0"))
        return []
    if k == "odd num":
        h.attrs[op[1]] = number(op[2])
        return []
    if k == "links":
        g = h["blocks"] if "blocks" in h and isinstance(h["blocks"], h5py.Group) else None
        if g is None:
            return None
        new = "aaa%d" % len(h)
        while new in g or g.get(new, getlink=True, default=None) is not None or new in h:
            new += "a"
        if op[1] == "dangling":
            g[new] = h5py.SoftLink("/nothing")
        elif op[1] == "external":
            g[new] = h5py.ExternalLink(os.path.join(d, "nofile.h5"), "/x")
        elif op[1] == "group":
            g.create_group(new)
        elif op[1] == "datatype":
            g[new] = np.dtype("f8")
        elif op[1] == "alias":
            h[new] = h5py.SoftLink("/blocks")
        else:
            p = dataset(h, ("block", 0))
            if p:
                h.move(p, new)
                h[p] = h5py.SoftLink("/" + new)
        return []
    if k == "surfaces is dataset":
        if "surfaces" in h:
            del h["surfaces"]
        h.create_dataset("surfaces", data=[1.0])
        return []
    if k == "surface is group":
        p = dataset(h, (op[1], 0))
        if not p:
            return None
        del h[p]
        h.create_group(p)
        return []
    p = dataset(h, op[1])
    if not p:
        return None
    ds = h[p]
    name = p.split("/")[1]
    if k in ("del axis", "axis is", "coords", "odd axis", "odd coords"):
        a = op[2]
        if a == "z" and op[1][0] != "block":
            a = "y"
        n = ds.shape["xyz".index(a)]
        r, c = a + "_resolution", a + "_coordinates"
        for q in (r, c):
            if q in ds.attrs:
                del ds.attrs[q]
        if k == "del axis":
            return [r]
        if k == "odd axis":
            ds.attrs[r] = number(op[3])
            return []
        if k == "axis is":
            if op[3] == "null":
                null(ds, r, "f8")
            else:
                ds.attrs[r] = "10.0" if op[3] == "string" else [10.0, 20.0]
            return [r]
        sign = -1.0 if a == "z" else 1.0
        base = sign * 100.0 * np.arange(n)
        if k == "odd coords":
            base = {"equal": base * 0, "nan": base * np.nan, "inf": base + np.inf, "huge": base * 1e300, "nearly": base * 1e-300}[op[3]]
            ds.attrs[c] = base
            return []
        how = op[3]
        if how == "short" and n == 2:
            how = "long"
        if how == "string":
            ds.attrs[c] = np.array([b"%d" % v for v in base])
        elif how == "empty":
            ds.attrs.create(c, np.zeros(0))
        elif how == "scalar":
            ds.attrs[c] = 1.0
        else:
            ds.attrs[c] = {"short": base[:-1], "long": np.append(base, sign * 100.0 * n), "one": base[:1], "matrix": base.reshape(-1, 1)}[how]
        return [c, name]
    shape = ds.shape
    try:
        data = ds[...]
    except OSError:  # its storage was removed
        data = np.zeros(shape)
    if k == "rank":
        s = {-3: shape[:-3], -2: shape[:-2], -1: shape[:-1], 0: shape + (1,), 1: (1,) + shape, 2: None}[op[2]]
        if s is None:
            attrs = dict(ds.attrs.items())
            del h[p]
            q = h.create_dataset(p, data=h5py.Empty("f8"))
            for x, v in attrs.items():
                q.attrs[x] = v
        else:
            replace(h, p, np.ones(s))
        return [name]
    if k == "extent":
        i = op[2] % len(shape)
        last = i == len(shape) - 1
        v = op[3] if not last else op[3]
        if (not last and v >= 2) or (last and v == (1 if op[1][0] != "block" else len(h.attrs["data_values"]))):
            v = 0
        s = shape[:i] + (v,) + shape[i + 1:]
        replace(h, p, np.ones(s))
        return [name]
    if k == "type":
        t = {"string": "S4", "vlen": h5py.string_dtype(), "compound": [("a", "f8"), ("b", "i4")], "bool": "?", "i8": "<i8", "complex": "c16",
             "enum": h5py.enum_dtype({"A": 0, "B": 1}, basetype="i1"), "opaque": "V6"}[op[2]]
        if "i8" == op[2]:
            if data is None or data.dtype.kind not in "fiu":
                return []
            replace(h, p, np.round(data).astype("<i8"))
        else:
            replace(h, p, None, shape=shape, dtype=t)
        return []
    if k == "data":
        if data.dtype.kind not in "fiu":
            return []
        data = data.astype("f8")
        data.flat[::2] = {"nan": np.nan, "inf": np.inf, "nodata": models.NODATA}[op[2]]
        replace(h, p, data)
        return []
    if k == "storage":
        if op[2] == "unwritten":
            replace(h, p, None, shape=shape, dtype="f8", fillvalue=3.0)
        elif op[2] == "chunk":
            replace(h, p, None, shape=shape, dtype="f8", chunks=(1,) * len(shape))
        elif op[2] == "resizable":
            replace(h, p, data, maxshape=(None,) * len(shape), chunks=True)
        else:
            replace(h, p, None, shape=shape, dtype="f8", external=[(os.path.join(d, "raw.bin"), 0, h5py.h5f.UNLIMITED)])
        return []
    raise ValueError(k)


def damage(case, good, bad, d):
    """Write the malformed file; returns (must be rejected, names of which one must be in the message)."""
    op = case["must"]
    if op and op[0] == "file":
        if op[1] == "folder":
            os.mkdir(bad)
        elif op[1] in ("text", "empty"):
            with open(bad, "w") as f:
                f.write("title = none\n" * 40 if op[1] == "text" else "")
        elif op[1] == "superblock":
            with open(good, "rb") as f:
                b = bytearray(f.read())
            b[1] ^= 0xff
            with open(bad, "wb") as f:
                f.write(b)
        return True, [bad]
    with open(good, "rb") as f:
        b = f.read()
    if op and op[0] == "truncated":
        with open(bad, "wb") as f:
            f.write(b[:min(int(op[1] * len(b)), len(b) - 1)])
        return True, [bad]
    with open(bad, "wb") as f:
        f.write(b)
    must, names = False, []
    with h5py.File(bad, "a") as h:
        for m in case["may"]:
            mutate(h, m, d)
        if op:
            r = mutate(h, op, d)
            if r is not None:
                must, names = True, r
    return must, names


def ranges(path, names):
    """Range of the data of every value in the file, or None where it cannot be read as numbers."""
    out = [[math.inf, -math.inf] for _ in names]
    try:
        with h5py.File(path, "r") as h:
            for k in h["blocks"]:
                o = h["blocks"].get(k)
                if not isinstance(o, h5py.Dataset):
                    continue
                a = o[...]
                if a.dtype.kind == "b" or h5py.check_enum_dtype(a.dtype):
                    return None
                a = a.astype("f8")
                if not np.all(np.isfinite(a)):
                    return None
                for i in range(len(names)):
                    out[i][0] = min(out[i][0], float(a[..., i].min()))
                    out[i][1] = max(out[i][1], float(a[..., i].max()))
    except (OSError, ValueError, KeyError, TypeError, IndexError):
        return None
    return out


def run(case, ctx):
    spec, a = case["model"], case["api"]
    d = ctx.sub()
    good = write_models([spec], d)[0]
    bad = os.path.join(d, "bad.h5")
    must, names = damage(case, good, bad, d)
    ref = models.Ref(spec, "EPSG:4326")
    pts = appgen.place([spec], [ref], case["pts"])
    names_v, nv = spec["names"], len(spec["names"])

    def use(f, q):
        files = [good, f] if case["second"] and f == bad and a != "M" else [f]
        if a == "M":
            return [["M_incrs", q, "EPSG:4326"], ["M_open", q, f], ["M_load", q], ["M_init", q]]
        return ([["C_errreset", q]] if a == "C" else []) + [[a + "_init", q, "EPSG:4326", len(files), files, nv, names_v]]

    def ask(q):
        if a == "M":
            return []
        loc = [p[:2] for p in pts]
        return [[a + "_query", q, nv, len(pts), flat(pts)], [a + "_top", q, len(pts), flat(loc)], [a + "_topo", q, len(pts), flat(loc)]]

    close = [["M_close", "o"]] if a == "M" else []
    before = use(good, "o") + ask("o") + close if case["first"] else []
    broken = use(bad, "o")
    cmds = [[a + "_new", "o"]] + before
    at = len(cmds)
    cmds += broken
    if a == "C":
        cmds.append(["C_err", "o"])
    if a == "M":
        # Stop at the first step that fails, as a user would; then close and continue with the same object.
        failed, n = None, 0
        while n < len(broken) and not failed:
            n += 1
            t = ctx.run(cmds[:at + n])[-1]
            failed = t[0] if t and isinstance(t[0], Exc) else None
        cmds = cmds[:at + n]
        if not failed:
            loc = [p[:2] for p in pts]
            cmds += [["M_contains", "o", len(pts), flat(pts)], ["M_top", "o", len(pts), flat(loc)], ["M_topo", "o", len(pts), flat(loc)]]
            cmds += [["M_query", "o", nv, 1, p] for p, c in zip(pts, ctx.run(cmds)[-3]) if c == 1]
        cmds += ([["M_close", "o"]] if not failed or case["second"] else [["M_close", "o"], ["M_del", "o"], ["M_new", "o"]]) + use(good, "o")
        loc = [p[:2] for p in pts]
        tail = [["M_top", "o", len(pts), flat(loc)]]
    else:
        cmds += ask("o") + (close if a != "M" else []) + use(good, "o")
        tail = ask("o")
    k = len(cmds)
    cmds += tail
    res = ctx.run(cmds)
    want = ctx.run([[a + "_new", "o"]] + use(good, "o") + tail, "driver#2")[-len(tail):]
    expect(repr(res[k:]) == repr(want), "after a malformed file, a valid one gives %r, but %r in a new process", res[k:], want)

    text = None
    if a == "M":
        text = failed.what if failed else None
    else:
        i0 = at + len(use(bad, "o")) - 1
        t = res[i0]
        if a == "Q":
            text = t[0].what if t and isinstance(t[0], Exc) else None
        elif t == [2]:
            text = res[i0 + 1][1]
        rng = ranges(bad, names_v) if text is None else None
        if text is None and must is False and rng and not case["second"]:
            o = i0 + (2 if a == "C" else 1)
            for p, row in zip(pts, split_rows(res[o], len(pts), nv)):
                if isinstance(row, Exc) or row[0] == 2:
                    continue
                for v, (lo, hi) in zip(row[1], rng):
                    tol = 1e-5 * (hi - lo) + 1e-9 * max(abs(lo), abs(hi))
                    expect(v == models.NODATA or lo - tol <= v <= hi + tol or (math.isnan(v) and "nan" in repr(case["may"])),
                           "value %r at %r is outside the range %r of the file's data", v, p, (lo, hi))
    if must:
        expect(text is not None, "a file with the defect %r was accepted", case["must"])
    if must and names and not case["may"]:
        expect(any(n in text for n in names), "the message does not name any of %r: %r", names, text)
    if text is not None:
        expect(text.strip(), "empty message for the defect %r", case["must"])
    inner = (must and case["must"][0] not in ("file", "truncated")) or (case["may"] and text is None)
    return Info(bool(inner), ["must" if must else "may", "rejected" if text is not None else "accepted"])


PARTS = [Part("malformed", cases(), run, 1600, 50000)]
