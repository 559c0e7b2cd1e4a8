"""Operations on the Python package, run by pyserver.py in its own process."""
import json
import os

import numpy


# ------------------------------------------------------------------------------------------------- batches and configuration
def batches(dims, size):
    """Ranges of all batches of a 2-D or 3-D grid (a list per batch), at most one million."""
    from geomodelgrids.create.utils import batch
    g = (batch.BatchGenerator2D if len(dims) == 2 else batch.BatchGenerator3D)(*dims, *([] if size is None else [size]))
    out = []
    for b in g:
        r = [b.x_range, b.y_range] + ([b.z_range] if len(dims) == 3 else [])
        out.append([[int(v) for v in x] for x in r] + [all(isinstance(v, (int, numpy.integer)) for x in r for v in x)])
        if len(out) >= 1000000:
            break
    return out


def to_list(s, delimiter):
    from geomodelgrids.create.utils.config import string_to_list
    return string_to_list(s) if delimiter is None else string_to_list(s, delimiter=delimiter)


def get_config(files, keep_case):
    from geomodelgrids.create.utils.config import get_config
    return get_config(files, keep_case=keep_case)


def length_scale(name):
    from geomodelgrids.create.utils.units import length_scale
    return length_scale(name)


# ------------------------------------------------------------------------------------------------- creation of models
def create(files, steps, mode="random", seed=1):
    """Run the application for creating models; returns the calls made to the data source."""
    import gmgsrc
    from geomodelgrids.create.apps.create_model import App
    gmgsrc.MODE, gmgsrc.SEED, gmgsrc.RECORDS, gmgsrc.CALLS = mode, seed, [], 0
    App(show_progress=False, log_filename=os.devnull).main(config_filenames=",".join(files), **steps)
    return gmgsrc.RECORDS


# ------------------------------------------------------------------------------------------------- queries
def layout(kind, pts, cols):
    """The points as an array of the given kind."""
    a = numpy.array(pts, dtype=numpy.float64).reshape(-1, cols)
    if kind == "list":
        return a.tolist() if len(a) else a
    if kind == "tuples":
        return tuple(tuple(r) for r in a.tolist()) if len(a) else a
    if kind == "fortran":
        return numpy.asfortranarray(a)
    if kind == "strided":
        b = numpy.full((2 * len(a), cols), 7.0)
        b[::2] = a
        return b[::2]
    if kind == "columns":
        b = numpy.full((len(a), cols + 2), 7.0)
        b[:, 1:1 + cols] = a
        return b[:, 1:1 + cols]
    if kind == "reversed":
        return a[::-1].copy()[::-1]
    if kind == "transposed":
        return a.T.copy().T
    if kind == "swapped":
        return a.astype(">f8")
    if kind == "readonly":
        a.flags.writeable = False
        return a
    if kind == "float32":
        return a.astype("f4")
    if kind == "int":
        return a.astype("i8")
    return a


def bad_array(kind, cols):
    return {"cols-1": numpy.zeros((3, cols - 1)), "cols+1": numpy.zeros((3, cols + 1)), "1d": numpy.zeros(cols), "3d": numpy.zeros((2, 1, cols)),
            "0d": numpy.float64(1.0), "scalar": 1.5, "none": None, "text": "abc", "flat": numpy.zeros(2 * cols), "object": [[object()] * cols],
            "empty1d": numpy.zeros(0), "rows": numpy.zeros((cols, 5)), "zero": numpy.zeros((0, cols + 1))}[kind]


def _plain(r):
    if isinstance(r, tuple):
        return [_plain(x) for x in r]
    if isinstance(r, numpy.ndarray):
        return (list(r.shape), r.dtype.kind, [float(v) for v in r.ravel()])
    return r


def queries(ops):
    """Operations on Query objects; the result of each, or ("EXC", type, text)."""
    import geomodelgrids
    objs, out = {}, []
    for op in ops:
        try:
            name, i = op[0], op[1]
            if name == "new":
                objs[i] = geomodelgrids.Query()
                r = None
            elif name == "del":
                objs.pop(i, None)
                r = None
            elif name == "init":
                r = objs[i].initialize(op[2], op[3], op[4])
            elif name == "fin":
                r = objs[i].finalize()
            elif name == "squash":
                r = objs[i].set_squashing(geomodelgrids.Query.SquashingEnum(op[2]))
            elif name == "minelev":
                r = objs[i].set_squash_min_elev(op[2])
            elif name == "status":
                h = objs[i].get_error_handler()
                r = int(h.get_status())
                h.reset_status()
            else:
                f = {"query": "query", "top": "query_top_elevation", "topo": "query_topobathy_elevation"}[name]
                cols = 3 if name == "query" else 2
                a = bad_array(op[3], cols) if op[2] == "bad" else layout(op[2], op[3], cols)
                r = _plain(getattr(objs[i], f)(a))
        except Exception as e:
            r = ("EXC", type(e).__name__, str(e))
        out.append(r)
    return out


INFO = ["title", "id", "description", "keywords", "history", "comment", "creator_name", "creator_institution", "creator_email",
        "acknowledgement", "authors", "references", "repository_name", "repository_url", "repository_doi", "version", "license", "auxiliary"]


def model(path, crs, ops):
    """Metadata of a model and results of operations on it."""
    import geomodelgrids
    m = geomodelgrids.Model()
    m.set_input_crs(crs)
    m.open(path, geomodelgrids.Model.ModelMode.READ)
    m.load_metadata()
    m.initialize()
    info = m.get_info()
    meta = {"info": {k: getattr(info, k) for k in INFO}, "value_names": list(m.value_names), "value_units": list(m.value_units),
            "data_layout": int(m.data_layout), "dims": list(m.dims), "origin": list(m.origin), "y_azimuth": m.y_azimuth, "crs": m.crs}
    out = []
    for op in ops:
        try:
            f = {"contains": "contains", "query": "query", "top": "query_top_elevation", "topo": "query_topobathy_elevation"}[op[0]]
            cols = 3 if op[0] in ("contains", "query") else 2
            a = bad_array(op[2], cols) if op[1] == "bad" else layout(op[1], op[2], cols)
            r = _plain(getattr(m, f)(a))
        except Exception as e:
            r = ("EXC", type(e).__name__, str(e))
        out.append(r)
    m.close()
    return meta, out


def constants():
    import geomodelgrids
    return geomodelgrids.Query.NODATA_VALUE


# ------------------------------------------------------------------------------------------------- stand-in for netCDF4
class _Variable:
    def __init__(self, d):
        self.__dict__.update(d["attrs"])
        self._a = numpy.ma.masked_array(d["data"], mask=d.get("mask", False)) if d["masked"] else d["data"]
        self.shape, self.size, self.dtype, self.ndim = d["data"].shape, d["data"].size, d["data"].dtype, d["data"].ndim

    def __getitem__(self, k):
        return self._a[k].copy()


class _Dataset:
    """Reads what write_netcdf wrote (netCDF4 is not installed)."""

    def __init__(self, filename, mode="r"):
        import pickle
        if mode != "r":
            raise ValueError("mode %r" % mode)
        with open(filename, "rb") as f:
            d = pickle.load(f)
        self.__dict__.update(d["attrs"])
        self.variables = {k: _Variable(v) for k, v in d["variables"].items()}


def create_emc(files, steps):
    import sys
    import types
    mod = types.ModuleType("netCDF4")
    mod.Dataset = _Dataset
    sys.modules["netCDF4"] = mod
    try:
        create(files, steps)
    finally:
        del sys.modules["netCDF4"]


# ------------------------------------------------------------------------------------------------- rules of the San Francisco Bay models
def sfbay_rules(folder, version, points):
    """Values of the rules for (fault block, zone, x, y, depth), or the error."""
    import importlib
    import sys
    if folder not in sys.path:
        sys.path.insert(0, folder)
    get_rules = importlib.import_module(version).get_rules
    out = []
    for block, zone, x, y, depth in points:
        try:
            out.append(get_rules(block, zone)(x, y, depth))
        except Exception as e:
            out.append(("EXC", type(e).__name__, str(e)))
    return out


def sfbay_functions(folder, calls):
    """Values of functions (module, name, x, y, depth)."""
    import importlib
    import sys
    if folder not in sys.path:
        sys.path.insert(0, folder)
    return [getattr(importlib.import_module(m), f)(x, y, d) for m, f, x, y, d in calls]


def sfbay_along(folder, module, lines):
    import importlib
    import sys
    if folder not in sys.path:
        sys.path.insert(0, folder)
    f = importlib.import_module(module).is_along_azimuth
    return [bool(f(*args)) for args in lines]
