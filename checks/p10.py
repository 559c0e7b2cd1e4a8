"""The C++, C and Python interfaces agree."""
import math
import os

import numpy as np
from hypothesis import strategies as st

from gmg import models
from gmg.common import flat, follow, split_rows, write_models
from gmg.core import Info, Part, expect
from gmg.driver import Exc
from gmg.pyclient import PyExc

RULE = ("queries: 1-2 generated models and a history of up to 12 operations on 1-2 query objects (initialize with valid or invalid files, value "
        "names or CRS, squashing, minimum elevation, value and elevation queries, finalize) performed through the C++, C and Python "
        "interfaces; results, statuses and messages are compared. Python arrays are drawn from lists, row- and column-major, strided, reversed, "
        "byte-swapped, read-only, single precision, integer and empty arrays, and arrays of wrong shape or type. model: metadata, containment, "
        "elevations and values of a generated model through the C++ and Python Model classes. An evaluation is one point or operation. "
        "Non-trivial: a query with points inside and an error or a point outside (queries); a point inside (model).")
TARGETS = ["driver", "stage"]
LAYOUTS = ["c", "c", "list", "tuples", "fortran", "strided", "columns", "reversed", "transposed", "swapped", "readonly", "float32", "int"]
BAD = ["cols-1", "cols+1", "1d", "3d", "0d", "scalar", "none", "text", "flat", "object", "empty1d", "rows", "zero"]
FRAC = st.one_of(st.floats(0.0, 1.0, width=32), st.floats(-0.25, 1.25, width=32))
PTS = follow(st.tuples(st.integers(0, 1), FRAC, FRAC, FRAC), 0, 10)
INITS = ["ok", "ok", "ok", "ok", "both", "missing", "directory", "text", "value", "crs", "novalues", "nofiles"]


@st.composite
def query_cases(draw):
    ms = [draw(models.models(big=False, max_blocks=2, names=["Vp", "Vs", "Qp"], name="m.h5", nodata=True)) for _ in range(2)]
    ops = []
    ids = draw(st.sampled_from([["a"], ["a", "b"]]))
    for i in ids:
        if draw(st.integers(0, 9)):
            ops.append(["init", i, "ok"])
    for _ in range(draw(st.integers(3, 12))):
        i = draw(st.sampled_from(ids))
        k = draw(st.integers(0, 13))
        if k == 0:
            ops.append(["fin", i])
        elif k <= 2:
            ops.append(["init", i, draw(st.sampled_from(INITS))])
        elif k == 3:
            ops.append(["squash", i, draw(st.integers(0, 2))])
        elif k == 4:
            ops.append(["minelev", i, draw(st.sampled_from([-1.0e4, -500.0, -3000.0]))])
        elif k == 5:
            ops.append([draw(st.sampled_from(["query", "top", "topo"])), i, "bad", draw(st.sampled_from(BAD))])
        else:
            ops.append([draw(st.sampled_from(["query", "query", "top", "topo"])), i, draw(st.sampled_from(LAYOUTS)), draw(PTS)])
    return {"models": ms, "crs": draw(st.sampled_from(models.INPUT_CRS)), "names": draw(st.sampled_from([["Vs"], ["Vp", "Vs"], ["qp", "VS", "vp"],
                                                                                                       ["Vs", "Vs"]])), "log": draw(st.lists(st.sampled_from(ids), unique=True)), "ops": ops}


def converted(kind, pts, cols):
    a = np.array(pts, dtype=np.float64).reshape(-1, cols)
    if kind == "float32":
        a = a.astype("f4").astype("f8")
    elif kind == "int":
        a = np.trunc(a)
    return a.tolist()


def same(a, b):
    return a == b or (isinstance(a, float) and isinstance(b, float) and (abs(a - b) <= 1e-9 * max(abs(a), abs(b)) or (a != a and b != b)))


def all_same(a, b):
    return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))


def points(refs, pts, cols):
    out = []
    for k, fx, fy, fz in pts:
        r = refs[k]
        d = r.dims
        x, y = fx * d[0], fy * d[1]
        q = r.to_input(x, y, r.unsqueeze(x, y, -fz * d[2]))
        out.append([float(v) if math.isfinite(v) else 1.0e30 for v in q][:cols])
    return out


def run_queries(case, ctx):
    ms, names, crs = case["models"], case["names"], case["crs"]
    files = write_models(ms, ctx.dir)
    text = os.path.join(ctx.dir, "text.h5")
    with open(text, "w") as f:
        f.write("not a model\n" * 100)
    refs = [models.Ref(m, crs) for m in ms]
    args = {"ok": (files[:1], names, crs), "both": (files, names, crs), "missing": ([os.path.join(ctx.dir, "none.h5")], names, crs),
            "directory": ([ctx.dir], names, crs), "text": ([files[0], text], names, crs), "value": (files, names + ["nope"], crs),
            "crs": (files, names, "EPSG:999999"), "novalues": (files, [], crs), "nofiles": ([], names, crs)}
    cpp, c, py, plan = [], [], [], []
    nv = {}
    for i in sorted({o[1] for o in case["ops"]}):
        cpp.append(["Q_new", i])
        c.append(["C_new", i])
        py.append(["new", i])
        plan.append(("new", i, len(cpp) - 1, len(c) - 1, len(py) - 1, None, 0))
        if i in case.get("log", []):
            c.append(["C_log", i, os.path.join(ctx.dir, "log_%s.txt" % i)])
        nv[i] = 0
    for o in case["ops"]:
        i = o[1]
        k = (len(cpp), len(c), len(py))
        extra, width = None, nv[i]
        if o[0] == "init":
            fs, ns, cr = args[o[2]]
            cpp.append(["Q_init", i, cr, len(fs), fs, len(ns), ns])
            c.append(["C_init", i, cr, len(fs), fs, len(ns), ns])
            py.append(["init", i, fs, ns, cr])
            if o[2] in ("ok", "both"):
                nv[i] = len(ns)
            elif o[2] in ("novalues", "nofiles"):
                nv[i] = max(nv[i], len(ns))
        elif o[0] in ("squash", "minelev"):
            cpp.append(["Q_" + o[0], i, o[2]])
            c.append(["C_" + o[0], i, o[2]])
            py.append([o[0], i, o[2]])
        elif o[0] == "fin":
            cpp.append(["Q_fin", i])
            c.append(["C_fin", i])
            py.append(["fin", i])
        else:
            cols = 3 if o[0] == "query" else 2
            if o[2] == "bad":
                py.append([o[0], i, "bad", o[3]])
                plan.append((o, i, None, None, len(py) - 1, None, 0))
                continue
            raw = points(refs, o[3], cols)
            pts = converted(o[2], raw, cols)
            extra, width = pts, max(nv.values())
            for lst, p in ((cpp, "Q_"), (c, "C_")):
                lst.append([p + o[0], i] + ([width] if cols == 3 else []) + [len(pts), flat(pts)])
            py.append([o[0], i, o[2], raw])
        cpp.append(["Q_err", i])
        cpp.append(["Q_errreset", i])
        c.append(["C_err", i])
        c.append(["C_errreset", i])
        py.append(["status", i])
        plan.append((o, i) + k + (extra, width))
    c += [["C_del", i] for i in sorted(nv)]
    rq = ctx.run(cpp)
    rc = ctx.run(c)
    rp = ctx.py().call("queries", py)
    expect(not isinstance(rp, PyExc), "the Python operations failed: %r", rp)
    inside = outside = errors = evals = 0
    live = {}
    unplaced = {i: [] for i in nv}  # points of C queries that ended with a warning
    for o, i, kq, kc, kp, pts, width in plan:
        p = rp[kp]
        if o == "new":
            continue
        evals += 1
        if kq is None:
            expect(isinstance(p, tuple) and p[0] == "EXC", "%s accepts an argument of kind %r: %r", o[0], o[3], p)
            errors += 1
            continue
        q, cc = rq[kq], rc[kc]
        cerr = rc[kc + 1]
        if o[0] == "init":
            if isinstance(q[0], Exc):
                errors += 1
                expect(cc == [2] and cerr == [2, q[0].what], "initialize (%s): C++ raises %r, C returns %r with status and message %r", o[2], q[0], cc,
                       cerr)
                expect(isinstance(p, tuple) and p[0] == "EXC" and p[2] == q[0].what, "initialize (%s): C++ raises %r, Python gives %r", o[2], q[0], p)
            else:
                live[i] = True
                expect(cc == [0] and cerr[0] == 0, "initialize (%s): C++ succeeds, C returns %r with %r", o[2], cc, cerr)
                expect(p is None, "initialize (%s): C++ succeeds, Python gives %r", o[2], p)
            expect(o[2] in ("ok", "both", "novalues", "nofiles") or isinstance(q[0], Exc), "initialize (%s) succeeds", o[2])
        elif o[0] in ("squash", "minelev", "fin"):
            expect(q == ["ok"] and cc == [0] and p is None, "%s: C++ %r, C %r, Python %r", o[0], q, cc, p)
            if o[0] == "fin":
                live[i] = False
        elif o[0] == "query":
            rows_q, rows_c = split_rows(q, len(pts), width), split_rows(cc, len(pts), width)
            for n, (a, b) in enumerate(zip(rows_q, rows_c)):
                evals += 1
                if isinstance(a, Exc):
                    errors += 1
                    expect(isinstance(b, tuple) and b[0] == 2, "query at %r: C++ raises %r, C gives %r", pts[n], a, b)
                else:
                    expect(isinstance(b, tuple) and a[0] == b[0] and all_same(a[1], b[1]), "query at %r: C++ gives %r, C gives %r", pts[n], a, b)
                    inside += a[0] == 0
                    outside += a[0] == 1
                if isinstance(b, tuple) and b[0] == 1:
                    unplaced[i].append(pts[n])
            bad = [r for r in rows_q if isinstance(r, Exc) or r[0] == 2]
            if bad:
                errors += 1
                expect(isinstance(p, tuple) and p[0] == "EXC" and p[2], "query: C++ gives %r, Python %r", bad[0], p)
                what = bad[0].what if isinstance(bad[0], Exc) else rq[kq + 1][1]
                expect(p[2] == what, "query: C++ message %r, Python %r", what, p)
                expect(what in cerr[1], "query: C++ message %r, C %r", what, cerr)
            else:
                expect(isinstance(p, list) and len(p) == 2, "query (%s): Python gives %r", o[2], p)
                (vs, vk, vals), (es, ek, errs) = p
                m = vs[1] if len(vs) == 2 else 0
                want = [v for r in rows_q for v in r[1][:m]]
                expect(vs[:1] == [len(pts)] and es == [len(pts)] and (not pts or m > 0 or not live.get(i)), "query (%s) of %d points: Python arrays "
                       "have shapes %r and %r", o[2], len(pts), vs, es)
                expect(all_same(vals, want), "query (%s): C++ gives %r, Python %r", o[2], want, vals)
                expect([int(e) for e in errs] == [r[0] for r in rows_q], "query (%s): C++ status %r, Python %r", o[2], [r[0] for r in rows_q], errs)
                warn = bool(rows_c) and rows_c[-1][0] == 1  # the status is reset before every point
                expect(cerr[0] == int(warn) and ("Could not find model" in cerr[1]) == warn, "query: the last C status is %r, the handler holds %r",
                       rows_c[-1:], cerr)
        else:
            expect(all(isinstance(v, float) for v in q) and len(q) == len(cc) == len(pts) and all_same(q, cc), "%s: C++ gives %r, C %r", o[0], q, cc)
            expect(isinstance(p, tuple) and p[0] == [len(pts)] and all_same(q, p[2]), "%s (%s): C++ gives %r, Python %r", o[0], o[2], q, p)
            unplaced[i] += [x for x, v in zip(pts, cc) if v == models.NODATA]
            miss = any(v == models.NODATA for v in q)
            expect(cerr[0] == int(miss) and ("Could not find model" in cerr[1]) == miss, "%s: C++ gives %r, C status and message are %r", o[0], q,
                   cerr)
            inside += sum(v != models.NODATA for v in q)
            outside += miss
            evals += len(q)
    for i in [k for k in case.get("log", []) if k in nv]:
        with open(os.path.join(ctx.dir, "log_%s.txt" % i)) as f:
            log = f.read()
        missed = ["(" + ", ".join("%.6e" % v for v in x) + ")" for x in unplaced[i]]
        for m in set(missed):
            expect(log.count(m) == missed.count(m), "%d queries through the C interface did not find a model at %s, the log mentions %d", missed.count(m), m,
                   log.count(m))
        expect(log.count("Could not find model") == len(missed), "%d queries through the C interface did not find a model, the log mentions %d",
               len(missed), log.count("Could not find model"))
        evals += 1
    return Info(inside and (errors or outside), ["errors"] * bool(errors) + ["inside"] * bool(inside) + ["outside"] * bool(outside), evals)


# ------------------------------------------------------------------------------------------------- NULL handles
def run_null(case, ctx):
    p = case["point"]
    res = ctx.run([["C_init", "null", "EPSG:4326", 0, [], 0, []], ["C_squash", "null", 1], ["C_minelev", "null", -5.0], ["C_fin", "null"], ["C_err", "null"],
                   ["C_top", "null", 1, p[:2]], ["C_topo", "null", 1, p[:2]], ["C_query", "null", 2, 1, p], ["C_new", "h"], ["C_squash", "h", case["bad"]],
                   ["C_err", "h"], ["C_query", "h", 2, 1, p], ["C_del", "h"]])
    for k in range(4):
        expect(res[k] == [2], "operation %d on a NULL handle returns %r", k, res[k])
    expect(res[4] == ["null"], "the error handler of a NULL handle is %r", res[4])
    expect(res[5] == [models.NODATA] and res[6] == [models.NODATA] and res[7][0] == 2, "queries with a NULL handle return %r", res[5:8])
    if case["bad"] not in (0, 1, 2):
        expect(res[9] == [2] and res[10][0] == 2 and res[10][1], "setting squashing to %r returns %r, %r", case["bad"], res[9], res[10])
    else:
        expect(res[9] == [0], "setting squashing to %r returns %r", case["bad"], res[9])
    expect(res[11][0] == 2, "a query without initialization returns %r", res[11])
    expect(res[12] == [1], "the handle is not NULL after destroying the object: %r", res[12])
    return Info(True, [], 1)


# ------------------------------------------------------------------------------------------------- Model class
@st.composite
def model_cases(draw):
    m = draw(models.models(big=False, max_blocks=3, nodata=True))
    return {"model": m, "crs": draw(st.sampled_from(models.INPUT_CRS)), "ops": draw(st.lists(st.tuples(
        st.sampled_from(["contains", "query", "top", "topo"]), st.sampled_from(LAYOUTS[:-2]), PTS), min_size=2, max_size=6)),
        "bad": draw(st.tuples(st.sampled_from(["contains", "query", "top", "topo"]), st.sampled_from(BAD)))}


def parse_info(t):
    """The metadata printed by M_meta up to the CRS."""
    it = iter(t[1:])

    def many():
        return [next(it) for _ in range(next(it))]
    info = {}
    for k in ["title", "id", "description", "keywords", "history", "comment", "creator_name", "creator_institution", "creator_email",
              "acknowledgement", "authors", "references", "repository_name", "repository_url", "repository_doi", "version", "license", "auxiliary"]:
        info[k] = many() if k in ("keywords", "authors", "references") else next(it)
    return {"info": info, "value_names": many(), "value_units": many(), "data_layout": next(it), "dims": [next(it) for _ in range(3)],
            "origin": [next(it) for _ in range(2)], "y_azimuth": next(it), "crs": next(it)}


def run_model(case, ctx):
    spec, crs = case["model"], case["crs"]
    path = write_models([spec], ctx.dir)[0]
    ref = models.Ref(spec, crs)
    nv = len(spec["names"])
    cmds = [["M_new", "m"], ["M_incrs", "m", crs], ["M_open", "m", path], ["M_load", "m"], ["M_init", "m"], ["M_meta", "m"]]
    plan = []
    for name, lay, fr in case["ops"]:
        cols = 3 if name in ("contains", "query") else 2
        if name in ("query", "top", "topo"):  # only defined inside
            fr = [(k, min(max(x, 0.001), 0.999), min(max(y, 0.001), 0.999), min(max(z, 0.001), 0.999)) for k, x, y, z in fr]
        plan.append((name, lay, points([ref, ref], fr, cols), cols))
    probe = cmds + [["M_contains", "m", len(p), flat(p)] for n, _, p, _ in plan if n == "query"]
    keep = iter(ctx.run(probe)[len(cmds):])
    plan = [(n, lay, [x for x, k in zip(p, next(keep)) if k == 1] if n == "query" else p, c) for n, lay, p, c in plan]
    for name, lay, p, cols in plan:
        cmds.append(["M_" + name, "m"] + ([nv] if name == "query" else []) + [len(p), flat(p)])
    cmds.append(["M_close", "m"])
    res = ctx.run(cmds)
    got = ctx.py().call("model", path, crs, [[n, lay, p] for n, lay, p, _ in plan] + [[case["bad"][0], "bad", case["bad"][1]]])
    expect(not isinstance(got, PyExc), "Python fails to use the model: %r", got)
    wrong = os.path.join(ctx.dir, "none.h5") if case["bad"][1] < "e" else ctx.dir
    r = ctx.py().call("model", wrong, crs, [])
    expect(isinstance(r, PyExc) and r.what, "Python opens %r: %r", wrong, r)
    r = ctx.py().call("model", path, "EPSG:999999", [])
    expect(isinstance(r, PyExc) and r.what, "Python accepts the CRS EPSG:999999: %r", r)
    meta, out = got
    want = parse_info(res[5])
    for k, v in want.items():
        expect(meta[k] == v, "%s: C++ gives %r, Python %r", k, v, meta[k])
    n = 0
    for (name, lay, p, _), r, o in zip(plan, res[6:], out):
        expect(isinstance(o, tuple) and o[0] != "EXC", "%s (%s): Python gives %r", name, lay, o)
        if name == "query":
            rows = split_rows(r, len(p), nv)
            expect(all(isinstance(x, tuple) for x in rows), "query: C++ gives %r", rows)
            expect(o[0] == [len(p), nv] and all_same(o[2], [v for x in rows for v in x[1]]), "query (%s): C++ gives %r, Python %r", lay, rows, o)
        else:
            expect(o[0] == [len(p)] and all_same(o[2], [float(v) for v in r]), "%s (%s): C++ gives %r, Python %r", name, lay, r, o)
        n += len(p)
    expect(out[-1][0] == "EXC", "%s of a Python Model accepts an argument of kind %r: %r", case["bad"][0], case["bad"][1], out[-1])
    return Info(n, [], max(n, 1))


PARTS = [Part("queries", query_cases(), run_queries, 800, 12000), Part("model", model_cases(), run_model, 300, 5000),
         Part("null", st.fixed_dictionaries({"point": st.lists(st.floats(-1e6, 1e6), min_size=3, max_size=3), "bad": st.integers(-3, 6)}), run_null, 20, 200)]
