"""Histories of query objects."""
import copy
import os

from hypothesis import strategies as st

from gmg import appgen, models
from gmg.common import flat, write_models
from gmg.core import Info, Part, expect
from gmg.driver import Exc

RULE = ("One case is 1-3 generated model files and a history of up to 40 operations on up to 4 query objects (C++ and C interfaces mixed) "
        "and one model object: create, initialize with a drawn list of files, values and CRS, initialize so that it fails (missing file, "
        "not HDF5, truncated file, unknown value, bad CRS, inconsistent units), squashing, value and elevation queries, finalize (also "
        "repeated), destroy, in any order; objects may share files. No initialization or query may change the status or message of another object; every answer is compared with a new object, alone in another process, "
        "with the same latest initialization and squashing, or with the documented outcome for an object that is not initialized. An "
        "evaluation is one operation. Non-trivial: an object answers a query after a failed initialization, finalization or "
        "re-initialization of its own while another object is alive, with a value inside a model.")
TARGETS = ["driver"]
CRSS = ["EPSG:4326", models.UTM10, "EPSG:26910", "+proj=utm +zone=10 +datum=WGS84 +units=km +no_defs +type=crs"]
FAILURES = ["missing", "text", "truncated", "value", "crs", "units", "second", "group"]


@st.composite
def cases(draw):
    ms = draw(appgen.model_sets(nmax=3, names=["Vp", "Vs"], big=False))
    if len(ms) > 1 and draw(st.booleans()):
        # Models of the same domain and grids with other contents.
        for i in range(1, len(ms)):
            m = copy.deepcopy(ms[0])
            m["name"] = ms[i]["name"]
            for part in m["blocks"] + [m["top"], m["topo"]]:
                if part:
                    part["seed"] += i
                    if "base" in part:
                        part["base"] += i * 0.003 * m["dims"][2]
            ms[i] = m
    same = draw(st.tuples(st.integers(0, 2), *[st.floats(0.125, 0.875, width=16)] * 3))
    ids = st.integers(0, 3)
    ops = []
    for _ in range(draw(st.sampled_from([6, 14, 25, 40]))):
        k = draw(st.integers(0, 16))
        o = draw(ids)
        if k == 16:
            # The object moves from model to model; the same location is queried each time.
            crs, kind = draw(st.sampled_from(CRSS)), draw(st.sampled_from(["top", "topo", "query"]))
            for i in draw(st.lists(st.integers(0, 2), min_size=3, max_size=8)):
                ops.append(["init", o, [i], crs, ["Vs"]])
                ops.append(["query", o, [(i,) + same[1:]], kind])
        elif k <= 2:
            ops.append(["init", o, draw(st.lists(st.integers(0, 2), min_size=1, max_size=3)), draw(st.sampled_from(CRSS)),
                        draw(st.sampled_from([["Vs"], ["vp"], ["Vs", "Vp"], ["Vp", "Vs", "VS"]]))])
        elif k == 3:
            ops.append(["fail", o, draw(st.sampled_from(FAILURES))])
        elif k == 4:
            ops.append(["fin", o])
        elif k == 5:
            ops.append(["new", o, draw(st.booleans())])
        elif k == 6:
            ops.append(["del", o])
        elif k == 7:
            ops.append(["squash", o, draw(st.sampled_from([0, 1, 2])), draw(st.sampled_from([-1e4, -2000.0, -10.0]))])
        elif k == 8:
            ops.append(["model", draw(st.sampled_from(["open", "close", "query"])), draw(st.integers(0, 2))])
        else:
            ops.append(["query", o, [same] if draw(st.booleans()) else draw(st.lists(st.tuples(st.integers(0, 2), *[st.floats(0.0, 1.0, width=16)] * 3), min_size=1, max_size=4))])
    return {"models": ms, "ops": ops, "reuse": draw(st.booleans())}


def run(case, ctx):
    ms = case["models"]
    d = ctx.sub()
    files = write_models(ms, d)
    bad = {k: os.path.join(d, "bad_" + k) for k in ("missing", "text", "truncated", "units", "group")}
    with open(bad["text"], "w") as f:
        f.write("This is not a model.\n" * 50)
    with open(files[0], "rb") as f:
        data = f.read()
    with open(bad["truncated"], "wb") as f:
        f.write(data[:len(data) * 2 // 3])
    import h5py
    for k in ("units", "group"):
        with open(bad[k], "wb") as f:
            f.write(data)
        with h5py.File(bad[k], "a") as h:
            if k == "group":
                del h["blocks"]
            else:
                h.attrs["data_units"] = ["furlong"] * len(ms[0]["names"])
    refs = {c: [models.Ref(m, c) for m in ms] for c in CRSS}
    objs = {}  # id -> state
    cmds, checks, fresh = [], [], []
    model = None
    important = False

    def api(s):
        return "C" if s["c"] else "Q"

    def setup(s):
        a, i = api(s), s["init"]
        out = [[a + "_new", "f"], [a + "_init", "f", i[1], len(i[0]), i[0], len(i[2]), i[2]]]
        if s["squash"]:
            out += [[a + "_minelev", "f", s["squash"][1]], [a + "_squash", "f", s["squash"][0]]]
        return out

    for op in case["ops"]:
        if op[0] == "model":
            if op[1] == "open" and model is None:
                cmds += [["M_new", "m"], ["M_incrs", "m", CRSS[0]], ["M_open", "m", files[op[2] % len(files)]], ["M_load", "m"], ["M_init", "m"]]
                model = op[2] % len(files)
            elif op[1] == "close" and model is not None:
                cmds += [["M_close", "m"], ["M_del", "m"]]
                model = None
            elif model is not None:
                r = refs[CRSS[0]][model]
                m = ms[model]
                x, y = 0.5 * m["dims"][0], 0.5 * m["dims"][1]
                p = [float(v) for v in r.to_input(x, y, r.unsqueeze(x, y, -0.5 * m["dims"][2]))]
                cmds.append(["M_query", "m", len(m["names"]), 1, p])
                fresh += [["M_new", "m"], ["M_incrs", "m", CRSS[0]], ["M_open", "m", files[model]], ["M_load", "m"], ["M_init", "m"], cmds[-1], ["M_del", "m"]]
                checks.append((len(cmds) - 1, "same", len(fresh) - 2, "value of the model object"))
            continue
        o = op[1]
        s = objs.get(o)
        if op[0] == "new" or s is None:
            if s is not None:
                cmds.append([api(s) + "_del", "q%d" % o])
            s = objs[o] = {"c": op[2] if op[0] == "new" else o % 2 == 1, "init": None, "squash": None, "past": 0}
            cmds.append([api(s) + "_new", "q%d" % o])
            if op[0] == "new":
                continue
        q, a = "q%d" % o, api(s)
        if op[0] == "del":
            cmds.append([a + "_del", q])
            del objs[o]
        elif op[0] == "fin":
            cmds.append([a + "_fin", q])
            s["past"] += s["init"] is not None
            s["init"] = None
        elif op[0] in ("init", "fail"):
            if s["c"]:
                cmds.append(["C_errreset", q])
            others = [[api(t) + "_err", "q%d" % i] for i, t in sorted(objs.items()) if i != o]
            cmds += others
            s["past"] += s["init"] is not None or op[0] == "fail"
            if op[0] == "init":
                s["init"] = ([files[k % len(files)] for k in op[2]], op[3], op[4])
                i = s["init"]
            else:
                k = op[2]
                fs = [bad[k]] if k in ("missing", "text", "truncated", "group") else [files[0]]
                if k == "second":
                    fs = [files[0], bad["missing"]]
                elif k == "units":
                    fs = [files[0], bad["units"]]
                i = (fs, "EPSG:nothing" if k == "crs" else "EPSG:4326", ["Vs", "missing"] if k == "value" else ["Vs"])
                s["init"] = None
            cmds.append([a + "_init", q, i[1], len(i[0]), i[0], len(i[2]), i[2]])
            checks.append((len(cmds) - 1, "ok" if op[0] == "init" else "fails", s["c"], "initialize (%r)" % (op[2:],)))
            cmds += others
            checks.append((len(cmds) - len(others), "status", (len(cmds) - 2 * len(others) - 1, len(others)), "initialization"))
        elif op[0] == "squash":
            s["squash"] = (op[2], op[3])
            cmds += [[a + "_minelev", q, op[3]], [a + "_squash", q, op[2]]]
        else:
            crs = s["init"][1] if s["init"] else CRSS[0]
            nv = len(s["init"][2]) if s["init"] else 1
            pts = appgen.place(ms, refs[crs], op[2])
            if not pts:
                continue
            loc = [p[:2] for p in pts]
            qs = [[a + "_query", q, nv, len(pts), flat(pts)], [a + "_top", q, len(pts), flat(loc)], [a + "_topo", q, len(pts), flat(loc)]]
            if len(op) > 3:
                qs = [c for c in qs if c[0].endswith("_" + op[3])]
            others = [[api(t) + "_err", "q%d" % i] for i, t in sorted(objs.items()) if i != o]
            cmds += others
            at = len(cmds)
            cmds += qs + others
            checks.append((at + len(qs), "status", (at - len(others), len(others)), "query"))
            if s["init"]:
                fresh += setup(s)
                for j, c in enumerate(qs):
                    checks.append((at + j, "same", len(fresh), c[0]))
                    fresh.append([c[0], "f"] + c[2:])
                fresh.append([a + "_del", "f"])
                important = important or (s["past"] and len(objs) > 1)
            else:
                for j, c in enumerate(qs):
                    if c[0].endswith("_query"):
                        checks.append((at + j, "error", (nv, len(pts)), "query without initialization"))
                    else:
                        checks.append((at + j, "nodata", len(pts), "elevation without initialization"))
    got = ctx.run(cmds, "driver#reuse" if case.get("reuse") else "driver")
    want = ctx.run(fresh, "driver#2")
    inside = False
    for i, how, arg, what in checks:
        r = got[i] if how != "status" else None
        if how == "same":
            expect(repr(r) == repr(want[arg]), "%s after %d operations: %r, but a new object gives %r", what, i, r, want[arg])
            inside = inside or ("_query" in cmds[i][0] and 0 in r)
        elif how == "status":
            expect(repr(got[i:i + arg[1]]) == repr(got[arg[0]:arg[0] + arg[1]]), "%s of one object changed the status or message of another one from %r to %r",
                   what, got[arg[0]:arg[0] + arg[1]], got[i:i + arg[1]])
        elif how == "ok":
            expect(not isinstance(r[0], Exc) and r[0] in ("ok", 0), "%s failed: %r", what, r)
        elif how == "fails":
            expect(r == [2] if arg else isinstance(r[0], Exc), "%s did not fail: %r", what, r)
        elif how == "nodata":
            expect(r == [models.NODATA] * arg, "%s: %r", what, r)
        else:
            nv, n = arg
            k = 0
            for _ in range(n):
                if isinstance(r[k], Exc):
                    k += 1
                else:
                    expect(r[k] == 2, "%s returned status %r", what, r[k])
                    k += 1 + nv
    return Info(important and inside, ["objects %d" % len(objs)], len(case["ops"]))


PARTS = [Part("history", cases(), run, 650, 20000)]
