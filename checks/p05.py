"""Independence of query results from history and from the size of the read windows."""
import math

from hypothesis import strategies as st

from gmg import models
from gmg.common import flat, ok, q_init, split_rows, write_models
from gmg.core import Info, Part, expect
from gmg.driver import Exc

RULE = ("history: a sequence of up to 24 value and elevation queries (points placed near low and high grid indices and around "
        "multiples of the default window size, or at the location of an earlier query; squashing is changed between them) on one query object over one or two generated models with axes of up to 300 points "
        "is compared, result by result, with the same query made first on a fresh object. windows: one model is queried with drawn "
        "window sizes (2 points to larger than the grid) and compared with the same queries with the default sizes. An evaluation is "
        "one compared query. Non-trivial: (history) the sequence visits both ends of an axis longer than a default read window, "
        "(windows) the drawn window is smaller than the grid along some axis and a point was inside.")
TARGETS = ["driver"]

IDX = st.one_of(st.sampled_from([0, 1, 62, 63, 64, 65, 126, 127, 128, 129, 190, 191, 192]), st.integers(0, 300), st.integers(-4, -1))
W = st.one_of(st.sampled_from([0.0, 0.5, 1.0, 0.25]), st.floats(0.0, 1.0, width=32))


@st.composite
def big_models(draw, name="model.h5", nodata=True):
    """Models with one or two long axes."""
    m = draw(models.models(big=False, nodata=False, max_blocks=2, name=name, nvalues=draw(st.integers(1, 2)), crs=models.UTM10,
                           surfaces=("top", "both", "none")))
    for o in [b for b in m["blocks"]] + [s for s in (m["top"], m["topo"]) if s]:
        k = draw(st.integers(0, 3))
        ax = [draw(st.integers(0, 1)) for _ in range(k)] if k < 3 else [0, 1]
        for a in set(ax):
            o["n"][a] = draw(st.sampled_from([65, 66, 70, 127, 128, 129, 130, 150, 200, 300]))
            if len(set(ax)) == 2:
                o["n"][a] = min(o["n"][a], 140)
            o["xy"[a]] = None
        if "z" in o:
            if len(set(ax)) == 2:
                o["n"][2] = min(o["n"][2], 3)
            if o["z"] is not None and len(o["z"]) != o["n"][2]:
                o["z"] = None
            for _ in range(draw(st.integers(0, 4))):
                o["nodata"].append([draw(st.integers(0, o["n"][0] - 1)), draw(st.integers(0, o["n"][1] - 1)),
                                    draw(st.integers(0, o["n"][2] - 1)), draw(st.integers(0, len(m["names"]) - 1))])
            if o["dtype"] == "<i4":
                o["dtype"] = "<f4"
    for k in ("top", "topo"):
        if m[k]:
            for a in "xy":
                if m[k][a] is not None and len(m[k][a]) != m[k]["n"]["xy".index(a)]:
                    m[k][a] = None
    return m


@st.composite
def gpoint(draw):
    p = [draw(st.integers(0, 3))]
    for k in range(3):
        p += [draw(IDX), draw(W)]
    return p


@st.composite
def history(draw):
    n = draw(st.sampled_from([1, 1, 1, 2]))
    ms = [draw(big_models(name="m%d.h5" % i)) for i in range(n)]
    names = [nm for nm in ms[0]["names"] if all(nm in m["names"] for m in ms)]
    ops = draw(st.lists(st.tuples(st.sampled_from(["query", "query", "query", "top", "topo"]), st.integers(0, n - 1), gpoint()),
                        min_size=2, max_size=24))
    case = {"models": ms, "names": names, "ops": ops, "same": draw(st.booleans()), "again": [], "config": []}
    dense = draw(st.integers(0, 2)) == 0
    for i in range(len(ops)):  # locations of earlier queries, and changes of the configuration
        case["again"].append(draw(st.sampled_from([1, 1, 1, 2, 0] if dense else [0, 0, 0, 1, 1, 2, 5])))
        if dense:
            case["config"].append(draw(st.one_of(st.none(), st.tuples(st.just("Q_squash"), st.sampled_from([1, 2, 2, 1, 0])),
                                                 st.tuples(st.just("Q_squash"), st.sampled_from([2, 1])),
                                                 st.tuples(st.just("Q_minelev"), st.sampled_from([-0.9, -2.0])))))
            continue
        case["config"].append(draw(st.one_of(st.none(), st.none(), st.none(), st.tuples(st.just("Q_squash"), st.sampled_from([0, 1, 2])),
                                             st.tuples(st.just("Q_minelev"), st.sampled_from([-0.3, -1.0, -0.05])))))
    return case


def place(ref, spec, p):
    b = spec["blocks"][p[0] % len(spec["blocks"])]
    q = [p[0]]
    for k in range(3):
        q += [p[1 + 2 * k] % (b["n"][k] - 1), p[2 + 2 * k]]
    return ref.place(q)


def location(ref, spec, p, key):
    s = spec[key] or spec["top"] or spec["topo"]
    if not s:
        return place(ref, spec, p)[:2]
    out = []
    for k in range(2):
        c = models.axis_coords(s["xy"[k]], s["n"][k], spec["dims"][k])
        i = p[1 + 2 * k] % (s["n"][k] - 1)
        out.append(min(float(c[i] + p[2 + 2 * k] * (c[i + 1] - c[i])), spec["dims"][k]))
    return out


def close(a, b):
    if isinstance(a, Exc) or isinstance(b, Exc) or isinstance(a, str) or isinstance(b, str):
        return a == b
    if models.NODATA in (a, b):
        return a == b
    return a == b or abs(a - b) <= 1e-9 * (abs(a) + abs(b)) + 1e-12


def run_history(case, ctx):
    ms, crs = case["models"], models.UTM10
    if len(ms) > 1 and case["same"]:
        for m in ms[1:]:
            m.update(origin=[ms[0]["origin"][0] + 0.25 * ms[0]["dims"][0], ms[0]["origin"][1]])
    files = write_models(ms, ctx.dir)
    refs = [models.Ref(m, crs) for m in ms]
    nv = len(case["names"])
    ops, lens, conf, cur = [], set(), [], []
    for i, (op, mi, p) in enumerate(case["ops"]):
        if case.get("config") and case["config"][i]:
            k, v = case["config"][i]
            if not cur:
                cur = [["Q_minelev", "q", -0.4 * min(m["dims"][2] for m in ms)]]
            cur = cur + [[k, "q", v if k == "Q_squash" else v * max(m["dims"][2] for m in ms)]]
        conf.append(cur)
        ref, spec = refs[mi % len(ms)], ms[mi % len(ms)]
        if op == "query":
            x, y, z = place(ref, spec, p)
            pt = [float(v) for v in ref.to_input(x, y, ref.unsqueeze(x, y, z))]
            ops.append(["Q_query", "q", nv, 1, pt])
        else:
            x, y = location(ref, spec, p, op)
            pt = [float(v) for v in ref.to_input(x, y, 0.0)]
            ops.append(["Q_" + op, "q", 1, pt[:2]])
        back = case["again"][i] if case.get("again") else 0
        if back and i >= back:  # the location of an earlier query
            ops[-1][-1][:2] = ops[i - back][-1][:2]
        for k in range(2):
            lens.add((mi, op, k, p[1 + 2 * k] % 300 > 64))
    cmds, at, n = q_init(files, case["names"], crs), [], 0
    for o, c in zip(ops, conf):
        cmds += c[n:] + [o]
        n = len(c)
        at.append(len(cmds) - 1)
    one = ctx.run(cmds)
    ok(one[1], "initialize")
    cmds, new = [], []
    for o, c in zip(ops, conf):
        cmds += q_init(files, case["names"], crs) + c + [o, ["Q_del", "q"]]
        new.append(len(cmds) - 2)
    fresh = ctx.run(cmds)
    for i, o in enumerate(ops):
        a, b = one[at[i]], fresh[new[i]]
        expect(len(a) == len(b) and all(close(u, v) for u, v in zip(a, b)),
               "query %d of the sequence, %r, gives %r but gives %r on a fresh object", i, o, a, b)
    both = any((m, op, k, True) in lens and (m, op, k, False) in lens for m, op, k, _ in lens)
    labels = ["%d models" % len(ms)] + (["two kinds of query"] if len({o[0] for o in ops}) > 1 else [])
    labels += ["configuration changed"] * bool(cur)
    return Info(both, labels, len(ops))


@st.composite
def windows(draw):
    m = draw(st.one_of(big_models(), models.models(big=False, nodata=True, crs=models.UTM10)))
    d = st.one_of(st.integers(2, 6), st.integers(2, 40), st.sampled_from([63, 64, 65, 128, 1000]))
    return {"model": m, "slabs": [[draw(d), draw(d), draw(d)] for _ in range(4)],
            "points": draw(st.lists(gpoint(), min_size=1, max_size=24))}


def run_windows(case, ctx):
    spec, crs = case["model"], models.UTM10
    files = write_models([spec], ctx.dir)
    ref = models.Ref(spec, crs)
    pts, locs = [], []
    for p in case["points"]:
        x, y, z = place(ref, spec, p)
        x, y = max(1e-7 * spec["dims"][0], min(x, spec["dims"][0] * (1 - 1e-7))), max(1e-7 * spec["dims"][1], min(y, spec["dims"][1] * (1 - 1e-7)))
        z = min(-1e-6 * spec["dims"][2], max(z, -spec["dims"][2] * (1 - 1e-7)))
        pts.append([float(v) for v in ref.to_input(x, y, ref.unsqueeze(x, y, z))])
        locs.append(pts[-1][:2])
    nv = len(spec["names"])

    def script(slabs):
        c = [["M_new", "m"], ["M_incrs", "m", crs], ["M_open", "m", files[0]], ["M_load", "m"]]
        if slabs:
            c += [["M_slab", "m", str(i), case["slabs"][i % 4]] for i in range(len(spec["blocks"]))]
            c += [["M_slab", "m", k, case["slabs"][3][:2]] for k in ("top", "topo") if spec[k]]
        c += [["M_init", "m"], ["M_query", "m", nv, len(pts), flat(pts)], ["M_top", "m", len(pts), flat(locs)],
              ["M_topo", "m", len(pts), flat(locs)]]
        return c

    a = ctx.run(script(True))
    b = ctx.run(script(False))
    for u, v, what in zip(a[-3:], b[-3:], ("values", "top elevations", "topography elevations")):
        expect(len(u) == len(v) and all(close(s, t) for s, t in zip(u, v)),
               "%s with windows %r are %r, with default windows %r (points %r)", what, case["slabs"], u, v, pts)
    small = any(case["slabs"][i % 4][k] < b_["n"][k] for i, b_ in enumerate(spec["blocks"]) for k in range(3))
    inside = any(t == 0 for t in b[-3] if isinstance(t, int))
    return Info(small and inside, [], len(pts))


PARTS = [Part("history", history(), run_history, 1200, 12000), Part("windows", windows(), run_windows, 400, 8000)]
