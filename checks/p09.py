"""Robustness of queries to any coordinates."""
import math

from hypothesis import strategies as st

from gmg import models
from gmg.common import flat, ok, split_rows, write_models
from gmg.core import Info, Part, expect
from gmg.driver import Exc

RULE = ("One case is 1-2 generated models, an input CRS, optional squashing and a sequence of up to 30 value and elevation queries that "
        "mixes special coordinates (infinities, NaN, subnormal, huge, outside the validity of the CRS, swapped axes), points on and "
        "within rounding of the domain faces and the block boundaries, and ordinary points, run under the address and undefined-behaviour "
        "sanitizers with assertions on; statuses are compared with the reference containment. An evaluation is one query. Non-trivial: "
        "the sequence has a special or boundary coordinate and an ordinary point inside that is queried afterwards.")
TARGETS = ["driver"]

SPECIAL = st.one_of(st.sampled_from([float("inf"), float("-inf"), float("nan"), 0.0, -0.0, 5e-324, 1e-310, 1e308, -1e308, 1e20, -1e20, 1e9,
                                     -1e9, 90.0, -90.0, 180.0, -180.0, 360.0, 91.0, 500000.0, 1e7, -1e7]),
                    st.floats())
EDGE = st.one_of(st.sampled_from([0.0, 1.0]), st.sampled_from([1e-16, 1e-13, 1e-11, 1e-9, 1e-7]).flatmap(
    lambda e: st.sampled_from([e, -e, 1.0 - e, 1.0 + e])))


@st.composite
def op(draw):
    kind = draw(st.sampled_from(["query", "query", "query", "top", "topo"]))
    k = draw(st.integers(0, 3))
    if k == 0:
        return [kind, "special", [draw(SPECIAL), draw(SPECIAL), draw(SPECIAL)], draw(st.integers(0, 6))]
    if k == 1:
        return [kind, "edge", [draw(st.one_of(EDGE, st.floats(0.0, 1.0, width=32))) for _ in range(3)], draw(st.integers(0, 1))]
    if k == 2:
        return [kind, "grid", draw(models.grid_points()), draw(st.integers(0, 1))]
    return [kind, "inside", [draw(st.floats(0.0625, 0.9375, width=16)) for _ in range(3)], draw(st.integers(0, 1))]


@st.composite
def cases(draw):
    n = draw(st.integers(1, 2))
    ms = [draw(models.models(nvalues=2, max_blocks=3, nodata=False, big=draw(st.integers(0, 4)) == 0, name="m%d.h5" % i)) for i in range(n)]
    return {"models": ms, "crs": draw(st.sampled_from(models.INPUT_CRS + [ms[0]["crs"]] * 6)),
            "ops": draw(st.lists(op(), min_size=3, max_size=30)), "squash": draw(st.sampled_from([0, 0, 1, 2]))}


def fix(v):
    return float(v)


def run(case, ctx):
    ms, crs = case["models"], case["crs"]
    files = write_models(ms, ctx.dir)
    refs = [models.Ref(m, crs) for m in ms]
    nv = 2
    sq, mn = case["squash"], -5000.0
    cmds = [["Q_new", "q"], ["Q_init", "q", crs, len(files), files, nv, ms[0]["names"]], ["Q_minelev", "q", mn], ["Q_squash", "q", sq]]
    pts = []
    for kind, how, data, sel in case["ops"]:
        ref, spec = refs[sel % len(ms)], ms[sel % len(ms)]
        d = spec["dims"]
        if how == "special":
            # Some coordinates special, the others ordinary.
            q = [float(v) for v in ref.to_input(0.5 * d[0], 0.5 * d[1], -0.5 * d[2])]
            if sel == 3:
                pt = [fix(data[0]), q[1], q[2]]
            elif sel == 4:
                pt = [q[0], fix(data[1]), q[2]]
            elif sel == 5:
                pt = [q[0], q[1], fix(data[2])]
            elif sel == 6:
                pt = [q[1], q[0], q[2]]
            else:
                pt = [fix(v) for v in data]
        else:
            if how == "grid":
                x, y, z = ref.place(data)
            else:
                x, y, z = data[0] * d[0], data[1] * d[1], -data[2] * d[2]
            pt = [float(v) for v in ref.to_input(x, y, ref.unsqueeze(x, y, z))]
        pts.append(pt)
        cmds.append(["Q_query", "q", nv, 1, pt] if kind == "query" else ["Q_" + kind, "q", 1, pt[:2]])
    cmds.append(["Q_err", "q"])
    res = ctx.run(cmds)
    ok(res[1], "initialize")
    special, after = False, False
    for (kind, how, data, sel), pt, r in zip(case["ops"], pts, res[4:]):
        states = []
        for ref in refs:
            if not all(math.isfinite(v) and abs(v) < 1e15 for v in (pt if kind == "query" else pt[:2])):
                states.append(0 if not all(map(math.isfinite, pt[:2])) else None)
                continue
            z = pt[2] if kind == "query" else 0.0
            x, y, e = ref.to_model(pt[0], pt[1], z)
            h = ref.horizontal(x, y)
            if h == 0 or not math.isfinite(e):
                states.append(0)
            elif kind != "query":
                states.append(h)
            elif sq:
                states.append(None if z > mn else ref.inside(x, y, ref.squeeze(x, y, e)))
            else:
                states.append(ref.inside(x, y, ref.squeeze(x, y, e)))
        if kind == "query" and any(math.isnan(v) for v in pt):
            states = [0] * len(refs)
        if kind != "query" and any(math.isnan(v) for v in pt[:2]):
            states = [0] * len(refs)
        where = 1 if 1 in states else 0 if all(s == 0 for s in states) else None
        if kind == "query":
            row = split_rows(r, 1, nv)[0]
            expect(isinstance(row, tuple), "query at %r raised %r", pt, row)
            expect(row[0] in (0, 1), "query at %r gave status %r", pt, row[0])
            if where is not None:
                expect(row[0] == 1 - where, "query at %r gave status %d, but %s", pt, row[0],
                       "a model contains it" if where else "no model contains it")
            if row[0] == 1:
                expect(all(v == models.NODATA for v in row[1]), "query at %r outside all models gave values %r", pt, row[1])
            else:
                lo = min(b["lo"] - 1.0 for m in ms for b in m["blocks"])
                hi = max((b["lo"] + b["span"]) * (10.0 if b["dtype"] == "<i4" else 1.0) + 1.0 for m in ms for b in m["blocks"])
                lo = min(lo, 10.0 * lo)
                expect(all(lo <= v <= hi for v in row[1]), "query at %r gave %r, outside the range of the data", pt, row[1])
            # Ordinary points still get the right values.
            if how == "inside" and row[0] == 0 and states[0] == 1 and not sq:
                x, y, e = refs[0].to_model(*pt)
                outs = refs[0].outcomes(x, y, refs[0].squeeze(x, y, e))
                expect(all(models.match(v, o) for v, o in zip(row[1], outs)), "query at %r gave %r, expected %r", pt, row[1], outs)
                after = after or special
        else:
            expect(not isinstance(r[0], Exc), "elevation query at %r raised %r", pt[:2], r[0])
            if where == 0:
                expect(r[0] == models.NODATA, "elevation at %r outside all models is %r", pt[:2], r[0])
            elif where == 1:
                expect(r[0] != models.NODATA and math.isfinite(r[0]), "elevation at %r inside a model is %r", pt[:2], r[0])
        if how != "inside":
            special = True
    return Info(special and after, ["squash %d" % sq], len(pts))


PARTS = [Part("any coordinates", cases(), run, 1600, 30000)]
