"""Squashing."""
import math

from hypothesis import strategies as st

from gmg import models
from gmg.common import flat, ok, split_rows, write_models
from gmg.core import Info, Part, expect

from . import p06

RULE = ("One case is a generated model (top surface, both surfaces, topography alone or none), and a sequence of squashing settings "
        "(surface, minimum elevation, re-initialization) interleaved with value queries at elevations around 0, around the minimum "
        "elevation and elsewhere; each result is compared with an unsquashed query at the documented elevation, computed from the "
        "elevation query. In the part overlap the case is a list of 2-4 overlapping models, and the result must be the one of the "
        "first model that contains the point squashed with its own surface. An evaluation is one point. Non-trivial (overlap): a "
        "point above the minimum elevation is answered by a later model whose surface differs from the first; (squash): squashing is on for a point above the minimum elevation inside the "
        "model where the surface is not at 0, and one point at or below it or with squashing off is inside.")
TARGETS = ["driver"]


@st.composite
def cases(draw):
    m = draw(models.models(surfaces=("top", "both", "both", "topo", "top", "none"), big=False, nodata=False))
    ops = []
    for _ in range(draw(st.integers(4, 12))):
        k = draw(st.integers(0, 9))
        if k <= 1:
            ops.append(["squash", draw(st.sampled_from([0, 1, 2]))])
        elif k <= 3:
            ops.append(["minelev", draw(st.one_of(st.sampled_from([-1.0e4, -500.0, -1.0, -45.0e3]),
                                                  st.integers(-20000, -1).map(float)))])
        elif k == 4:
            ops.append(["init"])
        elif k == 5:
            ops.append(["elev"])
        elif k == 6 and any(o[0] == "query" for o in ops):
            ops.append([o for o in ops if o[0] == "query"][-1])  # the same points again
        else:
            ops.append(["query", draw(st.lists(st.tuples(st.floats(0.0, 1.0, width=32), st.floats(0.0, 1.0, width=32),
                                                         st.sampled_from(["zero", "min", "frac", "frac", "below", "above", "abs"]),
                                                         st.floats(0.0, 1.0, width=32)), min_size=1, max_size=8))])
    return {"model": m, "crs": draw(st.sampled_from(models.INPUT_CRS)), "ops": ops}


def run(case, ctx):
    spec, crs = case["model"], case["crs"]
    files = write_models([spec], ctx.dir)
    ref = models.Ref(spec, crs)
    d, nv = spec["dims"], len(spec["names"])
    init = ["Q_init", "q", crs, 1, files, nv, spec["names"]]
    cmds, plan = [["Q_new", "q"], init], []
    surf, mn = 0, None
    for op in case["ops"]:
        if op[0] == "squash":
            surf = op[1]
            cmds.append(["Q_squash", "q", surf])
        elif op[0] == "minelev":
            mn = op[1]
            surf = surf or 1
            cmds.append(["Q_minelev", "q", mn])
        elif op[0] == "init":
            cmds.append(init)
        elif op[0] == "elev":
            p = [float(v) for v in ref.to_input(0.4 * d[0], 0.6 * d[1], 0.0)[:2]]
            cmds += [["Q_top", "q", 1, p]]
        else:
            m = mn if mn is not None else -1000.0
            pts = []
            for fx, fy, kind, f in op[1]:
                x, y, _ = [float(v) for v in ref.to_input(fx * d[0], fy * d[1], 0.0)]
                z = {"zero": 0.0, "min": m, "frac": m * f, "below": m - (f + 0.001) * d[2], "above": f * 100.0,
                     "abs": -f * d[2]}[kind]
                pts.append([x, y, z])
            if surf and mn is None:
                continue  # the minimum elevation was never set
            cmds.append(["Q_query", "q", nv, len(pts), flat(pts)])
            plan.append((len(cmds) - 1, surf, mn, pts))
    n0 = len(cmds)
    cmds += [["Q_new", "u"], ["Q_init", "u", crs, 1, files, nv, spec["names"]]]
    for _, s, _, pts in plan:
        cmds.append(["Q_topo" if s == 2 else "Q_top", "u", len(pts), flat([p[:2] for p in pts])])
    res = ctx.run(cmds)
    ok(res[1], "initialize")
    zq = []
    for i, (_, s, m, pts) in enumerate(plan):
        zs = res[n0 + 2 + i]
        zq.append([[x, y, (e + z * (m - e) / m) if s and z > m else z] for (x, y, z), e in zip(pts, zs)])
    un = ctx.run([["Q_new", "u"], ["Q_init", "u", crs, 1, files, nv, spec["names"]]] +
                 [["Q_query", "u", nv, len(p), flat(p)] for p in zq])
    squashed = plain = evals = 0
    for i, (k, s, m, pts) in enumerate(plan):
        got, want = split_rows(res[k], len(pts), nv), split_rows(un[2 + i], len(pts), nv)
        for p, q, a, b, zs in zip(pts, zq[i], got, want, res[n0 + 2 + i]):
            evals += 1
            expect(isinstance(a, tuple), "query at %r raised %r", p, a)
            if s and p[2] > m and zs == models.NODATA:
                # There is no surface elevation here, so the point must be outside or on the boundary.
                expect(ref.horizontal(*ref.to_model(p[0], p[1], 0.0)[:2]) != 1, "no elevation at %r", p)
                continue
            x, y, e = ref.to_model(*q)
            h = ref.horizontal(x, y)
            state = 0 if h == 0 else ref.inside(x, y, ref.squeeze(x, y, e)) if math.isfinite(e) else 0
            what = "query at %r with surface %d and minimum elevation %r gives %r; unsquashed at elevation %r it gives %r"
            if a[0] != b[0]:
                expect(state is None, what, p, s, m, a, q[2], b)
                continue
            if a[0] == 0:
                outs = ref.outcomes(x, y, ref.squeeze(x, y, e))
                for v in range(nv):
                    tol = 1e-7 * abs(b[1][v]) + 1e-5 * max(bl["span"] for bl in spec["blocks"])
                    expect(abs(a[1][v] - b[1][v]) <= tol or models.match(a[1][v], outs[v]), what, p, s, m, a, q[2], b)
                if s and p[2] > m and abs(zs) > 1.0:
                    squashed += 1
                elif not (s and p[2] > m):
                    plain += 1
            else:
                expect(all(v == models.NODATA for v in a[1]), what, p, s, m, a, q[2], b)
    labels = sorted({"surface %d" % s for _, s, _, _ in plan})
    return Info(squashed and plain, labels, max(evals, 1))


@st.composite
def overlap_cases(draw):
    case = draw(p06.cases())
    case["squash"] = draw(st.sampled_from([1, 2, 2]))
    deepest = max(m["dims"][2] for m in case["models"])
    case["minelev"] = -deepest * draw(st.sampled_from([0.25, 0.75, 1.0, 1.5]))
    return case


def run_overlap(case, ctx):
    """Every model of a list squashes with its own surface."""
    pts, files = p06.place(case, ctx)
    crs, names, m = case["crs"], case["names"], case["minelev"]
    nv, locs = len(names), flat([p[:2] for p in pts])
    surf = "Q_topo" if case["squash"] == 2 else "Q_top"
    new = [["Q_new", "u"]]
    elev = ctx.run([c for f in files for c in new + [["Q_init", "u", crs, 1, [f], nv, names], [surf, "u", len(pts), locs]]])
    at = []
    for j in range(len(files)):
        at.append([[x, y, (e + z * (m - e) / m) if z > m else z] for (x, y, z), e in zip(pts, elev[3 * j + 2])])
    res = ctx.run([["Q_new", "q"], ["Q_init", "q", crs, len(files), files, nv, names], ["Q_minelev", "q", m],
                   ["Q_squash", "q", case["squash"]], ["Q_query", "q", nv, len(pts), flat(pts)]] +
                  [c for f, p in zip(files, at) for c in new + [["Q_init", "u", crs, 1, [f], nv, names],
                                                               ["Q_query", "u", nv, len(pts), flat(p)]]])
    rows = [split_rows(res[5 + 3 * j + 2], len(pts), nv) for j in range(len(files))]
    refs = [models.Ref(s, crs) for s in case["models"]]
    later = evals = 0
    for i, (pt, got) in enumerate(zip(pts, split_rows(res[4], len(pts), nv))):
        expect(isinstance(got, tuple), "query at %r raised %r", pt, got)
        want, sure = (1, [models.NODATA] * nv), True
        for j in range(len(files)):
            x, y, e = refs[j].to_model(*at[j][i])
            # Some transformations shift points horizontally (by less than 1 m) with elevation.
            x0, y0, _ = refs[j].to_model(pt[0], pt[1], 0.0)
            h = refs[j].horizontal(x0, y0)
            near = any(abs(v) < 1.0 or abs(v - d) < 1.0 for v, d in zip((x0, y0), refs[j].dims))
            if near or h and (not math.isfinite(e) or refs[j].inside(x, y, refs[j].squeeze(x, y, e)) is None):
                sure = False  # within rounding of the boundary of this model
            if elev[3 * j + 2][i] == models.NODATA and pt[2] > m and h != 0:
                sure = False
            if rows[j][i][0] == 0:
                want = rows[j][i]
                break
        if not sure:
            continue
        evals += 1
        later += j > 0 and want[0] == 0 and pt[2] > m and elev[2][i] not in (models.NODATA, elev[3 * j + 2][i])
        same = got[0] == want[0] and all(a == b or abs(a - b) <= 1e-7 * abs(b) + 1e-3 for a, b in zip(got[1], want[1]))
        expect(same, "query at %r with surface %d and minimum elevation %r gives %r, but squashing in each model separately gives %r",
               pt, case["squash"], m, got, want)
    return Info(later, ["surface %d" % case["squash"]], max(evals, 1))


PARTS = [Part("squash", cases(), run, 1200, 20000), Part("overlap", overlap_cases(), run_overlap, 500, 8000)]
