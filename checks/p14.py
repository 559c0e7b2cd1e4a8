"""The borehole application."""
import os
from fractions import Fraction

from hypothesis import assume
from hypothesis import strategies as st

from gmg import appgen, models
from gmg.common import flat, ok, split_rows, write_models
from gmg.core import Info, Part, expect

RULE = ("One case is 1-2 generated models, a location (inside or outside), maximum depth and resolution (decimal numbers whose ratio is "
        "often an integer; defaults, 0, maximum depth below the resolution; a few columns of more than 2^16 rows), values, input CRS, log, and option order and spelling; "
        "the rows are compared with the exact list of depths and with the library's elevation and values. An evaluation is one row. "
        "Non-trivial: at least three rows, values inside the model in two different rows, and resolution not a binary fraction or a "
        "model with a surface, or the location is outside all models.")
TARGETS = ["driver", "app_borehole"]


@st.composite
def cases(draw, long=False):
    ms = draw(appgen.model_sets(big=False, nodata=draw(st.integers(0, 4)) == 0, surfaces=("top", "both", "none", "topo")))
    hz = ms[0]["dims"][2]
    dz = draw(st.one_of(st.none(), st.sampled_from(["0.1", "0.3", "0.7", "1.1", "12.6", "25", "100", "2.5e2", "33.3", "1e3", "7"]),
                        st.integers(1, 99999).map(lambda i: "%d.%02d" % (i // 100, i % 100)),
                        st.integers(1, 30).map(lambda k: "%.6g" % (hz / k))))
    step = Fraction(dz) if dz else Fraction(10)
    kind = draw(st.integers(0, 5))
    if kind == 0 and step >= 10:
        depth = None
    elif kind == 1:
        depth = step * draw(st.sampled_from([0, Fraction(1, 2), 1]))
    elif kind == 2:
        depth = step * draw(st.integers(0, 150)) + step * draw(st.integers(1, 9)) / 10
    else:
        depth = step * draw(st.integers(1, 150))
    if long:
        dz = draw(st.sampled_from(["0.05", "0.25", "1"]))
        depth = Fraction(dz) * draw(st.integers(65540, 68000))
    if depth is not None:
        depth = _dec(depth)
    return {"models": ms, "values": draw(st.lists(st.sampled_from(ms[0]["names"]), min_size=1, max_size=3)), "dz": dz, "depth": depth,
            "at": draw(st.tuples(st.integers(0, 3), *[st.one_of(st.floats(0.0, 1.0, width=32), st.sampled_from([0.5, 0.25]),
                                                                st.floats(-0.25, 1.25, width=32))] * 2)),
            "crs": draw(st.sampled_from([None, None] + models.INPUT_CRS)), "num": draw(st.tuples(appgen.NUMBER, appgen.NUMBER)),
            "log": draw(st.booleans()), "sp": draw(appgen.spelling(8))}


def _dec(q):
    """A fraction with a finite decimal expansion as decimal text."""
    k = 0
    while (q * 10**k).denominator != 1:
        k += 1
    s = str(int(q * 10**k)).rjust(k + 1, "0")
    return s if not k else s[:-k] + "." + s[-k:]


def run(case, ctx):
    ms, names = case["models"], case["values"]
    d = ctx.sub()
    files = write_models(ms, d)
    crs = case["crs"] or "EPSG:4326"
    refs = [models.Ref(m, crs) for m in ms]
    at = appgen.place(ms, refs, [list(case["at"]) + ["zero"]], 2)
    assume(at)
    x, y = at[0]
    of, lf = os.path.join(d, "bore.out"), os.path.join(d, "log.txt")
    opts = [("location", "%s,%s" % (appgen.number(x, case["num"][0]), appgen.number(y, case["num"][1]))), ("values", ",".join(names)),
            ("models", ",".join(files)), ("output", of)]
    for key, name in (("crs", "points-coordsys"), ("dz", "dz"), ("depth", "max-depth")):
        if case[key] is not None:
            opts.append((name, case[key]))
    if case["log"]:
        opts.append(("log", lf))
    r = ctx.app("borehole", appgen.spell("borehole", opts, case["sp"]))
    nv = len(names)
    init = [["Q_new", "q"], ["Q_init", "q", crs, len(files), files, nv, names]]
    res = ctx.run(init + [["Q_top", "q", 1, [x, y]]])
    ok(res[1], "initialize")
    top = res[2][0]
    if top == models.NODATA:
        expect(r.rc != 0, "the location %r is outside the models but the application succeeded", (x, y))
        expect((r.out + r.err).strip(), "no message for a location outside the models")
        if os.path.exists(of):
            with open(of) as f:
                rows = [v for v in f if v.strip() and not v.startswith("#")]
            expect(not rows, "rows were written for a location outside the models: %r", rows[:2])
        return Info(True, ["outside"])
    expect(r.rc == 0, "geomodelgrids_borehole failed (%d): %s%s", r.rc, r.out, r.err)
    dz, depth = Fraction(case["dz"] or 10), Fraction(case["depth"] or 5000)
    n = depth // dz + 1
    assume(depth % dz == 0 or dz - depth % dz > dz / 10**4)
    # The first sample is a millionth below the top so that it is inside the model.
    elevs = []
    for i in range(n):
        e = top - float(i * dz)
        elevs += [e, e, e] if top == 0.0 else [e - 2e-6, e - 1e-6, e - 1e-6 if i == 0 else e]
    res = ctx.run(init + [["Q_query", "q", nv, 3 * n, flat([[x, y, e] for e in elevs])]])
    vals = split_rows(res[2], 3 * n, nv)
    with open(of, newline="") as f:
        text = f.read()
    expect(text.endswith("\n"), "the output does not end with a newline: %r", text[-200:])
    lines = text[:-1].split("\n")
    expect(len(lines) >= 2 and lines[0].startswith("#") and lines[1].startswith("#"), "the header is %r", lines[:2])
    expect([c.lower() for c in lines[1][1:].split()] == ["elevation", "depth"] + [v.lower() for v in names], "the columns are %r", lines[1])
    rows = lines[2:]
    expect(len(rows) == n, "%d rows for maximum depth %s and resolution %s, expected %d", len(rows), case["depth"], case["dz"], n)
    seen = set()
    for i, line in enumerate(rows):
        got = [float(v) for v in line.split()]
        expect(len(got) == 2 + nv, "row %d is %r", i, line)
        want = float(i * dz)
        e = top - want
        expect(abs(got[1] - want) <= 0.51e-6 * want + 1e-9 * abs(e) + 1e-12 * abs(top), "depth of row %d is %r, expected %r", i, got[1], want)
        expect(abs(got[0] - e) <= 0.51e-6 * abs(e) + 3e-6, "elevation of row %d is %r, expected %r", i, got[0], e)
        for k in range(nv):
            c = [vals[3 * i + j][1][k] for j in range(3)]
            fine = any(appgen.near("%r" % got[2 + k], v) for v in c)
            if models.NODATA not in c:
                fine = fine or min(c) - 0.51e-6 * abs(min(c)) <= got[2 + k] <= max(c) + 0.51e-6 * abs(max(c))
            expect(fine, "%s at depth %r is %r, the library returns %r", names[k], want, got[2 + k], c)
        if got[2] != models.NODATA:
            seen.add(got[2])
    odd = dz.denominator & (dz.denominator - 1) or top != 0.0
    return Info(n >= 3 and len(seen) > 1 and odd, ["multiple" if depth % dz == 0 else "not multiple", "top" if top else "flat"], n)


PARTS = [Part("column", cases(), run, 800, 18000), Part("long column", cases(True), run, 5, 60)]
