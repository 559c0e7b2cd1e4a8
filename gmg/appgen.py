"""Command lines, points files and output files of the command line applications."""
import math

from hypothesis import strategies as st

from . import models
from .common import follow
from .core import expect

SHORT = {"query": {"help": "h", "values": "v", "squash-min-elev": "s", "squash-surface": "r", "points": "p", "points-coordsys": "c",
                   "output": "o", "log": "l", "models": "m"},
         "queryelev": {"help": "h", "points": "p", "points-coordsys": "c", "output": "o", "log": "l", "models": "m", "surface": "s"},
         "borehole": {"help": "h", "values": "v", "max-depth": "d", "location": "p", "dz": "r", "points-coordsys": "c", "output": "o",
                      "log": "l", "models": "m"},
         "isosurface": {"help": "h", "log": "l", "bbox": "b", "hresolution": "r", "vresolution": "v", "isosurface": "i",
                        "depth-reference": "s", "max-depth": "d", "num-search-points": "n", "models": "m", "output": "o",
                        "prefer-deep": "p", "bbox-coordsys": "c"},
         "info": {"help": "h", "description": "d", "blocks": "b", "coordsys": "c", "values": "v", "verify": "q", "all": "a", "models": "m"}}

NUMBER = st.sampled_from(["r", "r", "e", "E", "g", "+", "0"])
GAP = st.sampled_from([" ", "  ", "\t", " \t ", "      ", "\n", "\r\n", "\n\n  "])
EOL = st.sampled_from(["\n", "\n", "\n", "\r\n", " \n", "\n\n", "\n  ", "\t\n"])


def number(v, how):
    if how == "e":
        t = "%.17e" % v
    elif how == "E":
        t = "%.17E" % v
    elif how == "g":
        t = "%.17g" % v
    else:
        t = repr(float(v))
    if how == "+" and not t.startswith("-"):
        t = "+" + t
    if how == "0" and "e" not in t:
        t += "000"
    return t


@st.composite
def layout(draw):
    """How a points file is laid out: patterns that repeat over the numbers."""
    return {"num": draw(st.lists(NUMBER, min_size=1, max_size=5)),
            "gap": draw(st.lists(draw(st.sampled_from([st.just(" "), st.sampled_from([" ", "\t", "   "]), GAP])), min_size=1, max_size=5)),
            "eol": draw(st.lists(draw(st.sampled_from([st.just("\n"), EOL])), min_size=1, max_size=4)),
            "head": draw(st.sampled_from(["", "", "", "  ", "\n", "\t"])),
            "tail": draw(st.sampled_from(["eol", "eol", "none", "none", "space", "blank"]))}


def points_text(pts, lay):
    out, k, g = [lay["head"]], 0, 0
    for i, p in enumerate(pts):
        for j, v in enumerate(p):
            if j:
                out.append(lay["gap"][g % len(lay["gap"])])
                g += 1
            out.append(number(v, lay["num"][k % len(lay["num"])]))
            k += 1
        last = i + 1 == len(pts)
        out.append({"eol": lay["eol"][i % len(lay["eol"])], "none": "", "space": "  ", "blank": "\n\n \n"}[lay["tail"] if last else "eol"])
    return "".join(out)


@st.composite
def spelling(draw, n):
    """For n options: the order of the options and how each is spelled."""
    return {"order": list(draw(st.permutations(range(n)))),
            "how": draw(st.lists(st.sampled_from(["long=", "long=", "long ", "short", "short "]), min_size=n, max_size=n))}


def spell(app, opts, sp):
    """Command line arguments for options [(name, value), ...]."""
    args = []
    order = [i for i in sp["order"] if i < len(opts)]
    for i in order:
        (name, value), how = opts[i], sp["how"][i]
        if value is None:
            args.append("--" + name if how.startswith("long") else "-" + SHORT[app][name])
        elif how == "long=":
            args.append("--%s=%s" % (name, value))
        elif how == "long ":
            args += ["--" + name, value]
        elif how == "short":
            args.append("-%s%s" % (SHORT[app][name], value))
        else:
            args += ["-" + SHORT[app][name], value]
    return args


def near(text, want):
    """Whether a printed number is the given one, to seven significant digits."""
    try:
        got = float(text)
    except ValueError:
        return False
    return abs(got - want) <= 0.51e-6 * abs(want) + 1e-300


def check_rows(path, columns, rows, what):
    with open(path, newline="") as f:
        text = f.read()
    expect(text.endswith("\n"), "%s: the output does not end with a newline: %r", what, text[-200:])
    lines = text[:-1].split("\n")
    expect(len(lines) >= 2 and lines[0].startswith("#") and lines[1].startswith("#"), "%s: the header is %r", what, lines[:2])
    expect(lines[1][1:].split() == columns, "%s: the columns are %r, expected %r", what, lines[1], columns)
    for i, (line, want) in enumerate(zip(lines[2:], rows)):
        got = line.split()
        expect(len(got) == len(want) and all(near(g, w) for g, w in zip(got, want)), "%s: row %d is %r, expected %r", what, i, line, want)
    expect(len(lines) - 2 == len(rows), "%s: %d rows for %d points", what, len(lines) - 2, len(rows))


@st.composite
def model_sets(draw, nmax=2, names=None, **kw):
    """One or more models that hold the same values, next to each other or overlapping."""
    names = names or list(draw(st.permutations(["Vp", "Vs", "density", "Qp"] + draw(st.sampled_from([[], ["fault_block_id"], ["shear_attenuation"]])))))[:draw(st.integers(1, 4))]
    tiny = draw(st.integers(0, 15)) == 0  # values with long exponents
    units = {"Vp": "m/s", "Vs": "m/s", "density": "kg/m**3", "Qp": "None"}
    ms = []
    for i in range(draw(st.integers(1, nmax))):
        m = draw(models.models(names=list(names) if i == 0 else list(draw(st.permutations(names))), crs=models.UTM10,
                               name="m%d.h5" % i, **dict({"max_blocks": 2}, **kw)))
        m["units"] = [units.get(k, "None") for k in m["names"]]
        for b in m["blocks"] if tiny else []:
            b.update(lo=0.0, span=-1e-150, dtype="<f8")
        if i:
            m["origin"] = [ms[0]["origin"][0] + draw(st.sampled_from([-0.5, 0.25, 0.75])) * ms[0]["dims"][0],
                           ms[0]["origin"][1] + draw(st.sampled_from([-0.5, 0.25, 0.75])) * ms[0]["dims"][1]]
        ms.append(m)
    return ms


@st.composite
def relative_points(draw, max_size=25, dim=3):
    """Points relative to a model: [model, fx, fy, depth fraction or None]."""
    f = st.one_of(st.floats(0.0, 1.0, width=32), st.floats(0.0, 1.0, width=32), st.sampled_from([0.0, 0.5, 1.0]), st.floats(-0.5, 1.5, width=32))
    z = st.one_of(st.floats(0.0, 1.0, width=32), st.floats(0.0, 0.125, width=32), st.sampled_from([0.0, "zero"]), st.floats(-0.125, 1.125, width=32))
    return draw(follow(st.tuples(st.integers(0, 3), f, f, z), draw(st.sampled_from([0, 1, 3])), max_size))


def place(ms, refs, rel, dim=3):
    pts = []
    for k, fx, fy, fz in rel:
        m, r = ms[k % len(ms)], refs[k % len(ms)]
        x, y = fx * m["dims"][0], fy * m["dims"][1]
        e = 0.0 if fz == "zero" else r.unsqueeze(x, y, -fz * m["dims"][2])
        q = [float(v) for v in r.to_input(x, y, e)[:dim]]
        if all(math.isfinite(v) for v in q):
            pts.append(q)
    return pts
