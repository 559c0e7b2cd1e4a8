"""The rules of the USGS San Francisco Bay models give the published elastic properties."""
import math
import os
import shutil

from hypothesis import assume, strategies as st

from checks import p31
from gmg import build, create, sfbay
from gmg.core import Info, Part, expect
from gmg.pyclient import PyExc

RULE = ("rules: up to 12 points (fault block, zone, x, y, depth) of one of the three versions, at depths around the limits of the published "
        "relations and at locations around the points that separate rocks within a fault block; the rule given for the fault block and zone is "
        "evaluated and compared with a table of the published relations in their original units. functions: as rules, for each function of the "
        "rule modules and the half-plane test. model: a model created from a generated EarthVision model (as for P31) whose fault blocks and zones "
        "are those of the published models, with the rules of the repository. An evaluation is one point. Non-trivial: at least two different "
        "rocks (rules, model), or a point at each side of a line (functions).")
TARGETS = ["stage"]
ASSUMPTIONS = ["The published relations were taken from the comments and code of the rule modules (the publications are not available offline); the "
               "relations are checked for agreement, not for geological truth.", "Depths are not negative."]
FOLDER = os.path.join(build.REPO, "models", "usgs_sfbay")
A10 = "rules_aagaard_etal_2010"
H21 = "rules_hirakawa_aagaard_2021"
FUNCTIONS = [(A10, "upper_mantle", "mantle"), (A10, "mafic_great_valley_ophiolite", "ophiolite"), (A10, "franciscan_foothills", "foothills"),
             (A10, "franciscan_napa_sonoma", "napa_sonoma"), (A10, "franciscan_berkeley", "berkeley"), (A10, "salinian_granitic", "granite"),
             (A10, "great_valley_sequence_sedimentary", "gvs"), (A10, "quaternary_tertiary_sedimentary", "qt"),
             (A10, "tertiary_sedimentary_lahondabasin", "lahonda"), (A10, "tertiary_sedimentary_southbay", "southbay"),
             (A10, "cenozoic_sedimentary_halfmoonbay", "halfmoon"), (A10, "seawater", "water"), (A10, "outside_model", "outside"),
             (H21, "brocher2008_great_valley_sequence", "gvs2008"), (H21, "brocher2005_older_cenozoic_sedimentary", "cenozoic2005"),
             (H21, "franciscan_napa_sonoma", "napa_sonoma"), (H21, "quaternary_livermore", "livermore"), (H21, "cenozoic_walnutcreek", "walnutcreek"),
             (H21, "valley_sequence_sanleandro", "sanleandro"), (H21, "franciscan_napa", "napa_f"), (H21, "cenozoic_napa", "napa_c"),
             (H21, "franciscan_sonoma", "sonoma_f"), (H21, "cenozoic_sonoma", "sonoma_c")]
DEPTH = st.one_of(st.floats(0.0, 60.0), st.floats(0.0, 5.0e3), st.floats(0.0, 4.5e4), st.sampled_from(sfbay.DEPTHS), st.tuples(
    st.sampled_from(sfbay.DEPTHS[1:]), st.sampled_from([-1e-3, 1e-3, -0.5, 0.5, -5.0, 5.0])).map(sum))


@st.composite
def places(draw):
    """A location relative to one of the lines: (name, distance from the line, distance along the line)."""
    return [draw(st.sampled_from(sorted(sfbay.SPLIT))), draw(st.one_of(st.sampled_from([-1e5, 1e5]), st.floats(-3e4, 3e4), st.floats(-5.0, 5.0),
                                                                       st.sampled_from([-1e-3, 1e-3]))), draw(st.floats(-8e4, 8e4))]


def locate(p):
    x0, y0 = sfbay.SPLIT[p[0]][:2]
    a = math.radians(sfbay.AZIMUTH)
    return x0 + p[1] * math.sin(a) + p[2] * math.cos(a), y0 + p[1] * math.cos(a) - p[2] * math.sin(a)


@st.composite
def rule_cases(draw):
    v = draw(st.sampled_from(sorted(sfbay.VERSIONS)))
    zones, changes = sfbay.VERSIONS[v]
    pts = []
    for _ in range(draw(st.integers(2, 12))):
        if changes and draw(st.booleans()):
            z, b = draw(st.sampled_from(sorted(changes)))
        else:
            z = draw(st.sampled_from(sorted(zones)))
            b = draw(st.sampled_from((sfbay.REGIONAL if "regional" in v else sfbay.BLOCKS) + ["", "elsewhere"]))
        pts.append([b, z, draw(places()), draw(DEPTH)])
    return {"version": v, "points": pts}


def agree(got, want, what):
    expect(isinstance(got, (tuple, list)) and len(got) == 5 and got[0] != "EXC", "%s: the rule gives %r", what, got)
    for n, g, w in zip(("density", "Vp", "Vs", "Qp", "Qs"), got, want):
        expect(isinstance(g, (int, float)) and abs(g - w) <= 1e-7 * abs(w), "%s: %s is %r, the published relation gives %r", what, n, g, w)


def copy(ctx):
    """The rule modules are run from a copy, so that nothing is written to the repository."""
    d = os.path.join(ctx.dir, "sfbay_rules")
    if not os.path.isdir(d):
        os.mkdir(d)
        for f in os.listdir(FOLDER):
            if f.endswith(".py"):
                shutil.copy(os.path.join(FOLDER, f), d)
    return d


def run_rules(case, ctx):
    v = case["version"]
    pts = [[b, z, *locate(p), d] for b, z, p, d in case["points"]]
    got = ctx.py().call("sfbay_rules", copy(ctx), v, pts)
    expect(not isinstance(got, PyExc), "the rules of %s cannot be used: %r", v, got)
    seen = set()
    for (b, z, x, y, d), g in zip(pts, got):
        name = sfbay.name_of(v, b, z)
        want = sfbay.values(name, x, y, d)
        if want is None:
            continue
        seen.add((name, sfbay.side(name, x, y) > 0 if name in sfbay.SPLIT else None))
        agree(g, want, "%s: fault block %r, zone %r, x %r, y %r, depth %r (%s)" % (v, b, z, x, y, d, name))
    return Info(len(seen) > 1, ["line"] * any(s[1] is not None for s in seen), len(pts))


def run_functions(case, ctx):
    calls, names = [], []
    for i, p, d in case["points"]:
        m, f, n = FUNCTIONS[i]
        calls.append([m, f, *locate(p), d])
        names.append(n)
    k = len(calls)
    lines = []
    for (x0, y0), az, dist, along in case["lines"]:
        a = math.radians(az)
        lines.append((x0 + dist * math.sin(a) + along * math.cos(a), y0 + dist * math.cos(a) - along * math.sin(a), x0, y0, az))
    got = ctx.py().call("sfbay_functions", copy(ctx), calls)
    expect(not isinstance(got, PyExc), "the rules cannot be used: %r", got)
    for c, n, g in zip(calls, names, got):
        want = sfbay.values(n, *c[2:])
        if want is not None:
            agree(g, want, "%s.%s(%r, %r, %r)" % tuple(c))
    got = ctx.py().call("sfbay_along", copy(ctx), H21, lines)
    expect(not isinstance(got, PyExc), "the rules cannot be used: %r", got)
    sides = set()
    for l, g, (_, _, dist, _) in zip(lines, got, case["lines"]):
        expect(bool(g) == (dist > 0), "is_along_azimuth%r is %r, the point is %g m from the line in the direction of the azimuth", l, g, dist)
        sides.add(dist > 0)
    return Info(len(sides) > 1, [], k + len(lines))


XY = st.tuples(st.integers(-500000, 500000), st.integers(-500000, 500000)).map(lambda p: [p[0] / 4.0, p[1] / 4.0])
FUNCTION_CASES = st.fixed_dictionaries({
    "points": st.lists(st.tuples(st.integers(0, len(FUNCTIONS) - 1), places(), DEPTH), min_size=1, max_size=8),
    "lines": st.lists(st.tuples(XY, st.one_of(st.integers(-360, 720).map(float), st.just(sfbay.AZIMUTH)), st.one_of(
        st.floats(0.01, 1e5), st.floats(-1e5, -0.01)), st.floats(-1e5, 1e5)), min_size=1, max_size=4)})


# ------------------------------------------------------------------------------------------------- models
@st.composite
def model_cases(draw):
    v = draw(st.sampled_from(["USGS_SFCVM_detailed_v21-1"] * 2 + sorted(sfbay.VERSIONS)))
    zones, changes = sfbay.VERSIONS[v]
    case = draw(p31.cases())
    c, m = case["config"], case["model"]
    assume(c["top"])
    c["topo"] = None
    split = draw(st.sampled_from(sorted(sfbay.SPLIT)))
    az = math.radians(c["azimuth"])
    lx, ly = [float(q) for q in c["dims"][:2]]
    fx, fy = draw(st.floats(0.1, 0.9)), draw(st.floats(0.1, 0.9))
    c["origin"] = [round(sfbay.SPLIT[split][0] - fx * lx * math.cos(az) - fy * ly * math.sin(az), 2),
                   round(sfbay.SPLIT[split][1] + fx * lx * math.sin(az) - fy * ly * math.cos(az), 2)]
    zs, bs = len(m["zones"]), len(m["blocks"])
    fancy = sorted(changes)
    pool = draw(st.lists(st.sampled_from(fancy), min_size=1, max_size=4, unique=True)) if fancy else []
    zpool = sorted({z for z, _ in pool}) + draw(st.permutations(sorted(set(zones) - {"", "<null>"} - {z for z, _ in pool})))
    bpool = sorted({b for _, b in pool}) + draw(st.permutations([b for b in (sfbay.REGIONAL if "regional" in v else sfbay.BLOCKS) if
                                                                 b not in {q for _, q in pool}]))
    ren = [dict(zip(m["zones"], zpool[:zs])), dict(zip(m["blocks"], bpool[:bs]))]
    m["iz"] = [ren[0].get(z, z) for z in m["iz"]]
    m["ix"] = [ren[1].get(b, b) for b in m["ix"]]
    m["zones"], m["blocks"] = zpool[:zs], bpool[:bs]
    m["rules"], m["version"] = {}, v
    c["values"], c["units"] = ["density", "Vp", "Vs", "Qp", "Qs"], ["kg/m**3", "m/s", "m/s", "None", "None"]
    return dict(case, rules_fn=v + ".get_rules", deep=False)


def published(c, m, f, z, k, x, y, depth, xtol, ztol):
    name = sfbay.name_of(m["version"], f, z)
    if name in sfbay.SPLIT and abs(sfbay.side(name, x, y)) < 3 * xtol + 1e-3:
        return -math.inf, math.inf, 0.0
    ds = [depth - ztol, depth, depth + ztol]
    for d in sfbay.DEPTHS[1:]:
        if abs(d - depth) <= ztol:
            ds += [d, math.nextafter(d, -1.0)]
    w = [sfbay.values(name, x, y, d)[k] for d in ds]
    return min(w), max(w), 1e-6 * max(map(abs, w)) + 1e-6


def run_model(case, ctx):
    return p31.run(dict(case, rules_path=copy(ctx)), ctx, published)


PARTS = [Part("rules", rule_cases(), run_rules, 1200, 20000), Part("functions", FUNCTION_CASES, run_functions, 800, 12000),
         Part("model", model_cases(), run_model, 80, 1200)]
