"""Command lines of the applications."""
import os

from hypothesis import strategies as st

from gmg import appgen, models
from gmg.common import write_models
from gmg.core import Info, Part, expect

RULE = ("Bad: a valid command line of one of the five applications (drawn optional options, order, spelling) with 1-2 faults: a required option "
        "left out, an unknown option, a missing argument, an invalid value, an unreadable model, an unreadable points file, an output file that "
        "cannot be written. It must end with a nonzero exit code and a message. Good: the same options given twice in different order and "
        "spelling, whose outputs must be identical, and help. Sweep: no arguments, help, and ten "
        "consecutive faults from the list of all single faults of the application, one per command line. An evaluation is one run. Non-trivial: all bad command lines; good ones with "
        "a different order or spelling.")
TARGETS = ["app_query", "app_queryelev", "app_borehole", "app_isosurface", "app_info"]
ASSUMPTIONS = ["A number followed by other characters (12abc) is not among the invalid values: the applications read the leading number.",
               "Requests for help are not combined with faults other than missing options."]

REQUIRED = {"query": ["models", "values", "points", "output"], "queryelev": ["models", "points", "output"],
            "borehole": ["models", "values", "location", "output"],
            "isosurface": ["models", "bbox", "hresolution", "isosurface", "max-depth", "output"],
            "info": ["models"]}
OPTIONAL = {"query": ["squash-min-elev", "squash-surface", "points-coordsys", "log"], "queryelev": ["points-coordsys", "surface", "log"],
            "borehole": ["max-depth", "dz", "points-coordsys", "log"],
            "isosurface": ["vresolution", "depth-reference", "num-search-points", "prefer-deep", "bbox-coordsys", "log"],
            "info": ["description", "blocks", "coordsys", "values", "verify", "all"]}
FLAGS = {"prefer-deep", "help", "description", "blocks", "coordsys", "verify", "all"}
WORDS = ["abc", "", "-", "--", "x1", ".", "e5", "one"]
BAD_NUMBER = WORDS + ["nan"]
BAD_LENGTH = BAD_NUMBER + ["0", "-1", "-1e-3", "-inf", "0.0"]
BAD_CRS = ["bogus", "EPSG:99999999", "EPSG:", "+proj=nothing", "PROJCS[", "4326000"]
BAD_LIST = ["", ","]
INVALID = {
    "query": {"squash-min-elev": WORDS, "squash-surface": ["bogus", "", "TOP", "top-surface", "topography"], "points-coordsys": BAD_CRS,
              "values": ["Bogus", "Vs,Bogus", "", ",Vs", " Vs", "Vs;Vp", "Vs Vp"], "models": BAD_LIST, "points": [""], "output": [""]},
    "queryelev": {"surface": ["bogus", "", "none", "top-surface", "topography", "Vs"], "points-coordsys": BAD_CRS, "models": BAD_LIST, "points": [""],
                  "output": [""]},
    "borehole": {"location": WORDS + ["1", "1,", "37.0", ",1", "1;2", "a,b", "1,b", "nan,nan"], "max-depth": WORDS + ["-1", "nan", "inf", "-inf"],
                 "dz": BAD_LENGTH, "points-coordsys": BAD_CRS, "values": ["Bogus", "Vs,Bogus", "", ",Vs"], "models": BAD_LIST, "output": [""]},
    "isosurface": {"bbox": WORDS + ["1,2,3", "1,2", "1", "1,2,3,", "a,b,c,d", "1,2,3,d", "2,1,1,2", "1,2,2,1", "1,2,nan,4", "nan,2,3,4"],
                   "hresolution": BAD_LENGTH, "vresolution": BAD_LENGTH, "max-depth": BAD_LENGTH,
                   "isosurface": ["Vs", "Vs,", "Vs,abc", "Vs,1,2", "", ",", ",500", "Bogus,500", "500,Vs", "Vs=500"],
                   "depth-reference": ["bogus", "", "none", "surface", "top-surface"], "num-search-points": WORDS + ["0", "-1", "2", "1", "-9999999999", "99999999999"],
                   "bbox-coordsys": BAD_CRS, "models": BAD_LIST, "output": [""]},
    "info": {"models": BAD_LIST}}
UNKNOWN = ["--bogus", "--bogus=1", "-Z", "-?", "--value_names=Vs", "--Models=a.h5", "--model-files=a", "-9", "--pointz=a", "--points-coordinates=a", "--outputs=b",
           "--heLp", "---help", "--verif=1", "--description-only", "-x1"]
FAULTS = ["drop", "unknown", "noarg", "invalid", "model", "points", "output", "flagarg", "invalid", "invalid", "drop", "model"]
BAD_FILE = ["missing", "dir", "empty", "text", "truncated", "hdf5"]
BAD_POINTS = ["missing", "dir", "text", "word", "words at end", "comma", "incomplete", "incomplete eof", "header"]
CRS_OF = {"query": "points-coordsys", "queryelev": "points-coordsys", "borehole": "points-coordsys", "isosurface": "bbox-coordsys"}


@st.composite
def scenes(draw):
    app = draw(st.sampled_from(["query", "queryelev", "borehole", "isosurface", "info"]))
    ms = draw(appgen.model_sets(big=False, names=["Vs", "Vp"], surfaces=("both", "both", "top", "topo", "none")))
    extra = draw(st.lists(st.sampled_from(OPTIONAL[app]), unique=True))
    if app == "info" and not extra:
        extra = ["verify"]
    return {"app": app, "models": ms, "extra": extra, "sp": draw(appgen.spelling(14)),
            "points": draw(appgen.relative_points(max_size=6)), "crs": draw(st.sampled_from(models.INPUT_CRS)),
            "value": draw(st.sampled_from(["Vs", "Vp", "Vs,Vp", "Vp,Vs"])), "num": draw(st.integers(0, 5))}


@st.composite
def bad_cases(draw):
    c = draw(scenes())
    app = c["app"]
    faults = []
    for _ in range(draw(st.sampled_from([1, 1, 1, 2]))):
        kind = draw(st.sampled_from([f for f in FAULTS if not (f == "points" and app not in ("query", "queryelev")) and not (f == "output" and app == "info")]))
        f = [kind]
        if kind == "drop":
            f.append(draw(st.sampled_from(REQUIRED[app])))
        elif kind == "unknown":
            f += [draw(st.sampled_from(UNKNOWN)), draw(st.integers(0, 30))]
        elif kind == "noarg":
            f += [draw(st.sampled_from([o for o in REQUIRED[app] + OPTIONAL[app] if o not in FLAGS and (app, o) != ("info", "values")])), draw(st.booleans())]
        elif kind == "flagarg":
            f += [draw(st.sampled_from(["help"] + [o for o in OPTIONAL[app] if o in FLAGS])), draw(st.sampled_from(["yes", "1", ""])), draw(st.integers(0, 30))]
        elif kind == "invalid":
            o = draw(st.sampled_from(sorted(INVALID[app])))
            f += [o, draw(st.sampled_from(INVALID[app][o]))]
        elif kind == "model":
            f += [draw(st.sampled_from(BAD_FILE)), draw(st.integers(0, 2))]
            if len(c["models"]) == 1 and draw(st.booleans()):
                c["models"].append(dict(c["models"][0], name=c["models"][0]["name"] + "_again"))
        elif kind == "points":
            f += [draw(st.sampled_from(BAD_POINTS)), draw(st.integers(0, 6))]
        faults.append(f)
    c["faults"] = faults
    return c


@st.composite
def good_cases(draw):
    c = draw(scenes())
    c["sp2"] = draw(appgen.spelling(14))
    c["kind"] = draw(st.sampled_from(["same", "same", "same", "help", "help alone", "none"]))
    c["at"] = draw(st.integers(0, 14))
    c["keep"] = draw(st.booleans())
    return c


def files(case, d):
    ms, app = case["models"], case["app"]
    paths = write_models(ms, d)
    crs = case["crs"] if CRS_OF.get(app) in case["extra"] else "EPSG:4326"
    refs = [models.Ref(m, crs) for m in ms]
    dim = 2 if app == "queryelev" else 3
    pts = appgen.place(ms, refs, case["points"], dim)
    return paths, crs, refs, pts, dim


def options(case, d, paths, crs, refs, pts, dim):
    app, n = case["app"], case["num"]
    pf, of, lf = (os.path.join(d, k) for k in ("points.txt", "out", "log"))
    with open(pf, "w") as f:
        for p in pts:
            f.write(" ".join(repr(v) for v in p) + "\n")
    m = case["models"][0]
    o = refs[0].to_input(0.4 * m["dims"][0], 0.3 * m["dims"][1])
    o2 = refs[0].to_input(0.6 * m["dims"][0], 0.6 * m["dims"][1])
    box = [min(o[0], o2[0]), max(o[0], o2[0]), min(o[1], o2[1]), max(o[1], o2[1])]
    depth = m["dims"][2]
    val = {"models": ",".join(paths), "values": case["value"], "points": pf, "output": of, "log": lf, "points-coordsys": crs, "bbox-coordsys": crs,
           "squash-min-elev": ["-10.0e+3", "-2000", "-500.0", "-1e4", "-0.5", "-100"][n],
           "squash-surface": ["top_surface", "topography_bathymetry", "none"][n % 3], "surface": ["topography_bathymetry", "top_surface"][n % 2],
           "location": "%r,%r" % tuple(float(v) for v in o[:2]), "max-depth": repr(depth * [0.5, 1.0, 0.9, 1.2, 0.1, 0.25][n]), "dz": repr(depth / [4, 3, 10, 7, 2, 1][n]),
           "bbox": ",".join("%r" % float(v) for v in box), "hresolution": repr(min(box[1] - box[0], box[3] - box[2]) / [2, 1, 3, 2.5, 1.5, 2][n]),
           "vresolution": repr(depth / [10, 20, 5, 40, 12, 3][n]), "isosurface": "%s,%s" % (case["value"].split(",")[0], [500.0, 1.0, 2500, 100.0, 0.0, 10][n]),
           "depth-reference": ["top_surface", "topography_bathymetry"][n % 2], "num-search-points": [3, 4, 10, 7, 5, 6][n]}
    flags = FLAGS | ({"values"} if app == "info" else set())
    if app == "borehole" and not {"max-depth", "dz"} <= set(case["extra"]):
        extra = [x for x in case["extra"] if x not in ("max-depth", "dz")]
    else:
        extra = case["extra"]
    return [(k, None if k in flags else str(val[k])) for k in REQUIRED[app] + extra], pf, of


def damage(path, how):
    if how == "missing":
        return path + ".none"
    if how == "dir":
        os.makedirs(path + ".d", exist_ok=True)
        return path + ".d"
    if how == "hdf5":
        import h5py
        with h5py.File(path, "w") as h:
            h.attrs["title"] = "no model"
        return path
    data = open(path, "rb").read()
    with open(path, "wb") as f:
        f.write({"empty": b"", "text": b"this is not a model\n" * 40, "truncated": data[:len(data) // 2]}[how])
    return path


def bad_points(pf, how, at, pts, dim):
    if how in ("missing", "dir"):
        if how == "dir":
            os.makedirs(pf + ".d", exist_ok=True)
        return pf + (".d" if how == "dir" else ".none")
    rows = [" ".join(repr(v) for v in p) for p in pts]
    k = min(at, len(rows))
    if how == "text":
        rows = ["this is", "not a", "points file"]
    elif how == "word":
        rows[k:k] = [" ".join(["1.0"] * (dim - 1) + ["x"])]
    elif how == "words at end":
        rows.append("end of points")
    elif how == "header":
        rows[0:0] = ["# x y z"]
    elif how == "comma":
        rows[k:k] = [",".join(["1.0"] * dim)]
    elif how == "incomplete":
        rows.append(" ".join(["1.0"] * (dim - 1)))
    with open(pf, "w") as f:
        f.write("\n".join(rows) + "\n" + (" ".join(["1.0"] * (1 + at % (dim - 1))) if how == "incomplete eof" else ""))
    return pf


def bad(case, ctx):
    app = case["app"]
    d = ctx.sub()
    paths, crs, refs, pts, dim = files(case, d)
    opts, pf, of = options(case, d, paths, crs, refs, pts, dim)
    tail, insert = [], []
    for f in case["faults"]:
        if f[0] == "drop":
            opts = [(k, v) for k, v in opts if k != f[1]]
        elif f[0] == "unknown":
            insert.append((f[2], f[1]))
        elif f[0] == "flagarg":
            insert.append((f[3], "--%s=%s" % (f[1], f[2])))
        elif f[0] == "noarg":
            opts = [(k, v) for k, v in opts if k != f[1]]
            tail = ["-" + appgen.SHORT[app][f[1]] if f[2] else "--" + f[1]]
        elif f[0] == "invalid":
            opts = [(k, v) for k, v in opts if k != f[1]] + [(f[1], f[2])]
        elif f[0] == "model":
            i = f[2] % len(paths)
            paths[i] = damage(paths[i], f[1]) if not paths[i].endswith((".none", ".d")) else paths[i]
            opts = [(k, ",".join(paths) if k == "models" and v and v[0] == "/" else v) for k, v in opts]
        elif f[0] == "points":
            q = bad_points(pf, f[1], f[2], pts, dim)
            opts = [(k, q if k == "points" and v == pf else v) for k, v in opts]
        elif f[0] == "output":
            opts = [(k, os.path.join(d, "none", "out") if k == "output" and v else v) for k, v in opts]
    # An empty argument can only be given in a separate word or after an equals sign.
    sp = dict(case["sp"], how=list(case["sp"]["how"]))
    for i, (k, v) in enumerate(opts):
        if v == "" and sp["how"][i] == "short":
            sp["how"][i] = "short "
    args = appgen.spell(app, opts, sp)
    starts = [i for i, a in enumerate(args) if a.startswith("-") and (i == 0 or not takes(app, args[i - 1]))] + [len(args)]
    for at, word in insert:
        args.insert(starts[at % len(starts)], word)
        starts = [i for i, a in enumerate(args) if a.startswith("-") and (i == 0 or not takes(app, args[i - 1]))] + [len(args)]
    args += tail
    if not args or (app == "info" and not any(k in opts_names(opts) for k in OPTIONAL["info"])):
        return Info(False, ["help"])
    info_model = app == "info" and all(f[0] == "model" and f[1] == "hdf5" for f in case["faults"])
    r = ctx.app(app, args)
    if info_model:
        expect("error" in (r.out + r.err).lower() or "fail" in (r.out + r.err).lower(), "geomodelgrids_info %r: no message: %s%s", args, r.out, r.err)
        return Info(True, [app, "model hdf5"])
    expect(r.rc != 0, "geomodelgrids_%s %r with faults %r succeeded: %s%s", app, args, case["faults"], r.out[-500:], r.err[-500:])
    expect((r.out + r.err).strip(), "geomodelgrids_%s %r with faults %r ended with code %d without a message", app, args, case["faults"], r.rc)
    return Info(True, [app] + [f[0] + (" " + f[1] if f[0] not in ("unknown", "output") else "") for f in case["faults"]])


def opts_names(opts):
    return [k for k, _ in opts]


def takes(app, word):
    """Whether a word of a command line is an option whose argument is the next word."""
    for k, s in appgen.SHORT[app].items():
        if k in FLAGS or (app, k) == ("info", "values"):
            continue
        if word in ("--" + k, "-" + s):
            return True
    return False


def outputs(app, r, of):
    if app == "info":
        return r.out
    if not os.path.exists(of):
        return None
    data = open(of, "rb").read()
    os.unlink(of)
    if app == "isosurface":
        return data
    return data[data.index(b"\n"):]


def good(case, ctx):
    app = case["app"]
    d = ctx.sub()
    paths, crs, refs, pts, dim = files(case, d)
    opts, pf, of = options(case, d, paths, crs, refs, pts, dim)
    name = "geomodelgrids_" + app
    if case["kind"] in ("help", "help alone", "none"):
        keep = [o for i, o in enumerate(opts) if (case["keep"] or i % 2)] if case["kind"] == "help" else []
        keep = keep[:]
        if case["kind"] != "none":
            keep.insert(case["at"] % (len(keep) + 1), ("help", None))
        args = appgen.spell(app, keep, case["sp"])
        r = ctx.app(app, args)
        expect(r.rc == 0, "%s %r ended with code %d: %s%s", name, args, r.rc, r.out, r.err)
        for o in REQUIRED[app] + OPTIONAL[app] + ["help"]:
            expect("--" + o in r.out, "%s %r: the usage does not mention --%s: %r", name, args, o, r.out)
        expect("sage" in r.out, "%s %r: no usage in %r", name, args, r.out)
        expect(not os.path.exists(of), "%s %r wrote output", name, args)
        return Info(True, [app + " " + case["kind"]])
    res = []
    for sp in (case["sp"], case["sp2"]):
        args = appgen.spell(app, opts, sp)
        r = ctx.app(app, args)
        res.append((args, r, outputs(app, r, of)))
    (a, ra, oa), (b, rb, ob) = res
    expect(ra.rc == rb.rc and oa == ob, "%s: %r ended with code %d (%s) and %r with code %d (%s); outputs %r and %r", name, a, ra.rc, ra.err[-300:], b, rb.rc, rb.err[-300:],
           oa and oa[:600], ob and ob[:600])
    # A valid command line must succeed (a location may be outside the models).
    expect(ra.rc == 0 or (app == "borehole" and "outside" in ra.out), "%s %r failed (%d): %s%s", name, a, ra.rc, ra.out[-500:], ra.err[-500:])
    expect(ra.rc != 0 or oa, "%s %r succeeded without output", name, a)
    return Info(a != b, [app, "same"], 2)


# ------------------------------------------------------------------------------------------------- every single fault
def single_faults(app):
    out = [["drop", o] for o in REQUIRED[app]]
    out += [["noarg", o, short] for o in REQUIRED[app] + OPTIONAL[app] if o not in FLAGS and (app, o) != ("info", "values") for short in (True, False)]
    out += [["invalid", o, v] for o in sorted(INVALID[app]) for v in INVALID[app][o]]
    out += [["unknown", w, 3] for w in UNKNOWN] + [["model", how, k] for k in range(3) for how in BAD_FILE]
    if app in ("query", "queryelev"):
        out += [["points", how, 1] for how in BAD_POINTS]
    if app != "info":
        out += [["output"]]
    return out


GROUP = 10


@st.composite
def sweep_cases(draw):
    c = draw(scenes())
    if len(c["models"]) == 1:
        c["models"].append(dict(c["models"][0], name=c["models"][0]["name"] + "_again"))
    c["group"] = draw(st.integers(0, (len(single_faults(c["app"])) - 1) // GROUP))
    return c


def sweep(case, ctx):
    app = case["app"]
    labels = []
    for args in ([], ["--help"], ["-h"]):
        r = ctx.app(app, args)
        expect(r.rc == 0 and "sage" in r.out, "geomodelgrids_%s %r ended with code %d: %s%s", app, args, r.rc, r.out[-500:], r.err[-500:])
    faults = single_faults(app)[case["group"] * GROUP:][:GROUP]
    for f in faults:
        labels += bad(dict(case, faults=[f]), ctx).labels[1:]
    return Info(True, ["%s group %d" % (app, case["group"])] + labels, 3 + len(faults))


PARTS = [Part("bad", bad_cases(), bad, 900, 40000), Part("good", good_cases(), good, 400, 15000), Part("sweep", sweep_cases(), sweep, 150, 3000)]
