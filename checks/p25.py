"""Configuration lists, merged configuration files and units."""
import os

from hypothesis import strategies as st

from gmg.core import Info, Part, expect
from gmg.pyclient import PyExc

RULE = ("lists: drawn items written with a drawn delimiter, brackets ([], (), none) and whitespace (spaces, tabs, newlines) around items, "
        "delimiters and brackets, parsed back, and parsed with other delimiters and again. files: 1-4 generated configuration files with overlapping sections and options, merged and "
        "compared with a dictionary model. units: every documented spelling against the exact factor, and generated other names, which must "
        "raise. An evaluation is one list, set of files or name. Non-trivial: a list with at least two items, or an option set in two files.")
TARGETS = ["stage"]

DELIM = st.sampled_from([",", ",", "|", ";", ":", "::", "/", "&"])
CHARS = st.characters(codec="utf-8", exclude_categories=["Cs", "Cc", "Zl", "Zp", "Zs"], exclude_characters="[]()\x85")
WORD = st.text(CHARS, min_size=1, max_size=8)
ITEM = st.one_of(WORD, st.lists(WORD, min_size=1, max_size=3).map(" ".join),
                 st.sampled_from(["0.0e+3", "-12.5", "Smith (USGS)", "f(x)", "x[1]", "a(b)c", "None", "EPSG 4326"]))
WS = st.sampled_from(["", "", " ", "  ", "\t", "\n", " \n "])


@st.composite
def lists(draw):
    d = draw(DELIM)
    items = draw(st.lists(ITEM, min_size=0, max_size=8))
    items = [i for i in items if not set(d) & set(i) and i.strip() == i and i]
    br = draw(st.sampled_from(["[]", "[]", "()", ""]))
    body = "".join((d if k else "") + draw(WS) + i + draw(WS) for k, i in enumerate(items))
    if not items:
        body = draw(WS)
    text = (br[0] if br else "") + body + (br[1] if br else "")
    if draw(st.booleans()):
        text = draw(WS) + text + draw(WS)
    return {"items": items, "text": text, "delim": d, "default": d == "," and draw(st.booleans()), "body": body,
            "others": draw(st.lists(DELIM, max_size=2))}


def run_lists(case, ctx):
    got = ctx.py().call("to_list", case["text"], None if case["default"] else case["delim"])
    expect(got == case["items"], "%r with delimiter %r parses to %r, expected %r", case["text"], case["delim"], got, case["items"])
    for d in case["others"]:
        if d not in case["body"]:
            one = ctx.py().call("to_list", case["text"], d)
            want = [case["body"].strip()] if case["body"].strip() else []
            expect(one == want, "%r with delimiter %r parses to %r, expected %r", case["text"], d, one, want)
    again = ctx.py().call("to_list", case["text"], None if case["default"] else case["delim"])
    expect(again == case["items"], "parsed again, %r with delimiter %r is %r, expected %r", case["text"], case["delim"], again, case["items"])
    if case["items"]:
        again = ctx.py().call("to_list", case["items"], case["delim"])
        expect(again == case["items"], "the list %r is not returned unchanged: %r", case["items"], again)
    return Info(len(case["items"]) > 1, ["delimiter " + case["delim"]], 1)


NAME = st.text(st.sampled_from("abcXYZ_01"), min_size=1, max_size=6)
VALUE = st.text(st.characters(codec="ascii", exclude_categories=["Cc"], exclude_characters="%\"'#;$"), max_size=12).map(str.strip)


@st.composite
def files(draw):
    secs = draw(st.lists(NAME, min_size=1, max_size=3, unique_by=str.lower))
    opts = draw(st.lists(NAME, min_size=1, max_size=4, unique_by=str.lower))
    fs = []
    for _ in range(draw(st.integers(1, 4))):
        f = {}
        for s in secs:
            if draw(st.integers(0, 3)):
                f[s] = {o: draw(VALUE) for o in opts if draw(st.booleans())}
        fs.append(f)
    return {"files": fs, "keep": draw(st.sampled_from([True, True, False])), "missing": draw(st.integers(0, 11)) == 0}


def run_files(case, ctx):
    d = ctx.sub()
    paths, model, twice = [], {}, False
    for i, f in enumerate(case["files"]):
        p = os.path.join(d, "f%d.cfg" % i)
        with open(p, "w") as out:
            for s, os_ in f.items():
                out.write("[%s]\n" % s)
                for o, v in os_.items():
                    out.write("%s = %s\n" % (o, v))
        paths.append(p)
        for s, os_ in f.items():
            m = model.setdefault(s, {})
            for o, v in os_.items():
                o = o if case["keep"] else o.lower()
                twice = twice or o in m
                m[o] = v
    if case["missing"]:
        paths.append(os.path.join(d, "missing.cfg"))
    got = ctx.py().call("get_config", paths, case["keep"])
    if case["missing"]:
        expect(isinstance(got, PyExc) and got.type in ("OSError", "FileNotFoundError", "IOError"), "a missing file gives %r", got)
        return Info(False, ["missing file"], 1)
    expect(got == model, "merged configuration is %r, expected %r", got, model)
    return Info(twice, ["%d files" % len(case["files"])], 1)


SCALES = {"m": 1.0, "meter": 1.0, "meters": 1.0, "km": 1000.0, "kilometer": 1000.0, "kilometers": 1000.0, "ft": 0.3048, "foot": 0.3048,
          "feet": 0.3048}


@st.composite
def unit(draw):
    return {"name": draw(st.one_of(st.sampled_from(sorted(SCALES)), st.text(st.sampled_from("mkfte oris-"), max_size=6),
                                   st.sampled_from(["mm", "cm", "mile", "", " m", "m ", "furlong", "us-ft"])))}


def run_unit(case, ctx):
    n = case["name"]
    got = ctx.py().call("length_scale", n)
    if n in SCALES:
        expect(got == SCALES[n], "scale of %r is %r, expected %r", n, got, SCALES[n])
    elif n.strip().lower() not in SCALES:
        expect(isinstance(got, PyExc), "scale of unknown unit %r is %r", n, got)
    return Info(n in SCALES, [], 1)


PARTS = [Part("lists", lists(), run_lists, 4000, 60000), Part("files", files(), run_files, 1000, 10000), Part("units", unit(), run_unit, 600, 3000)]
