"""Commands and comparisons used by several checks."""
import os

from hypothesis import strategies as st

from . import models
from .core import expect
from .driver import Exc


def write_models(specs, d):
    paths = []
    for i, s in enumerate(specs):
        p = os.path.join(d, "%d_%s" % (i, s["name"]))
        models.write(s, p)
        paths.append(p)
    return paths


def q_init(files, names, crs, qid="q", api="Q"):
    return [[api + "_new", qid], [api + "_init", qid, crs, len(files), list(files), len(names), list(names)]]


def flat(points):
    return [c for p in points for c in p]


def split_rows(tokens, n, nv):
    """Rows (status, values...) of a *_query command; a row may be an exception."""
    rows, i = [], 0
    while i < len(tokens):
        if isinstance(tokens[i], Exc):
            rows.append(tokens[i])
            i += 1
        elif tokens[i] == "null":
            rows.append(None)
            i += 1
        else:
            rows.append((tokens[i], tokens[i + 1:i + 1 + nv]))
            i += 1 + nv
    expect(len(rows) == n, "expected %d results, got %d", n, len(rows))
    return rows


def ok(tokens, what):
    if tokens and isinstance(tokens[0], Exc):
        expect(False, "%s failed: %r", what, tokens[0])


MOVES = st.sampled_from(["new"] * 8 + ["same", "column", "row", "near", "near", "nearz", "back"])


def follow(points, min_size=0, max_size=10):
    """Lists of points (model, fx, fy, fz) in which some points repeat, or are close to, the point before."""
    @st.composite
    def build(draw):
        out = []
        for p, how in draw(st.lists(st.tuples(points, MOVES), min_size=min_size, max_size=max_size)):
            p = list(p)
            if out and how != "new":
                q = out[-1]
                if how == "same":
                    p = list(q)
                elif how == "column":
                    p = q[:3] + p[3:]
                elif how == "row":
                    p = q[:2] + p[2:]
                elif how == "back":
                    p = list(out[max(0, len(out) - 2)])
                elif how == "nearz":
                    p = q[:3] + [v if isinstance(v, str) else v * 0.9999 + 1e-7 for v in q[3:]]
                else:
                    s = (abs(p[1]) + 0.01) * 1e-4
                    p = [q[0], q[1] + s, q[2] - s] + q[3:]
            out.append(p)
        return out
    return build()
