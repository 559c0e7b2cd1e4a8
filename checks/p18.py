"""Error handler: status, message and log file."""
import os

from hypothesis import strategies as st

from gmg.core import Info, Part, expect

RULE = ("Sequences of up to 60 operations on 1-3 error handlers (set error/warning, reset, get, set log file name, log messages, logging "
        "on/off, create and destroy), each issued through the C++ or the C interface at random, checked against a model of status, message "
        "and log file contents after every get and at the end. An evaluation is one operation. Non-trivial: logging is turned off and on "
        "again between messages, or a file name is set again.")
TARGETS = ["driver"]

MSG = st.one_of(st.sampled_from(["", "Error.\n", "warning", "x" * 300, "%s %d %n\n", "line1\nline2\n", "tab\t\"quoted\""]),
                st.text(st.characters(codec="utf-8", exclude_characters="\x00", exclude_categories=["Cs"]), max_size=20),
                st.integers(1, 5).map(lambda k: "y" * (4000 * k) + "\n"))
OP = st.one_of(
    st.tuples(st.just("error"), MSG), st.tuples(st.just("warning"), MSG), st.tuples(st.just("reset")), st.tuples(st.just("get")),
    st.tuples(st.just("get")), st.tuples(st.just("log"), MSG), st.tuples(st.just("log"), MSG), st.tuples(st.just("log"), MSG),
    st.tuples(st.just("file"), st.integers(0, 4)), st.tuples(st.just("on"), st.sampled_from([0, 1, 1, 5])),
    st.tuples(st.just("getfile")), st.tuples(st.just("renew")))


@st.composite
def cases(draw):
    n = draw(st.integers(1, 3))
    return {"n": n, "ops": draw(st.lists(st.tuples(st.integers(0, n - 1), st.booleans(), OP), min_size=draw(st.sampled_from([1, 8, 25])), max_size=60))}


def run(case, ctx):
    n, d = case["n"], ctx.sub()
    cmds = [["E_new", "e%d" % i] for i in range(n)]
    # Every handler has its own files, so that two handlers never write the same file.
    state = [{"status": 0, "msg": "", "file": "/dev/null", "open": None} for _ in range(n)]
    content = {}
    checks = []
    toggled = False
    names = lambda e, k: os.path.join(d, "missing", "x.log") if k == 4 else os.path.join(d, "log%d_%d.txt" % (e, k))  # noqa: E731
    for e, c, op in case["ops"]:
        s = state[e]
        api = "c" if c else "cxx"
        if op[0] == "error" or op[0] == "warning":
            # the C interface only reads the status
            cmds.append(["E_op", "e%d" % e, "cxx", op[0], op[1]])
            s["status"], s["msg"] = (2 if op[0] == "error" else 1), op[1]
        elif op[0] == "reset":
            cmds.append(["E_op", "e%d" % e, api, "reset"])
            s["status"], s["msg"] = 0, ""
        elif op[0] == "get":
            cmds.append(["E_op", "e%d" % e, api, "get"])
            checks.append((len(cmds) - 1, [s["status"], s["msg"]], "status and message"))
        elif op[0] == "getfile":
            cmds.append(["E_op", "e%d" % e, api, "getfile"])
            checks.append((len(cmds) - 1, [s["file"]], "log file name"))
        elif op[0] == "log":
            cmds.append(["E_op", "e%d" % e, "cxx", "log", op[1]])
            if s["open"]:
                content[s["open"]] += op[1]
        elif op[0] == "file":
            f = names(e, op[1])
            cmds.append(["E_op", "e%d" % e, api, "file", f])
            toggled = toggled or s["open"] is not None
            s["file"] = f
            s["open"] = None
            if op[1] != 4:
                content[f] = ""
                s["open"] = f
        elif op[0] == "on":
            cmds.append(["E_op", "e%d" % e, api, "on", op[1]])
            if op[1]:
                toggled = toggled or (s["open"] is None and content.get(s["file"], "") != "")
                s["open"] = s["file"] if s["file"] != "/dev/null" and "missing" not in s["file"] else None
                if s["open"]:
                    content.setdefault(s["open"], "")
            else:
                s["open"] = None
        else:
            cmds += [["E_del", "e%d" % e], ["E_new", "e%d" % e]]
            state[e] = {"status": 0, "msg": "", "file": "/dev/null", "open": None}
    for e in range(n):
        for api in ("cxx", "c"):
            cmds.append(["E_op", "e%d" % e, api, "get"])
            checks.append((len(cmds) - 1, [state[e]["status"], state[e]["msg"]], "status and message"))
    res = ctx.run(cmds)  # the driver destroys the handlers at the end
    for i, want, what in checks:
        expect(res[i] == want, "%s is %r, expected %r, after %d operations", what, res[i], want, i)
    for f, want in content.items():
        with open(f, encoding="utf-8", newline="") as fin:
            got = fin.read()
        expect(got == want, "log file holds %r, expected %r", got[:400], want[:400])
    extra = [f for f in os.listdir(d) if os.path.join(d, f) not in content]
    expect(not extra, "unexpected files %r", extra)
    return Info(toggled, ["files %d" % min(len(content), 3)], len(case["ops"]))


PARTS = [Part("history", cases(), run, 3000, 60000)]
