"""Runs a check: saved cases first, then seeded generated search in parallel, then shrinking and replay."""
import argparse
import errno
import hashlib
import importlib
import json
import multiprocessing
import multiprocessing.connection
import os
import shutil
import sys
import tempfile
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
HYP = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"
try:
    import hypothesis
except ImportError:
    sys.path.append(HYP)
    import hypothesis
from hypothesis import HealthCheck, Phase, given, settings  # noqa: E402
import hypothesis.internal.conjecture.engine as _engine  # noqa: E402

_engine.MAX_SHRINKING_SECONDS = 75
if hasattr(_engine, "MAX_SHRINKS"):
    _engine.MAX_SHRINKS = 500

from . import apps, build, driver  # noqa: E402
from .core import Inconclusive, Info, Violation  # noqa: E402

HISTORY = 40  # cases run by one driver process before it is restarted


class Ctx:
    """What a case may use: a scratch folder, drivers, applications and the Python module."""

    def __init__(self, paths):
        base = "/dev/shm" if os.access("/dev/shm", os.W_OK) and shutil.disk_usage("/dev/shm").free > (1 << 29) else None
        self.dir = tempfile.mkdtemp(prefix="gmg_", dir=base)
        with open(os.path.join(self.dir, ".pid"), "w") as f:
            f.write(str(os.getpid()))
        self.paths = paths
        self._drivers = {}
        self._py = None
        self.cache = {}

    def drv(self, name="driver"):
        if name not in self._drivers:
            exe, _, tag = name.partition("#")  # several processes of one driver
            self._drivers[name] = driver.Driver(self.paths[exe], self.dir, tag)
        return self._drivers[name]

    def run(self, cmds, name="driver"):
        return self.drv(name).run(cmds)

    def app(self, name, args, **kw):
        return apps.run_app(self.paths["app_" + name], args, self.dir, **kw)

    def py(self):
        from . import pyclient
        if self._py is None:
            self._py = pyclient.PyClient(self.paths["stage"], self.dir)
        return self._py

    def create_model(self, args, cwd):
        """Run the model creation application."""
        stage = self.paths["stage"]
        here = os.path.dirname(os.path.abspath(__file__))
        env = dict(PYTHONPATH=stage + os.pathsep + here, OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1", HDF5_USE_FILE_LOCKING="FALSE")
        return apps.run_app("/usr/bin/python3", ["-W", "ignore", os.path.join(stage, "bin", "geomodelgrids_create_model")] + args, cwd, env=env)

    def sub(self):
        """A fresh empty folder."""
        d = tempfile.mkdtemp(dir=self.dir)
        return d

    def clean(self):
        for f in os.listdir(self.dir):
            if f.endswith(".stderr") or f == ".pid":
                continue
            p = os.path.join(self.dir, f)
            if os.path.isdir(p) and not os.path.islink(p):
                shutil.rmtree(p, ignore_errors=True)
            else:
                os.unlink(p)

    def restart(self):
        for d in self._drivers.values():
            d.stop()
        if self._py:
            self._py.stop()

    def close(self):
        self.restart()
        shutil.rmtree(self.dir, ignore_errors=True)


RESOURCES = (errno.ENOMEM, errno.ENOSPC, errno.EMFILE, errno.ENFILE, errno.EAGAIN, errno.EINTR, errno.EIO, errno.EDQUOT)


def run_case(mod, ctx, case):
    part = {p.name: p for p in mod.PARTS}[case["part"]]
    ctx.clean()
    try:
        info = part.run(case["data"], ctx)
    except (ArithmeticError, AttributeError, LookupError, TypeError, ValueError, AssertionError, OSError) as e:
        # The outcome has a form no check expects, such as a missing output file: on the unchanged tree this never happens.
        if isinstance(e, OSError) and e.errno in RESOURCES:
            raise
        tb = traceback.extract_tb(e.__traceback__)
        where = ["%s:%d" % (os.path.basename(f.filename), f.lineno) for f in tb if f.filename.startswith(VERIF)][-3:]
        raise Violation("the outcome cannot be interpreted (%s): %s: %s" % (", ".join(where), type(e).__name__, str(e)[:600])) from e
    return info if isinstance(info, Info) else Info()


def canon(case):
    return json.dumps(case, sort_keys=True, default=_plain)


def _plain(o):
    if hasattr(o, "item"):
        return o.item()
    if hasattr(o, "tolist"):
        return o.tolist()
    raise TypeError(repr(o))


class Stop(Exception):
    pass


def worker(mod_name, paths, part_name, n, seed, budget, conn, known):
    mod = importlib.import_module(mod_name)
    part = {p.name: p for p in mod.PARTS}[part_name]
    ctx = Ctx(paths)
    st = {"evaluations": 0, "calls": 0, "inconclusive": 0, "labels": {}, "hashes": set(), "samples": [], "known": {},
          "notes": []}
    t0 = time.monotonic()
    fails = []
    history = []

    def one(data):
        case = json.loads(canon({"part": part_name, "data": data}))
        if time.monotonic() - t0 > budget and not fails:
            st["skipped"] = st.get("skipped", 0) + 1
            return
        if len(history) >= HISTORY:
            ctx.restart()
            del history[:]
        try:
            info = run_case(mod, ctx, case)
        except Inconclusive as e:
            st["inconclusive"] += 1
            if len(st["notes"]) < 3:
                st["notes"].append("inconclusive: %s" % e)
            return
        except Violation as e:
            tag = getattr(e, "finding", None)
            if tag and tag in known:
                st["known"][tag] = st["known"].get(tag, 0) + 1
                return
            fails.append((case, str(e), list(history)))
            del history[:]
            ctx.restart()
            raise
        history.append(case)
        st["calls"] += 1
        st["evaluations"] += info.evals
        for l in info.labels:
            st["labels"][l] = st["labels"].get(l, 0) + 1
        if info.nontrivial:
            h = hashlib.sha256(canon(case).encode()).digest()[:12]
            if h not in st["hashes"]:
                st["hashes"].add(h)
                if len(st["samples"]) < 2:
                    s = canon(case)
                    st["samples"].append(case if len(s) < 3000 else {"case (cut)": s[:3000]})

    result = {"part": part_name, "error": None, "fails": []}
    try:
        f = given(part.strategy)(one)
        f = settings(max_examples=n, database=None, deadline=None, derandomize=False, report_multiple_bugs=False,
                     phases=[Phase.generate, Phase.shrink], suppress_health_check=list(HealthCheck),
                     print_blob=False)(f)
        f = hypothesis.seed(seed)(f)
        with open(os.devnull, "w") as null:
            out, err = sys.stdout, sys.stderr
            sys.stdout = sys.stderr = null
            try:
                f()
            finally:
                sys.stdout, sys.stderr = out, err
    except Violation:
        pass
    except BaseException as e:
        if not fails:
            result["error"] = "".join(traceback.format_exception(type(e), e, e.__traceback__))[-4000:]
    finally:
        ctx.close()
    if fails:
        result["fails"] = [fails[-1]] + ([fails[0]] if len(fails) > 1 else [])
    result["stats"] = st
    conn.send(result)
    conn.close()


def _replay_start(mod_name, paths, cases):
    r, w = multiprocessing.Pipe(False)

    def go():
        mod = importlib.import_module(mod_name)
        ctx = Ctx(paths)
        msg = None
        try:
            for c in cases[:-1]:
                try:
                    run_case(mod, ctx, c)
                except (Violation, Inconclusive):
                    pass
            try:
                run_case(mod, ctx, cases[-1])
            except Violation as e:
                msg = (str(e) or "violation", getattr(e, "finding", None))
            except Inconclusive:
                pass
        finally:
            ctx.close()
        w.send(msg)

    p = multiprocessing.Process(target=go)
    p.start()
    w.close()
    return p, r


def _replay_end(p, r):
    try:
        msg = r.recv()
    except EOFError:
        msg = None
    p.join()
    return msg


def replay_once(mod_name, paths, cases):
    """Run cases in order in a fresh process; (message, finding tag) of the violation of the last one, or None."""
    return _replay_end(*_replay_start(mod_name, paths, cases))


def replay_many(mod_name, paths, lists, jobs):
    res = []
    for i in range(0, len(lists), jobs):
        res += [_replay_end(*x) for x in [_replay_start(mod_name, paths, c) for c in lists[i:i + jobs]]]
    return res


def confirm(mod_name, paths, cases, times=3):
    msg = None
    for _ in range(times):
        msg = replay_once(mod_name, paths, cases)
        if msg is None:
            return None
    return msg


def reduce_history(mod_name, paths, history, case):
    """Fewest earlier cases of the same process that still lead to the violation."""
    t0 = time.monotonic()
    hist = list(history)
    n = max(1, len(hist) // 2)
    while n >= 1 and time.monotonic() - t0 < 120:
        i = 0
        while i < len(hist) and time.monotonic() - t0 < 120:
            cand = hist[:i] + hist[i + n:]
            if replay_once(mod_name, paths, cand + [case]) is not None:
                hist = cand
            else:
                i += n
        n //= 2
    return hist


def known_findings(pid):
    """{tag: text} of the listed, unrepaired findings of a property."""
    res = {}
    path = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(path):
        for l in open(path):
            l = l.strip()
            if l.startswith("finding: property=%s " % pid):
                tag, text = l[len("finding: property=%s " % pid):].split(None, 1)
                res[tag] = text
    return res


def save_replay(pid, cases, msg):
    d = os.path.join(VERIF, "replays", pid)
    os.makedirs(d, exist_ok=True)
    body = {"property": pid, "message": msg, "case": cases[-1]}
    if len(cases) > 1:
        body["history"] = cases[:-1]
    path = os.path.join(d, hashlib.sha256(canon(cases).encode()).hexdigest()[:12] + ".json")
    with open(path, "w") as f:
        json.dump(body, f, indent=1)
    return path


def load_replay(path):
    with open(path) as f:
        b = json.load(f)
    return b.get("history", []) + [b["case"]]


def main(argv=None):
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER") or "quick", choices=["quick", "thorough"])
    ap.add_argument("--replay")
    ap.add_argument("--scale", type=float, default=float(os.environ.get("GMG_SCALE", "1")))
    ap.add_argument("--jobs", type=int, default=int(os.environ.get("GMG_JOBS", "8")))
    ap.add_argument("--verbose", action="store_true")
    a = ap.parse_args(argv)
    pid = a.property
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    t0 = time.monotonic()
    os.environ.update(LC_ALL="C.UTF-8", TZ="UTC", PYTHONDONTWRITEBYTECODE="1", PROJ_NETWORK="OFF")
    sys.dont_write_bytecode = True
    mod_name = "checks." + pid.lower()
    mod = importlib.import_module(mod_name)
    try:
        paths = build.build([t for t in mod.TARGETS if t != "stage"])
        if "stage" in mod.TARGETS:
            paths["stage"] = build.stage_python()
    except build.BuildError as e:
        print("BUILD FAILED (no answer)\n%s" % e)
        return 2
    t_build = time.monotonic() - t0

    if a.replay:
        msg = replay_once(mod_name, paths, load_replay(a.replay))
        if msg:
            print("message: %s" % msg[0])
            print("VIOLATION property=%s replay=%s" % (pid, os.path.relpath(os.path.abspath(a.replay), VERIF)))
            return 1
        print("the case passes")
        return 0

    known = known_findings(pid)
    kseen = set()
    violations = []
    nregress = 0
    rdir = os.path.join(VERIF, "regress", pid)
    if os.path.isdir(rdir):
        files = [os.path.join(rdir, f) for f in sorted(os.listdir(rdir)) if f.endswith(".json")]
        nregress = len(files)
        res = replay_many(mod_name, paths, [load_replay(f) for f in files], a.jobs)
        for f, msg in zip(files, res):
            if msg is None:
                continue
            if msg[1] in known:
                kseen.add(msg[1])
                continue
            msg = confirm(mod_name, paths, load_replay(f))
            if msg:
                violations.append((f, msg[0]))

    tot = {"evaluations": 0, "calls": 0, "inconclusive": 0, "skipped": 0}
    labels, hashes, samples, notes, per_part, errors = {}, set(), [], [], {}, []
    known_hits = {}
    if not violations:
        budget = float(os.environ.get("GMG_BUDGET", "480" if a.tier == "quick" else "3000"))
        tasks = []
        for p in mod.PARTS:
            n = max(1, int((p.quick if a.tier == "quick" else p.thorough) * a.scale))
            w = min(a.jobs, max(1, n // 8))
            for i in range(w):
                s = int.from_bytes(hashlib.sha256(("%s/%s/%d/%d" % (pid, p.name, seed, i)).encode()).digest()[:6], "big")
                tasks.append((p.name, (n + w - 1) // w, s))
        # Interleave the parts so that every part makes progress early.
        running, fails = [], []
        t_search = time.monotonic()
        while tasks or running:
            while tasks and len(running) < a.jobs and not fails:
                name, n, s = tasks.pop(0)
                left = max(5.0, budget - (time.monotonic() - t_search))
                r, w = multiprocessing.Pipe(False)
                p = multiprocessing.Process(target=worker, args=(mod_name, paths, name, n, s, left, w, set(known)))
                p.start()
                w.close()
                running.append((p, r, name))
            if fails:
                tasks = []
            got = multiprocessing.connection.wait([r for _, r, _ in running], timeout=1.0)
            for r in got:
                p, _, name = next(x for x in running if x[1] is r)
                try:
                    res = r.recv()
                except EOFError:
                    res = {"part": name, "error": "worker ended without a result", "fails": [], "stats": None}
                p.join()
                running = [x for x in running if x[1] is not r]
                if res["error"]:
                    errors.append("%s: %s" % (name, res["error"]))
                st = res["stats"]
                if st:
                    for k in tot:
                        tot[k] += st.get(k, 0)
                    for k, v in st["labels"].items():
                        labels[k] = labels.get(k, 0) + v
                    hashes |= st["hashes"]
                    per_part[name] = per_part.get(name, 0) + st["calls"]
                    if len([1 for n_, _ in samples if n_ == name]) < 2:
                        samples += [(name, s) for s in st["samples"][:1]]
                    notes += st["notes"]
                    for k, v in st["known"].items():
                        known_hits[k] = known_hits.get(k, 0) + v
                if res["fails"]:
                    fails.append(res["fails"])
            if fails and running:
                # One confirmed failure is enough: stop the other searches.
                for p, r, _ in running:
                    p.terminate()
                for p, r, _ in running:
                    p.join()
                running = []
        for fl in fails:
            done = False
            for case, msg, hist in fl:
                m = confirm(mod_name, paths, [case])
                if m:
                    violations.append((save_replay(pid, [case], m[0]), m[0]))
                    done = True
                    break
            if not done:
                for case, msg, hist in reversed(fl):
                    if hist and confirm(mod_name, paths, hist + [case]):
                        h = reduce_history(mod_name, paths, hist, case)
                        m = confirm(mod_name, paths, h + [case])
                        if m:
                            violations.append((save_replay(pid, h + [case], m[0]), m[0]))
                            done = True
                            break
            if not done:
                notes.append("not reproduced in a fresh process: %s / %s" % (fl[0][1][:500], canon(fl[0][0])[:2000]))
        _sweep_scratch()

    for tag in sorted(known):
        if tag in kseen or tag in known_hits:
            print("KNOWN-FINDING: property=%s %s %s" % (pid, tag, known[tag]))
    wall = time.monotonic() - t0
    ev = {
        "property": pid, "tier": a.tier, "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": tot["evaluations"],
            "distinct_nontrivial": len(hashes),
            "rule": mod.RULE,
            "samples": [{"part": n, "case": s.get("data", s)} for n, s in samples[:6]],
            "cases_generated": tot["calls"],
            "cases_per_part": per_part,
            "classes": dict(sorted(labels.items())),
            "inconclusive": tot["inconclusive"],
            "not_run_time_budget": tot["skipped"],
            "saved_cases_replayed": nregress,
            "known_finding_hits": known_hits,
            "notes": notes[:10],
        },
        "assumptions": getattr(mod, "ASSUMPTIONS", []),
        "wall_s": round(wall, 2),
        "violations": [{"replay": os.path.relpath(f, VERIF), "message": m[:1000]} for f, m in violations],
    }
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1, default=_plain)
        f.write("\n")
    print("%s %s seed=%d: %d evaluations in %d cases, %d distinct non-trivial, %d inconclusive, %d saved cases, "
          "build %.1fs, wall %.1fs" % (pid, a.tier, seed, tot["evaluations"], tot["calls"], len(hashes),
                                      tot["inconclusive"], nregress, t_build, wall))
    if a.verbose:
        for k, v in sorted(labels.items()):
            print("   %-50s %d" % (k, v))
        print("   parts:", per_part)
    for n in notes[:5]:
        print("   note:", n[:3000])
    if violations:
        for f, m in violations[:3]:
            print("message: %s" % m[:1500])
            print("VIOLATION property=%s replay=%s" % (pid, os.path.relpath(f, VERIF)))
        return 1
    if errors:
        print("CHECK ERROR (no answer): %s" % errors[0])
        return 2
    return 0


def _sweep_scratch():
    """Remove scratch folders of searches that were stopped early."""
    for base in ("/dev/shm", tempfile.gettempdir()):
        try:
            for f in os.listdir(base):
                if f.startswith("gmg_"):
                    d = os.path.join(base, f)
                    try:
                        if os.path.exists(os.path.join(d, ".pid")):
                            pid = int(open(os.path.join(d, ".pid")).read())
                            os.kill(pid, 0)
                    except (OSError, ValueError):
                        shutil.rmtree(d, ignore_errors=True)
        except OSError:
            pass
