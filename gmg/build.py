"""Builds what a check needs from the current working tree of the repository.

Output goes to /verif/build/<hash of every input>/ so that a changed tree never reuses old objects.
"""
import fcntl
import glob
import hashlib
import os
import re
import shutil
import subprocess
import sys
import sysconfig
import time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("GMG_REPO", "/repo")
CPP = os.path.join(VERIF, "cpp")
H5INC = "/usr/include/hdf5/serial"
H5LIB = "/usr/lib/x86_64-linux-gnu/hdf5/serial"

SAN = ["-fsanitize=address,undefined", "-fno-sanitize-recover=undefined", "-fno-omit-frame-pointer"]
INC = ["-I" + CPP, "-I" + H5INC, "-I/usr/include/gdal", "-DWITH_GDAL"]


class BuildError(Exception):
    pass


def env():
    e = dict(os.environ)
    e.update(LC_ALL="C.UTF-8", TZ="UTC", PYTHONDONTWRITEBYTECODE="1", PROJ_NETWORK="OFF")
    for k in list(e):
        if k.startswith(("GDAL_", "PROJ_DEBUG", "ASAN_", "UBSAN_", "HDF5_")):
            del e[k]
    e["ASAN_OPTIONS"] = "detect_leaks=0:abort_on_error=0:exitcode=99:allocator_may_return_null=1:handle_abort=1"
    e["UBSAN_OPTIONS"] = "print_stacktrace=1:exitcode=99"
    return e


def _files():
    fs = []
    for pat in ("libsrc/**/*.cc", "libsrc/**/*.hh", "libsrc/**/*.h", "libsrc/**/*.icc", "bin/*.cc",
                "modulesrc/*.cc", "modulesrc/*.hh"):
        fs += glob.glob(os.path.join(REPO, pat), recursive=True)
    fs += glob.glob(os.path.join(CPP, "*"))
    fs.append(os.path.abspath(__file__))
    return sorted(fs)


def tree_hash():
    h = hashlib.sha256()
    for f in _files():
        h.update(f.encode() + b"\0")
        with open(f, "rb") as fh:
            h.update(hashlib.sha256(fh.read()).digest())
    return h.hexdigest()[:16]


def _prune(keep):
    root = os.path.join(VERIF, "build")
    if not os.path.isdir(root):
        return
    cache = os.path.join(root, "objects")
    if os.path.isdir(cache):
        old = sorted((os.path.join(cache, f) for f in os.listdir(cache)), key=os.path.getmtime)
        for f in old[:-1500]:
            os.unlink(f)
    ds = [os.path.join(root, d) for d in os.listdir(root) if d != "objects"]
    ds = sorted((d for d in ds if os.path.isdir(d) and d != keep), key=os.path.getmtime)
    for d in ds[:-16]:
        if time.time() - os.path.getmtime(d) > 3600:
            shutil.rmtree(d, ignore_errors=True)


def _run(cmd):
    p = subprocess.run(cmd, env=env(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if p.returncode != 0:
        raise BuildError(" ".join(cmd) + "\n" + p.stdout.decode(errors="replace")[-4000:])


def _key(src, flags, headers):
    """Hash of everything that goes into an object file."""
    h = hashlib.sha256(repr((flags, INC, headers)).encode())
    with open(src, "rb") as f:
        text = f.read()
    h.update(text)
    if re.search(rb'#\s*include\s*[<"][^>"]*\.c+[>"]', text):  # not among the headers
        h.update(tree_hash().encode())
    return h.hexdigest()[:24]


def _headers():
    h = hashlib.sha256()
    for f in _files():
        if not f.endswith((".cc", ".py")):
            h.update(os.path.basename(f).encode() + b"\0")
            with open(f, "rb") as fh:
                h.update(hashlib.sha256(fh.read()).digest())
    return h.hexdigest()


def _cc(args):
    src, obj, flags, headers = args
    if os.path.exists(obj):
        return
    cache = os.path.join(VERIF, "build", "objects")
    os.makedirs(cache, exist_ok=True)
    same = os.path.join(cache, _key(src, flags, headers) + ".o")
    if not os.path.exists(same):
        tmp = same + ".tmp%d" % os.getpid()
        _run(["g++", "-std=gnu++17", "-c", src, "-o", tmp, "-I" + os.path.join(REPO, "libsrc")] + flags + INC)
        os.rename(tmp, same)
    os.utime(same)
    tmp = obj + ".tmp%d" % os.getpid()
    os.link(same, tmp)
    os.rename(tmp, obj)


def _lib(part):
    return sorted(glob.glob(os.path.join(REPO, "libsrc/geomodelgrids", part, "**/*.cc"), recursive=True))


def _plan(target, out):
    """(compile jobs, link command, result) of a target."""
    san = ["-O1", "-g1", "-w"] + SAN
    jobs = []

    def obj(src, flags, tag):
        o = os.path.join(out, tag + "_" + os.path.relpath(src, "/").replace("/", "_") + ".o")
        jobs.append((src, o, flags))
        return o

    gdal = False
    serial = [s for s in _lib("serial") + _lib("utils") if os.path.basename(s) != "GeoTiff.cc"]
    if target == "driver":
        srcs = serial + [os.path.join(CPP, f) for f in ("main.cc", "query.cc", "cquery.cc", "model.cc", "h5.cc", "utils.cc")]
    elif target == "gdriver":
        srcs = _lib("utils") + [os.path.join(CPP, f) for f in ("main.cc", "geotiff.cc")]
        gdal = True
    elif target.startswith("app_"):
        name = target[4:]
        srcs = serial + [os.path.join(REPO, "bin", name + ".cc")]
        apps = _lib("apps")
        main = os.path.join(REPO, "bin", name + ".cc")
        if name == "isosurface":
            srcs = serial + [s for s in _lib("utils") if os.path.basename(s) == "GeoTiff.cc"] + [main] + apps
            gdal = True
        else:
            srcs = serial + [main] + [s for s in apps if os.path.basename(s) != "Isosurface.cc"]
    elif target == "pymodule":
        flags = ["-O0", "-g0", "-w", "-fPIC", "-fvisibility=hidden",
                 "-I" + sysconfig.get_paths()["include"], "-I/usr/include/python3.12"]
        pic = ["-O1", "-g0", "-w", "-fPIC"]
        objs = [obj(s, pic, "pic") for s in serial]
        objs += [obj(s, flags, "py") for s in sorted(glob.glob(os.path.join(REPO, "modulesrc/*.cc")))]
        so = os.path.join(out, "pymodule", "_geomodelgrids.so")
        os.makedirs(os.path.dirname(so), exist_ok=True)
        return jobs, ["g++", "-shared", "-o", so + ".tmp"] + objs + ["-L" + H5LIB, "-lhdf5", "-lproj"], so
    else:
        raise BuildError("unknown target " + target)
    objs = [obj(s, san, "san") for s in srcs]
    exe = os.path.join(out, target)
    return jobs, ["g++", "-o", exe + ".tmp"] + SAN + objs + ["-L" + H5LIB, "-lhdf5", "-lproj"] + (["-lgdal"] if gdal else []), exe


def build(targets):
    """Build targets; returns {target: path}. Raises BuildError."""
    out = os.path.join(VERIF, "build", tree_hash())
    os.makedirs(out, exist_ok=True)
    os.utime(out)
    res, plans = {}, []
    with open(os.path.join(VERIF, "build", ".lock"), "w") as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        _prune(out)
        jobs = {}
        for t in targets:
            j, link, path = _plan(t, out)
            res[t] = path
            if not os.path.exists(path):
                plans.append((link, path))
                for x in j:
                    jobs[x[1]] = x
        if plans:
            # Largest sources first, for an even load.
            todo = sorted(jobs.values(), key=lambda x: (0 if "modulesrc" in x[0] else 1, -os.path.getsize(x[0])))
            headers = _headers()
            with ThreadPoolExecutor(8) as ex:
                list(ex.map(_cc, [x + (headers,) for x in todo]))
                list(ex.map(_run, [p[0] for p in plans]))
            for link, path in plans:
                os.rename(path + ".tmp", path)
    return res


def stage_python():
    """Directory holding the Python package of the tree (sources copied) next to the extension module."""
    so = build(["pymodule"])["pymodule"]
    h = hashlib.sha256()
    src = os.path.join(REPO, "geomodelgrids")
    fs = []
    for root, dirs, files in os.walk(src):
        dirs[:] = sorted(d for d in dirs if d != "__pycache__")
        for f in sorted(files):
            if f.endswith(".py") or f.endswith(".cfg"):
                fs.append(os.path.join(root, f))
    fs.append(os.path.join(REPO, "bin/geomodelgrids_create_model"))
    for f in fs:
        h.update(f.encode() + b"\0")
        h.update(hashlib.sha256(open(f, "rb").read()).digest())
    base = os.path.join(os.path.dirname(os.path.dirname(so)), "stage_" + h.hexdigest()[:12])
    with open(os.path.join(VERIF, "build", ".lock"), "w") as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        if not os.path.isdir(base):
            tmp = base + ".tmp%d" % os.getpid()
            shutil.rmtree(tmp, ignore_errors=True)
            shutil.copytree(src, os.path.join(tmp, "geomodelgrids"), ignore=shutil.ignore_patterns("__pycache__"))
            shutil.copy(so, os.path.join(tmp, "geomodelgrids", "_geomodelgrids.so"))
            os.makedirs(os.path.join(tmp, "bin"))
            shutil.copy(os.path.join(REPO, "bin/geomodelgrids_create_model"), os.path.join(tmp, "bin"))
            os.rename(tmp, base)
    return base


ALL = ["driver", "gdriver", "app_query", "app_queryelev", "app_borehole", "app_isosurface", "app_info", "pymodule"]

if __name__ == "__main__":
    t = time.time()
    print(build(sys.argv[1:] or ALL), "%.1fs" % (time.time() - t))
