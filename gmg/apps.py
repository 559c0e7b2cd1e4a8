"""Runs the command line applications."""
import subprocess

from . import build
from .driver import Crash, summary


class Result:
    def __init__(self, rc, out, err):
        self.rc, self.out, self.err = rc, out, err


def run_app(exe, args, cwd, timeout=180, env=None):
    e = build.env()
    if env:
        e.update(env)
    args = [a if isinstance(a, (str, bytes)) else repr(a) for a in args]
    try:
        p = subprocess.run([exe] + args, cwd=cwd, env=e, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE,
                           stderr=subprocess.PIPE, timeout=timeout)
    except subprocess.TimeoutExpired:
        raise Crash("%s %r did not end within %gs" % (exe.split("/")[-1], args, timeout))
    err = p.stderr.decode(errors="replace")
    if p.returncode < 0 or p.returncode in (99, 134, 139) or "ERROR: AddressSanitizer" in err or "runtime error:" in err:
        raise Crash("%s %r crashed (code %s): %s" % (exe.split("/")[-1], args, p.returncode, summary(err)))
    return Result(p.returncode, p.stdout.decode(errors="replace"), err)
