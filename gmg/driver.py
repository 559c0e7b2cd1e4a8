"""Client of the C++ drivers: runs scripts of commands in a persistent sanitized process."""
import os
import select
import subprocess
import time
from urllib.parse import unquote_to_bytes

from . import build
from .core import Violation, Inconclusive

SENTINEL = 12345.678


class Crash(Violation):
    """The code under test aborted, was stopped by a sanitizer, or did not come back."""


class Exc:
    """A C++ exception reported by the driver."""

    def __init__(self, type_, what):
        self.type, self.what = type_, what

    def __repr__(self):
        return "Exc(%s: %s)" % (self.type, self.what[:200])

    def __eq__(self, o):
        return isinstance(o, Exc) and (self.type, self.what) == (o.type, o.what)


_SAFE = set(b"abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789_./:+-=,<>()[]{}|&;!@#$^*~?'`\\")


def quote(s):
    b = s if isinstance(s, bytes) else s.encode("utf-8", "surrogateescape")
    return "".join(chr(c) if c in _SAFE else "%%%02x" % c for c in b)


def _enc(out, v):
    if isinstance(v, str) or isinstance(v, bytes):
        out.append(quote(v))
    elif isinstance(v, bool):
        out.append(str(int(v)))
    elif isinstance(v, float):
        out.append(float.hex(v) if v == v and abs(v) != float("inf") else repr(v))
    elif isinstance(v, int):
        out.append(str(v))
    elif isinstance(v, (list, tuple)):
        for w in v:
            _enc(out, w)
    elif hasattr(v, "item"):
        _enc(out, v.item())
    elif hasattr(v, "tolist"):
        _enc(out, v.tolist())
    else:
        raise TypeError(repr(v))


def _dec(line):
    res = []
    toks = line.split("\t") if line else []
    i = 0
    while i < len(toks):
        t = toks[i]
        if t == "EXC":
            res.append(Exc(_str(toks[i + 1]), _str(toks[i + 2])))
            i += 3
            continue
        if t.startswith('"'):
            res.append(_str(t))
        elif "0x" in t or t in ("nan", "inf", "-inf"):
            res.append(float.fromhex(t))
        else:
            try:
                res.append(int(t))
            except ValueError:
                res.append(t)
        i += 1
    return res


def _str(t):
    return unquote_to_bytes(t[1:-1]).decode("utf-8", "surrogateescape")


class Driver:
    TIMEOUT = 180.0

    def __init__(self, exe, scratch, tag=""):
        self.exe, self.scratch, self.tag, self.p = exe, scratch, tag, None
        self.starts = 0

    def start(self):
        self.errpath = os.path.join(self.scratch, os.path.basename(self.exe) + self.tag + ".stderr")
        self.err = open(self.errpath, "wb")
        env = build.env()
        if "reuse" in self.tag:
            # Freed memory is handed out again at once, so that new objects take the addresses of destroyed ones.
            env["ASAN_OPTIONS"] += ":quarantine_size_mb=0:thread_local_quarantine_size_kb=0"
        self.p = subprocess.Popen([self.exe], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=self.err,
                                  env=env, cwd=self.scratch)
        self.buf = b""
        self.starts += 1

    def stop(self):
        if self.p:
            self.p.kill()
            self.p.wait()
            self.p.stdin.close()
            self.p.stdout.close()
            self.err.close()
            self.p = None

    def _line(self, deadline):
        while True:
            i = self.buf.find(b"\n")
            if i >= 0:
                l, self.buf = self.buf[:i], self.buf[i + 1:]
                return l.decode("latin-1")
            left = deadline - time.monotonic()
            if left <= 0:
                return "TIMEOUT"
            r, _, _ = select.select([self.p.stdout], [], [], left)
            if r:
                d = os.read(self.p.stdout.fileno(), 1 << 18)
                if not d:
                    return None
                self.buf += d

    def run(self, cmds):
        """Run commands, destroy every object, and return one list of tokens per command."""
        if self.p is None:
            self.start()
        lines = []
        for c in cmds:
            out = []
            for v in c:
                _enc(out, v)
            lines.append("\t".join(out))
        data = ("\n".join(lines) + ("\n" if lines else "") + "END\n").encode("latin-1")
        try:
            self.p.stdin.write(data)
            self.p.stdin.flush()
        except BrokenPipeError:
            pass
        res = []
        deadline = time.monotonic() + self.TIMEOUT
        while True:
            l = self._line(deadline)
            if l == "TIMEOUT":
                self.stop()
                raise Crash("no answer within %gs to command %s" % (self.TIMEOUT, self._show(cmds, len(res))))
            if l is None:
                rc = self.p.wait()
                self.stop()
                with open(self.errpath, "rb") as f:
                    err = f.read().decode(errors="replace")
                if rc == 97:
                    raise Inconclusive("driver misuse: " + err[-500:])
                if rc == -9:
                    raise Inconclusive("driver was killed")
                raise Crash("process ended (code %s) in command %s: %s" % (rc, self._show(cmds, len(res)), summary(err)))
            if l == "DONE" and len(res) == len(cmds):
                return res
            res.append(_dec(l))

    @staticmethod
    def _show(cmds, i):
        return repr(cmds[i])[:300] if i < len(cmds) else "<cleanup>"


def summary(err):
    keep = [l for l in err.splitlines() if any(k in l for k in
            ("ERROR: AddressSanitizer", "runtime error", "Assertion", "SUMMARY", "terminate called", "what():"))]
    keep = [l for l in keep if l]
    return " | ".join(keep)[:600] if keep else err[-300:]
