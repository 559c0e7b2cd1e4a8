"""Client of a persistent Python process that uses the staged Python package."""
import os
import pickle
import select
import struct
import subprocess
import time

from . import build
from .core import Inconclusive
from .driver import Crash


class PyExc:
    """A Python exception raised by an operation."""

    def __init__(self, type_, what, tb):
        self.type, self.what, self.tb = type_, what, tb

    def __repr__(self):
        return "PyExc(%s: %s)" % (self.type, self.what[:200])

    def __eq__(self, o):
        return isinstance(o, PyExc) and (self.type, self.what) == (o.type, o.what)


class PyClient:
    TIMEOUT = 180.0

    def __init__(self, stage, scratch):
        self.stage, self.scratch, self.p = stage, scratch, None

    def start(self):
        e = build.env()
        e.update(PYTHONPATH=self.stage, OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1", HDF5_USE_FILE_LOCKING="FALSE")
        self.errpath = os.path.join(self.scratch, "python.stderr")
        self.err = open(self.errpath, "wb")
        self.p = subprocess.Popen(["/usr/bin/python3", "-W", "ignore", os.path.join(os.path.dirname(os.path.abspath(__file__)), "pyserver.py")],
                                  stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=self.err, env=e, cwd=self.scratch)

    def stop(self):
        if self.p:
            self.p.kill()
            self.p.wait()
            self.p.stdin.close()
            self.p.stdout.close()
            self.err.close()
            self.p = None

    def _read(self, n, deadline):
        buf = b""
        while len(buf) < n:
            left = deadline - time.monotonic()
            if left <= 0:
                raise TimeoutError
            r, _, _ = select.select([self.p.stdout], [], [], left)
            if r:
                d = os.read(self.p.stdout.fileno(), min(n - len(buf), 1 << 20))
                if not d:
                    raise EOFError
                buf += d
        return buf

    def call(self, name, *args, **kw):
        """Result of the operation, or a PyExc."""
        if self.p is None:
            self.start()
        data = pickle.dumps((name, args, kw))
        deadline = time.monotonic() + self.TIMEOUT
        try:
            try:
                self.p.stdin.write(struct.pack("<q", len(data)) + data)
                self.p.stdin.flush()
            except BrokenPipeError:
                pass
            n = struct.unpack("<q", self._read(8, deadline))[0]
            res = pickle.loads(self._read(n, deadline))
        except TimeoutError:
            self.stop()
            raise Crash("no answer within %gs from %s" % (self.TIMEOUT, name))
        except EOFError:
            rc = self.p.wait()
            self.stop()
            with open(self.errpath, "rb") as f:
                err = f.read().decode(errors="replace")
            if rc == -9:
                raise Inconclusive("python was killed")
            raise Crash("python process ended (code %s) in %s: %s" % (rc, name, err[-400:]))
        if res[0] == "ok":
            return res[1]
        return PyExc(*res[1:])
