"""Runs inside the staged Python package: executes operations of gmg/pyops.py sent by the client (pickle over pipes)."""
import os
import pickle
import struct
import sys
import traceback


def main():
    inp, out = os.fdopen(os.dup(0), "rb"), os.fdopen(os.dup(1), "wb")
    os.dup2(os.open(os.devnull, os.O_RDONLY), 0)
    os.dup2(2, 1)  # anything printed goes to standard error
    sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
    import pyops
    while True:
        head = inp.read(8)
        if len(head) < 8:
            return
        name, args, kw = pickle.loads(inp.read(struct.unpack("<q", head)[0]))
        try:
            res = ("ok", getattr(pyops, name)(*args, **kw))
        except BaseException as e:  # reported to the client
            res = ("exc", type(e).__name__, str(e), traceback.format_exc())
        data = pickle.dumps(res)
        out.write(struct.pack("<q", len(data)) + data)
        out.flush()


main()
