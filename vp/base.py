"""Driving one database session through the executor."""
import os
from .exe import Violation, Unsupported
from .engine import short

FS = "\x1f"


def script(ctx, ops, timeout=30.0):
    """ops: list of (op, args...) or (op, args..., bytes); returns list of raw results"""
    args = []
    for o in ops:
        data = b""
        if isinstance(o[-1], (bytes, bytearray)):
            data, o = bytes(o[-1]), o[:-1]
        args += [FS.join(str(x) for x in o), data]
    r = ctx.ex.call("base.run", *args, timeout=timeout)
    for x in r:
        if x[:5] == b"nocmd":
            raise Unsupported(x[5:].decode())
    return r


def ok(r, what):
    if r[:2] != b"ok":
        raise Violation("%s failed: %s" % (what, short(r[3:].decode("utf-8", "replace"), 300)))
    return r[2:]


def items(b):
    out, p = [], 0
    while p < len(b):
        n = int.from_bytes(b[p:p + 4], "little")
        out.append(b[p + 4:p + 4 + n])
        p += 4 + n
    return out


def texts(b):
    return [x.decode("utf-8") for x in items(b)]


def put(ctx, name, data):
    p = ctx.write(name, data)
    os.chmod(p, 0o666)
    return p
