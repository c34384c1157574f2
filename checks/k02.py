"""K02: containers written by an independent producer are listed and read completely."""
import os
from hypothesis import strategies as st
from vp.engine import Check, expect, same
from vp.data import expand, blobs, around, text
from vp import cf
from checks.p09 import UNIX_FT, V8_UNIT, V8_UNIX

PS, FS = "\x1e", "\x1f"


def fold(s):
    """Latin and Russian lower case"""
    out = []
    for c in s:
        if "A" <= c <= "Z" or "А" <= c <= "Я" or c == "Ё":
            c = c.lower()
        out.append(c)
    return "".join(out)


NAMES = st.one_of(st.sampled_from(["root", "version", "versions", "copyinfo", "module", "text", "info", "Файл", "ФАЙЛ2", "Модуль.1", "0a1b2c3d-0000-4000-8000-0123456789ab",
                                   "0a1b2c3d-0000-4000-8000-0123456789ab.0", "n" * 40, "N" * 201, "Имя" * 40]),
                  text(12, exclude="/\\\0\x1e\x1f").filter(lambda s: s not in ("", ".", "..") and len(s.encode()) < 200))
SEC = st.one_of(st.integers(-UNIX_FT + 86400, 253402200000), st.integers(946684800, 2 ** 31))
SIZES = st.one_of(st.integers(0, 60), st.integers(0, 3000), around(512, 1024, 4096, 16384), st.integers(0, 40000))


def entry(depth):
    data = blobs(SIZES, 30)
    leaf = st.one_of(st.none(), data, data, data)
    if depth:
        leaf = st.one_of(leaf, leaf, container(depth - 1).map(lambda c: {"c": c}))
    return st.tuples(NAMES, SEC, SEC, leaf).map(list)


def container(depth):
    return st.tuples(st.lists(entry(depth), max_size=6 if depth else 4, unique_by=lambda e: fold(e[0])), st.integers(0, 9999), st.integers(0, 4), st.integers(0, 63), st.booleans()).map(list)


def v8(t):
    return (t + V8_UNIX) * V8_UNIT


def build(c, zipped=False):
    """(bytes, tree) of a drawn container"""
    ents, tree = [], []
    for name, tc, tm, body in c[0]:
        if isinstance(body, dict):
            data, sub = build(body["c"])
        else:
            data, sub = (None if body is None else expand(body)), None
            if data is not None and cf.is_container(data):
                data = b"x" + data
        ents.append((name, v8(tc), v8(tm), data))
        tree.append((name, tc, tm, data or b"", sub))
    return cf.build(ents, zipped, c[1], c[2], c[3], c[4]), tree


def unlist(b):
    out, p = [], 0
    while p < len(b):
        n = int.from_bytes(b[p:p + 4], "little")
        out.append(b[p + 4:p + 4 + n])
        p += 4 + n
    return [tuple(out[i:i + 5]) for i in range(0, len(out), 5)]


def flat(tree, prefix=""):
    out = []
    for name, tc, tm, data, sub in tree:
        is_c = sub is not None
        out.append(((prefix + name).encode(), b"c" if is_c else b"f", str((tc + UNIX_FT) * 10 ** 7).encode(), str((tm + UNIX_FT) * 10 ** 7).encode(), b"" if is_c else data))
        if is_c:
            out += flat(sub, prefix + name + PS)
    return out


def run_script(ex, ops):
    args = []
    for op, data in ops:
        args += [FS.join(str(x) for x in op), data]
    return ex.call("cf.run", *args)


def check_dir(ctx, where, tree):
    names = sorted(os.listdir(where))
    same(names, sorted(t[0] for t in tree), "file names unpacked into %s" % os.path.relpath(where, ctx.dir))
    for name, tc, tm, data, sub in tree:
        p = os.path.join(where, name)
        if sub is not None:
            expect(os.path.isdir(p), "nested container %r was not unpacked into a directory", name)
            check_dir(ctx, p, sub)
        else:
            same(open(p, "rb").read(), data, "unpacked file %r" % name)
            same(int(os.stat(p).st_mtime), tm, "modification time of unpacked file %r" % name)


class C(Check):
    id = "K02"
    rule = ("containers of 0..6 elements (nested up to two levels) from an independent writer: random page splits, padding, page order, free "
            "pages, absent data, upper/lower case numbers, packed or plain, opened by extension, by flag, or as a stream. Non-trivial: at "
            "least two elements or a nested one.")
    quick, thorough = 700, 20000

    def strategy(self, tier):
        how = st.sampled_from([("cf", "name", True), ("CF", "name", True), ("epf", "name", True), ("erf", "name", True), ("cfe", "name", True), ("dat", "name", False), ("cfu", "name", False),
                               ("bin", "zip", True), ("bin", "plain", False), ("bin", "mem", False), ("bin", "memzip", True)]).map(list)
        return st.tuples(container(2), how, st.lists(st.tuples(st.integers(0, 99), st.integers(0, 41000), st.integers(0, 5000)).map(list), min_size=1, max_size=4), st.booleans(), st.one_of(st.none(), st.none(), blobs(SIZES, 30))).map(list)

    def run(self, case, ctx):
        c, (ext, kind, zipped), reads, todir, junk = case
        raw, tree = build(c, zipped)
        assert [(e[0], e[3]) for e in cf.parse(raw, zipped)] == [(t[0], t[3]) for t in tree]
        if ext == "cfu":
            raw = cf.deflate(raw)
        p = ctx.write("x." + ext, raw)
        os.chmod(p, 0o666)
        fl = flat(tree)
        ops = [(["open", kind, p], b""), (["dump", ""], b""), (["list", ""], b"")]
        wants = [b"ok1", None, None]
        files = [e for e in fl if e[1] == b"f"]
        for i, off, n in reads:
            if not files:
                break
            name, _, tc, tm, data = files[i % len(files)]
            name = name.decode()
            off = off % (len(data) + 1)
            ops.append((["read", name, off, n], b""))
            part = data[off:off + n]
            wants.append(b"ok%d:" % len(part) + part)
            ops.append((["len", name], b""))
            wants.append(b"ok%d" % len(data))
            ops.append((["stream", name, "b %d,r %d,s,c -%d,r 3,e 0,r 1,b 0,r %d" % (off, n, min(off + len(part), 2), n)], b""))
            q = off + len(part)
            q2 = q - min(q, 2)
            three = data[q2:q2 + 3]
            wants.append(b"ok%d,%d:" % (off, len(part)) + part + b",%d,%d,%d:" % (len(data), q2, len(three)) + three + b",%d,0:,0,%d:" % (len(data), len(data[:n])) + data[:n] + b",")
            ops.append((["times", name.upper() if i % 2 and name.upper().lower() == name and fold(name.upper()) == fold(name) else name], b""))
            wants.append(b"ok" + tc + b" " + tm)
            ops.append((["tofile", name, ctx.path("single%d" % len(ops))], b""))
            wants.append(b"ok")
            single = (ctx.path("single%d" % (len(ops) - 1)), data)
        if todir:
            ops.append((["todir", "", ctx.path("out")], b""))
            wants.append(b"ok")
        absent = "absent-name"
        if all(fold(t[0]) != absent for t in tree):
            ops.append((["find", absent], b""))
            wants.append(b"ok0")
        ops.append((["close"], b""))
        wants.append(b"ok")
        r = run_script(ctx.ex, ops)
        same(r[0], b"ok1", "container recognised")
        expect(r[1].startswith(b"ok"), "listing failed: %r", r[1][:200])
        got = unlist(r[1][2:])
        same([g[0] for g in got], [w[0] for w in fl], "element names")
        for g, w in zip(got, fl):
            same(g[:4], w[:4], "kind and times of element %r" % w[0])
            same(g[4], w[4], "content of element %r" % w[0])
        for op, w, g in zip(ops, wants, r):
            if w is not None:
                same(g, w, "result of %s" % (op[0],))
            if op[0][0] == "tofile":
                i = next(e for e in files if e[0].decode() == op[0][1])
                same(open(op[0][2], "rb").read(), i[4], "element %r saved to a file" % op[0][1])
        if todir:
            check_dir(ctx, ctx.path("out"), tree)
        same(ctx.read("x." + ext), raw, "container file after reading")
        if junk is not None:
            raw = expand(junk)
            if raw and ext != "cfu" and not cf.is_container(raw) and raw[:4] != b"\xff\xff\xff\x7f":
                q = ctx.write("junk." + ext, raw)
                os.chmod(q, 0o666)
                r = run_script(ctx.ex, [(["open", kind, q], b""), (["list", ""], b""), (["find", "root"], b""), (["close"], b"")])
                same(r, [b"ok0", b"ok", b"ok0", b"ok"], "results of opening, listing, searching and closing a file which is no container")
                same(ctx.read("junk." + ext), raw, "a file which is no container, after reading")
        return [ext + "-" + kind, "nested" if any(e[1] == b"c" for e in fl) else "flat", "dir" if todir else "api"]

    def nontrivial(self, case, labels):
        return len(case[0][0]) >= 2 or "nested" in labels


CHECK = C()
