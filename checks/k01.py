"""K01: a container file behaves like an ordered map from names to contents over any history."""
import copy, os, time, zlib
from hypothesis import strategies as st
from vp.engine import Check, expect, same
from vp.data import expand, blobs, around
from vp import cf
from checks.k02 import PS, FS, NAMES, fold, unlist, container, build, v8
from checks.p09 import V8_UNIT

SIZES = st.one_of(st.integers(0, 40), st.integers(0, 1500), around(481, 512, 543, 1024, 2048), st.integers(0, 30000))
DATA = blobs(SIZES, 24)
POOL = ["a", "b", "Text", "ТЕКСТ", "root", "name.with.dots", "sub", "Sub2", "sub3"]


class Node:
    def __init__(self, name, kind):
        self.name, self.kind = name, kind       # kind: 'f' or 'c'
        self.data = b""
        self.items = []
        self.create = self.modify = "now"       # container time as stored, "now" or "any"

    def find(self, n):
        return next((x for x in self.items if fold(x.name) == fold(n)), None)


def op_strategy():
    k = st.integers(0, 99)
    return st.one_of(
        st.tuples(st.just("write"), k, DATA, st.sampled_from(["write", "ws", "wac"])),
        st.tuples(st.just("write"), k, DATA, st.sampled_from(["write", "ws", "wac"])),
        st.tuples(st.just("part"), k, DATA, st.sampled_from(["writep", "writev", "wsp", "stream"]), st.integers(0, 31000), st.integers(0, 60)),
        st.tuples(st.just("wacp"), k, DATA, st.integers(0, 60), st.integers(0, 31000)),
        st.tuples(st.just("create"), k, st.integers(0, 99)),
        st.tuples(st.just("createw"), k, st.integers(0, 99), DATA),
        st.tuples(st.just("createw"), k, st.integers(0, 99), DATA),
        st.tuples(st.just("mkdir"), k, st.integers(0, 99)),
        st.tuples(st.sampled_from(["delete", "delete", "delfile"]), k),
        st.tuples(st.just("deldir"), k),
        st.tuples(st.just("graft"), k, container(1), st.sampled_from(["write", "ws", "wac", "writep", "writev", "wsp"]), k),
        st.tuples(st.just("rename"), k, st.integers(0, 99)),
        st.tuples(st.sampled_from(["fclose", "fflush", "fopen", "read", "len", "iscat", "tostream", "full"]), k, st.integers(0, 31000), st.integers(0, 3000)),
        st.tuples(st.sampled_from(["flush", "reopen", "reopen", "half", "dump", "absent"]), k)).map(list)


class C(Check):
    id = "K01"
    rule = ("histories of 1..25 operations (create, overwrite in three forms, partial write in four forms, write-and-close, delete in two forms, "
            "rename, nested containers made or written as bytes, flush, close and reopen of elements and of the container, half-close) on a fresh container of every kind or on one written by another producer. "
            "Every page of the file must belong to something, elements not written keep their times. Non-trivial: at least two writes and one deletion, overwrite, rename or reopen.")
    quick, thorough = 1200, 40000

    def strategy(self, tier):
        how = st.sampled_from([("cf", "name"), ("epf", "name"), ("dat", "name"), ("cfu", "name"), ("bin", "zip"), ("bin", "plain"), ("bin", "mem"), ("bin", "memzip")]).map(list)
        names = st.lists(st.one_of(st.sampled_from(POOL), NAMES), min_size=3, max_size=7, unique_by=fold)
        return st.tuples(how, names, st.lists(op_strategy(), min_size=1, max_size=25), st.one_of(st.none(), container(1))).map(list)

    def run(self, case, ctx):
        (ext, kind), names, ops, start = case
        zipped = ext in ("cf", "epf") or kind in ("zip", "memzip")
        p = ctx.path("c." + ext)
        root = Node("", "c")
        script, wants, labels = [], [], set()

        def dirs(n=root, path=""):
            out = [(n, path)]
            for x in n.items:
                if x.kind == "c":
                    out += dirs(x, path + x.name + PS)
            return out

        def files(kinds="f"):
            return [(d, x, path + x.name) for d, path in dirs() for x in d.items if x.kind in kinds]

        def do(op, want, data=b""):
            script.append((op, data))
            wants.append(want)

        def load(n, t):
            for name, tc, tm, data, sub in t:
                x = Node(name, "f" if sub is None else "c")
                x.create, x.modify = v8(tc), v8(tm) if sub is None else "any"
                n.items.append(x)
                if sub is None:
                    x.data = data
                else:
                    load(x, sub)
        if start:
            raw, tree = build(start, zipped)
            load(root, tree)
            ctx.write("c." + ext, cf.deflate(raw) if ext == "cfu" else raw)
            os.chmod(p, 0o666)
            labels.add("existing")
        elif "mem" in kind:
            open(p, "wb").close()
        do(["open", kind, p], b"ok1")
        for op in ops:
            k = op[0]
            if k in ("write", "part", "wacp", "fclose", "fflush", "fopen", "read", "len", "iscat", "tostream", "full", "rename", "delete", "delfile", "graft"):
                fs = files("f") if k not in ("full", "fflush") else files("fc")
                if not fs:
                    continue
                d, x, path = fs[op[1] % len(fs)]
            if k == "write":
                x.data = self.fix(expand(op[2]))
                x.modify = "now" if op[3] != "wac" else "any"
                if op[3] == "wac":
                    do(["wac", path, -1, 0], b"ok%d" % len(x.data), x.data)
                else:
                    do([op[3], path], b"ok%d" % len(x.data), x.data)
            elif k == "graft":
                # the bytes of a container written into a plain element make it a nested container
                raw, tree = build(op[2])
                form = op[3]
                if path.count(PS) > 1 or form in ("writep", "writev", "wsp") and len(raw) < len(x.data):
                    continue
                if op[4] % 2:
                    do(["iscat", path], b"ok0")
                do({"wac": ["wac", path, -1, 0], "wsp": ["wsp", path, 0, len(raw), 0]}.get(form) or [form, path] + [0] * (form in ("writep", "writev")), b"ok%d" % len(raw), raw)
                x.kind, x.modify, x.data = "c", "any", b""
                load(x, tree)
                if op[4] % 3:
                    do(["iscat", path], b"ok1")
            elif k == "wacp":
                src = self.fix(expand(op[2]))
                pos = op[3] % (len(src) + 1)
                n = op[4] % (len(src) - pos + 1)
                x.data = self.fix(src[pos:pos + n])
                x.modify = "any"
                do(["wac", path, n, pos], b"ok%d" % n, src)
            elif k == "part":
                src = expand(op[2])
                off = op[4] % (len(x.data) + 1)
                form = op[3]
                if form == "wsp":
                    if not src:
                        continue
                    pos = op[5] % len(src)
                    n = 1 + op[4] % (len(src) - pos)
                    w = src[pos:pos + n]
                    do(["wsp", path, off, n, pos], b"ok%d" % n, src)
                elif form == "stream":
                    w = src[:50]
                    do(["stream", path, "b %d,w %s,s,b %d,r %d" % (off, w.hex(), off, len(w))], b"ok%d,%d,%d,%d,%d:" % (off, len(w), max(len(x.data), off + len(w)), off, len(w)) + w + b",")
                else:
                    if form == "writev" and not src:
                        continue
                    w = src
                    do([form, path, off], b"ok%d" % len(w), w)
                new = x.data[:off] + w + x.data[off + len(w):]
                if cf.is_container(new):
                    return ["skip"]
                x.data = new
                x.modify = "any"
            elif k in ("create", "createw", "mkdir"):
                ds = dirs()
                d, path = ds[op[1] % len(ds)]
                if path.count(PS) > 2:
                    continue
                n = names[op[2] % len(names)]
                x = d.find(n)
                if k == "mkdir":
                    if x is None:
                        x = Node(n, "c")
                        d.items.append(x)
                        do(["mkdir", path + n], b"ok1")
                    elif x.kind == "c":
                        do(["mkdir", path + n], b"ok1")
                    elif x.data:
                        do(["mkdir", path + n], b"ok0")
                    else:
                        x.kind, x.modify = "c", "any"
                        do(["mkdir", path + n], b"ok1")
                    continue
                if x is not None and x.kind == "c":
                    continue
                if x is None:
                    x = Node(n, "f")
                    d.items.append(x)
                do(["create", path + n], b"ok" + x.name.encode())
                if k == "createw":
                    x.data = self.fix(expand(op[3]))
                    x.modify = "now"
                    do(["write", path + n], b"ok%d" % len(x.data), x.data)
            elif k in ("delete", "delfile"):
                d.items.remove(x)
                do([k, path], b"ok")
                do(["find", path], b"ok0")
            elif k == "deldir":
                cs = files("c")
                if not cs:
                    continue
                d, x, path = cs[op[1] % len(cs)]
                d.items.remove(x)
                do(["delete", path], b"ok")
            elif k == "rename":
                n = names[op[2] % len(names)]
                if d.find(n) not in (None, x):
                    continue
                old, x.name = x.name, n
                x.modify = "any"
                do(["rename", path, n], b"ok" + n.encode())
                base = path[:len(path) - len(old)]
                do(["find", base + n], b"ok1")
                if fold(old) != fold(n):
                    do(["find", path], b"ok0")
            elif k == "read":
                off = op[2] % (len(x.data) + 1)
                w = x.data[off:off + op[3]]
                do(["read", path, off, op[3]], b"ok%d:" % len(w) + w)
            elif k == "len":
                do(["len", path], b"ok%d" % len(x.data))
            elif k == "iscat":
                do(["iscat", path], b"ok0")
            elif k == "tostream":
                do(["tostream", path], b"ok" + x.data)
            elif k == "full":
                do(["full", path], b"ok" + path.replace(PS, "\\").encode())
            elif k == "fopen":
                do(["fopen", path], b"ok1")
            elif k in ("fclose", "fflush"):
                do([k, path], b"ok")
            elif k == "flush":
                ds = dirs()
                where = ds[op[1] % len(ds)][1].rstrip(PS)
                do(["flush", where], ("any",) if where else ("file", copy.deepcopy(root)))
            elif k == "reopen":
                do(["close"], b"ok")
                do(["open", kind, p], b"ok1")
            elif k == "half":
                if "mem" in kind:
                    continue
                do(["half"], ("file", copy.deepcopy(root)))
            elif k == "dump":
                do(["dump", ""], ("dump", self.flat(root)))
            elif k == "absent":
                ds = dirs()
                d, path = ds[op[1] % len(ds)]
                free = [n for n in names if d.find(n) is None]
                if not free:
                    continue
                do(["find", path + free[0]], b"ok0")
                do(["delete", path + free[0]], b"ok")
            labels.add(k)
        do(["dump", ""], ("dump", self.flat(root)))
        do(["close"], b"ok")
        do(["open", kind, p], b"ok1")
        do(["dump", ""], ("dump", self.flat(root)))
        do(["close"], b"ok")
        args = []
        for op, data in script:
            args += [FS.join(str(x) for x in op), data]
        r = ctx.ex.call("cf.run", *args)
        for i, (w, g) in enumerate(zip(wants, r)):
            what = "step %d %s after %s" % (i + 1, script[i][0], [s[0][:3] for s in script[max(1, i - 3):i]])
            if isinstance(w, tuple) and w[0] != "dump":
                expect(g.startswith(b"ok"), "%s: %r", what, g[:200])
                if w[0] == "file":
                    self.stored(w[1], g[2:], ext, zipped, "after " + what)
            elif isinstance(w, tuple):
                expect(g.startswith(b"ok"), "%s: %r", what, g[:200])
                same([(e[0], e[1], e[4]) for e in unlist(g[2:])], w[1], "elements at " + what)
            else:
                same(g, w, "result of " + what)
        self.stored(root, open(p, "rb").read(), ext, zipped, "at the end")
        return sorted(labels) + [ext + "-" + kind]

    def stored(self, root, raw, ext, zipped, when):
        if ext == "cfu" and raw:
            raw = zlib.decompressobj(-15).decompress(raw)
        try:
            self.cmp(root, raw, zipped, "")
        except cf.Bad as e:
            expect(False, "independent reader refuses the container %s: %s", when, e)

    def cmp(self, node, raw, zipped, path):
        es = cf.parse(raw, zipped, True)
        same([e[0] for e in es], [x.name for x in node.items], "names in container %r as read independently" % path)
        now = v8(int(time.time()))
        for e, x in zip(es, node.items):
            for what, got, want in (("creation", e[1], x.create), ("modification", e[2], x.modify)):
                if want == "now":
                    expect(abs(got - now) < 86400 * V8_UNIT, "%s time of %r, written by this test, is %d", what, path + x.name, got)
                elif want != "any":
                    same(got, want, "%s time of %r" % (what, path + x.name))
            if x.kind == "c":
                self.cmp(x, e[3], False, path + x.name + "/")
            else:
                same(e[3], x.data, "content of %r as read independently" % (path + x.name))

    def flat(self, n, prefix=""):
        out = []
        for x in n.items:
            out.append(((prefix + x.name).encode(), x.kind.encode(), b"" if x.kind == "c" else x.data))
            if x.kind == "c":
                out += self.flat(x, prefix + x.name + PS)
        return out

    def fix(self, d):
        return b"x" + d if cf.is_container(d) else d

    def nontrivial(self, case, labels):
        writes = sum(o[0] in ("write", "part", "createw", "wacp") for o in case[2])
        return "skip" not in labels and writes >= 2 and any(l in labels for l in ("delete", "delfile", "deldir", "rename", "reopen", "write", "part", "wacp"))


CHECK = C()
