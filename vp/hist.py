"""Histories of writes and resizes over the objects of one database, with a byte-array model."""
from hypothesis import strategies as st
from .data import expand
from . import onecd
from .base import script, ok, items, put
from .engine import expect, same, short

FIELDS = [["A", "B", 0, 4, 0, "CS"]]
WRITABLE = ["8.1.0.0", "8.2.0.0", "8.2.14.0", "8.3.8.0", "8.3.8.0", "8.3.8.0"]


def edges(ver, ps):
    """object lengths where the shape of the page map changes"""
    if ver == "8.3.8.0":
        return [(ps // 4 - 6) * ps, ps // 4 * ps]
    return [1023 * 4096]


@st.composite
def histories(draw, max_ops=12):
    ver = draw(st.sampled_from(WRITABLE))
    new = ver == "8.3.8.0"
    ps = draw(st.sampled_from([4096, 4096, 8192, 65536])) if new else 4096
    edge = draw(st.integers(0, 7)) == 0 and ps == 4096
    mark = edges(ver, ps)
    if edge:
        ln = st.one_of(st.sampled_from(mark).flatmap(lambda m: st.integers(-3, 3).map(lambda k: max(0, m + k * ps))),
                       st.sampled_from(mark).flatmap(lambda m: st.integers(-2, 2).map(lambda k: m + k)),
                       st.sampled_from([0, 0, 1, ps, 5 * ps]))
    else:
        ln = st.one_of(st.sampled_from([0, 0, 1, ps - 1, ps, ps + 1, 2 * ps, 3 * ps, 3 * ps + 1]), st.integers(0, 5 * ps))
    n = draw(st.integers(1, 3 if not edge else 2))
    objs = [[draw(ln) if i == 0 or not edge else draw(st.integers(0, 3 * ps)), draw(st.integers(0, 999)), 1] for i in range(n)]
    who = st.integers(0, n + 1)
    small = st.integers(0, 2 * ps + 5)
    near = st.tuples(st.sampled_from(["abs", "end"]), ln, st.sampled_from([0, 0, 1, -1, -ps, ps, -7, 9])).map(list)
    op = st.one_of(
        st.tuples(st.just("setlen"), who, ln).map(list),
        st.tuples(st.just("setlen"), who, ln).map(list),
        st.tuples(st.just("set"), who, st.sampled_from(["set", "sets"]), st.one_of(ln, ln, small), st.integers(0, 999)).map(list),
        st.tuples(st.just("setr"), who, st.sampled_from(["setr", "setsr"]), near, small, st.integers(0, 999)).map(list),
        st.tuples(st.just("setr"), who, st.sampled_from(["setr", "setsr"]), near, small, st.integers(0, 999)).map(list),
        st.tuples(st.just("get"), who, st.integers(0, 1 << 22), st.integers(0, 3 * ps)).map(list),
        st.tuples(st.just("new"), who).map(list),
        st.just(["flush"]), st.just(["reopen"]))
    ops = draw(st.lists(op, min_size=1, max_size=8 if edge else max_ops))
    spare = draw(st.sampled_from([0, 1, 4, 30]))
    if ps == 4096 and not edge and draw(st.integers(0, 13)) == 6:      # the list of free pages about to take or to lose a page
        k = draw(st.integers(1, 3))
        spare = k * 1024 + k + draw(st.integers(-6, 5))
    return [ver, ps, draw(st.integers(0, 9999)), spare, draw(st.booleans()), draw(st.integers(0, 2)), objs, ops]


class Model:
    """content with a mask of bytes whose value is specified"""

    def __init__(self, data=b""):
        self.d, self.k = bytearray(data), bytearray(b"\1" * len(data))

    def resize(self, n):
        if n <= len(self.d):
            del self.d[n:], self.k[n:]
        else:
            e = n - len(self.d)
            self.d += bytes(e)
            self.k += bytes(e)

    def write(self, at, b):
        if at + len(b) > len(self.d):
            self.resize(at + len(b))
        self.d[at:at + len(b)] = b
        self.k[at:at + len(b)] = b"\1" * len(b)

    def check(self, got, what, at=0, n=None):
        n = len(self.d) - at if n is None else n
        expect(len(got) == n, "%s: %d bytes instead of %d", what, len(got), n)
        d, k = bytes(self.d[at:at + n]), bytes(self.k[at:at + n])
        if got == d:
            return
        if b"\0" not in k:
            same(got, d, what)
        x = int.from_bytes(got, "little") ^ int.from_bytes(d, "little")
        m = int.from_bytes(k, "little") * 255
        if x & m:
            i = next(i for i in range(n) if k[i] and got[i] != d[i])
            expect(False, "%s: byte %d is %s instead of %s", what, at + i, short(got[i:i + 12]), short(d[i:i + 12]))


def pages(ver, ps, ln):
    """pages an object of a given length takes, its header included"""
    n = -(-ln // ps)
    if ver == "8.3.8.0":
        return 1 + n + (-(-n // (ps // 4)) if n > ps // 4 - 6 else 0)
    return 1 + n + -(-n // 1023)


class Run:
    """executes a history; snaps=True records the saved file after every operation"""

    def __init__(self, case, ctx, snaps):
        ver, ps, seed, spare, stale, extra, objs, ops = case
        self.ver, self.ps, self.ctx = ver, ps, ctx
        im = onecd.Img(ver, ps, seed, spare, stale)
        im.extra_free_lists = extra if not im.new else 0
        self.models = [Model(expand(o)) for o in objs]
        ids = [im.obj(bytes(m.d)) for m in self.models]
        self.rows = expand([5 * (seed % 3000), seed, 1])
        self.rows = bytes(0 if i % 5 == 0 else b for i, b in enumerate(self.rows))
        im.table(onecd.description("T", FIELDS), self.rows)
        self.raw = im.build()
        self.path = put(ctx, "x.1CD", self.raw)
        self.blocks = [im.objs[i][3] for i in ids]
        self.script, self.checks, self.steps = [], [], []
        self.nsnap = 0
        self.silent = bool(seed & 1) and not snaps     # a base that is closed saves what was changed
        self.do(("open", self.path, 1))
        self.bind()
        if snaps:
            self.snap(None)
        self.run(ops, snaps)

    def do(self, op, check=None):
        self.script.append(op)
        self.checks.append(check)

    def bind(self):
        self.do(("bind", "t", 0, "data"))
        for i, b in enumerate(self.blocks):
            self.do(("bindb", i, b))

    def snap(self, step):
        self.do(("flush",))
        self.do(("snap", self.path, self.ctx.path("s%d" % self.nsnap)))
        self.steps.append((step, list(self.blocks), [len(m.d) for m in self.models], self.nsnap, [Snapshot(m) for m in self.models]))
        self.nsnap += 1

    def run(self, ops, snaps):
        for o in ops:
            k = o[0]
            if k in ("flush", "reopen"):
                if k == "flush" or not self.silent:
                    self.do(("flush",))
                if k == "reopen":
                    self.do(("close",))
                    self.do(("open", self.path, 1))
                    self.do(("bind", "t", 0, "data"))
                    for i in range(len(self.models)):
                        self.do(("rebind", i))
                continue
            if k == "new":
                if len(self.models) >= 6:
                    continue
                self.do(("bindnew", len(self.models)))
                self.models.append(Model())
                self.blocks.append(None)
                if snaps:
                    self.snap(o)
                continue
            i = o[1] % len(self.models)
            m = self.models[i]
            if k == "setlen":
                self.do(("setlen", i, o[2]))
                m.resize(o[2])
            elif k == "set":
                b = expand([o[3], o[4], 1])
                self.do((o[2], i, b) if o[2] == "set" else (o[2], i, o[4] % (len(b) + 1), b))
                m.resize(len(b))
                m.write(0, b)
            elif k == "setr":
                base, a, c = o[3]
                at = max(0, (len(m.d) if base == "end" else a) + c)
                b = expand([o[4], o[5], 1])
                if o[2] == "setr":
                    self.do(("setr", i, at, b))
                else:
                    pre = b"pre" * (o[5] % 3)
                    self.do(("setsr", i, at, len(pre), len(b), pre + b + b"post"))
                m.write(at, b)
            elif k == "get":
                at = o[2] % (len(m.d) + 1)
                n = min(o[3], len(m.d) - at)
                self.do(("getr", i, at, n), part(m, i, at, n))
                if o[3] % 3 == 0:
                    self.do(("get", i), part(m, i, 0, len(m.d), False))
                continue
            self.do(("len", i), lens(i, len(m.d)))
            if len(m.d) < 300000:
                self.do(("getr", i, 0, len(m.d)), part(m, i, 0, len(m.d)))
            if snaps:
                self.snap(o)
        if not self.silent:
            self.do(("flush",))
        for i, m in enumerate(self.models):
            self.do(("getr", i, 0, len(m.d)), part(m, i, 0, len(m.d)))
            self.do(("blockno", i))
        self.do(("close",))

    def execute(self):
        res = script(self.ctx, self.script)
        nums = {}
        for o, r in zip(self.script, res):
            what = "%s %s" % (o[0], [x for x in o[1:] if not isinstance(x, bytes)])
            v = ok(r, what)
            if o[0] == "blockno":
                nums[o[1]] = int(v)
        for o, c, r in zip(self.script, self.checks, res):
            if c:
                c(r[2:])
        self.blocks = [nums[i] for i in range(len(self.models))]
        return res


class Snapshot:
    def __init__(self, m):
        self.n = len(m.d)


def part(m, i, at, n, marked=True):
    c = Model()
    c.d, c.k = bytearray(m.d[at:at + n]), bytearray(m.k[at:at + n])

    def f(r):
        if marked:
            expect(r[:1] == b"=", "reading object %d failed", i)
            r = r[1:]
        c.check(r, "object %d, bytes %d..%d" % (i, at, at + n))
    return f


def lens(i, n):
    return lambda r: same(r, b"%d" % n, "length of object %d" % i)
