"""S06: objects, tables and long values beyond four gigabytes are located and read (and objects written) exactly."""
import os, random, struct
import numpy as np
from hypothesis import strategies as st
from vp.engine import Check, expect, same
from vp.data import expand
from vp import onecd, tabs
from vp.base import script, ok, items

G = 1 << 30
MARKS = [G, 2 * G, 4 * G, 5 * G, 8 * G]
FIELDS = [["KEY", "N", 0, 10, 0, "CS"], ["TXT", "NT", 0, 0, 0, "CS"], ["PAD", "B", 0, 7, 0, "CS"], ["IMG", "I", 1, 0, 0, "CS"]]


def around(draw, top):
    """a position below top, mostly near a power of two"""
    m = draw(st.sampled_from([0, 1, 2, 3, 4, 5, 6, 7]))
    d = draw(st.integers(0, 70000))
    if m < 5:
        p = MARKS[m] - 35000 + d
    elif m == 5:
        p = d
    elif m == 6:
        p = top - 1 - d
    else:
        p = draw(st.integers(0, top - 1))
    return max(0, min(top - 1, p))


@st.composite
def cases(draw):
    kind = draw(st.sampled_from(["object", "object", "table", "table", "blob", "blob", "index"]))
    ps = draw(st.sampled_from([0, 4096, 8192, 16384, 32768, 65536, 65536]))     # 0: the format before 8.3.8
    per = ps // 4
    most = (per - 6) * per * ps if ps else min(1018 * 1023 * 4096, 4 * G - 1)
    if not ps:
        ps = 4096
        old = draw(st.sampled_from(onecd.VERSIONS[:5]))
    else:
        old = None
    size = draw(st.sampled_from([2 * G, 4 * G, 4 * G, 5 * G, 8 * G])) + draw(st.integers(-3 * ps, 3 * ps))
    if ps == 65536 and draw(st.integers(0, 5)) == 0:
        size = draw(st.sampled_from([16 * G, 40 * G, 64 * G])) + draw(st.integers(0, 3 * ps))
    size = min(size, most)
    if not old is None and kind == "object" and draw(st.integers(0, 2)) == 0:
        size = most - draw(st.sampled_from([0, 1, 4095, 4096, 4 * 4096]))
    spots = [[around(draw, size), draw(st.integers(1, 3 * 250)), draw(st.integers(0, 9999))] for _ in range(draw(st.integers(1, 6)))]
    extra = draw(st.integers(0, 400)) if kind == "table" else 0
    writes = [[around(draw, size), draw(st.integers(1, 2 * ps)), draw(st.integers(0, 9999))] for _ in range(draw(st.integers(0, 2)))]
    return [kind, ps, draw(st.integers(0, 9999)), size, spots, extra, writes, draw(st.sampled_from([0, 0, 1, ps, -1, -ps, 5 * ps])), old]


class Sparse:
    """A small database one object of which is given a huge length; only some of its bytes are written, the rest are holes in the file."""

    def __init__(self, raw, block, size, seed):
        self.ps = onecd.Reader(raw).ps
        self.new = onecd.Reader(raw).new
        ps, per = self.ps, self.ps // 4 if self.new else 1023
        self.old = len(raw) // ps
        n = -(-size // ps)
        m = -(-n // per)
        self.n, self.m, self.size = n, m, size
        base = self.old + m
        a = 1 + 2 * (seed % 1000)
        while np.gcd(a, n) != 1:
            a += 2
        self.a, self.b, self.base = a, seed * 7919 % n, base
        self.total = base + n
        self.tail = None
        self.raw = bytearray(raw)
        v = struct.unpack_from("<3I", raw, block * ps + 4)
        if self.new:
            h = struct.pack("<2sh3IQ%dI" % m, b"\x1c\xfd", 1, *v, size, *range(self.old, self.old + m))
        else:
            v = struct.unpack_from("<3I", raw, block * ps + 12)
            h = struct.pack("<8sI3I%dI" % m, b"1CDBOBV8", size, *v, *range(self.old, self.old + m))
        self.raw[block * ps:(block + 1) * ps] = h.ljust(ps, b"\0")
        struct.pack_into("<I", self.raw, 12, self.total)

    def move(self, block, data):
        """puts the data of a small object behind everything else, far from its header; returns its pages"""
        ps = self.ps
        n = -(-len(data) // ps)
        pages = [self.total + 1 + i for i in range(n)][::-1]
        if self.new:
            struct.pack_into("<%dI" % n, self.raw, block * ps + 24, *pages)
        else:
            struct.pack_into("<I", self.raw, block * ps + 24, self.total)
        self.tail = (self.total, pages, data)
        self.total += 1 + n
        struct.pack_into("<I", self.raw, 12, self.total)
        return pages

    def page(self, i):
        return self.base + (i * self.a + self.b) % self.n

    def write(self, path, islands):
        ps = self.ps
        with open(path, "wb") as f:
            f.truncate(self.total * ps)
            f.write(self.raw)
            order = ((np.arange(self.n, dtype=np.uint64) * self.a + self.b) % self.n + self.base).astype("<u4")
            if self.new:
                f.write(order.tobytes())
            else:
                o = order.tobytes()
                for i in range(0, len(o), 4092):
                    k = o[i:i + 4092]
                    f.write((struct.pack("<I", len(k) // 4) + k).ljust(4096, b"\0"))
            for off, data in islands:
                self.poke(f, off, data)
            if self.tail:
                m, pages, data = self.tail
                if not self.new:
                    f.seek(m * ps)
                    f.write(struct.pack("<i%dI" % len(pages), len(pages), *pages))
                for i, q in enumerate(pages):
                    f.seek(q * ps)
                    f.write(data[i * ps:(i + 1) * ps])
        os.chmod(path, 0o666)

    def poke(self, f, off, data):
        ps, p = self.ps, 0
        while p < len(data):
            k = min(len(data) - p, ps - off % ps)
            f.seek(self.page(off // ps) * ps + off % ps)
            f.write(data[p:p + k])
            p, off = p + k, off + k

    def peek(self, f, off, ln):
        out = []
        while ln:
            k = min(ln, self.ps - off % self.ps)
            f.seek(self.page(off // self.ps) * self.ps + off % self.ps)
            out.append(f.read(k))
            off, ln = off + k, ln - k
        return b"".join(out)


def layer(islands, off, ln):
    """expected bytes: later islands win"""
    b = bytearray(ln)
    for o, d in islands:
        s, e = max(o, off), min(o + len(d), off + ln)
        if s < e:
            b[s - off:e - off] = d[s - o:e - o]
    return bytes(b)


class C(Check):
    id = "S06"
    rule = ("databases of every version (8.3.8 with pages of 4K..64K), kept as sparse files, in which one object is 2..64 GB long (to the limit of the format): an object read and written in ranges at "
            "chosen places and a short object stored behind it, the records of a table, or the long values of a table with their blocks spread over the whole file, or an index with its pages spread likewise; places near 1, 2, 4, 5 and 8 GB, the start "
            "and the end. Non-trivial: something is read beyond four gigabytes (two gigabytes in the formats before 8.3.8).")
    quick, thorough = 300, 4000

    def strategy(self, tier):
        return cases()

    def run(self, case, ctx):
        kind, ps, seed, size, spots, extra, writes, grow, old = case
        if old in onecd.VERSIONS[:2]:
            writes, grow = [], 0     # these are only read
        case = [kind, ps, seed, size, spots, extra, writes, grow]
        self.most = (ps // 4 - 6) * (ps // 4) * ps if not old else min(1018 * 1023 * 4096, 4 * G - 1)
        im = onecd.Img(old or "8.3.8.0", ps, seed, seed % 4)
        path = ctx.path("x.1CD")
        getattr(self, kind)(case, ctx, im, path)
        lab = [kind, "ps%d" % ps if not old else old, "over4G" if size > 4 * G else "under4G"]
        self.far |= bool(old) and size > 2 * G
        if self.far:
            lab.append("far")
        return lab

    def object(self, case, ctx, im, path):
        kind, ps, seed, size, spots, extra, writes, grow = case
        k = im.obj(b"x" * 100, 1)
        small = expand([1 + seed * 17 % (5 * ps), seed, 1])
        far = im.obj(small)
        im.table(onecd.description("T", FIELDS), b"")
        raw = im.build()
        sp = Sparse(raw, im.objs[k][3], size, seed)
        islands = [(o, expand([min(n, size - o), s, 1])) for o, n, s in spots]
        pages = sp.move(im.objs[far][3], small)
        sp.write(path, islands)
        self.far = any(o > 4 * G for o, d in islands)
        ops = [("open", path, 1), ("bindb", "o", im.objs[k][3]), ("len", "o")]
        want = [None, None, b"ok%d" % size]
        def reads():
            for o, d in islands:
                s = max(0, o - 100)
                e = min(size, o + len(d) + 100)
                ops.append(("getr", "o", s, e - s))
                want.append(b"ok=" + layer(islands, s, e - s))
                ops.append(("fileoff", "o", o))
                want.append(b"ok%d" % (sp.page(o // ps) * ps + o % ps))
        reads()
        ops.append(("bindb", "f", im.objs[far][3]))
        want.append(None)
        def neighbour():
            at = seed * 31 % len(small)
            ops.extend([("get", "f"), ("getr", "f", at, len(small) - at), ("fileoff", "f", at)])
            want.extend([b"ok" + small, b"ok=" + small[at:], b"ok%d" % (pages[at // ps] * ps + at % ps)])
        neighbour()
        if writes:
            b = expand([1 + seed * 7 % len(small), seed + 1, 1])
            ops.append(("setr", "f", len(small) - len(b), b))
            want.append(b"ok1")
            small = small[:len(small) - len(b)] + b
            neighbour()
        for o, n, s in writes:
            d = expand([min(n, size - o), s, 1])
            ops.append(("setr", "o", o) + (d,))
            want.append(b"ok1")
            islands.append((o, d))
        reads()
        new = size
        if grow and 0 < size + grow <= self.most:
            new = size + grow
            ops.append(("setlen", "o", new))
            want.append(b"ok")
            ops.append(("len", "o"))
            want.append(b"ok%d" % new)
            a = min(size, new) - 300
            ops.append(("getr", "o", a, 300))
            want.append(b"ok=" + layer(islands, a, 300))
            if grow > 0:
                ops.append(("setr", "o", new - grow, b"z" * grow))
                want.append(b"ok1")
                ops.append(("getr", "o", new - grow - 10, grow + 10))
                want.append(b"ok=" + layer(islands, new - grow - 10, 10) + b"z" * grow)
        elif size + grow > self.most:     # longer than the format can hold
            ops += [("setlen", "o", size + grow), ("len", "o")]
            want += [b"exc", b"ok%d" % size]
        ops.append(("getr", "o", new - 1, 2))
        want.append(b"exc")
        ops += [("flush",), ("close",)]
        want += [None, None]
        ops += [("open", path, 0), ("bindb", "o", im.objs[k][3]), ("len", "o"), ("bindb", "f", im.objs[far][3])]
        want += [None, None, b"ok%d" % new, None]
        neighbour()
        for o, d in islands:
            n = min(len(d), new - o)
            if n > 0:
                ops.append(("getr", "o", o, n))
                want.append(b"ok=" + layer(islands, o, n))
        res = script(ctx, ops)
        for o, w, r in zip(ops, want, res):
            what = "%s of an object of %d bytes" % (" ".join(str(x)[:40] for x in o[:4]), size)
            if w is None:
                ok(r, what)
            elif w == b"exc":
                expect(r[:3] == b"exc", "%s: reading past the end returned data instead of an error", what)
            else:
                same(r, w, what)
        with open(path, "rb") as f:
            for o, d in islands:
                n = min(len(d), new - o)
                if n > 0:
                    same(sp.peek(f, o, n), layer(islands, o, n), "bytes %d.. of the object in the file" % o)

    def table(self, case, ctx, im, path):
        kind, ps, seed, size, spots, extra, writes, grow = case
        fields = [FIELDS[0], ["PAD", "B", 0, 5 + extra * 37, 0, "CS"]]
        rl = onecd.record_len(fields)
        count = min(size // rl, (1 << 32) - 1)     # record numbers have 32 bits
        size = count * rl
        recs = {}
        for o, n, s in spots:
            recs[min(count - 1, o // rl)] = (bytes([0]) + onecd.encode(fields[0], (False, "%010d" % s)) + expand([fields[1][3], s, 1]), s)
        nums = sorted(recs)
        t = im.table(onecd.description("T", fields), b"\0" * rl)
        raw = im.build()
        sp = Sparse(raw, im.objs[im.tabs[t][1][0]][3], size, seed)
        sp.write(path, [(i * rl, recs[i][0]) for i in nums])
        self.far = any(i * rl > 4 * G for i in nums)
        ops = [("open", path, 0), ("tinfo", 0)]
        for i in nums:
            ops += [("rec", 0, i, "sr"), ("recoff", 0, i)]
        res = script(ctx, ops)
        ok(res[0], "opening")
        inf = [x.decode() for x in items(ok(res[1], "table information"))]
        same(inf[8], str(count), "number of records of a table of %d bytes with records of %d" % (size, rl))
        for k, i in enumerate(nums):
            got = items(ok(res[2 + 2 * k], "record %d of %d bytes each" % (i, rl)))
            b, s = recs[i]
            q = (fields[0][3] + 2) >> 1
            same(got, [b"0", b"0", str(s).encode(), b[1:1 + q], b"0", got[5], b[1 + q:]], "record %d (byte %d of the table)" % (i, i * rl))
            same(int(ok(res[3 + 2 * k], "offset of record %d" % i)), sp.page(i * rl // ps) * ps + i * rl % ps, "offset in the file of record %d (byte %d of the table)" % (i, i * rl))

    def blob(self, case, ctx, im, path):
        kind, ps, seed, size, spots, extra, writes, grow = case
        size = size // 256 * 256
        used, isl, rows, vals = set(), [], [], []
        top = size // 256
        self.far = False
        def take(p):
            b = max(1, min(top - 1, p // 256))
            while b in used:
                b = b + 1 if b + 1 < top else 1
            used.add(b)
            return b
        for k, (o, n, s) in enumerate(spots):
            d = expand([n & ~1, s, 1]) if n > 1 else b"ab"
            d = bytes(65 + c % 26 if i % 2 == 0 else 0 for i, c in enumerate(d))
            parts = [d[i:i + 250] for i in range(0, len(d), 250)]
            at = [take(spots[(k + i * (1 + s % 3)) % len(spots)][0]) for i in range(len(parts))]
            for i, p in enumerate(parts):
                nxt = at[i + 1] if i + 1 < len(parts) else 0
                isl.append((at[i] * 256, struct.pack("<Ih", nxt, len(p)) + p.ljust(250, b"\0")))
                self.far |= at[i] * 256 >= 4 * G
            vals.append((at[0], d))
            rows.append(b"\0" + onecd.encode(FIELDS[0], (False, "%010d" % k)) + struct.pack("<II", at[0], len(d)) + bytes(7) + b"\1" + struct.pack("<II", at[0], len(d)))
        t = im.table(onecd.description("T", FIELDS), b"".join(rows), b"\0" * 256)
        raw = im.build()
        sp = Sparse(raw, im.objs[im.tabs[t][1][1]][3], size, seed)
        sp.write(path, [(0, struct.pack("<Ih", 0, 0))] + isl)
        ops = [("open", path, 0), ("bind", "b", 0, "blob")]
        for i, (st_, d) in enumerate(vals):
            ops += [("blob", 0, st_, len(d)), ("blobbuf", 0, st_, len(d)), ("oblob", "b", st_, len(d)), ("store", 0, i, "IMG", 0), ("rec", 0, i, "x")]
        ops.append(("xml", 0, ctx.path("t.xml"), 0, 0))
        res = script(ctx, ops)
        ok(res[0], "opening")
        for i, (st_, d) in enumerate(vals):
            r = res[2 + 5 * i:7 + 5 * i]
            what = "long value of %d bytes at block %d of a file of %d bytes" % (len(d), st_, size)
            same(ok(r[0], what), d, what)
            same(ok(r[1], what), b"%d:" % len(d) + d, what + " read into memory")
            same(ok(r[2], what), d, what + " read from the object")
            same(ok(r[3], what), b"1" + d, what + " stored")
            same(items(ok(r[4], what))[4], d.decode("utf-16le").encode(), what + " as text")
        ok(res[-1], "export")
        x = open(ctx.path("t.xml"), "rb").read()
        for st_, d in vals:
            expect(d.decode("utf-16le").encode() in x, "the exported table does not carry the long value at block %d of a file of %d bytes", st_, size)

    def index(self, case, ctx, im, path):
        """an index the pages of which are spread over a file of gigabytes"""
        kind, ps, seed, size, spots, extra, writes, grow = case
        top = size // ps
        size = top * ps
        r = random.Random(seed)
        fields = [FIELDS[0], ["PAD", "B", 0, 9, 0, "CS"]]
        rl = onecd.record_len(fields)
        n = 1 + seed % 60
        rows = b"".join(b"\0" + onecd.encode(fields[0], (False, "%010d" % i)) + bytes([i]) * 9 for i in range(n))
        length = 7
        used = {0}
        class Pages:
            def take(self):
                b = max(1, min(top - 1, r.choice(spots)[0] // ps if r.randrange(4) else r.randrange(top)))
                while b in used:
                    b = b + 1 if b + 1 < top else 1
                used.add(b)
                return b
        pages, free = {}, Pages()
        recs = list(range(n))
        r.shuffle(recs)
        keys = tabs.index_keys(r, n, length)
        unit = 1 if im.new else ps
        root = tabs.tree(free, ps, im.new, length, keys, recs, r.choice([1, 2, 5, 100]), r, pages)
        start, spare = free.take(), free.take()
        pages[start] = struct.pack("<Ih", root * unit, length)
        pages[0] = struct.pack("<2I", spare, start * unit)
        pages[spare] = b""
        t = im.table(onecd.description("T", fields, [("PK", 1, [("KEY", 6)])]), rows, None, b"\0" * ps)
        raw = im.build()
        sp = Sparse(raw, im.objs[im.tabs[t][1][2]][3], size, seed)
        sp.write(path, [(b * ps, d) for b, d in sorted(pages.items())])
        self.far = any(b * ps >= 4 * G for b in used)
        what = "an index in a file of %d bytes (pages %s)" % (size, sorted(used)[:8])
        res = script(ctx, [("open", path, 0), ("idx", 0, 0), ("iterx", 0, "PK", "s"), ("idxdump", 0, 0, ctx.path("dump")), ("xml", 0, ctx.path("t.xml"), 0, 0)])
        ok(res[0], "opening")
        got = [int(x) for x in items(ok(res[1], "reading " + what))]
        same(got, recs, "records in the order of " + what)
        same([int(items(x)[2]) for x in items(ok(res[2], "iteration by " + what))], recs, "records visited by " + what)
        ok(res[3], "dump of " + what)
        d = open(ctx.path("dump"), "rb").read().decode().split("\r\n")
        same([l.split(": ")[1:] for l in d if l.lstrip().startswith("-")], [[k.hex(" ") + " ", str(x)] for k, x in zip(keys, recs)], "leaf entries of the dump of " + what)
        ok(res[4], "export by " + what)
        x = open(ctx.path("t.xml"), "rb").read().decode("utf-8-sig")
        same([int(y.split("<")[0]) for y in x.split("<KEY>")[1:]], recs, "order of the records of the export")

    def nontrivial(self, case, labels):
        return "far" in labels


CHECK = C()
