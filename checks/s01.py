"""S01: stored objects read back exactly, for every version, page size and page placement."""
import os, struct
from hypothesis import strategies as st
from vp.engine import Check, expect, same
from vp.data import expand
from vp import onecd
from vp.base import script, ok, items, put

PAGES = [4096, 8192, 16384, 32768, 65536]
FIELDS = [["A", "B", 0, 4, 0, "CS"]]     # records of five bytes


def lengths(ps, new, deep):
    per = ps // 4
    edge = (per - 6) * ps if new else 1023 * 4096
    marks = [0, 1, ps - 1, ps, ps + 1, 2 * ps, 3 * ps - 1, 3 * ps + 7]
    s = [st.sampled_from(marks), st.integers(0, 6 * ps)]
    if deep:
        s.append(st.integers(6 * ps, 40 * ps))
    if deep and edge < 6 << 20:
        big = [edge - 1, edge, edge + 1, edge + ps, edge + ps + 1, edge + 6 * ps, per * ps + 1 if new else edge + 2]
        s.append(st.sampled_from(big))
    return st.one_of(*s)


@st.composite
def cases(draw):
    ver = draw(st.sampled_from(onecd.VERSIONS + ["8.3.8.0", "8.3.8.0"]))
    new = ver == "8.3.8.0"
    ps = draw(st.sampled_from(PAGES + [4096, 4096])) if new else 4096
    deep = draw(st.integers(0, 11)) == 0
    n = draw(st.integers(1, 4))
    objs = []
    for i in range(n):
        ln = draw(lengths(ps, new, deep and i == 0))
        objs.append([ln, draw(st.integers(0, 9999)), draw(st.sampled_from([1, 1, 4, 0])), draw(st.sampled_from([None, None, 0, 1]))])
    reads = draw(st.lists(st.tuples(st.integers(0, n - 1), st.sampled_from(["any", "edge", "end", "over", "zero"]), st.integers(0, 1 << 24), st.integers(0, 3)).map(list), max_size=8))
    return [ver, ps, draw(st.integers(0, 9999)), draw(st.sampled_from([0, 1, 3, 20] if new or not deep else [20, 1000, 1024, 1100, 2047, 2500, 3200])), draw(st.booleans()), objs, reads, draw(st.booleans())]


class C(Check):
    id = "S01"
    rule = ("databases of every supported version (8.3.8 with page sizes 4K..64K) whose 1..4 objects lie on randomly permuted pages, with one- and "
            "two-level page maps and lengths at page and map boundaries; whole reads (of the list of free pages too), range reads before and after caching, saving to a file, file offsets, "
            "out-of-range reads. Non-trivial: some object longer than one page.")
    quick, thorough = 1500, 12000

    def strategy(self, tier):
        return cases()

    def run(self, case, ctx):
        ver, ps, seed, spare, stale, objs, reads, mono = case
        im = onecd.Img(ver, ps, seed, spare, stale)
        # objects are the long-value and data parts of tables, so that everything is reached through the public interface too
        datas, fats = [], []
        ids = []
        for ln, s, kind, fat in objs:
            d = expand([ln, s, kind])
            n = -(-ln // im.ps)
            if not im.new or (fat == 0 and n > im.ps // 4 - 6):
                fat = None
            datas.append(d)
            ids.append(im.obj(d, fat))
        rec = onecd.record_len(FIELDS)
        rows = bytes((i * 7 + 1) % 256 if i % rec else 0 for i in range(rec * (seed % 2000)))
        im.table(onecd.description("T", FIELDS), rows)
        raw = im.build()
        rd = onecd.Reader(raw)
        blocks = [im.objs[i][3] for i in ids]
        for b, d in zip(blocks, datas):
            assert rd.obj(b, "object").data == d
        tab = rd.tables()[0]
        p = put(ctx, "x.1CD", raw)
        ops, want = [("open", p, int(mono))], [None]
        def add(op, w):
            ops.append(op)
            want.append(w)
        add(("bind", "t", 0, "data"), b"ok1")
        add(("get", "t"), b"ok" + rows)
        for i, (b, d) in enumerate(zip(blocks, datas)):
            add(("bindb", i, b), b"ok%d" % b)
            add(("len", i), b"ok%d" % len(d))
        if not im.new:      # the list of free pages is an object too
            free = b"".join(struct.pack("<I", p) for p in rd.free)
            add(("bindb", "f", 1), b"ok1")
            add(("len", "f"), b"ok%d" % len(free))
            if free:
                k = seed * 7919 % len(free)
                n = len(free) - k
                n = [n, min(n, 4), min(n, 4097), 1][seed % 4]
                add(("getr", "f", k, n), b"ok=" + free[k:k + n])
                add(("get", "f"), b"ok" + free)
                add(("getr", "f", k, n), b"ok=" + free[k:k + n])
                add(("getr", "f", k, len(free) - k + 1), b"exc")
            add(("drop", "f"), b"ok")
        for phase in (0, 1):
            for i, kind, off, ln in reads:
                d = datas[i]
                n = len(d)
                if kind == "any":
                    s = off % (n + 1)
                    k = [1, 100, 3 * im.ps, n][ln]
                    k = min(k, n - s)
                elif kind == "edge":
                    s = max(0, min(n, (off % (n // im.ps + 1)) * im.ps + ln - 2))
                    k = min(n - s, [1, 2, 3, im.ps + 1][ln])
                elif kind == "end":
                    k = min(n, [1, im.ps, im.ps + 1, n][ln])
                    s = n - k
                elif kind == "over":
                    s, k = max(0, n - [0, 1, 5, 700][ln]), 701
                else:
                    s, k = off % (n + 1), 0
                if kind == "over":
                    add(("getr", i, s, k), b"exc")
                elif k == 0 and not n:
                    continue
                else:
                    add(("getr", i, s, k), b"ok=" + d[s:s + k])
                    if k and phase == 0:
                        add(("fileoff", i, s), (i, s))
            if phase == 0:
                for i, d in enumerate(datas):
                    add(("save", i, ctx.path("o%d" % i)), b"ok")
                    add(("get", i), b"ok" + d)
                    if len(d) < 100000:
                        add(("lock", i, 1), b"ok")
                        add(("garbage",), b"ok")
                        add(("get", i), b"ok" + d)
        res = script(ctx, ops)
        info = [x.decode() for x in items(ok(res[0], "opening"))]
        same(info[1:4], [ver, str(im.ps), im.lang], "version, page size and locale of the opened database")
        for o, w, r in zip(ops, want, res):
            if w is None:
                continue
            what = "%s of %s" % (o[0], "an object of %d bytes (%s, pages of %d)" % (len(datas[o[1]]), ver, im.ps) if isinstance(o[1:2] and o[1], int) and len(o) > 1 else "table data")
            if isinstance(w, tuple):
                q = int(ok(r, what))
                s = w[1]
                expect(raw[q:q + 1] == datas[w[0]][s:s + 1] and q // im.ps == rd.objects[blocks[w[0]]].pages[s // im.ps] and q % im.ps == s % im.ps,
                       "file offset of byte %d of an object of %d bytes: got %d", s, len(datas[w[0]]), q)
            elif w == b"exc":
                expect(r[:3] == b"exc", "reading past the end of an object (%s of object %s) returned data instead of an error", o[2:], o[1])
            else:
                same(r, w, what + (" " + str(o[2:]) if o[0] == "getr" else ""))
        for i, d in enumerate(datas):
            same(ctx.read("o%d" % i), d, "object saved to a file")
        same(ctx.read("x.1CD"), raw, "database file after reading")
        lab = [ver, "ps%d" % im.ps]
        if any(len(rd.objects[b].maps) for b in blocks) and im.new:
            lab.append("two-level")
        if any(len(rd.objects[b].maps) > 1 for b in blocks):
            lab.append("several-maps")
        return lab

    def nontrivial(self, case, labels):
        return any(o[0] > case[1] for o in case[5])


CHECK = C()
