"""T10: leaf pages of indexes."""
import random, struct
from hypothesis import strategies as st
from vp.engine import Check, expect, same, short
from vp import onecd, tabs
from vp.base import script, ok, items, put


def decode(page, ps, length):
    """entries of a packed page, read by the format: [(key, record)], and the number of free bytes"""
    flags, n, prev, nxt, free, nm, lm, rm, nb, lb, rb, size = struct.unpack_from("<HHIIHIHHHHHH", page)
    out, at, tail, key = [], 30, ps, bytes(length)
    for i in range(n):
        v = int.from_bytes(page[at:at + size], "little")
        at += size
        num, left, right = v & nm, v >> nb & lm, v >> (nb + lb) & rm
        k = length - left - right
        expect(k >= 0, "entry %d of the packed page: left %d, right %d of %d", i, left, right, length)
        tail -= k
        expect(tail >= at or at >= ps, "entry %d of the packed page overlaps the entries", i)
        key = key[:left] + page[tail:tail + k] + bytes(right)
        out.append((key, num))
    expect(tail >= at, "keys of the packed page overlap the entries: %d, %d", tail, at)
    return flags, out, free, tail - at


def packed_size(length, ents):
    """size of the smallest packed form and of its key bytes"""
    last, body = None, 0
    for k, n in ents:
        left = 0
        if last is not None:
            while left < length and k[left] == last[left]:
                left += 1
        right = 0
        while right < length - left and k[length - 1 - right] == 0:
            right += 1
        body += length - left - right
        last = k
    mx = max(n for k, n in ents)
    size = (mx.bit_length() + 2 * length.bit_length() + 7) // 8
    return body + size * len(ents), body


def entries(seed, length, count, style, unique, top):
    r = random.Random(seed)
    ks = set()
    def one():
        if style == 0:
            return r.randbytes(length)
        if style == 1:
            n = min(length, r.choice([1, 2, 3]))
            return b"\x41" * (length - n) + r.randbytes(n)
        if style == 2:
            n = min(length, r.choice([1, 2, 3]))
            return r.randbytes(n) + bytes(length - n)
        if style == 3:
            a = min(length, 2)
            b = r.choice([0, length // 2, max(0, length - 3)])
            m = r.randbytes(a)
            return (b"\x7f\x80" * length)[:b] + m[:length - b] + bytes(max(0, length - b - a))
        return bytes(r.choice([0, 0, 1, 255]) for _ in range(length))
    if unique:
        for _ in range(count * 3):
            ks.add(one())
            if len(ks) == count:
                break
        ks = sorted(ks)
    else:
        few = [one() for _ in range(r.choice([1, 3, max(1, count // 2), count]))]
        ks = sorted(r.choice(few) for _ in range(count))
    nums = set()
    while len(nums) < len(ks):
        nums.add(r.randrange(max(top, 2 * len(ks))))
    nums = list(nums)
    r.shuffle(nums)
    return sorted(zip(ks, nums))


@st.composite
def cases(draw, tier):
    ver = draw(st.sampled_from(onecd.VERSIONS + ["8.3.8.0"] * 3))
    ps = draw(st.sampled_from([4096, 4096, 8192, 16384, 65536])) if ver == "8.3.8.0" else 4096
    length = draw(st.one_of(st.integers(1, 8), st.integers(1, 80), st.sampled_from([15, 16, 31, 32, 63, 64, 127, 128, 255, 256, 300])))
    job = st.tuples(st.integers(0, 9999), st.one_of(st.integers(1, 12), st.just("fit"), st.just("fit"), st.integers(1, 2500 if tier == "thorough" else 700)), st.integers(0, 4), st.booleans(),
                    st.sampled_from([1, 2, 256, 65536, 1 << 20, 1 << 31, (1 << 32) - 1]), st.sampled_from([-2, -1, 0, 0, 1, 2]),
                    st.tuples(st.integers(0, 12), st.integers(0, 6), st.integers(0, 6), st.integers(0, 3)).map(list)).map(list)
    return [ver, ps, length, draw(st.booleans()), draw(st.lists(job, min_size=1, max_size=4))]


class C(Check):
    id = "T10"
    rule = ("sorted entries with common beginnings, zero ends, equal keys (in indexes that are not unique) and record numbers of 1..32 bits, keys of 1..300 bytes, pages of 4096..65536 bytes, in numbers up to and around what fits "
            "a page; packed pages read by an independent decoder and by the library, pages of an independent encoder of any bit widths read by the library, and a table read by an index of such a page. Non-trivial: at least two entries.")
    quick, thorough = 500, 10000

    def strategy(self, tier):
        return cases(tier)

    def run(self, case, ctx):
        ver, ps, length, primary, jobs = case
        labels = set()
        F = [["F", "B", 0, length, 0, "CS"]]
        tabs_, plans = [], []
        im = onecd.Img(ver, ps, jobs[0][0], 2, False)
        ops, expected = [], []
        for i, (seed, count, style, unique, top, off, widths) in enumerate(jobs):
            unique = unique or primary
            if count == "fit":
                ents = entries(seed, length, (ps - 30) // 2 + 10, style, unique, top)
                lo, hi = 1, len(ents)
                r = random.Random(seed)
                pick = sorted(r.sample(range(len(ents)), len(ents)))
                # the longest beginning which fits
                while lo < hi:
                    m = (lo + hi + 1) // 2
                    t, b = packed_size(length, ents[:m])
                    if t <= ps - 30 and b < ps - 30:
                        lo = m
                    else:
                        hi = m - 1
                ents = ents[:max(1, lo + off)]
            else:
                ents = entries(seed, length, count, style, unique, top)
            t, b = packed_size(length, ents)
            fits = t <= ps - 30 and b < ps - 30
            # an index of one page over a table of as many records as the highest number requires, when that is small
            page = tabs.leaf(ps, length, [k for k, n in ents], [n for k, n in ents], 0xffffffff, 0xffffffff, 3, widths) or \
                tabs.leaf(ps, length, [k for k, n in ents], [n for k, n in ents], 0xffffffff, 0xffffffff, 3)
            recs = max(n for k, n in ents) + 1
            small = page is not None and recs <= 3000
            T = tabs.Tab(dict(n="T%d" % i, f=F, x=[["I", int(primary), [[0, length]], seed, 5, 0]]), ver, im.ps, seed,
                         [(0, [(b"%d" % n)[:length].ljust(length, b"\0").hex()]) for n in range(recs if small else 1)])
            unit = 1 if im.new else ps
            x = bytearray(3 * ps)
            struct.pack_into("<II", x, 0, 0, unit)
            struct.pack_into("<Ih", x, ps, 2 * unit, length)
            if small:
                x[2 * ps:] = page
            else:
                x[2 * ps:2 * ps + 30] = struct.pack("<HHIIHIHHHHHH", 3, 0, 0xffffffff, 0xffffffff, ps - 30, 1, 1, 1, 1, 1, 1, 1)
            T.index = bytes(x)
            T.add(im)
            raw = b"".join(struct.pack("<I", n) + k for k, n in ents)
            ops.append(("pack", i, 0, len(ents), ps, raw))
            expected.append(("pack", ents, raw, fits))
            if page is not None:
                ops.append(("unpack", i, 0, page))
                expected.append(("unpack", ents, raw, True))
            if small:
                ops += [("idx", i, 0), ("idxdump", i, 0, ctx.path("dump%d" % i))]
                expected += [("idx", ents, raw, True), ("dump", ents, i, True)]
            if len(ents) > 1:
                labels.add("several")
        p = put(ctx, "x.1CD", im.build())
        res = script(ctx, [("open", p, 0)] + ops)
        ok(res[0], "opening")
        again = []
        for (kind, ents, raw, fits), r, j in zip(expected, res[1:], ops):
            what = "%d entries of %d bytes in a page of %d" % (len(ents), length, ps)
            if kind == "pack":
                v = ok(r, "packing " + what)
                if not fits:
                    same(v, b"0", "packing of %s, which take %d bytes" % (what, packed_size(length, ents)[0]))
                    labels.add("refused")
                    continue
                same(v[:1], b"1", "packing of %s, which take %d bytes" % (what, packed_size(length, ents)[0]))
                page = v[1:]
                flags, got, free, gap = decode(page, ps, length)
                expect(flags & 2, "a packed page is not marked as a leaf")
                same([(k.hex(), n) for k, n in got], [(k.hex(), n) for k, n in ents], "packed " + what)
                same(free, gap, "free bytes of the packed page of " + what)
                again.append((j[1], page, raw, what))
                labels.add("packed")
            elif kind == "unpack":
                same(ok(r, "unpacking " + what), b"%d:" % len(ents) + raw, "unpacked page of " + what)
            elif kind == "idx":
                same([int(x) for x in items(ok(r, "reading by the index"))], [n for k, n in ents], "records by an index of " + what)
                labels.add("read")
            else:
                ok(r, "dump of the index")
                lines = ctx.read("dump%d" % raw).decode().split("\r\n")
                same(lines[0], "Index length %d" % length, "first line of the dump")
                same([l for l in lines if l[:3] == "  -"], ["  -0: " + "".join("%02x " % c for c in k) + ": %d" % n for k, n in ents], "entries in the dump of " + what)
        for (i, page, raw, what), r in zip(again, script(ctx, [("open", p, 0)] + [("unpack", i, 0, page) for i, page, *_ in again])[1:]):
            same(ok(r, "unpacking " + what), b"%d:" % (len(raw) // (length + 4)) + raw, "packed and unpacked " + what)
        return sorted(labels)

    def nontrivial(self, case, labels):
        return "several" in labels


CHECK = C()
