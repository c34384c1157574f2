"""T09: chains of long values."""
import random, struct, zlib
from hypothesis import strategies as st
from vp.engine import Check, expect, same, short
from vp import onecd, tabs, cf
from vp.base import script, ok, put

FIELDS = [["K", "N", 0, 10, 0, "CS"], ["V", "I", 1, 0, 0, "CS"], ["W", "T", 0, 0, 0, "CS"]]
SIZES = [0, 1, 2, 100, 249, 250, 250, 250, 250]
ENDS = ["end"] * 6 + ["out", "far", "self", "first", "over"]


@st.composite
def cases(draw, tier):
    size = st.sampled_from(SIZES)
    chain = st.tuples(
        st.one_of(st.lists(size, min_size=1, max_size=6), st.tuples(st.one_of(*[st.integers(1, 60)] * 6, st.sampled_from([262, 263, 270, 600])), size).map(lambda t: [250] * t[0] + [t[1]])),
        st.sampled_from([0, 0, 0, 0, 0, 1, -1, 250, -250, -100000, 100000, 7]),
        st.sampled_from(ENDS), st.integers(0, 999)).map(list)
    chains = draw(st.lists(chain, min_size=1, max_size=5))
    return [draw(st.sampled_from(onecd.VERSIONS)), draw(st.integers(0, 999)), chains, draw(st.sampled_from([0, 0, 0, 0, 0, 0, 1, 255])), draw(st.integers(0, 5)), draw(st.sampled_from([0, 1, 249, 250, 251, 5000])),
            draw(st.booleans()), draw(st.lists(st.integers(0, 4), max_size=8))]


class C(Check):
    id = "T09"
    rule = ("chains of 1..600 chunks of 0..250 bytes scattered over the area, with the declared length equal, smaller or larger, ended properly, by a link out of the area, by a loop or by an oversized chunk; read through a "
            "stream, appended to a stream, into a buffer, and as the stored value of a record, plain or packed, in any order. Non-trivial: a chain of several chunks.")
    quick, thorough = 1200, 30000

    def strategy(self, tier):
        return cases(tier)

    def run(self, case, ctx):
        ver, seed, chains, trim, spare, prefix, packed, order = case
        r = random.Random(seed)
        total = 1 + sum(len(c[0]) for c in chains) + spare
        pool = list(range(1, total))
        r.shuffle(pool)
        area = [r.randbytes(256) if seed % 2 else bytes(256) for _ in range(total)]
        area[0] = bytes(256)
        plan, rows = [], []
        for n, (sizes, delta, end, s) in enumerate(chains):
            q = random.Random(s)
            whole = q.randbytes(sum(sizes))
            plain = None
            if packed and end == "end" and delta == 0:
                plain = q.randbytes(sum(sizes) * 2 % 5000)
                whole = cf.deflate(plain)
                sizes = [250] * (len(whole) // 250) + ([len(whole) % 250] if len(whole) % 250 else [])
            while len(sizes) > len(pool):
                pool.append(len(area))
                area.append(bytes(256))
            blocks = [pool.pop() for _ in sizes]
            at = 0
            walk = []       # bytes obtained chunk by chunk; None where the chain cannot be followed
            for i, (b, k) in enumerate(zip(blocks, sizes)):
                nxt = blocks[i + 1] if i + 1 < len(blocks) else {"end": 0, "out": None, "far": 0xfffffff0, "self": b, "first": blocks[0], "over": 0}[end]
                ln = k
                last = i + 1 == len(blocks)
                if last and end == "over":
                    ln = q.choice([251, 252, 1000, 65535])
                    walk.append(None)
                else:
                    walk.append(whole[at:at + k])
                area[b] = [nxt, ln, whole[at:at + k].ljust(250, b"\0") if q.randrange(2) else (whole[at:at + k] + q.randbytes(250))[:250]]
                at += k
            if end in ("out", "far"):
                walk.append(None)
            if end in ("self", "first"):
                walk.append(walk[-1] if end == "self" else walk)
            data = sum(len(w) for w in walk if isinstance(w, bytes))
            if end in ("self", "first"):
                data -= len(walk[-1]) if end == "self" else 0
            declared = max(0, data + delta)
            plan.append((blocks[0], declared, walk, end, plain))
            rows.append((0, [[False, "%010d" % n], None, b""]))
        # links out of the area
        area = [a if isinstance(a, bytes) else struct.pack("<IH", len(area) + a[1] % 3 if a[0] is None else a[0], a[1]) + a[2] for a in area]
        blob = b"".join(area) + bytes(trim)
        T = tabs.Tab(dict(n="T", f=FIELDS), ver, 4096, seed, rows)
        offs = onecd.offsets(FIELDS)
        rl = onecd.record_len(FIELDS)
        d = bytearray(T.data)
        for n, (start, declared, *_) in enumerate(plan):
            d[n * rl + offs[1]] = 1
            struct.pack_into("<II", d, n * rl + offs[1] + 1, start, declared)
        T.data, T.blob = bytes(d), blob
        im = onecd.Img(ver, 4096, seed, 2, False)
        T.add(im)
        p = put(ctx, "x.1CD", im.build())
        pre = random.Random(seed).randbytes(prefix)
        ops, meta = [("open", p, 0)], [None]
        for k in order + list(range(5)):
            for n, (start, declared, *_) in enumerate(plan):
                if k == 0:
                    ops.append(("blob", 0, start, declared))
                elif k == 1:
                    ops.append(("blobadd", 0, start, declared, pre))
                elif k == 2:
                    ops.append(("blobbuf", 0, start, declared))
                else:
                    ops.append(("store", 0, n, "V", int(k == 4)))
                meta.append((k, n))
            if k == 0:
                ops += [("blob", 0, 0, 0), ("blob", 0, 0, 1), ("blobbuf", 0, 0, 5)]
                meta += [("zero", 0), ("zero", 1), ("zero", 5)]
        labels = set()
        for m, res in zip(meta, script(ctx, ops)):
            if m is None:
                ok(res, "opening")
                continue
            k, n = m
            good = res[:2] == b"ok"
            if k == "zero":
                if n:
                    expect(not good, "a value of %d bytes without a chain was read as %s", n, short(res[2:]))
                elif not trim:
                    same(ok(res, "reading nothing"), b"", "value of length 0 without a chain")
                continue
            start, declared, walk, end, plain = plan[n]
            what = "chain %d (%s, %d bytes declared, chunks %s) read %s" % (n, end, declared, chains[n][0][:8], ["through a stream", "appended", "into a buffer", "as stored value", "as stored value unpacked"][k])
            if trim:
                expect(not good, "%s from an area of incomplete blocks gives %s", what, short(res[2:]))
                continue
            got = res[2:]
            if good and k == 1:
                same(got[:len(pre)], pre, what + ": what the stream held before")
                got = got[len(pre):]
            if good and k == 2:
                expect(got != b"overrun", "%s: bytes beyond the buffer are changed", what)
                cnt, got = got.split(b":", 1)
                same(int(cnt), len(got), what + ": number of bytes")
            if good and k >= 3:
                same(got[:1], b"1", what + ": value present")
                got = got[1:]
            want, bad, loop = b"", False, False
            for w in walk:
                if len(want) > declared:
                    break
                if w is None:
                    bad = True
                    break
                if isinstance(w, list):
                    loop = True
                    break
                want += w
            if end in ("self", "first") and not bad:
                # a loop: anything obtained must be what the chain holds, in its order
                flat = b"".join(x for x in walk if isinstance(x, bytes))
                if good and k != 4:
                    base = b"".join(w for w in walk[:-1])
                    again = walk[-1] if end == "self" else base
                    full = base + (again * (declared // len(again) + 1) if again else b"")
                    expect(len(got) <= declared and full[:len(got)] == got, "%s gives %d bytes: %s", what, len(got), short(got))
                    if len(base) > declared:
                        same(got, base[:declared], what)
                labels.add("loop")
                continue
            if bad:
                labels.add("broken")
                if len(want) < declared:
                    expect(not good, "%s: the chain leaves the area after %d bytes, but %d bytes are read: %s", what, len(want), len(got), short(got))
                elif good and k != 4:
                    same(got, want[:declared], what)
                continue
            want = want[:declared]
            if k == 4 and plain is not None:
                want = plain
                labels.add("packed")
            elif k == 4:
                try:
                    want = zlib.decompress(want, -15)
                    continue
                except zlib.error:
                    pass
            ok(res, what)
            same(got, want, what)
            labels.add("short" if len(want) < declared and plain is None else "whole")
            if len(chains[n][0]) > 1:
                labels.add("several")
        return sorted(labels)

    def nontrivial(self, case, labels):
        return "several" in labels


CHECK = C()
