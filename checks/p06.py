"""P06: GUID and hexadecimal text forms."""
import uuid
from hypothesis import strategies as st
from vp.engine import Check, expect, same
from vp.data import blobs, expand


def as_ms(b):
    return str(uuid.UUID(bytes_le=b))


def as_1c(b):
    return str(uuid.UUID(bytes=b[12:16] + b[10:12] + b[8:10] + b[0:8]))


class C(Check):
    id = "P06"
    rule = ("random 16-byte values (uniform, mostly-zero, single-byte) and pairs of them; texts of wrong length; random buffers for hex. "
            "Non-trivial: value not all zero / buffer not empty.")
    quick, thorough = 3000, 100000

    def strategy(self, tier):
        raw = st.one_of(st.binary(min_size=16, max_size=16), st.tuples(st.integers(0, 15), st.integers(0, 255)).map(lambda t: bytes(t[1] if i == t[0] else 0 for i in range(16))),
                        st.integers(0, 255).map(lambda v: bytes([v]) * 16), st.just(bytes(range(0x10, 0x20)))).map(lambda b: b.hex())
        return st.one_of(
            st.tuples(st.just("guid"), raw, st.lists(st.booleans(), min_size=36, max_size=36)),
            st.tuples(st.just("pair"), raw, raw), st.tuples(st.just("near"), raw, st.integers(0, 15), st.integers(1, 255)),
            st.tuples(st.just("bad"), st.text("0123456789abcdef-", max_size=60).filter(lambda s: len(s) not in (32, 36))),
            st.tuples(st.just("hex"), blobs(st.integers(0, 600), 20)),
            st.tuples(st.just("num"), st.integers(0, 2**32 - 1))).map(list)

    def run(self, case, ctx):
        ex, k = ctx.ex, case[0]
        if k == "guid":
            b = bytes.fromhex(case[1])
            r = [x.decode() for x in ex.call("guid.text", b)]
            same(r, [as_1c(b), as_ms(b), as_1c(b), as_ms(b), as_1c(b), "1" if b == bytes(16) else "0"], "text forms of GUID %s" % case[1])
            mix = lambda s: "".join(c.upper() if u else c for c, u in zip(s, case[2]))
            same([x.decode() for x in ex.call("guid.parse", mix(as_1c(b)))], ["1", as_1c(b), as_ms(b)], "parsing %s" % mix(as_1c(b)))
            same([x.decode() for x in ex.call("guid.ctor", mix(as_1c(b)))], [as_1c(b), as_ms(b)], "constructing from %s" % as_1c(b))
            same([x.decode() for x in ex.call("guid.parse", mix(b.hex()))], ["1", as_1c(b), as_ms(b)], "parsing flat %s" % b.hex())
        elif k in ("pair", "near"):
            a = bytes.fromhex(case[1])
            if k == "pair":
                b = bytes.fromhex(case[2])
            else:
                t = bytearray(a)
                t[case[2]] ^= case[3]
                b = bytes(t)
            same([x.decode() for x in ex.call("guid.cmp", a, b)], [str(int(a == b)), str(int(a != b)), str(int(a > b))], "comparison of %s and %s" % (a.hex(), b.hex()))
            same([x.decode() for x in ex.call("guid.cmp", a, a)], ["1", "0", "0"], "comparison with itself")
        elif k == "bad":
            r = ex.call("guid.parse", case[1])
            same(r[0], b"0", "parsing the malformed GUID %r" % case[1])
            same(r[1], as_1c(bytes(16)).encode(), "GUID left by a failed parse of %r" % case[1])
        elif k == "hex":
            d = expand(case[1])
            same([x.decode() for x in ex.call("hex", d)], [d.hex(), d.hex()], "hex of %d bytes" % len(d))
            for v in d[:3]:
                for t in ("%02x" % v, "%02X" % v):
                    same([x.decode() for x in ex.call("hex2", t)], ["1", str(v)], "byte of %r" % t)
            t = d[:2].decode("latin-1").encode("latin-1")
            if len(t) == 2:
                good = all(chr(c) in "0123456789abcdefABCDEF" for c in t)
                r = ex.call("hex2", t)
                same([x.decode() for x in r], ["1", str(int(t, 16))] if good else ["0", "0"], "byte of %r" % t)
        else:
            v = case[1]
            same(int(ex.call("revbytes", v)[0]), int.from_bytes(v.to_bytes(4, "little"), "big"), "byte order reversal of %x" % v)
            same([x.decode() for x in ex.call("tohex32", v)], ["0x%08x" % v, "%08x" % v, "%04x" % (v & 0xffff)], "hex string of %d" % v)
        return [k]

    def nontrivial(self, case, labels):
        return case[0] not in ("guid",) or case[1] != "00" * 16


CHECK = C()
