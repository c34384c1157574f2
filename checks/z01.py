"""Z01: packing and unpacking streams."""
import zlib
from hypothesis import strategies as st
from vp.engine import Check, expect, same
from vp.data import blobs, expand, around


def raw_deflate(d, level, strategy, split):
    c = zlib.compressobj(level, zlib.DEFLATED, -15, 8, strategy)
    if split and len(d) > 2:
        k = len(d) // 2
        return c.compress(d[:k]) + c.flush(zlib.Z_SYNC_FLUSH) + c.compress(d[k:]) + c.flush()
    return c.compress(d) + c.flush()


def ref_inflate(b):
    """(data, state): state is 'full', 'short' (input ends early) or 'bad'"""
    o = zlib.decompressobj(-15)
    try:
        d = o.decompress(b)
    except zlib.error:
        return None, "bad"
    return d, "full" if o.eof else "short"


LEN = st.one_of(around(0, 16384, 32768, 49152, 65536), st.integers(0, 3000), st.integers(0, 100000))


class C(Check):
    id = "Z01"
    rule = ("random data (0..100000 bytes, near multiples of 16384, five compressibility classes) packed and unpacked; streams from "
            "another packer at every level/strategy; arbitrary and damaged data. Non-trivial: at least one byte of data.")
    quick, thorough = 700, 20000

    def strategy(self, tier):
        big = st.integers(0, 3).flatmap(lambda k: st.tuples(st.sampled_from([150000, 262144, 500000, 49152 * 3]), st.integers(0, 99), st.just([0, 2, 3, 4][k])).map(list))
        data = st.one_of(blobs(LEN, 40), big)
        return st.one_of(
            st.tuples(st.just("pack"), data),
            st.tuples(st.just("unpack"), data, st.integers(0, 9), st.sampled_from([0, 1, 2, 3, 4]), st.booleans()),
            st.tuples(st.just("plain"), blobs(LEN, 40)),
            st.tuples(st.just("damage"), blobs(st.one_of(st.integers(1, 40000), st.integers(1, 200000)), 60), st.integers(0, 10**6), st.integers(0, 255), st.sampled_from(["cut", "flip"]))).map(list)

    def run(self, case, ctx):
        ex, k = ctx.ex, case[0]
        d = expand(case[1])
        if k == "pack":
            z, ok = ex.call("deflate", d)
            same(ok, b"1", "packing %d bytes reported" % len(d))
            got, state = ref_inflate(z)
            same(state, "full", "packed form of %d bytes is a complete raw deflate stream" % len(d))
            same(got, d, "packed form of %d bytes unpacked by zlib" % len(d))
            same(ex.call("inflate", z)[0], d, "unpack(pack(x)), %d bytes" % len(d))
            same(ex.call("inflatecopy", z)[0], d, "auto-unpack(pack(x)), %d bytes" % len(d))
            return ["pack", "16k-multiple" if len(d) % 16384 == 0 else "other"]
        if k == "unpack":
            z = raw_deflate(d, case[2], case[3], case[4])
            same(ex.call("inflate", z)[0], d, "unpacking of a %d byte stream" % len(z))
            same(ex.call("inflatecopy", z)[0], d, "auto-unpacking of a %d byte stream" % len(z))
            return ["unpack"]
        if k == "damage":
            z = bytearray(raw_deflate(d, 6, 0, False))
            if case[4] == "cut":
                z = z[:case[2] % len(z)]
            else:
                z[case[2] % len(z)] ^= case[3] or 1
            d = bytes(z)
        want, state = ref_inflate(d)
        r = ex.attempt("inflate", d)
        c = ex.call("inflatecopy", d)[0]
        if state == "full":
            same(r[0], "ok", "unpacking a complete stream")
            same(r[1][0], want, "unpacked data")
            same(c, want, "auto-unpacked data")
        else:
            if d:
                expect(r[0] == "exc" and "ZError" in r[1], "unpacking data that is not a complete packed stream (%s, %d bytes) gave %s", state, len(d), r[0])
            same(c, d, "auto-unpacking of plain data (%s)" % state)
        return [k + "-" + state]

    def nontrivial(self, case, labels):
        return len(expand(case[1])) > 0


CHECK = C()
