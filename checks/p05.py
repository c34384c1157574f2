"""P05: CRC-32."""
import zlib
from hypothesis import strategies as st
from vp.engine import Check, same
from vp.data import blobs, expand, around


class C(Check):
    id = "P05"
    rule = "random byte strings (lengths around multiples of 1024 and up to 70000) with a random initial stream position. Non-trivial: at least one byte."
    quick, thorough = 2500, 60000

    def strategy(self, tier):
        return st.tuples(blobs(st.one_of(around(1024, 2048, 3072, 4096, 65536), st.integers(0, 5000), st.integers(0, 70000)), 50), st.integers(0, 10000)).map(list)

    def run(self, case, ctx):
        d = expand(case[0])
        pos = case[1] % (len(d) + 1)
        same(int(ctx.ex.call("crc", d, pos)[0]), zlib.crc32(d), "CRC-32 of %d bytes from position %d" % (len(d), pos))
        return ["empty" if not d else "short" if len(d) < 1024 else "chunk" if len(d) % 1024 == 0 else "long"]

    def nontrivial(self, case, labels):
        return "empty" not in labels


CHECK = C()
