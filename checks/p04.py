"""P04: base64."""
import base64
from hypothesis import strategies as st
from vp.engine import Check, expect, same
from vp.data import blobs, expand, around


class C(Check):
    id = "P04"
    rule = ("random byte strings of 0..3000 bytes (all residues mod 3) with random line lengths; decoding of the standard text broken "
            "into lines at random widths, through the stream and the string decoder. Non-trivial: at least one byte.")
    quick, thorough = 2500, 60000

    def strategy(self, tier):
        return st.tuples(blobs(st.one_of(around(3, 54, 57, 72, 76, 1023, 1024), st.integers(0, 3000)), 60),
                         st.one_of(st.sampled_from([0, 4, 72, 76, 64]), st.integers(1, 40).map(lambda x: 4 * x)),
                         st.one_of(st.just(0), st.integers(1, 100)), st.sampled_from(["\n", "\r\n", " ", "\t"]), st.integers(0, 6)).map(list)

    def run(self, case, ctx):
        ex = ctx.ex
        d = expand(case[0])
        std = base64.b64encode(d).decode()
        got = ex.call("b64enc", d, 0)[0]
        same(got.decode("utf-16-le"), std, "one-line encoding of %d bytes" % len(d))
        same(ex.call("b64dec", got)[0], d, "decode(encode(x)), one line")
        got = ex.call("b64enc", d, case[1])[0]
        expect(len(got) % 2 == 0, "odd length of two-byte text")
        t = got.decode("utf-16-le")
        same(t.replace("\r\n", ""), std, "encoding with line length %d, line breaks removed" % case[1])
        if case[1]:
            expect(all(len(l) <= case[1] for l in t.split("\r\n")), "a line is longer than %d characters", case[1])
            expect(all(len(l) == case[1] // 4 * 4 for l in t.split("\r\n")[:-1]), "a line before the last is not full")
        same(ex.call("b64dec", got)[0], d, "decode(encode(x)), lines of %d" % case[1])
        w, sep = case[2], case[3]
        s = std if not w else sep.join(std[i:i + w] for i in range(0, len(std), w))
        same(ex.call("b64decs", s, 0)[0], d, "string decoder on standard text broken at %d" % w)
        same(ex.call("b64decs", "#data:"[:case[4]].ljust(case[4], "#") + s, case[4])[0], d, "string decoder from offset %d" % case[4])
        same(ex.call("b64dec", s.encode("utf-16-le"))[0], d, "stream decoder on standard text broken at %d" % w)
        return ["len%3=" + str(len(d) % 3), "lines" if case[1] else "oneline"]

    def nontrivial(self, case, labels):
        return len(expand(case[0])) > 0


CHECK = C()
