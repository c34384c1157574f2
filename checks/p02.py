"""P02: text encodings."""
from hypothesis import strategies as st
from vp.engine import Check, expect, same
from vp.data import text

BOM8, BOM16 = b"\xef\xbb\xbf", b"\xff\xfe"


class C(Check):
    id = "P02"
    rule = ("random Unicode texts (Latin, Cyrillic, other scripts, supplementary planes) converted both ways with and without a "
            "byte-order mark and at an offset; random short buffers for mark detection. Non-trivial: the text has a non-ASCII character or the buffer starts with a mark byte.")
    quick, thorough = 2500, 60000

    def strategy(self, tier):
        buf = st.one_of(st.binary(max_size=6), st.sampled_from([b"\xef", b"\xef\xbb", b"\xff", b"\xfe\xff", BOM8, BOM16, BOM16 + b"\0", BOM8 + b"a"]),
                        st.binary(max_size=4).map(lambda b: BOM8 + b), st.binary(max_size=4).map(lambda b: BOM16 + b))
        return st.one_of(st.tuples(st.just("text"), text(60), st.integers(0, 5)), st.tuples(st.just("text"), text(6), st.integers(0, 3)),
                         st.tuples(st.just("detect"), buf.map(lambda b: b.hex()), st.sampled_from(["", "utf8", "utf16"]))).map(list)

    def run(self, case, ctx):
        ex = ctx.ex
        if case[0] == "detect":
            b = bytes.fromhex(case[1])
            n, e = ex.call("enc.detect", b, case[2])
            want = (b"3", b"utf8") if b.startswith(BOM8) else (b"2", b"utf16") if b.startswith(BOM16) else (b"0", (case[2] or "none").encode())
            same((n, e), want, "encoding detected for %r (default %r)" % (b, case[2]))
            return ["detect"]
        s = case[1]
        u8, u16 = s.encode("utf-8"), s.encode("utf-16-le")
        same(ex.call("enc.fromutf8", "utf16", u8)[0], u16, "two-byte form of %r" % s)
        same(ex.call("enc.fromutf8", "utf8", u8)[0], u8, "UTF-8 form of %r" % s)
        same(ex.call("enc.toutf8", "utf16", u16, 0)[0], u8, "UTF-8 of the two-byte form of %r" % s)
        same(ex.call("enc.toutf8", "utf8", u8, 0)[0], u8, "UTF-8 of the UTF-8 form of %r" % s)
        for e, body, bom in (("utf8", u8, BOM8), ("utf16", u16, BOM16)):
            same(ex.call("enc.preamble", e)[0], bom, "mark of " + e)
            same(ex.call("enc.toutf8", e, bom + body, len(bom))[0], u8, "text after the mark, " + e)
            n, got = ex.call("enc.detect", bom + body, "")
            same((n, got), (str(len(bom)).encode(), e.encode()), "encoding of marked text")
            other, obody = ("utf16", u16) if e == "utf8" else ("utf8", u8)
            same(ex.call("enc.convert", e, other, bom + body, len(bom), len(body))[0], obody, "conversion %s -> %s of %r" % (e, other, s))
            pad = b"z" * (2 * case[2]) if e == "utf8" else "яz".encode("utf-16-le") * case[2]
            same(ex.call("enc.convert", e, other, pad + body, len(pad), len(body))[0], obody, "conversion at an offset")
        return ["text", "astral" if any(ord(c) > 0xffff for c in s) else "bmp"]

    def nontrivial(self, case, labels):
        return case[0] == "detect" and case[1][:2] in ("ef", "ff") or case[0] == "text" and any(ord(c) > 127 for c in case[1])


CHECK = C()
