"""P03: case folding and string helpers."""
from hypothesis import strategies as st
from vp.engine import Check, expect, same
from vp.data import text

UP = "ABCDEFGHIJKLMNOPQRSTUVWXYZ" + "АБВГДЕЖЗИЙКЛМНОПРСТУФХЦЧШЩЪЫЬЭЮЯ" + "Ё"
LO = "abcdefghijklmnopqrstuvwxyz" + "абвгдежзийклмнопрстуфхцчшщъыьэюя" + "ё"
TOLO, TOUP = str.maketrans(UP, LO), str.maketrans(LO, UP)
sign = lambda x: (x > 0) - (x < 0)


def swapcase(draw, s):
    return "".join(c.translate(TOLO) if b == 0 else c.translate(TOUP) if b == 1 else c for c, b in zip(s, draw(st.lists(st.integers(0, 2), min_size=len(s), max_size=len(s)))))


@st.composite
def cases(draw):
    kind = draw(st.sampled_from(["case", "cmp", "suffix", "replace", "ext", "lines", "int"]))
    T = lambda n=14: draw(text(n))
    if kind == "case":
        return [kind, draw(st.one_of(text(40), st.text(UP + LO + "ѐЀЏѓ@[`{ЭэІ", max_size=30)))]
    if kind == "cmp":
        a = T()
        b = draw(st.one_of(text(14), st.just(None)))
        if b is None:
            b = swapcase(draw, a)
            if draw(st.booleans()):
                b = b + draw(text(2))
        return [kind, a, b]
    if kind == "suffix":
        a = T()
        if draw(st.booleans()) and a:
            b = swapcase(draw, a[draw(st.integers(0, len(a))):])
        else:
            b = draw(text(4))
        return [kind, a, b]
    if kind == "replace":
        p = draw(st.one_of(text(3), st.sampled_from(["a", "aa", "ab", '"', "/", "Я", "&"])))
        p = p or "a"
        parts = draw(st.lists(st.one_of(st.just(p), text(3), st.just(p[:1]), st.just(p[-1:])), max_size=8))
        return [kind, "".join(parts), p, draw(st.one_of(text(4), st.just(p + p), st.just(p[1:]), st.just(""), st.tuples(text(9), text(3)).map(lambda t: t[0] + p + t[1]))), draw(st.integers(0, 1))]
    if kind == "ext":
        stem = draw(st.text("abcЯж_- 012", min_size=1, max_size=8))
        exts = draw(st.lists(st.text("abcCFЖ1", max_size=4), max_size=3))
        dirs = draw(st.lists(st.text("abЖ.", min_size=1, max_size=5).filter(lambda s: s.strip(".")), max_size=2))
        return [kind, dirs, stem, exts]
    if kind == "lines":
        return [kind, draw(st.lists(st.text("abЯ \r,;.\"", max_size=6), max_size=6)), draw(st.booleans())]
    return [kind, draw(st.one_of(st.integers(-2**33, 2**33).map(str), st.integers(-100, 100).map(lambda i: " %d" % i), st.sampled_from(["", "-", "abc", "+5", "--1", "Я1", "99999999999999999999", "2147483647", "2147483648", "-2147483648", "-2147483649"]))), draw(st.integers(-5, 5))]


class C(Check):
    id = "P03"
    rule = ("random texts for each helper: casing, comparison of texts and their re-cased variants, suffixes cut at any character, "
            "replacement with overlapping patterns, path extensions, line splitting, integer parsing. Non-trivial: some input longer than one character.")
    quick, thorough = 4000, 120000

    def strategy(self, tier):
        return cases()

    def run(self, case, ctx):
        ex, k = ctx.ex, case[0]
        if k == "case":
            s = case[1]
            lo, up = ex.call("lower", s)[0].decode(), ex.call("upper", s)[0].decode()
            same(lo, s.translate(TOLO), "lower case of %r" % s)
            same(up, s.translate(TOUP), "upper case of %r" % s)
        elif k == "cmp":
            a, b = case[1:]
            r = [int(x) for x in ex.call("cmp", a, b)]
            ab, bb = a.encode(), b.encode()
            al, bl = a.translate(TOLO).encode(), b.translate(TOLO).encode()
            cmp = lambda x, y: (x > y) - (x < y)
            same([sign(r[0]), sign(r[1]), r[2], r[3]], [cmp(ab, bb), cmp(al, bl), int(ab == bb), int(al == bl)], "comparison of %r and %r" % (a, b))
            r2 = [int(x) for x in ex.call("cmp", b, a)]
            same((sign(r2[0]), sign(r2[1])), (-sign(r[0]), -sign(r[1])), "antisymmetry for %r, %r" % (a, b))
        elif k == "suffix":
            a, b = case[1:]
            same(ex.call("endswith", a, b)[0], b"1" if a.translate(TOLO).endswith(b.translate(TOLO)) else b"0", "%r ends with %r" % (a, b))
        elif k == "replace":
            s, p, n, fl = case[1:]
            same(ex.call("replace", s, p, n, fl)[0].decode(), s.replace(p, n) if fl else s.replace(p, n, 1), "replace in %r of %r by %r flags %d" % (s, p, n, fl))
        elif k == "ext":
            dirs, stem, exts = case[1:]
            name = ".".join([stem] + exts)
            full = "/".join(dirs + [name])
            want = "." + exts[-1] if exts else ""
            same(ex.call("ext", full)[0].decode(), want, "extension of %r" % full)
        elif k == "lines":
            lines, nl = case[1:]
            t = "\n".join(lines) + ("\n" if nl else "")
            want = t.split("\n")
            if want[-1] == "":
                want.pop()
            r = [x.decode() for x in ex.call("settext", t)]
            same((int(r[0]), r[1:]), (len(want), want), "lines of %r" % t)
            p = ctx.write("lines.txt", t.encode())
            r = [x.decode() for x in ex.call("loadlines", p)]
            same((int(r[0]), r[1:]), (len(want), want), "lines of the file holding %r" % t)
        else:
            s, d = case[1:]
            import re
            m = re.match(r"\s*([+-]?[0-9]+)", s)
            v = int(m.group(1)) if m else None
            want = v if v is not None and -2**31 <= v < 2**31 else d
            same(int(ex.call("toint", s, d)[0]), want, "integer value of %r (default %d)" % (s, d))
        return [k]

    def nontrivial(self, case, labels):
        return any(len(x) > 1 for x in case[1:] if isinstance(x, (str, list)))


CHECK = C()
