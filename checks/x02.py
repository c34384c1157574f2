"""X02: damaged containers, configuration content, depot packs."""
import contextlib, os, random, re, struct
from hypothesis import strategies as st
from vp.engine import Check
from vp.exe import Crash, Unsupported
from vp import cf, conf
from checks import c01, c02, c03, c04, c05, d02, d03, d04, k02

SUBS = dict(C01=c01, C02=c02, C03=c03, C04=c04, C05=c05, D02=d02, D03=d03, D04=d04)
MARKS = [b"{", b"}", b",", b'"', b'""', b"0", b"1", b"-1", b"9", b"99999999999", b"2147483648", b" ", b"\r\n", b"-", b"{}", b"\0", b"\xd0", b"\xff", b"x", b"\xef\xbb\xbf", b"00000000-0000-0000-0000-000000000000"]


def spoil(b, r, times=1):
    b = bytearray(b)
    for _ in range(times):
        n = len(b)
        k = r.randrange(12)
        at = r.randrange(n + 1)
        if r.randrange(3) == 0:
            at = r.randrange(min(n, 80) + 1)
        pages = [m.start() for m in re.finditer(rb"\r\n[0-9a-fA-F]{8} ", b)]
        if pages and r.randrange(2):
            # header of a page of a container
            p = r.choice(pages) + 2
            q = p + 9 * r.randrange(3)
            try:
                old = int(b[q:q + 8], 16)
            except ValueError:
                old = 0
            v = r.choice([0, 1, old + 1, max(0, old - 1), 0x7fffffff, 0x80000000, 0xffffffff, n, n - 1, max(0, n - 31), p - 2, r.choice(pages), r.choice(pages), old * 2, r.randrange(n + 1), 16, old + 0x1000, 0x7ffffffe]) & 0xffffffff
            b[q:q + 8] = b"%08x" % v
            if r.randrange(8) == 0:
                b[q + r.randrange(8)] = r.choice(b"gG -+x\0z")
        elif k < 3 and n >= 4:
            at = min(at & ~3, n - 4)
            old = struct.unpack_from("<I", b, at)[0]
            v = r.choice([0, 1, 2, old + 1, old - 1, old ^ 0x80000000, 0xffffffff, 0x7fffffff, 0x80000000, n, n - 1, old * 2, old << 8, r.randrange(1 << 32), r.choice(pages) if pages else 3])
            struct.pack_into("<I", b, at, v & 0xffffffff)
        elif k < 6:
            spots = [m.start() for m in re.finditer(rb'[{}",0-9]', b)]
            if spots:
                at = r.choice(spots)
            b[at:at + r.randrange(2)] = r.choice(MARKS)
        elif k == 6 and n:
            at = min(at, n - 1)
            b[at] ^= 1 << r.randrange(8)
        elif k == 7:
            b[at:at + r.randrange(1, 40)] = r.randbytes(r.randrange(0, 40))
        elif k == 8:
            del b[at:]
        elif k == 9:
            z = min(n, at + r.randrange(1, 60))
            b[at:at] = b[at:z]
        elif k == 10:
            del b[at:at + r.randrange(1, 30)]
        else:
            b[at:at] = r.choice(MARKS) * r.choice([1, 2, 1000])
    return bytes(b).replace(b"/", b"|")


@contextlib.contextmanager
def spoiling(r, rate, times):
    """contents are damaged on their way into a database or a container"""
    hit = [0]

    def maybe(b):
        if r.random() < rate:
            hit[0] += 1
            return spoil(b, r, times)
        return b
    deflate, build, write_index = cf.deflate, cf.build, d04.index
    cf.deflate = lambda b, *a: maybe(deflate(maybe(b), *a))
    cf.build = lambda *a, **k: maybe(build(*a, **k))
    d04.index = lambda *a, **k: maybe(write_index(*a, **k))
    add = conf.Files.add

    def add2(self, name, data, *a, **k):
        if r.random() < rate / 4:
            name = spoil(name.encode(), r).decode("utf-8", "replace")[:120]
        return add(self, name, maybe(data), *a, **k)
    conf.Files.add = add2
    try:
        yield hit
    finally:
        cf.deflate, cf.build, d04.index, conf.Files.add = deflate, build, write_index, add


@st.composite
def cases(draw, tier):
    kind = draw(st.sampled_from(["container"] * 8 + sorted(SUBS) + ["C03", "C04", "C04"]))
    sub = draw(k02.CHECK.strategy("quick")) if kind == "container" else draw(SUBS[kind].CHECK.strategy("quick"))
    return [kind, sub, draw(st.integers(0, 99999)), draw(st.sampled_from([1, 1, 2, 3])), draw(st.sampled_from([5, 20, 60, 100]))]


class C(Check):
    id = "X02"
    rule = ("containers (nested, packed, split into pages in any way) with 1..3 damages (page headers, element tables, times, texts, packed data, cut files) read, listed, unpacked, searched and parsed; infobases whose configuration files, "
            "extension descriptions, supplier configurations, dynamic update lists or packed contents are damaged before they are stored, dumped in every way; depots and packs with damaged contents and indexes: every operation "
            "must end with a result or an error under AddressSanitizer. Non-trivial: something was damaged and the damaged input was processed.")
    quick, thorough = 500, 15000

    def strategy(self, tier):
        return cases(tier)

    def run(self, case, ctx):
        kind, sub, seed, times, rate = case
        r = random.Random(seed)
        if kind == "container":
            return self.container(sub, r, times, ctx)
        if kind == "C05":
            sub[4] = [o for o in sub[4] if o[0] != "write"]
        calls = ctx.ex.calls
        with spoiling(r, rate / 100.0, times) as hit:
            try:
                SUBS[kind].CHECK.run(sub, ctx)
            except (Crash, Unsupported):
                raise
            except Exception:
                pass
        return [kind] + (["damaged"] if hit[0] and ctx.ex.calls > calls else [])

    def container(self, sub, r, times, ctx):
        c, (ext, kind, zipped), reads, todir, junk = sub
        inner = r.randrange(3) == 0
        with spoiling(r, 0.3 if inner else 0, 1):
            raw, tree = k02.build(c, zipped)
        if not inner or r.randrange(2):
            raw = spoil(raw, r, times)
        if ext == "cfu":
            raw = cf.deflate(raw)
            if r.randrange(4) == 0:
                raw = spoil(raw, r)
        p = ctx.write("x." + ext, raw)
        os.chmod(p, 0o666)
        names = [e[0].decode() for e in k02.flat(tree)][:8]
        ops = [(["open", kind, p], b""), (["list", ""], b""), (["dump", ""], b"")]
        for n in names:
            ops += [([op, n] + extra, b"") for op, extra in (("find", []), ("iscat", []), ("len", []), ("read", ["0", "1000"]), ("read", ["100", "7"]), ("tostream", []), ("tofile", [ctx.path("one")]), ("times", []), ("tree", []),
                                                           ("stream", ["b 0,r 10,s,c 0,r 5"]), ("list", []))]
        ops.append((["todir", "", ctx.path("out")], b""))
        ops.append((["close"], b""))
        res = k02.run_script(ctx.ex, ops)
        return ["container", "damaged", ext + "-" + kind] + (["opened"] if res[0] == b"ok1" else [])

    def nontrivial(self, case, labels):
        return "damaged" in labels


CHECK = C()
