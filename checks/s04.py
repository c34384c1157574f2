"""S04: databases with a wrong header are refused without traces, well-formed ones opened with what their header says."""
import os, struct
from hypothesis import strategies as st
from vp.engine import Check, expect, same
from vp import onecd
from vp.base import script, ok, items, put

FIELDS = [["A", "B", 0, 4, 0, "CS"]]
LANGS = ["ru_RU", "en", "", "ro_RO", "lt_LT"]
SUPPORTED = {tuple(int(x) for x in v.split(".")): v for v in onecd.VERSIONS}
GOOD_PS = [4096, 8192, 16384, 32768, 65536]

versions = st.one_of(
    st.tuples(st.integers(0, 127), st.integers(0, 127), st.integers(0, 127), st.integers(0, 127)),
    st.tuples(st.sampled_from(sorted(SUPPORTED)), st.integers(0, 3), st.sampled_from([1, -1, 2, 10, 64])).map(
        lambda t: tuple((x + (t[2] if i == t[1] else 0)) % 128 for i, x in enumerate(t[0]))))

damage = st.one_of(
    st.just(["none"]), st.just(["none"]),
    st.tuples(st.just("sig"), st.integers(0, 7), st.integers(1, 255)).map(list),
    st.tuples(st.just("ver"), versions).map(lambda t: ["ver", list(t[1])]),
    st.tuples(st.just("ps"), st.one_of(st.sampled_from([0, 1, 512, 1024, 2048, 12288, 131072, 1 << 20, 1 << 31, 4095, 4097, 0xFFFFFFFF]), st.sampled_from(GOOD_PS), st.integers(0, 0xFFFFFFFF))).map(list),
    st.tuples(st.just("count"), st.sampled_from([1, -1, 2, -2, 256, 65536, 1 << 24, -4096])).map(list),
    st.tuples(st.just("count"), st.integers(1, 0xFFFFFFFF)).map(list),
    st.tuples(st.just("grow"), st.sampled_from([1, 24, 4095, 4096, 8192, 65536, 16])).map(list),
    st.tuples(st.just("cut"), st.sampled_from([1, 24, 4095, 4096, 8192, 65536, 16])).map(list),
    st.tuples(st.just("head"), st.integers(0, 40)).map(list),
    st.tuples(st.just("missing")).map(list), st.just(["foreign"]))


@st.composite
def cases(draw):
    ver = draw(st.sampled_from(onecd.VERSIONS + ["8.3.8.0", "8.3.8.0"]))
    ps = draw(st.sampled_from(GOOD_PS)) if ver == "8.3.8.0" else 4096
    lang = draw(st.sampled_from(LANGS + ["x" * (7 if ver < "8.1" else 31)]))
    return [ver, ps, draw(st.integers(0, 999)), lang, draw(st.integers(0, 3)), draw(st.integers(0, 0xFFFFFFFF)),
            draw(st.sampled_from(["open", "open2"])), draw(st.booleans()), draw(damage)]


class C(Check):
    id = "S04"
    rule = ("well-formed databases of every version and page size with one damage of the header or of the file length (signature, version bytes, page size, page count, cut, grown, "
            "only a part of the header, no file, foreign file), opened in both modes, through both ways of opening, after and before a sound one. Non-trivial: a damaged file.")
    quick, thorough = 700, 20000

    def strategy(self, tier):
        return cases()

    def run(self, case, ctx):
        ver, ps, seed, lang, ntab, junk, how, mono, dam = case
        im = onecd.Img(ver, ps, seed, seed % 4, False, lang)
        rows = bytes(0 if i % 5 == 0 else i % 251 for i in range(5 * (seed % 50)))
        for i in range(ntab):
            im.table(onecd.description("T%d" % i, FIELDS), rows)
        good = im.build()
        if not im.new:
            good = good[:20] + struct.pack("<I", junk) + good[24:]      # unused before 8.3.8
        bad = bytearray(good)
        count = len(good) // im.ps
        k = dam[0]
        valid, undecided = True, False
        wver = ver
        if k == "sig":
            bad[dam[1]] ^= dam[2]
            valid = False
        elif k == "ver":
            bad[8:12] = bytes(dam[1])
            wver = SUPPORTED.get(tuple(dam[1]))
            valid = wver is not None
            if valid and wver != ver:
                # the same layout only within these groups
                groups = [{"8.0.3.0", "8.0.5.0"}, {"8.1.0.0", "8.2.0.0", "8.2.14.0"}]
                undecided = not any(ver in g and wver in g for g in groups)
        elif k == "ps":
            struct.pack_into("<I", bad, 20, dam[1])
            valid = not im.new or dam[1] == ps
        elif k == "count":
            n = (count + dam[1]) % (1 << 32)
            struct.pack_into("<I", bad, 12, n)
            valid = n == count
        elif k == "grow":
            bad += bytes(dam[1])
            valid = False
        elif k == "cut":
            del bad[max(0, len(bad) - dam[1]):]
            valid = False
        elif k == "head":
            del bad[dam[1]:]
            valid = False
        elif k == "foreign":
            bad = bytearray(b"1CDBMSV7" * 600)
            valid = False
        elif k == "missing":
            valid = False
        if undecided:
            return ["undecided"]
        sound = put(ctx, "good.1CD", good)
        p = ctx.path("x.1CD")
        if k != "missing":
            put(ctx, "x.1CD", bytes(bad))
        before = sorted(os.listdir(ctx.dir))
        first = seed % 2
        ops = []
        if first:
            ops.append(("open", sound, int(mono)))
        ops.append((how, p, int(mono)))
        if not valid and how == "open2":
            ops.append(("isopen",))
        ops.append(("open", sound, 1))
        ops += [("bind", "t", i, "data") for i in range(ntab)][:1]
        if ntab:
            ops.append(("get", "t"))
        ops.append(("close",))
        res = script(ctx, ops)
        i = 0

        def info(r, v, m, what):
            x = [y.decode() for y in items(ok(r, what))]
            ro = v in ("8.0.3.0", "8.0.5.0") or not m
            same(x, ["1", v, str(im.ps), lang, str(ntab), "0", "0", "1" if ro else "0"], what + ": open, version, page size, locale, tables, infobase, depot, read only")
        if first:
            info(res[i], ver, mono, "sound database")
            i += 1
        if valid:
            info(res[i], wver, mono, "database")
        else:
            expect(res[i][:3] == b"exc", "a database with a damaged header (%s) was opened", dam)
            if how == "open2":
                i += 1
                same(res[i], b"ok0", "open state of a database refused for its header (%s)" % dam)
        info(res[i + 1], ver, 1, "sound database after another one")
        if ntab:
            same(ok(res[-2], "reading"), rows, "data of a table")
        same(sorted(os.listdir(ctx.dir)), before, "files in the directory")
        if k != "missing":
            same(ctx.read("x.1CD"), bytes(bad), "file after opening")
        same(ctx.read("good.1CD"), good, "sound file after opening")
        return [k, "valid" if valid else "refused", how]

    def nontrivial(self, case, labels):
        return case[8][0] != "none"


CHECK = C()
