"""X01: damaged databases."""
import os, random, re, struct
from hypothesis import strategies as st
from vp.engine import Check, expect
from vp import onecd, tabs
from vp.base import script
from checks import s05


@st.composite
def cases(draw, tier):
    kind = draw(st.sampled_from(["tables", "tables", "infobase", "depot"]))
    if kind == "tables":
        spec = draw(tabs.databases(tabs.table_strategy(1, 5, None, 2, 5, 120, p_many=2), 3))
    elif kind == "infobase":
        from checks import c01, c04
        spec = [draw(st.sampled_from(onecd.VERSIONS)), draw(st.integers(0, 999)), draw(st.booleans()), draw(st.integers(0, 5)), draw(st.lists(c01.file_strategy("quick"), max_size=4, unique_by=lambda f: f[0])),
                draw(st.lists(c04.vendor(), max_size=2))]
    else:
        from vp import depot
        spec = draw(depot.history(tier, 3))
    # where: page, offset; what
    dmg = st.tuples(st.sampled_from(["int", "int", "int", "byte", "bytes", "bit", "zero", "ff", "swap", "copy", "copy", "text", "text", "short", "tail"]), st.integers(0, 9999), st.one_of(st.integers(8, 32), st.integers(0, 200), st.integers(0, 65535), st.integers(0, 65535)), st.integers(0, 9999)).map(list)
    return [kind, spec, draw(st.lists(dmg, min_size=1, max_size=3)), draw(st.sampled_from([0, 0, 0, 1])), draw(st.integers(0, 5))]


def damage(data, ps, dmg):
    b = bytearray(data)
    for what, pg, off, val in dmg:
        n = len(b) // ps
        if not n:
            break
        r = random.Random(val)
        # object headers and first pages more often
        heads = [i for i in range(2, n) if b[i * ps:i * ps + 8] == b"1CDBOBV8" or b[i * ps:i * ps + 2] == b"\x1c\xfd"]
        k, q = pg % 16, pg // 16
        p = q % min(n, 3) if k == 15 else heads[q % len(heads)] if 10 < k < 15 and heads else (2 + q % (n - 2) if n > 2 else 0)
        at = p * ps + off % ps
        if what == "text":
            full = [i for i in range(2, n) if b.count(b"{", i * ps, (i + 1) * ps) > 3]
            if full:
                p = full[q % len(full)]
                spots = [m.start() + p * ps for m in re.finditer(rb'[{}",0-9A-Z]', b[p * ps:(p + 1) * ps])]
                at = spots[off % len(spots)]
                b[at:at + 1] = r.choice([b"{", b"}", b",", b'"', b"0", b"1", b"9", b"-", b"A", b"B", b"L", b"N", b"T", b"I", b"\0", b"\xd0"])
            continue
        if what == "int":
            at &= ~3
            old = int.from_bytes(b[at:at + 4], "little")
            v = r.choice([0, 1, 2, old + 1, old - 1, old ^ 0x80000000, 0xffffffff, 0x7fffffff, 0x80000000, n, n - 1, n + 1, r.randrange(n + 1), len(b), ps, old * 2, old << 8, 0x10000, r.randrange(1 << 32)])
            b[at:at + 4] = struct.pack("<I", v & 0xffffffff)[:len(b) - at]
        elif what == "byte":
            b[at] = r.randrange(256)
        elif what == "bytes":
            k = min(r.randrange(1, 40), len(b) - at)
            b[at:at + k] = r.randbytes(k)
        elif what == "bit":
            b[at] ^= 1 << r.randrange(8)
        elif what == "zero":
            b[p * ps:(p + 1) * ps] = bytes(ps)
        elif what == "ff":
            b[p * ps:(p + 1) * ps] = b"\xff" * ps
        elif what in ("swap", "copy"):
            q = r.randrange(n)
            x, y = bytes(b[p * ps:(p + 1) * ps]), bytes(b[q * ps:(q + 1) * ps])
            b[p * ps:(p + 1) * ps] = y
            if what == "swap":
                b[q * ps:(q + 1) * ps] = x
        elif what == "short":
            del b[(p + 1) * ps:]
            if val % 4:
                b[12:16] = struct.pack("<I", len(b) // ps)
        elif off % 4:
            b[-ps:] = b""
            b[12:16] = struct.pack("<I", len(b) // ps)
        else:
            del b[max(1, len(b) - r.randrange(1, 2 * ps)):]
    return bytes(b)


class C(Check):
    id = "X01"
    rule = ("databases of all formats (tables with indexes and long values; infobases with configurations and supplier configurations; depots) with 1..3 damages: integers replaced by boundary values, bits, bytes, "
            "characters of table descriptions, pages cleared, exchanged or copied over others, the file cut; every reading operation is run on every table in one process under AddressSanitizer, and for a sixth of the cases the program itself; "
            "each operation must end with a result or an error. Non-trivial: the damaged database could be opened.")
    quick, thorough = 700, 12000

    def strategy(self, tier):
        return cases(tier)

    def run(self, case, ctx):
        kind, spec, dmg, mode, extra = case
        p, names, home = s05.CHECK.make(kind, spec, ctx)
        ps = spec[1] if kind == "tables" else 4096
        with open(p, "rb") as f:
            data = f.read()
        if data[:8] == b"1CDBMSV8" and data[8:12] == b"\x08\x03\x08\x00":
            ps = struct.unpack("<I", data[20:24])[0]
        with open(p, "wb") as f:
            f.write(damage(data, ps, dmg))
        os.chmod(p, 0o666)
        out = ctx.path("out")
        os.makedirs(out)
        os.chmod(out, 0o777)
        n = len(names)
        ops = [("open", p, mode), ("info",), ("tables",)]
        for t in range(n):
            d = os.path.join(out, "t%d" % t)
            os.makedirs(d)
            os.chmod(d, 0o777)
            ops += [("tinfo", t), ("tdescr", t), ("iter", t, "p"), ("iter", t, "x"), ("fillrec", t), ("xml", t, d + "/x.xml", extra % 2, 1), ("export", t, d), ("iterx", t, "PK", "p")]
            for k in range(2):
                ops += [("idx", t, k), ("idxkey", t, k, 0), ("rec", t, k, "px"), ("idxdump", t, k, d + "/i%d" % k)]
            for k in ("data", "blob", "index"):
                ops += [("bind", k + str(t), t, k), ("len", k + str(t)), ("get", k + str(t)), ("getr", k + str(t), 1, 100), ("save", k + str(t), d + "/" + k)]
            ops += [("blob", t, 1, 100), ("blobbuf", t, 1, 100)]
        if kind == "infobase":
            ops += [("config", out + "/c"), ("configsave", out + "/s"), ("suppliers",), ("supplier", 0, out + "/v"), ("ext", out + "/e", "0" * 8 + "-0000-0000-0000-" + "0" * 12, "00" * 20), ("extdb", out + "/eb", "00" * 20)]
        if kind == "depot":
            ops += [("depotver", 0), ("depot", out + "/d", 0), ("depot", out + "/d1", -1), ("depotpart", out, 1, 0)]
        ops += [("close",)]
        res = script(ctx, ops)
        good = sum(r[:2] == b"ok" for r in res)
        labels = [kind]
        if res[0][:2] == b"ok":
            labels.append("opened")
            if good < len(res):
                labels.append("partial")
        if extra == 0:
            ctx.ctool("-ne", p, "-eax", out, "-eb", out, "*", "-slo", out, "-sts", out + "/sizes", "-dac", out, "-drc", "0", out + "/x.cf")
        return labels

    def nontrivial(self, case, labels):
        return "opened" in labels


CHECK = C()
