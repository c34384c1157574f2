"""C04: vendor configurations."""
import random
from collections import Counter
from hypothesis import strategies as st
from vp.engine import Check, expect, same
from vp import onecd, conf, cf
from vp.base import script, ok, put, texts

TEXT = st.one_of(st.sampled_from(["", "1.2.3", "Конфигурация", "ООО \"Рога, и копыта\"", "a{b}c", "1", "x\r\ny", "Имя поставщика " * 5]),
                 st.lists(st.one_of(st.characters(min_codepoint=32, max_codepoint=126), st.characters(min_codepoint=0x410, max_codepoint=0x44f), st.sampled_from(["\r\n", "\n", "\t", "\"", "𝄞", "ё"])), max_size=20).map("".join))
GENERAL = "9cd510cd-abfc-11d4-9434-004095e12fc7"


def q(s):
    return '"' + s.replace('"', '""') + '"'


@st.composite
def vendor(draw):
    return [draw(TEXT), draw(TEXT), draw(TEXT), draw(st.sampled_from([15, 15, 22, 32, 34, 36, 37, 37, 52, 16])), draw(st.integers(0, 999)), draw(st.booleans()), draw(st.integers(0, 5)), draw(st.sampled_from([1, 1, 2, 4])),
            draw(st.integers(0, 63)), draw(st.integers(0, 3)), draw(st.booleans()), draw(st.integers(0, 7))]


@st.composite
def cases(draw, tier):
    ver = draw(st.sampled_from(onecd.VERSIONS))
    return [ver, draw(st.integers(0, 999)), draw(st.booleans()), draw(st.integers(0, 5)), draw(st.lists(vendor(), max_size=4)), draw(st.integers(0, 5))]


def embedded(name, supplier, version, kind, seed, old, nodes, policy, split, upper):
    """container of a vendor configuration; old: 8.0 layout with files within the catalogue metadata"""
    r = random.Random("v%d" % seed)
    meta = conf.guid(4000 + seed)
    filler = lambda: r.choice(["0", '""', "{0}", "{0,0}", conf.guid(r.randrange(50)), '"a""b"', "{1,\r\n{\"#\",%s,1}\r\n}" % conf.guid(3)])
    info = [str(kind), "{%d,\r\n{1,\r\n{0,0,%s},%s,\r\n{1,\"ru\",\"x\"},\"\"}\r\n}" % (r.randrange(3), conf.guid(5), q(name))]
    sup = 11 if kind == 15 else 14
    while len(info) < sup:
        info.append(filler())
    info += [q(supplier), q(version)] + [filler() for _ in range(r.randrange(6))]
    general = "{%s,\r\n{1,\r\n{%s},23,\r\n{%s,0}\r\n}\r\n}" % (GENERAL.upper() if upper else GENERAL, ",".join(info), conf.guid(6))
    others = ["{%s,\r\n{6,\r\n{1,\r\n{\"no\",{0,{1,{0,0,%s},\"other\"}}}},15}\r\n}" % (conf.guid(60 + i), conf.guid(7)) for i in range(nodes)]
    others.insert(r.randrange(len(others) + 1), general)
    enc = lambda t: ("\ufeff" + t).encode()
    root, mt = enc("{%d,%s,0}" % (r.randrange(3), meta)), enc("{2,\r\n{%s},%d,\r\n%s\r\n}" % (conf.guid(8), len(others), ",\r\n".join(others)))
    files = [("root", root), (meta, mt), (conf.guid(9), r.randbytes(r.randrange(600))), ("versions", b"{0}")]
    r.shuffle(files)
    stamp = lambda: 630000000000000000 // 1000 + r.randrange(10 ** 9)
    top = lambda l: [(n, stamp(), stamp(), d) for n, d in l]
    vers = ("version", enc("{\r\n{%d,0}\r\n}" % r.choice([216, 106, 100]) if not old else "{\r\n{%d,0}\r\n}" % r.choice([80, 99, 1])))
    if old:
        all_ = [("metadata", cf.build(top(files), False, seed, split, policy)), vers, ("image", b"junk")]
    else:
        all_ = files + [vers]
    if old is False and r.randrange(2):
        all_.append(("metadata", b"not a catalogue"))
    r.shuffle(all_)
    return cf.build(top(all_), True, seed + 1, split, policy)


class C(Check):
    id = "C04"
    rule = ("up to 4 embedded vendor configurations in the database and the edited configuration, any text in name, vendor and version, both container layouts, property versions of 8.0 to 8.3, containers built with scattered and "
            "free pages; compared with what was embedded. Non-trivial: at least one vendor configuration.")
    quick, thorough = 500, 10000

    def strategy(self, tier):
        return cases(tier)

    def run(self, case, ctx):
        ver, seed, partno, scatter, vendors, noise = case
        tabs = [conf.Files("CONFIG", partno, seed), conf.Files("CONFIGSAVE", not partno, seed + 1)]
        want, seen, labels = [], set(), set()
        for i, (name, supplier, version, kind, s, old, nodes, parts, policy, split, upper, where) in enumerate(vendors):
            t = tabs[where % 2]
            fname = conf.guid(1000 + (0 if where == 7 else i)) + "." + conf.guid(2000 + (0 if where >= 6 else i))
            if (fname, where % 2) in seen:
                continue
            seen.add((fname, where % 2))
            data = embedded(name, supplier, version, kind, s, old, nodes, policy, split, upper)
            t.add(fname.upper() if upper else fname, cf.deflate(cf.deflate(data)), parts, s)
            want.append((name, supplier, version, data))
            labels.add("old layout" if old else "new layout")
        for i in range(noise):
            tabs[i % 2].add(conf.guid(i) + "." + str(i), cf.deflate(b"x" * i * 100), 1, i)
            if i == 4:
                tabs[0].add(conf.guid(3000) + "." + conf.guid(3001), b"removed", 1, 1, removed=True)
        p = put(ctx, "x.1CD", conf.infobase(ver, 4096, seed, tabs, scatter=scatter))
        ops = [("open", p, 0), ("suppliers",)] + [("supplier", i, ctx.path("o%d" % i)) for i in range(len(want))] + [("suppliers",)]
        r = script(ctx, ops)
        ok(r[0], "open")
        got = texts(ok(r[1], "list of vendor configurations"))
        got = [tuple(got[i:i + 3]) for i in range(0, len(got), 3)]
        same(sorted(got), sorted(w[:3] for w in want), "vendor configurations")
        same(r[-1], r[1], "second list of vendor configurations")
        found = []
        for i in range(len(want)):
            same(ok(r[2 + i], "extraction"), b"1", "result of the extraction")
            found.append(got[i] + (ctx.read("o%d" % i),))
        same(Counter(found), Counter(want), "extracted vendor configurations")
        return sorted(labels)

    def nontrivial(self, case, labels):
        return bool(labels)


CHECK = C()
