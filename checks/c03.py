"""C03: dumps of configuration extensions."""
import base64, hashlib, random
from hypothesis import strategies as st
from vp.engine import Check, expect, same
from vp import onecd, conf, cf
from vp.base import script, ok, put

NAMES = [conf.guid(1), conf.guid(2), conf.guid(1) + ".0", conf.guid(2) + ".2", "version", "Модуль.0", "versions", "x.PF", "a b", "root"]
VERSION = st.tuples(st.integers(0, 30), st.integers(1, 1500), st.sampled_from([1, 1, 2, 5])).map(list)


@st.composite
def extension(draw):
    """names and versions of the applied form; edited form: None (same as applied) or changed and added files, names that go"""
    names = draw(st.lists(st.integers(0, len(NAMES) - 1), max_size=5, unique=True))
    applied = [[n, draw(VERSION)] for n in names]
    edited = draw(st.one_of(st.none(), st.lists(st.tuples(st.integers(0, len(NAMES) - 1), VERSION).map(list), max_size=3, unique_by=lambda e: e[0])))
    return [applied, edited, draw(st.lists(st.integers(0, 4), max_size=2, unique=True)), draw(st.integers(0, 3))]


@st.composite
def cases(draw, tier):
    ver = draw(st.sampled_from(onecd.VERSIONS))
    exts = draw(st.lists(extension(), max_size=3 if tier == "quick" else 5))
    return [ver, draw(st.integers(0, 999)), draw(st.booleans()), draw(st.booleans()), draw(st.integers(0, 5)), exts, draw(st.lists(VERSION, max_size=2))]


def configinfo(entries, style):
    nl = "\r\n" if style % 2 else ""
    head = "{0,%s{216,0,%s{80310,0}%s}%s},%s{2,%s,%s}" % (nl, nl, nl, nl, nl, conf.guid(800), base64.b64encode(b"\x03" * 48).decode() + ("\r\r\n" + base64.b64encode(b"x" * 16).decode() if style & 2 else ""))
    return ("\ufeff" + head + "," + nl + "{%d%s}" % (len(entries), "".join(',"%s",%s' % (n, base64.b64encode(h).decode()) for n, h in entries))).encode()


class C(Check):
    id = "C03"
    rule = ("up to 5 extensions of up to 5 files each sharing contents by hash, applied and edited forms (changed, added, dropped files; whole or no edited form), other extensions and unreferenced contents beside them; the dumps are "
            "read by an independent container reader. Non-trivial: an extension with files.")
    quick, thorough = 500, 10000

    def strategy(self, tier):
        return cases(tier)

    def run(self, case, ctx):
        ver, seed, p1, p2, scatter, exts, loose = case
        cas, save = conf.Files("CONFIGCAS", p1, seed), conf.Files("CONFIGCASSAVE", p2, seed + 1)
        held = {}

        def hold(data, parts, s):
            h = hashlib.sha1(data).digest()
            if h not in held:
                held[h] = (data,) + cas.add(h.hex(), data, parts, s)
            return h

        labels = set()
        jobs = []
        for v in loose:
            hold(cf.deflate(conf.content(v[0], v[1])), v[2], v[0])
        for k, (applied, edited, gone, style) in enumerate(exts):
            uid = conf.guid(300 + k) if seed % 3 else conf.guid(300)[:-1] + "%x" % ((int(conf.guid(300)[-1], 16) + k) % 16)  # sometimes differing in one digit only
            entries, want = [], {}
            for n, v in applied:
                name = NAMES[n]
                h = hold(conf.stored(name, conf.content(v[0], v[1])), v[2], v[0])
                entries.append((name, h))
                want[name] = held[h]
                labels.add("files")
            ih = hold(cf.deflate(configinfo(entries, style)), 1 + style % 2, k)
            want["configinfo"] = held[ih]
            jobs.append(("extdb", None, ih.hex(), dict(want)))
            if edited is not None:
                labels.add("edited")
                drop = {entries[g % len(entries)][0] for g in gone} if entries else set()
                e2 = [e for e in entries if e[0] not in drop]
                for n in drop:
                    del want[n]
                for n, v in edited:
                    name = NAMES[n]
                    data = conf.stored(name, conf.content(v[0] + 700, v[1]))
                    want[name] = (data,) + save.add(uid + "__" + name, data, v[2], v[0] + 50)
                    e2 = [e for e in e2 if e[0] != name] + [(name, hashlib.sha1(data).digest())]
                random.Random(seed + k).shuffle(e2)
                info = cf.deflate(configinfo(e2, style + 1))
                want["configinfo"] = (info,) + save.add(uid + "__configinfo", info, 1 + style % 3, 70 + k)
            jobs.append(("ext", uid, ih.hex(), want))
        p = put(ctx, "x.1CD", conf.infobase(ver, 4096, seed, [conf.Files("CONFIG", p1, seed), cas, save], scatter=scatter))
        random.Random(seed).shuffle(jobs)
        ops = [("open", p, 0)]
        for i, (op, uid, h, want) in enumerate(jobs):
            h = h.upper() if seed % 5 == 0 else h
            ops.append((op, ctx.path("o%d.cfe" % i)) + ((uid,) if uid else ()) + (h,))
        bad = "00" * 20
        ops += [("extdb", ctx.path("bad.cfe"), bad), ("ext", ctx.path("bad2.cfe"), conf.guid(999), bad)]
        r = script(ctx, ops)
        ok(r[0], "open")
        for i, (op, uid, h, want) in enumerate(jobs):
            same(ok(r[1 + i], "dump of an extension"), b"1", "result of the dump")
            conf.compare(cf.parse(ctx.read("o%d.cfe" % i), False), want, "dumped extension " + op, expect, same)
        for x in r[-2:]:
            expect(x[:2] != b"ok" or x[2:] == b"0", "dump of an extension that does not exist reported success")
        return sorted(labels)

    def nontrivial(self, case, labels):
        return "files" in labels


CHECK = C()
