"""T07: long values exported to separate files."""
import os, random, struct
from hypothesis import strategies as st
from vp.engine import Check, expect, same, short
from vp import onecd, tabs, cf
from vp.base import script, ok, items, put
from checks.t06 import Doc, check_declarations, sequence, full_fields

SIG_ZIP = bytes.fromhex("534b6ff4888dc14ea0d5ebb6bda0a70d")
SYSTEM = ["T2", "_UsersStorage", "V8USERS", "_REPSETTINGS", "CONFIG", "CONFIGSAVE", "PARAMS", "FILES"]
PLAIN = ["_T1", "_Reference12", "_Док"]
BASE = ["CONFIG", "CONFIGSAVE", "PARAMS", "FILES", "DBSCHEMA"]
KINDS = {"sys": ["plain", "z1", "z1", "z2", "cont", "z1cont", "z2cont", "z1empty"],
         "usr": ["mask"],
         "ext": ["plain", "st1", "st1t", "st2", "st2t", "st2bad", "st1short", "st1empty", "st2empty", "sttail", "stzero"]}


def content(r, n):
    k = r.randrange(3)
    b = r.randbytes(n) if k == 0 else (b"%d" % r.randrange(1 << 30) * (n // 4 + 1))[:n] if k == 1 else ("Текст <%d> " % n * (n // 8 + 1)).encode()[:n]
    return bytes([b[0] | 6]) + b[1:] if b else b        # never a packed stream by itself


def container(r, zipped, depth=0):
    out, tree = [], {}
    for i in range(r.randrange(1, 4)):
        name = r.choice(["root", "text", "form.bin", "Модуль", "info"]) + (str(i) if i else "")
        if depth == 0 and r.randrange(4) == 0:
            d, t = container(r, False, 1)
            out.append((name, 621355968000000, 621355968000000, d))
            tree[name] = t
        else:
            d = content(r, r.choice([0, 5, 300, 700]))
            out.append((name, 621355968000000, 621355968000000, d))
            tree[name] = d
    return cf.build(out, zipped, r.randrange(100), 0, 0), tree


def stored(kind, seed, twice):
    """(stored bytes, unpacked form: bytes or dict of a directory)"""
    r = random.Random(seed)
    n = r.choice([1, 2, 12, 40, 249, 250, 251, 600, 3000])
    d = content(r, n)
    if kind == "huge":
        d = r.randbytes(1 << 20) * 11
        d = bytes([d[0] | 6]) + d[1:]
        return cf.deflate(d, 1), d
    if kind == "plain":
        return d, d
    if kind == "z1":
        return cf.deflate(d), d
    if kind == "z1empty":
        return cf.deflate(b""), b""
    if kind == "z2":
        z = cf.deflate(d)
        return cf.deflate(z), d if twice else z
    if kind in ("cont", "z1cont"):
        c, t = container(r, False)
        return (c if kind == "cont" else cf.deflate(c)), t
    if kind == "z2cont":
        if twice:
            c, t = container(r, True)
            return cf.deflate(cf.deflate(c)), t
        c, t = container(r, False)
        return cf.deflate(c), t
    if kind == "mask":
        m = r.randbytes(r.choice([1, 32, 100, 127, 128, 200, 255]))
        return bytes([len(m)]) + m + bytes(x ^ m[i % len(m)] for i, x in enumerate(d)), d
    q = lambda b: struct.pack("<q", len(b)) + b
    tail = content(r, r.choice([0, 1, 30, 260]) if kind == "stzero" else r.choice([1, 30, 260]))
    if kind == "stzero":
        tail = b""
    if kind == "st1empty":
        return b"\1\1" + q(b""), b""
    if kind == "st2empty":
        return b"\2\1" + SIG_ZIP + cf.deflate(q(b"")), b""
    if kind == "st1":
        return b"\1\1" + q(d), d
    if kind in ("st1t", "sttail", "stzero"):
        return b"\1\1" + q(d) + b"\1\0\0\0" + q(tail), tail
    if kind == "st2":
        return b"\2\1" + SIG_ZIP + cf.deflate(q(d)), d
    if kind == "st2t":
        return b"\2\1" + SIG_ZIP + cf.deflate(q(d) + b"\1\0\0\0" + q(tail)), tail
    if kind == "st2bad":
        b = b"\2\1" + r.choice([SIG_ZIP[:7], SIG_ZIP[:15] + b"?" + d, SIG_ZIP + b"\x06" + d, b""])
        return b, b
    if kind == "st1short":
        b = b"\1\1" + r.randbytes(r.randrange(0, 8))
        return b, b
    raise AssertionError(kind)


def field_kinds(name):
    u = name.upper()
    if u == "V8USERS":
        return "usr"
    return "sys" if name[0] != "_" or u.endswith("STORAGE") or u == "_REPSETTINGS" else "ext"


def read_tree(path):
    if os.path.isdir(path):
        return {n: read_tree(os.path.join(path, n)) for n in os.listdir(path)}
    with open(path, "rb") as f:
        return f.read()


KEYTYPES = ["N", "NVC", "NVC", "NC", "B", "DT", "L"]
KEYTEXT = ["", "a", "A", "b", "ab", "a b", "я", "Я", "n/a", "x.y", "/", "a/b/c", "users.usr", "root", "version", "g" * 36, "%s.%s" % ("0" * 36, "1" * 36), "k" * 73, "..x", "a:b?", "a\\b",
           "g" * 37, "g" * 72, "USERS.usr", "Users.Usr", "h" * 50]


@st.composite
def cases(draw, tier):
    name = draw(st.sampled_from(SYSTEM + PLAIN + PLAIN))
    config = name in BASE
    if config:
        key = [["FILENAME", "NVC", 0, 128, 0, "CS"]]
    else:
        key = draw(tabs.fields_strategy(1, 2, KEYTYPES, True))
    ni = draw(st.sampled_from([1, 1, 2]))
    images = [["BINARYDATA", "I", 0, 0, 0, "CS"], ["DATA2", "I", 1, 0, 0, "CS"]][:ni] if config or draw(st.booleans()) else [["_Img", "I", 1, 0, 0, "CS"], ["Рис", "I", 0, 0, 0, "CS"]][:ni]
    other = draw(st.sampled_from([[], [], [["Txt", "T", 0, 0, 0, "CS"]]]))
    kinds = KINDS[field_kinds(name)]
    if tier == "thorough" and draw(st.integers(0, 149)) == 0:
        kinds = ["huge"]
    v = st.one_of(st.tuples(st.sampled_from(kinds), st.integers(0, 999)).map(list), st.sampled_from(["null", "empty"]))
    row = st.tuples(st.integers(0, 4).map(lambda x: int(x == 4)), st.integers(0, len(KEYTEXT) - 1), st.integers(0, 30), v, v).map(list)
    if draw(st.integers(0, 11)) == 0:
        # many records of one name
        kt = draw(st.integers(0, len(KEYTEXT) - 1))
        rows = [[0, kt, k % 31] + list(t) for k, t in enumerate(draw(st.lists(st.tuples(v, v), min_size=12, max_size=30)))]
    else:
        rows = draw(st.lists(row, min_size=1, max_size=6))
    idx = draw(st.sampled_from(["none", "primary", "primary", "plain", "both"]))
    ver = draw(st.sampled_from(onecd.VERSIONS))
    return [ver, draw(st.integers(0, 99)), name, key, images, other, rows, idx, draw(st.booleans())]


class C(Check):
    id = "T07"
    rule = ("tables with one or two fields of long values, ordinary and service ones, keyed by different types with or without indexes, records with equal and special key texts, values stored plain, packed once, packed "
            "twice, as containers, as value storages (plain, packed, with a second part, damaged), as masked user lists, null and empty; exported with and without unpacking. Non-trivial: a value in a separate file.")
    quick, thorough = 600, 12000

    def strategy(self, tier):
        return cases(tier)

    def run(self, case, ctx):
        ver, seed, name, key, images, other, rows, idx, unpack = case
        fields = key + other + images
        im = onecd.Img(ver, 4096, seed, 2, False)
        given, files = [], []
        used = set()
        for rem, kt, ks, *imgs in rows:
            vals = []
            for i, f in enumerate(key):
                if f[1] in ("NVC", "NC"):
                    s = tabs.fit(KEYTEXT[kt], f[3])
                    if s in (".", ".."):
                        s = "a"[:f[3]]
                    if f[1] == "NC":
                        s += " " * (f[3] - len(s))
                    v = s
                    if name == "V8USERS":
                        v = "x".ljust(f[3], " ") if f[1] == "NC" else "x"
                else:
                    v = tabs.value(f, ks)
                vals.append(v)
            vals += [b"text" for f in other]
            # a file name longer than 72 characters
            long = len(tabs.presentation(fields[0], vals[0])) > 72 if vals[0] is not None else False
            twice = name.upper() not in ("CONFIG", "CONFIGSAVE") or long
            rowfiles = []
            for f, v in zip(images, imgs):
                if v == "null" and f[2]:
                    vals.append(None)
                    rowfiles.append(None)
                elif v in ("null", "empty"):
                    vals.append(b"")
                    rowfiles.append(None)
                else:
                    kind, sd = v
                    if name == "PARAMS" and vals[0].lower() == "users.usr":
                        kind = "mask"
                    b, u = stored(kind, sd, twice)
                    vals.append(b)
                    rowfiles.append(u if unpack else b)
            given.append((rem, vals))
            files.append(rowfiles)
        kl = [[i, onecd.size_of(f)] for i, f in enumerate(key)]
        x = {"none": [], "primary": [["PK", 1, kl, seed, 3, 0]], "plain": [["I", 0, kl, seed, 3, 0]], "both": [["I", 0, kl[:1], seed, 3, 0], ["PK", 1, kl, seed + 1, 2, 0]]}[idx]
        T = tabs.Tab(dict(n=name, l=0, f=fields, x=x), ver, 4096, seed, given)
        T.add(im)
        if name in BASE:
            for n in BASE:
                if n != name:
                    cfgf = [["FILENAME", "NVC", 0, 128, 0, "CS"], ["CREATION", "DT", 0, 0, 0, "CS"], ["MODIFIED", "DT", 0, 0, 0, "CS"], ["ATTRIBUTES", "N", 0, 5, 0, "CS"], ["DATASIZE", "N", 0, 10, 0, "CS"], ["BINARYDATA", "I", 0, 0, 0, "CS"]]
                    tabs.Tab(dict(n=n, l=0, f=cfgf if n != "DBSCHEMA" else [["SERIALIZEDDATA", "I", 0, 0, 0, "CS"]]), ver, 4096, seed, []).add(im)
        p = put(ctx, "x.1CD", im.build())
        xml = ctx.path("out.xml")
        res = script(ctx, [("open", p, 0), ("xml", 0, xml, 1, int(unpack))])
        ok(res[0], "opening")
        same(ok(res[1], "export to XML"), b"1", "result of the export")
        doc = Doc(ctx.read("out.xml"))
        check_declarations(doc.root, T, "table %s" % name)
        recs, seq = doc.root[2][1][2], sequence(T)
        same(len(recs), len(seq), "number of records")
        fs = full_fields(T)
        announced, labels = {}, set()
        for e, n in zip(recs, seq):
            w = "record %d (%s)" % (n, rows[n])
            same([c[0] for c in e[2]], [f[0] for f in fs], w + ": fields")
            k = 0
            for f, v, c in zip(fs, T.values[n], e[2]):
                if f[1] != "I":
                    if v is not None:
                        same(c[3], tabs.xml_value(f, v), "%s: field %s" % (w, f[0]))
                    continue
                want = files[n][k]
                k += 1
                if want is None:
                    expect(c[4], "%s: no value in field %s, but %r is announced", w, f[0], c[3])
                    continue
                expect(not c[4] and c[3] != "", "%s: no file is announced for field %s", w, f[0])
                expect(c[3] not in announced, "%s: file %r is announced for another value too", w, c[3])
                announced[c[3]] = want
                got = os.path.join(xml + ".blob", c[3])
                expect(os.path.exists(got), "%s: announced file %r of field %s does not exist", w, c[3], f[0])
                got = read_tree(got)
                if isinstance(want, dict) or isinstance(got, dict):
                    expect(got == want, "%s: field %s unpacked to %s instead of %s", w, f[0], short(got), short(want))
                    labels.add("directory")
                else:
                    same(got, want, "%s: content of the file %r of field %s" % (w, c[3], f[0]))
                labels.add("file")
        if announced:
            same(sorted(os.listdir(xml + ".blob")), sorted(announced), "files in the directory")
        same(sorted(os.listdir(ctx.dir)), sorted(["x.1CD", "out.xml"] + (["out.xml.blob"] if os.path.exists(xml + ".blob") else [])), "files beside the export")
        return sorted(labels) + [field_kinds(name) + ("-unpack" if unpack else "")]

    def nontrivial(self, case, labels):
        return "file" in labels


CHECK = C()
