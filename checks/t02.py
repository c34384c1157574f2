"""T02: field values are decoded from records exactly as stored."""
import struct
import xml.etree.ElementTree as ET
from hypothesis import strategies as st
from vp.engine import Check, expect, same
from vp import onecd, tabs
from vp.base import script, ok, items, put


def parse_xml(b, what):
    try:
        return ET.fromstring("<a>%s</a>" % b.decode("utf-8")).text or ""
    except Exception as e:
        expect(False, "%s: XML value %r is not well-formed: %s", what, b[:200], e)


def check_record(t, n, got, raw, what, withx=True):
    """got: items put out for one record with letters s x r d p"""
    fs = list(t.fields)
    vals = list(t.values[n])
    off = onecd.offsets(t.fields, t.lock)
    h = onecd.hidden(t.fields, t.lock)
    if h:
        fs.append(["VERSION", "V8", 0, 0, 0, "CS"])
        vals.append(struct.unpack("<ii", raw[1:9]))
    same(got[0], b"0", "%s: removed" % what)
    same(len(got), 1 + 6 * len(fs), "%s: number of items" % what)
    for i, f in enumerate(fs):
        null, s, x, r, d, p = got[1 + 6 * i:7 + 6 * i]
        v = vals[i]
        at, size = (1, 8) if f[1] == "V8" else (off[i], onecd.size_of(f))
        w = "%s, field %s %s(%d,%d)%s" % (what, f[0], f[1], f[3], f[4], " null" if f[2] else "")
        same(null, b"1" if v is None else b"0", w + ": null flag")
        same(r, raw[at:at + size], w + ": raw bytes")
        same(d, raw[at + (1 if f[2] else 0):at + size], w + ": data bytes")
        if v is None:
            expect(s[:1] == b"!", "%s: text of null is %r instead of an error", w, s)
            expect(x[:1] == b"!", "%s: XML value of null is %r instead of an error", w, x)
            same(p, b"", w + ": empty presentation of null")
            continue
        want = "%d:%d" % v if f[1] == "V8" else tabs.presentation(f, v)
        same(s.decode("utf-8"), want, w + ": text")
        same(p.decode("utf-8"), want, w + ": presentation")
        xml = parse_xml(x, w)
        if f[1] == "I":
            xml = "".join(xml.split())
        same(xml, want if f[1] == "V8" else tabs.xml_value(f, v), w + ": XML value")


class C(Check):
    id = "T02"
    rule = ("tables of 1..8 fields over all types, lengths, precisions and nullability with 1..6 records of generated values (null, empty, extreme, random, special characters, long values over several "
            "blocks), read through TableRecord in every form and by the iterator. Non-trivial: a live record with a value that is not null.")
    quick, thorough = 900, 25000

    def strategy(self, tier):
        return tabs.databases(tabs.table_strategy(1, 8, None, 0, 6, 30, p_many=9), 2)

    def run(self, case, ctx):
        im, T = tabs.build(case)
        p = put(ctx, "x.1CD", im.build())
        ops, where = [("open", p, 0)], []
        for i, t in enumerate(T):
            for n in range(len(t.values)):
                ops.append(("rec", i, n, "sxrdp"))
                where.append((t, n))
            ops.append(("iter", i, "s"))
            where.append((t, None))
        res = script(ctx, ops)
        ok(res[0], "opening")
        for (t, n), r in zip(where, res[1:]):
            got = items(ok(r, "reading"))
            if n is None:
                same(len(got), len(t.live), "number of records met by the iterator")
                for k, g in zip(t.live, got):
                    g = items(g)
                    want = [b"0"]
                    for f, v in zip(t.fields, t.values[k]):
                        want += [b"1" if v is None else b"0", None if v is None else tabs.presentation(f, v).encode()]
                    if onecd.hidden(t.fields, t.lock):
                        want += [b"0", b"%d:-3" % (k + 1)]
                    same([None if w is None and x[:1] == b"!" else x for w, x in zip(want, g)], want, "record %d met by the iterator" % k)
                continue
            if t.removed[n]:
                same(got[0], b"1", "removed flag of record %d" % n)
            else:
                check_record(t, n, got, t.records[n], "%s record %d" % (t.name, n))
        return sorted({f[1] for t in T for f in t.fields if t.live})

    def nontrivial(self, case, labels):
        return bool(labels)


CHECK = C()
