"""T06: XML export parsed by an independent parser."""
import struct
from xml.parsers import expat
from hypothesis import strategies as st
from vp.engine import Check, expect, same, short
from vp import onecd, tabs
from vp.base import script, ok, items, put


class Doc:
    """tree of (name, attributes, children, text, written as an empty element)"""

    def __init__(self, data):
        self.data = data
        p = expat.ParserCreate()
        p.StartElementHandler, p.EndElementHandler, p.CharacterDataHandler = self.start, self.end, self.text
        self.p = p
        self.root = None
        self.stack = []
        try:
            p.Parse(data, True)
        except expat.ExpatError as e:
            expect(False, "exported XML is not well-formed: %s near %r", e, data[max(0, p.ErrorByteIndex - 60):p.ErrorByteIndex + 60])

    def start(self, name, attrs):
        i = self.p.CurrentByteIndex
        empty = self.data[self.data.index(b">", i) - 1:][:1] == b"/" if not attrs else False
        e = [name, attrs, [], [], empty]
        if self.stack:
            self.stack[-1][2].append(e)
        else:
            self.root = e
        self.stack.append(e)

    def end(self, name):
        e = self.stack.pop()
        e[3] = "".join(e[3])

    def text(self, s):
        self.stack[-1][3].append(s)


def full_fields(t):
    fs = list(t.fields)
    if onecd.hidden(t.fields, t.lock):
        fs.append(["VERSION", "V8", 0, 0, 0, "CS"])
    return fs


def sequence(t):
    """records in the order of export"""
    for x, o in zip(t.indexes, t.orders):
        if x[1]:
            return o
    return t.live


def check_declarations(root, t, what):
    same(root[0], "Table", what + ": root element")
    same(root[1], {"Name": t.name}, what + ": attributes of the root")
    same([c[0] for c in root[2]], ["Fields", "Records"], what + ": sections")
    fs = full_fields(t)
    decl = root[2][0][2]
    same(len(decl), len(fs), what + ": number of field declarations")
    for f, d in zip(fs, decl):
        same(d[0], "Field", what + ": declaration element")
        same((d[1].get("Name"), d[1].get("Type"), d[1].get("NotNull")), (f[0], tabs.PRES[f[1]], "false" if f[2] else "true"), "%s: declaration of field %s" % (what, f[0]))
        if f[1] != "V8":
            same((d[1].get("Length"), d[1].get("Precision")), (str(f[3]), str(f[4])), "%s: length and precision of field %s" % (what, f[0]))


class C(Check):
    id = "T06"
    rule = ("tables of 1..7 fields over all types with live and removed records, special characters, long values inline, with and without a primary or another index, tables of every version; the file is parsed by "
            "expat and compared with the declarations and values of the model. Non-trivial: at least one live record.")
    quick, thorough = 700, 20000

    def strategy(self, tier):
        return tabs.databases(tabs.table_strategy(1, 7, None, 4, 5, 60, p_many=6), 2)

    def run(self, case, ctx):
        case[3] = [dict(t, x=[i[:5] + [0] for i in t["x"]]) for t in case[3]]
        im, T = tabs.build(case)
        p = put(ctx, "x.1CD", im.build())
        ops = [("open", p, 0)] + [("xml", i, ctx.path("t%d.xml" % i), 0, 0) for i in range(len(T))]
        res = script(ctx, ops)
        ok(res[0], "opening")
        labels = set()
        for i, (t, r) in enumerate(zip(T, res[1:])):
            same(ok(r, "export to XML"), b"1", "result of the export")
            doc = Doc(ctx.read("t%d.xml" % i))
            what = "table %s" % t.name
            check_declarations(doc.root, t, what)
            recs = doc.root[2][1][2]
            seq = sequence(t)
            same(len(recs), len(seq), what + ": number of records")
            fs = full_fields(t)
            for e, n in zip(recs, seq):
                w = "%s, record %d" % (what, n)
                same(e[0], "Record", w + ": element")
                same([c[0] for c in e[2]], [f[0] for f in fs], w + ": fields")
                vals = t.values[n] + ["%d:-3" % (n + 1)]
                for f, v, c in zip(fs, vals, e[2]):
                    same(c[2], [], w + ": elements inside a value")
                    if v is None:
                        expect(c[4] and c[3] == "", "%s: field %s is null but written as %r", w, f[0], c[3])
                        labels.add("null")
                        continue
                    expect(not c[4], "%s: field %s is not null but written as null", w, f[0])
                    got = "".join(c[3].split()) if f[1] == "I" else c[3]
                    same(got, v if f[1] == "V8" else tabs.xml_value(f, v), "%s: field %s %s" % (w, f[0], f[1]))
            if seq:
                labels.add("records")
            labels.add("primary" if seq is not t.live else "physical")
        return sorted(labels)

    def nontrivial(self, case, labels):
        return "records" in labels


CHECK = C()
