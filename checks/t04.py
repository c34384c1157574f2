"""T04: text of a field value -> stored form -> text."""
from hypothesis import strategies as st
from vp.engine import Check, expect, same, short
from vp import onecd, tabs
from vp.base import script, ok, items, put

TYPES = ["B", "B", "L", "N", "N", "N", "NC", "NVC", "DT"]


@st.composite
def cases(draw):
    fs = draw(tabs.fields_strategy(1, 8, TYPES))
    vals = draw(st.lists(st.tuples(st.integers(0, 9), st.integers(0, 9999), st.integers(0, 3)).map(list), min_size=1, max_size=12))
    return [draw(st.sampled_from(onecd.VERSIONS)), fs, vals]


class C(Check):
    id = "T04"
    rule = ("generated fields of every type that can be stored from text (lengths 1..60, numbers up to 38 digits of any precision, GUIDs, strings outside Latin and outside the basic plane) and values "
            "of them, null, strings longer than the field and unfinished dates included; the stored form must equal that of an independent encoder and reading it from a record must give the text back. Non-trivial: a value that is not null.")
    quick, thorough = 1200, 40000

    def strategy(self, tier):
        return cases()

    def run(self, case, ctx):
        ver, fs, vals = case
        im = onecd.Img(ver, 4096, 1, 1, False)
        im.table(onecd.description("_T", fs), bytes(onecd.record_len(fs)), None, None)
        p = put(ctx, "x.1CD", im.build())
        ops, want, labels = [("open", p, 1)], [], set()
        row = [None] * len(fs)
        for k, seed, form in vals:
            k %= len(fs)
            f = fs[k]
            v = tabs.value(f, seed)
            text = "" if v is None else tabs.presentation(f, v)
            if v is not None and form == 3 and f[1] == "DT":        # an unfinished date: the empty one
                text, v = text[:seed % 19], "00010101000000"
            if v is not None and form == 3 and f[1] in ("NC", "NVC"):       # longer than the field: what fits
                v += "z" * (f[3] - len(v.encode("utf-16le")) // 2)
                text = v + ["y", "хвост", "𝄞", "z" * 300][seed % 4]
            raw = onecd.encode(f, v)
            row[k] = (raw, v)
            if v is not None:
                labels.add(f[1])
                if form == 1 and f[1] == "NC":
                    text = text.rstrip(" ")
                if form == 2 and f[1] == "B":
                    text = text.upper()
                if form == 3 and f[1] == "N" and "." in text and len(text.split(".")[1]) < f[4]:
                    text += "0"
            ops.append(("binval", 0, k, int(v is None), text.encode("utf-8")))
            want.append((f, v, text, raw))
        # a record put together from the stored forms, read back
        rec = bytearray(onecd.record_len(fs))
        off = onecd.offsets(fs)
        res = script(ctx, ops)
        ok(res[0], "opening")
        last = {}
        for (k, seed, form), (f, v, text, raw), r in zip(vals, want, res[1:]):
            w = "%s %r of field %s %s(%d,%d)%s" % ("value", text, f[0], f[1], f[3], f[4], " null" if f[2] else "")
            b = ok(r, w)
            expect(b != b"overrun", "%s: written past the field", w)
            same(b[:1], b"1", w + ": accepted")
            same(b[1:].hex(), raw.hex(), w + ": stored form")
            last[k % len(fs)] = (b[1:], v, f)
        for k, (b, v, f) in last.items():
            rec[off[k]:off[k] + len(b)] = b
        im = onecd.Img(ver, 4096, 1, 1, False)
        im.table(onecd.description("_T", fs), bytes(rec), None, None)
        p = put(ctx, "y.1CD", im.build())
        res = script(ctx, [("open", p, 0), ("rec", 0, 0, "p")])
        got = items(ok(res[1], "reading"))
        for k, (b, v, f) in last.items():
            same(got[2 + 2 * k].decode("utf-8"), "" if v is None else tabs.presentation(f, v), "field %s %s(%d,%d) after the round trip" % (f[0], f[1], f[3], f[4]))
        return sorted(labels)

    def nontrivial(self, case, labels):
        return bool(labels)


CHECK = C()
