"""L04: the report of table sizes."""
import os
from hypothesis import strategies as st
from vp.engine import Check, expect, same
from vp import tabs, onecd
from checks.s06 import Sparse, G

@st.composite
def cases(draw, tier):
    many = 300 if tier == "quick" else 3000
    if draw(st.integers(0, 4)) == 0:     # a table more than two gigabytes long
        new = draw(st.booleans())
        ps = draw(st.sampled_from([8192, 16384, 65536])) if new else 4096
        size = draw(st.sampled_from([2 * G, 4 * G, 3 * G, 7 * G] if new else [2 * G, 3 * G, 4 * G])) + draw(st.integers(-70000, 60000))
        if not new:
            size = min(size, 1018 * 1023 * 4096)
        return ["huge", ps, draw(st.integers(0, 9999)), size, draw(st.integers(0, 2)), None if new else draw(st.sampled_from(onecd.VERSIONS[:5]))]
    return [draw(tabs.databases(tabs.table_strategy(1, 5, None, 2, 4, many, p_many=2), 6)), draw(st.integers(0, 9))]


class C(Check):
    id = "L04"
    rule = ("databases of every supported version with up to 6 tables, with and without long values and indexes, from empty to many pages, deleted rows included, and tables an object of which is 2..7 GB long; the report is parsed and compared with the file as built. "
            "Non-trivial: tables whose sizes differ.")
    quick, thorough = 120, 3000

    def strategy(self, tier):
        return cases(tier)

    def huge(self, case, ctx):
        """one of the objects of the table is a sparse file of gigabytes"""
        _, ps, seed, size, which, old = case
        im = onecd.Img(old or "8.3.8.0", ps, seed, seed % 4)
        fields = [["KEY", "N", 0, 10, 0, "CS"], ["PAD", "B", 0, 90, 0, "CS"], ["TXT", "NT", 0, 0, 0, "CS"]]
        rl = onecd.record_len(fields)
        size -= size % (rl if which == 0 else 256 if which == 1 else ps)
        parts = [b"\0" * rl * 3, b"\0" * 512, b"\0" * ps]
        t = im.table(onecd.description("T", fields, [("PK", 1, [["KEY", 6]])]), *parts)
        raw = im.build()
        sp = Sparse(raw, im.objs[im.tabs[t][1][which]][3], size, seed)
        sp.write(ctx.path("b.1CD"), [])
        rc, _ = ctx.ctool("-ne", "b.1CD", "-sts", "sizes")
        expect(rc == 0, "exit status %d: %s" % (rc, ctx.err[-300:]))
        want = [len(p) for p in parts]
        want[which] = size
        same(ctx.read("sizes").decode("utf-8-sig").split("\r\n")[1:], ["T|" + "|".join(str(x) for x in [want[0] // rl] + want), ""], "report of a table with an object of %d bytes" % size)
        return ["sizes", "huge"]

    def run(self, case, ctx):
        if case[0] == "huge":
            return self.huge(case, ctx)
        db, mode = case
        im, ts = tabs.build(db)
        ctx.write("b.1CD", im.build())
        os.chmod(ctx.path("b.1CD"), 0o666)
        if mode == 0:
            rc, _ = ctx.ctool("b.1CD", "-sts", "no/such/file")
            expect(rc != 0, "exit status zero of a report into a missing directory")
            return []
        if mode == 1:
            ctx.write("sizes", b"x" * 100000)
            os.chmod(ctx.path("sizes"), 0o666)
        rc, _ = ctx.ctool(*(["-ne"] if mode % 2 else []), "b.1CD", "-sts", "sizes")
        expect(rc == 0, "exit status %d: %s" % (rc, ctx.err[-300:]))
        text = ctx.read("sizes").decode("utf-8-sig")
        lines = text.split("\r\n")
        same(lines[0], "table_name|records_count|data_size|blob_size|index_size", "first line")
        same(lines[-1], "", "end of the report")
        got = [l.rsplit("|", 4) for l in lines[1:-1]]
        want = [[t.name, str(len(t.values)), str(len(t.data)), str(len(t.blob or b"")), str(len(t.index or b""))] for t in ts]
        same(sorted(got), sorted(want), "report")
        return ["sizes"] if len({tuple(w[1:]) for w in want}) > 1 else []

    def nontrivial(self, case, labels):
        return bool(labels)


CHECK = C()
