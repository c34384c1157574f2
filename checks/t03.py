"""T03: iteration in physical order and by index."""
import struct
from hypothesis import strategies as st
from vp.engine import Check, expect, same, short
from vp import onecd, tabs
from vp.base import script, ok, items, put


@st.composite
def cases(draw):
    ver = draw(st.sampled_from(onecd.VERSIONS + ["8.3.8.0", "8.3.8.0"]))
    ps = draw(st.sampled_from([4096, 4096, 8192, 65536])) if ver == "8.3.8.0" else 4096
    fill = draw(st.one_of(st.just(0), st.integers(0, 60), st.sampled_from([4091, 4000, 9000, 1018])))
    big = draw(st.integers(0, 3)) == 0 and fill < 100
    n = st.one_of(st.integers(0, 6), st.sampled_from([1, 2, 30]), st.integers(0, 1500 if big else 60))
    runs = draw(st.lists(st.tuples(n, st.sampled_from([0, 0, 1, 2, 3])).map(list), max_size=5))
    index = st.tuples(st.integers(0, 1), st.sampled_from([1, 2, 4, 9, 16, 60, 300]), st.integers(0, 9999), st.sampled_from([1, 2, 3, 7, 50, 5000, 5000]), st.sampled_from([0, 0, 0, 1])).map(list)
    if draw(st.integers(0, 59)) == 59:      # record numbers of more than 16 bits
        fill = 0
        runs = [[draw(st.sampled_from([65300, 65530, 66000, 131000])), 1], [draw(st.integers(2, 300)), draw(st.sampled_from([0, 2, 3]))]] + runs[:1]
        if draw(st.booleans()):
            runs.insert(0, [draw(st.integers(1, 30)), 0])
    return [ver, ps, draw(st.integers(0, 999)), fill, draw(st.integers(0, 1)), runs, draw(st.lists(index, max_size=3))]


class C(Check):
    id = "T03"
    rule = ("tables of 0..6000 (a few of more than 65536) records of 5..9000 bytes in runs of live, removed and mixed records with 0..3 indexes (index trees of one to three levels, scattered pages, any bit widths, all or part of the live "
            "records), every version; iteration by TableIterator, by index and by the list of live records. Non-trivial: live and removed records, or an index over two or more records.")
    quick, thorough = 600, 15000

    def strategy(self, tier):
        return cases()

    def run(self, case, ctx):
        ver, ps, seed, fill, lock, runs, idx = case
        fields = [["_ID", "B", 0, 4, 0, "CS"]] + ([["_F", "B", 0, fill, 0, "CS"]] if fill else [])
        rows = []
        for n, kind in runs:
            for k in range(n):
                rem = 0 if kind == 0 else 1 if kind == 1 else int((k * 7919 + seed) % kind == 0)
                rows.append((rem, [struct.pack(">I", len(rows) + 1).hex()] + (["5a" * fill] if fill else [])))
        d = dict(n="_T", l=lock, f=fields, r=[], x=[["I%d" % i, p if not any(y[0] for y in idx[:i]) else 0, [[0, ln]], s, cap, part] for i, (p, ln, s, cap, part) in enumerate(idx)])
        T = tabs.Tab(d, ver, ps, seed, rows)
        im = onecd.Img(ver, ps, seed, 2, False)
        other = tabs.Tab(dict(n="_B", f=[["A", "B", 0, 4, 0, "CS"]]), ver, ps, seed, [(0, ["61626364"])] * 3)
        other.add(im)
        T.add(im)
        p = put(ctx, "x.1CD", im.build())
        ops = [("open", p, 0), ("iter", 1, "r"), ("fillrec", 1)]
        for i in range(len(idx)):
            ops += [("idx", 1, i), ("iterx", 1, "I%d" % i, "r")]
        ops += [("iter", 1, "r"), ("iter", 0, "r")]
        res = script(ctx, ops, 60)
        ok(res[0], "opening")
        h = onecd.hidden(fields, lock)

        def visited(r, want, what):
            b = ok(r, what)
            expect(b != b"endless", "%s does not end", what)
            got = []
            for x in items(b):
                g = items(x)
                same(g[0], b"0", what + ": removed flag of a visited record")
                raw = g[2]
                got.append(int.from_bytes(raw, "big") - 1)
                if fill:
                    same(g[4], b"\x5a" * fill, what + ": second field of record %d" % got[-1])
                if h:
                    same(g[-1], struct.pack("<ii", got[-1] + 1, -3), what + ": version of record %d" % got[-1])
            compare(got, want, what)

        def compare(got, want, what):
            if got != want:
                i = next((i for i, (a, b) in enumerate(zip(got, want)) if a != b), min(len(got), len(want)))
                expect(False, "%s: %d records instead of %d, the first difference is number %d: %s instead of %s (of %d records, %d live)", what, len(got), len(want), i,
                       got[i:i + 3], want[i:i + 3], len(rows), len(T.live))
        visited(res[1], T.live, "physical iteration")
        got = [int(x) for x in items(ok(res[2], "list of records"))]
        same(got[0], len(T.live), "number of live records")
        compare(got[1:], T.live, "list of live records")
        k = 3
        for i in range(len(idx)):
            w = T.orders[i]
            compare([int(x) for x in items(ok(res[k], "index"))], w, "index %d" % i)
            visited(res[k + 1], w, "iteration by index %d" % i)
            k += 2
        visited(res[k], T.live, "second physical iteration")
        same(len(items(ok(res[k + 1], "other table"))), 3, "records of another table")
        n = len(rows)
        return ["n<10" if n < 10 else "n<100" if n < 100 else "n<1000" if n < 1000 else "n<10000" if n < 10000 else "n>65535" if n > 65535 else "n<65536"] + (["mixed"] if len(T.live) not in (0, n) else []) + (["index"] if any(len(o) > 1 for o in T.orders) else [])

    def nontrivial(self, case, labels):
        return "mixed" in labels or "index" in labels


CHECK = C()
