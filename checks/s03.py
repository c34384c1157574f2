"""S03: after any history every page of the database has exactly one owner and freed pages are reused first."""
from vp.engine import Check, expect, same
from vp import onecd
from vp.hist import histories, Run, pages


class C(Check):
    id = "S03"
    rule = ("the histories of S02, the saved file inspected by an independent page walker after every changing operation: each page is the header, part of one object, "
            "or in the free list, exactly once; the file grows only by pages the free list could not supply. Non-trivial: some operation released pages and a later one took some.")
    quick, thorough = 1200, 10000

    def strategy(self, tier):
        return histories(10 if tier == "quick" else 14)

    def run(self, case, ctx):
        r = Run(case, ctx, True)
        r.execute()
        prev = None
        self.up = self.down = 0
        lab = set()
        for step, blocks, lens, k, _ in r.steps:
            what = "after %s (step %d)" % (step, k)
            try:
                rd = onecd.Reader(ctx.read("s%d" % k))
                rd.tables()
                for i, n in enumerate(lens):
                    o = rd.obj(r.blocks[i], "object %d" % i)
                    same(o.len, n, "length of object %d %s" % (i, what))
            except onecd.Bad as e:
                expect(False, "saved database is inconsistent %s: %s", what, e)
            lost = rd.lost()
            expect(not lost, "%d pages belong to nothing %s: %s", len(lost), what, lost[:10])
            used = sum(pages(r.ver, r.ps, n) for n in lens)
            if prev:
                need = used - prev[0]
                have = prev[1].free_len
                if need >= 0:
                    same(rd.length, prev[1].length + max(0, need - have), "pages in the file %s, which took %d pages of which %d were free" % (what, need, have))
                    if need and self.down:
                        self.up += 1
                else:
                    same(rd.length, prev[1].length, "pages in the file %s, which released pages" % what)
                    self.down += 1
            prev = (used, rd)
        if self.up:
            lab.add("reuse")
        rd = onecd.Reader(ctx.read("x.1CD"))
        return [r.ver] + sorted(lab)

    def nontrivial(self, case, labels):
        return "reuse" in labels


CHECK = C()
