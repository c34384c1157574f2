"""S02: objects written and resized behave like byte arrays and persist."""
from vp.engine import Check, expect, same
from vp import onecd
from vp.hist import histories, Run, FIELDS
from vp.base import script, ok, put


class C(Check):
    id = "S02"
    rule = ("histories of whole writes, range writes, stream writes, resizes, reads, new objects, saves and reopenings over 1..6 objects of a writable database, with "
            "lengths at page and page-map boundaries; contents compared with a byte-array model (bytes never written are left unspecified) at once and, through an "
            "independent reader, in the saved file; changed objects have a higher version there, objects never written the same. Non-trivial: at least two operations that change an object.")
    quick, thorough = 1500, 12000

    def strategy(self, tier):
        return histories(10 if tier == "quick" else 16)

    def run(self, case, ctx):
        r = Run(case, ctx, False)
        r.execute()
        rd = onecd.Reader(ctx.read("x.1CD"))
        same(rd.ver, r.ver, "version of the saved database")
        before = onecd.Reader(r.raw)
        rows, then = rd.tables()[0][3], before.tables()[0][3]
        same(rows.data, r.rows, "data of a table that was not written")
        same(rows.version, then.version, "version of an object that was not written")
        touched = {o[1] % n for o in case[7] for n in range(1, 7) if o[0] in ("setlen", "set", "setr")}
        for i, (b, m) in enumerate(zip(r.blocks, r.models)):
            o = rd.obj(b, "object %d" % i)
            m.check(o.data, "object %d in the saved file" % i)
            if i < len(case[6]):
                was = before.obj(b, "object %d" % i)
                if was.data != o.data:
                    expect(o.version[:2] > was.version[:2], "object %d was changed, its version went from %s to %s", i, was.version, o.version)
                elif i not in touched:
                    same(o.version, was.version, "version of object %d, which was not written" % i)
        return [r.ver, "edge" if any(len(m.d) > 3000000 for m in r.models) else "small"] + sorted({o[0] for o in case[7]})

    def nontrivial(self, case, labels):
        return sum(o[0] in ("set", "setr", "setlen") for o in case[7]) >= 2


CHECK = C()
