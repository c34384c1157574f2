"""L05: the search for lost objects."""
import os, random, re
from hypothesis import strategies as st
from vp.engine import Check, expect, same
from vp import onecd, tabs, conf


@st.composite
def cases(draw, tier):
    db = draw(tabs.databases(tabs.table_strategy(1, 4, None, 1, 4, 100, p_many=3), 3, ["8.0.3.0", "8.0.5.0", "8.1.0.0", "8.2.0.0", "8.2.14.0", "8.2.14.0", "8.1.0.0", "8.3.8.0"]))
    lost = draw(st.lists(st.tuples(st.integers(0, 99), st.one_of(st.integers(0, 9000), st.sampled_from([0, 1, 4095, 4096, 4097, 8192, 100000])), st.booleans()).map(list), max_size=5))
    return [db, lost, draw(st.booleans())]


class C(Check):
    id = "L05"
    rule = ("databases of every supported version with up to 3 tables and up to 5 objects of 0..100000 bytes which no table refers to, placed between, before and after the pages of the others; the directory written by the search "
            "must hold exactly these objects. Non-trivial: at least one lost object.")
    quick, thorough = 120, 3000

    def strategy(self, tier):
        return cases(tier)

    def run(self, case, ctx):
        (ver, ps, seed, ts), lost, ne = case
        im = onecd.Img(ver, ps, seed, 2, False)
        T = [tabs.Tab(t, ver, im.ps, seed + i) for i, t in enumerate(ts)]
        ids = []
        for s, n, early in lost:
            if early:
                ids.append((im.obj(conf.content(s, n)), s, n))
        for t in T:
            t.add(im)
        for s, n, early in lost:
            if not early:
                ids.append((im.obj(conf.content(s, n)), s, n))
        data = im.build()
        ctx.write("b.1CD", data)
        os.chmod(ctx.path("b.1CD"), 0o666)
        os.makedirs(ctx.path("out"))
        os.chmod(ctx.path("out"), 0o777)
        before = sorted(os.listdir(ctx.dir))
        rc, _ = ctx.ctool(*(["-ne"] if ne else []), "b.1CD", "-slo", "out")
        expect(rc == 0, "exit status %d: %s" % (rc, ctx.err[-300:]))
        same(sorted(os.listdir(ctx.dir)), before, "files beside the given directory")
        want = {} if im.new else {im.objs[i][3]: conf.content(s, n) for i, s, n in ids}
        got = {}
        for f in os.listdir(ctx.path("out")):
            m = re.search(r"(\d+)$", f)
            expect(m is not None, "file %s does not name a block" % f)
            got[int(m.group(1))] = ctx.read("out/" + f)
        same(sorted(got), sorted(want), "blocks of the saved objects")
        for b in want:
            same(got[b], want[b], "lost object in block %d" % b)
        same(ctx.read("b.1CD"), data, "database file")
        return ["lost"] if want else []

    def nontrivial(self, case, labels):
        return bool(labels)


CHECK = C()
