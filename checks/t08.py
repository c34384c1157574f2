"""T08: binary export and import of tables."""
import os, struct
from hypothesis import strategies as st
from vp.engine import Check, expect, same
from vp import onecd, tabs
from vp.base import script, ok, items, put

WRITABLE = ["8.1.0.0", "8.2.0.0", "8.2.14.0", "8.3.8.0", "8.3.8.0", "8.3.8.0"]


@st.composite
def cases(draw, tier):
    many = 300 if tier == "quick" else 3000
    db = draw(tabs.databases(tabs.table_strategy(1, 5, None, 2, 4, many, p_many=2), 3))
    n = len(db[3])
    same_version = draw(st.integers(0, 3)) and db[0] in WRITABLE
    ver2 = db[0] if same_version else draw(st.sampled_from(WRITABLE))
    ps2 = db[1] if ver2 == db[0] else draw(st.sampled_from([4096, 8192])) if ver2 == "8.3.8.0" else 4096
    rows2 = [draw(tabs.rows_strategy(4, many, 2)) for _ in range(n)]
    exported = draw(st.lists(st.integers(0, 3).map(bool), min_size=n, max_size=n))
    imported = draw(st.lists(st.integers(0, 3).map(bool), min_size=n, max_size=n))
    # an object of the source may end anywhere
    cut = draw(st.lists(st.sampled_from([0, 0, 0, 1, 2]), min_size=n, max_size=n))
    return [db, ver2, ps2, draw(st.integers(0, 999)), rows2, exported, imported, cut, draw(st.integers(0, 40)), draw(st.booleans())]


def parts(t):
    return {"data": t.data, "blob": t.blob, "index": t.index}


def page_fill(t, how):
    """make parts end exactly at a page or become empty"""
    if how == 1 and t.index is not None:
        t.index += bytes(t.ps)
    if how == 2:
        t.data, t.values, t.removed, t.live = b"", [], [], []


class C(Check):
    id = "T08"
    rule = ("two databases with 1..3 tables of the same declarations and different contents (empty to many pages), any versions as the source, writable versions as the target; some tables exported, some imported, the file then "
            "read by an independent reader; for a sixth the export is repeated by the program and compared; for half of those of one format the imported tables are also listed and exported to XML before and after the import by the same open database. Non-trivial: a table imported whose content differs.")
    quick, thorough = 400, 8000

    def strategy(self, tier):
        return cases(tier)

    def run(self, case, ctx):
        db, ver2, ps2, seed2, rows2, exported, imported, cut, spare2, reread = case
        imported = list(imported)
        im1 = onecd.Img(db[0], db[1], db[2], 2, False)
        T1 = [tabs.Tab(t, db[0], im1.ps, db[2] + i) for i, t in enumerate(db[3])]
        for t, c in zip(T1, cut):
            page_fill(t, c)
            t.add(im1)
        im2 = onecd.Img(ver2, ps2, seed2, spare2, True)
        ts2 = [dict(t, r=r, x=[i[:3] + [i[3] + 1] + i[4:] for i in t["x"]], b=[3, 1, False]) for t, r in zip(db[3], rows2)]
        T2 = [tabs.Tab(t, ver2, im2.ps, seed2 + i) for i, t in enumerate(ts2)]
        for t in T2:
            t.add(im2)
        p1, p2 = put(ctx, "a.1CD", im1.build()), put(ctx, "b.1CD", im2.build())
        old = ctx.read("b.1CD")
        out = ctx.path("out")
        os.mkdir(out)
        os.chmod(out, 0o777)
        src = onecd.Reader(ctx.read("a.1CD"))
        st1 = src.tables()
        ops = [("open", p1, 0)] + [("export", i, out) for i, e in enumerate(exported) if e]
        for r in script(ctx, ops):
            ok(r, "export")
        same(sorted(os.listdir(out)), sorted(t.name for t, e in zip(T1, exported) if e), "directories of the exported tables")
        for t, e, s in zip(T1, exported, st1):
            if not e:
                continue
            d = os.path.join(out, t.name)
            want = {k: v for k, v in parts(t).items() if v is not None}
            if s[2] is not None:
                want["descr"] = s[2].data
            same(sorted(os.listdir(d)), sorted(list(want) + ["root"]), "files of the exported table %s" % t.name)
            for k, v in want.items():
                with open(os.path.join(d, k), "rb") as f:
                    same(f.read(), v, "exported %s of table %s" % (k, t.name))
        if seed2 % 6 == 0:
            # the same tables exported by the program
            again = ctx.path("again")
            os.mkdir(again)
            os.chmod(again, 0o777)
            rc, _ = ctx.ctool("-ne", p1, "-eb", again, "*")
            same(rc, 0, "exit status of -eb")
            for t, e in zip(T1, exported):
                for k in os.listdir(os.path.join(out, t.name)) if e else []:
                    with open(os.path.join(again, t.name, k), "rb") as f, open(os.path.join(out, t.name, k), "rb") as g:
                        same(f.read(), g.read(), "%s of table %s exported twice" % (k, t.name))
        # the same program goes on with the tables it imported
        goes_on = reread and (ver2, im2.ps) == (db[0], im1.ps)
        look = [("iter", i, "s") for i in range(len(T1))] + [("xml", i, ctx.path("%d.xml" % i), 0, 0) for i in range(len(T1))] if goes_on else []
        ops = [("open", p2, 1)] + (look if seed2 % 3 else []) + [("import", i, out) for i, e in enumerate(imported) if e]
        done = len(ops)
        res = script(ctx, ops + look + [("close",)])
        k = len(ops) - sum(imported)
        for i, e in enumerate(imported):
            if e:
                # an index made for other pages cannot be used
                if res[k][:3] == b"exc" and exported[i] and T1[i].index is not None and (ver2 == "8.3.8.0", im2.ps) != (db[0] == "8.3.8.0", im1.ps):
                    imported[i] = False
                else:
                    ok(res[k], "import")
                k += 1
        if goes_on:
            after = res[len(ops):-1]
            xml = [ctx.read("%d.xml" % i) for i in range(len(T1))]
            ref = script(ctx, [("open", p1, 0)] + look)[1:]
            for i, t in enumerate(T1):
                if exported[i] and imported[i]:
                    same(after[i], ref[i], "records of table %s just imported" % t.name)
                    # an emptied table is left with an index of other records
                    same(after[len(T1) + i][:3], ref[len(T1) + i][:3], "XML export of table %s just imported" % t.name)
                    same(xml[i], ctx.read("%d.xml" % i), "XML of table %s just imported" % t.name)
        ok(res[-1], "closing")
        rd = onecd.Reader(ctx.read("b.1CD"))
        got = rd.tables()
        before = onecd.Reader(old).tables()
        labels = set()
        for i, (t1, t2, g, b) in enumerate(zip(T1, T2, got, before)):
            changed = exported[i] and imported[i]
            same(g[0], t2.name, "name of table %d" % i)
            same(onecd.brackets(g[1]), onecd.brackets(b[1]), "description of table %s" % t2.name)
            for k, o, ob, so in zip(("data", "blob", "index"), g[3:], b[3:], st1[i][3:]):
                want = parts(t1 if changed else t2)[k]
                expect((o is None) == (want is None), "%s of table %s: present or not", k, t2.name)
                if o is not None:
                    same(o.data, want, "%s of table %s%s" % (k, t2.name, " after import" if changed else " not imported"))
                    if changed:
                        same(o.version[:2], so.version[:2], "version of %s of the imported table %s" % (k, t2.name))
                        if len(want) != len(ob.data):
                            labels.add("grown" if len(want) > len(ob.data) else "shrunk")
                        if want != ob.data:
                            labels.add("imported")
        if reread and ver2 == db[0]:
            res = script(ctx, [("open", p2, 0)] + [("iter", i, "s") for i in range(len(T1))])
            ok(res[0], "opening after import")
            ref = script(ctx, [("open", p1, 0)] + [("iter", i, "s") for i in range(len(T1))])
            for i, (a, b) in enumerate(zip(res[1:], ref[1:])):
                if exported[i] and imported[i]:
                    same(ok(a, "records after import"), ok(b, "records"), "records of table %s" % T1[i].name)
        return sorted(labels) + [ver2]

    def nontrivial(self, case, labels):
        return "imported" in labels


CHECK = C()
