"""T11: an import that cannot be carried out leaves the database as it was."""
import os, shutil, struct
from hypothesis import strategies as st
from vp.engine import Check, expect, same
from vp import onecd, tabs
from vp.base import script, ok, put

WRITABLE = ["8.1.0.0", "8.2.0.0", "8.2.14.0", "8.3.8.0", "8.3.8.0"]
DAMAGE = ["none", "missing", "missing", "missing", "directory", "denied", "short root", "no root", "empty root", "lacks", "lacks", "lacks", "other data", "other index"]


@st.composite
def cases(draw, tier):
    many = 200 if tier == "quick" else 2000
    db = draw(tabs.databases(tabs.table_strategy(1, 5, None, 2, 4, many, p_many=2), 2))
    n = len(db[3])
    ver2, ps2 = db[0], db[1]    # an index is meaningful in databases of the same format and page size only
    if db[0] not in WRITABLE:
        ver2, ps2 = draw(st.sampled_from(WRITABLE[:3])), 4096
    rows2 = [draw(tabs.rows_strategy(4, many, 2)) for _ in range(n)]
    damage = [[draw(st.sampled_from(DAMAGE)), draw(st.integers(0, 99))] for _ in range(n)]
    return [db, ver2, ps2, draw(st.integers(0, 999)), rows2, damage, draw(st.integers(0, 40)), draw(st.booleans())]


class C(Check):
    id = "T11"
    rule = ("two databases with 1..2 tables of the same declarations; each table is exported from the first one, the exported files are damaged (a part missing, a directory in its place, not readable, the root file missing, "
            "cut or empty, the text of the description cut, data of records of another length, an index of another table or page size) or the second database lacks a part of the table, and the table is imported into the second one, which is closed at once. An import that fails leaves the file "
            "of the database as it was; one that succeeds gives every part of the table; the file is read by an independent reader and opened again. Non-trivial: an import that fails after another part could have been imported.")
    quick, thorough = 300, 6000

    def strategy(self, tier):
        return cases(tier)

    def run(self, case, ctx):
        db, ver2, ps2, seed2, rows2, damage, spare2, once = case
        im1 = onecd.Img(db[0], db[1], db[2], 2, False)
        T1 = [tabs.Tab(t, db[0], im1.ps, db[2] + i) for i, t in enumerate(db[3])]
        for t in T1:
            t.add(im1)
        im2 = onecd.Img(ver2, ps2, seed2, spare2, True)
        T2 = [tabs.Tab(dict(t, r=r, x=[i[:3] + [i[3] + 1] + i[4:] for i in t["x"]], b=[3, 1, False]), ver2, im2.ps, seed2 + i) for i, (t, r) in enumerate(zip(db[3], rows2))]
        lacks = [None] * len(T2)
        for i, (t, d) in enumerate(zip(T2, damage)):
            if d[0] == "lacks":
                lacks[i] = [k for k in ("blob",) if getattr(t, k) is not None]
                for k in lacks[i]:
                    setattr(t, k, None)
            t.add(im2)
        p1, p2 = put(ctx, "a.1CD", im1.build()), put(ctx, "b.1CD", im2.build())
        out = ctx.path("out")
        os.mkdir(out)
        os.chmod(out, 0o777)
        for r in script(ctx, [("open", p1, 0)] + [("export", i, out) for i in range(len(T1))]):
            ok(r, "export")
        st1 = onecd.Reader(ctx.read("a.1CD")).tables()
        fails = []
        labels = {ver2}
        for t, s, (kind, k) in zip(T1, st1, damage):
            d = os.path.join(out, t.name)
            there = [x for x in ("data", "blob", "index") if getattr(t, x) is not None]
            victim = there[k % len(there)]
            f = os.path.join(d, victim)
            fail = True
            if kind in ("missing", "directory"):
                os.unlink(f)
                if kind == "directory":
                    os.mkdir(f)
            elif kind == "denied":
                os.chmod(f, 0)
            elif kind in ("no root", "short root", "empty root"):
                r = os.path.join(d, "root")
                with open(r, "rb") as h:
                    b = h.read()
                os.unlink(r)
                if kind != "no root":
                    with open(r, "wb") as h:
                        h.write(b[:0 if kind == "empty root" else 4 + k % (len(b) - 4)])
                    os.chmod(r, 0o666)
            elif kind == "other data":
                # the data of a table with records of another length
                reclen = onecd.record_len(t.fields, t.lock)
                n = (k % 7 - 3) * reclen + 1 + k % (reclen - 1)
                with open(os.path.join(d, "data"), "rb") as h:
                    b = h.read()
                with open(os.path.join(d, "data"), "wb") as h:
                    h.write(b[:n] if -len(b) < n < 0 else b + bytes(abs(n)))
                victim = "data"
            elif kind == "other index":
                # an index of a database with pages of another size, or of another table
                fail = t.index is not None
                if fail:
                    victim = "index"
                    with open(os.path.join(d, "index"), "rb") as h:
                        b = h.read()
                    with open(os.path.join(d, "index"), "wb") as h:
                        h.write([b[:len(b) - 1 - k], b + bytes(im2.ps // 2), b"", b[:4] + b"\xff\xff\xff" + bytes([k]) + b[8:], struct.pack("<I", len(b) // im2.ps + k // 9) + b[4:], b[:im2.ps * (k % 2)]][k % 6])
            else:
                fail = False
            if fail:
                labels.add(kind)
                if victim != "data":
                    labels.add("late")
            fails.append(fail)
        for i, t in enumerate(T2):
            if lacks[i]:
                labels.add("lacks")
                need = [k for k in lacks[i] if getattr(T1[i], k) is not None]
                if need and damage[i][1] % 4 == 0 and st1[i][2] is not None:
                    f = os.path.join(out, t.name, "descr")
                    with open(f, "rb") as h:
                        b = h.read()
                    with open(f, "wb") as h:
                        h.write(b[:b.index('"Files"'.encode("utf-16le"))])
                    fails[i] = True
                    labels.add("cut description")
                if need and (ver2 == "8.3.8.0" or st1[i][2] is None):
                    fails[i] = True     # the description of the table cannot be changed
        state = ctx.read("b.1CD")
        for i, t in enumerate(T2):
            if once and i:
                break
            r = script(ctx, [("open", p2, 1), ("import", i, out), ("close",)])
            ok(r[0], "opening")
            now = ctx.read("b.1CD")
            if fails[i]:
                expect(r[1][:3] == b"exc", "import of table %s (%s) did not fail", t.name, damage[i][0])
                if now != state:
                    onecd.Reader(now).tables()
                    expect(False, "the file of the database changed though the import of table %s failed (%s)", t.name, damage[i])
            else:
                ok(r[1], "import of table %s" % t.name)
                rd = onecd.Reader(now)
                for j, (g, b, s) in enumerate(zip(rd.tables(), onecd.Reader(state).tables(), st1)):
                    for k, o, ob, so in zip(("data", "blob", "index"), g[3:], b[3:], s[3:]):
                        want = so if j == i and so is not None else ob
                        expect((o is None) == (want is None), "%s of table %s: present or not", k, T2[j].name)
                        if o is not None:
                            same(o.data, want.data, "%s of table %s" % (k, T2[j].name))
                labels.add("imported")
                if lacks[i]:
                    labels.add("added")
            state = now
        if (ver2, im2.ps) != (db[0], im1.ps):
            return sorted(labels)
        r = script(ctx, [("open", p2, 0)] + [("tinfo", i) for i in range(len(T2))])
        for x in r:
            ok(x, "opening afterwards")
        return sorted(labels)

    def nontrivial(self, case, labels):
        return "late" in labels or "added" in labels


CHECK = C()
