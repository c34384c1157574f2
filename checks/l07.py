"""L07: references that lead outside their file are reported."""
import os, random, struct
from hypothesis import strategies as st
from vp.engine import Check, expect, same
from vp import onecd, depot, tabs
from checks import s05, l06, c01, c04

WHAT = {"tables": ["eax", "eax", "eb"], "infobase": ["config", "configsave", "all", "vendors", "eax"], "depot": ["depot", "depot", "part", "eax"]}


@st.composite
def cases(draw, tier):
    kind = draw(st.sampled_from(["tables", "infobase", "depot"]))
    if kind == "tables":
        spec = draw(tabs.databases(tabs.table_strategy(1, 5, None, 2, 5, 120, p_many=2), 3))
    elif kind == "infobase":
        spec = [draw(st.sampled_from(onecd.VERSIONS)), draw(st.integers(0, 999)), draw(st.booleans()), draw(st.integers(0, 5)), draw(st.lists(c01.file_strategy("quick"), max_size=4, unique_by=lambda f: f[0])),
                [[v[0][:20], v[1], v[2][:20]] + v[3:] for v in map(list, draw(st.lists(c04.vendor(), max_size=2)))]]  # short names of files
    else:
        spec = draw(depot.history(tier, 3))
    how = draw(st.sampled_from(["page", "page", "page", "chain", "chain", "length", "table"] + ["object", "pack"] * 2 * (kind == "depot")))
    return [kind, spec, draw(st.sampled_from(WHAT[kind])), how, draw(st.integers(0, 99999)), draw(st.integers(0, 9999))]


class C(Check):
    id = "L07"
    rule = ("databases of tables, infobases and depots of all formats; one export or extraction run on the database as generated and again after one reference in it was made to lead outside its file: the number of a page of an object or of a list of "
            "pages, the next block of a long value (or its length over 250), the number of a table, a missing object file or a cut pack of a depot. Exit status zero is allowed only if the output is the same. Non-trivial: the failure was reported.")
    quick, thorough = 170, 4000

    def strategy(self, tier):
        return cases(tier)

    def run(self, case, ctx):
        kind, spec, what, how, where, seed = case
        rng = random.Random(seed)
        p, names, home = s05.CHECK.make(kind, spec, ctx)
        os.chmod(p, 0o666)
        raw = bytearray(open(p, "rb").read())
        rd = onecd.Reader(bytes(raw))
        tables = rd.tables()
        said, gone = "nothing", None
        if how == "page":
            at, who = rd.slots[where % len(rd.slots)]
            v = rng.choice([rd.length, rd.length + 1, rd.length + rng.randrange(1000), 2 ** 31 - 1, 2 ** 31, 2 ** 32 - 1])
            raw[at:at + 4] = struct.pack("<I", v)
            said = "page number %d of %d in %s at byte %d" % (v, rd.length, who, at)
        elif how in ("chain", "length"):
            blobs = [(t[0], t[4]) for t in tables if t[4] and t[4].len > 256] + ([("root", rd.root)] if rd.new else [])
            if blobs:
                name, o = blobs[where % len(blobs)]
                k = rng.randrange(1, o.len // 256)
                at = o.pages[k * 256 // rd.ps] * rd.ps + k * 256 % rd.ps
                if how == "chain":
                    v = rng.choice([o.len // 256, o.len // 256 + rng.randrange(1, 100), 2 ** 31, 2 ** 32 - 1, 2 ** 24 + k])
                    raw[at:at + 4] = struct.pack("<I", v)
                else:
                    v = rng.choice([251, 252, 256, 1000, 32767, 65535])
                    raw[at + 4:at + 6] = struct.pack("<H", v)
                said = "%s %d in block %d of %d of the long values of %s" % (how, v, k, o.len // 256, name)
        elif how == "table" and tables:
            k = 8 if rd.ver in ("8.0.3.0", "8.0.5.0") else 32
            i = where % len(tables)
            if rd.new:
                at = rd.root.pages[0] * rd.ps + 256 + 6 + k + 4 + 4 * i
                top = rd.root.len // 256
            else:
                at = rd.root.pages[0] * rd.ps + k + 4 + 4 * i
                top = rd.length
            if 36 + 4 * i + 4 <= 250:
                v = rng.choice([top, top + 1, top + rng.randrange(1000), 2 ** 31 - 1, 2 ** 32 - 1])
                raw[at:at + 4] = struct.pack("<I", v)
                said = "number %d of table %s" % (v, tables[i][0])
        elif how in ("object", "pack"):
            fs = sorted(os.path.join(q, f) for q, _, x in os.walk(os.path.join(home, "data")) for f in x if ("objects" in q if how == "object" else f.endswith(".pck")))
            if fs:
                gone = fs[where % len(fs)]
                said = "%s missing" % gone if how == "object" else "%s cut" % gone
        if what == "eb" and how in ("chain", "length"):
            how = "none"  # copied as it is
            raw[:] = open(p, "rb").read()
        versions = depot.Depot(spec).versions if kind == "depot" else []

        def run(out):
            os.makedirs(out)
            os.chmod(out, 0o777)
            args = {"eax": ["-bf", str(seed % 2), "-pb", str(seed // 2 % 2), "-eax", out], "eb": ["-eb", out, "*"], "config": ["-ddc", out], "configsave": ["-dc", out], "all": ["-dac", out], "vendors": ["-dvc", out]}.get(what)
            if what == "depot":
                args = ["-drc", str(versions[seed % len(versions)]), out + "/x.cf"]
            elif what == "part":
                a, b = sorted([versions[seed % len(versions)], versions[seed // 10 % len(versions)]])
                args = ["-dpc", "%d:%d" % (a, b), out]
            rc, _ = ctx.ctool("-ne", p, *args)
            return rc, {n: l06.content(b, what == "depot") if n.endswith(".cf") else b for n, b in l06.tree(out).items()}

        rc, want = run(ctx.path("whole"))
        if rc and kind == "tables" and what == "eax":
            return [kind, what, how, "failed"]  # a file cannot be named as its record demands
        expect(rc == 0, "exit status %d of %s: %s", rc, what, ctx.err[-300:])
        with open(p, "wb") as h:
            h.write(raw)
        if gone and how == "object":
            os.remove(gone)
        elif gone:
            n = os.path.getsize(gone)
            os.truncate(gone, rng.choice([0, 1, n // 2, n - 1, rng.randrange(n)]))
        rc, got = run(ctx.path("damaged"))
        if rc:
            return [kind, what, how, "reported"]
        labels = [kind, what, how, "unused" if said != "nothing" else "none"]
        same(sorted(got), sorted(want), "files written by %s though the exit status is zero, with %s" % (what, said))
        for n in want:
            same(got[n], want[n], "%s written by %s though the exit status is zero, with %s" % (n, what, said))
        return labels

    def nontrivial(self, case, labels):
        return "reported" in labels


CHECK = C()
