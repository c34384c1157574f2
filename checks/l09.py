"""L09: commands of one run do not disturb each other."""
import os, random, shutil
from hypothesis import strategies as st
from vp.engine import Check, expect, same
from vp import onecd, depot, tabs
from checks import s05, l06, c01, c04

WHAT = {"tables": ["eax", "ex", "eb", "sts", "slo"], "infobase": ["config", "configsave", "all", "vendors"], "depot": ["depot", "depot", "part", "part"]}


@st.composite
def databases(draw, tier, kinds=("tables", "infobase", "depot")):
    kind = draw(st.sampled_from(kinds))
    if kind == "tables":
        spec = draw(tabs.databases(tabs.table_strategy(1, 6, None, 2, 5, 60, p_many=2), 4))
    elif kind == "infobase":
        spec = [draw(st.sampled_from(onecd.VERSIONS)), draw(st.integers(0, 999)), draw(st.booleans()), draw(st.integers(0, 5)), draw(st.lists(c01.file_strategy("quick"), max_size=4, unique_by=lambda f: f[0])),
                [[v[0][:20], v[1], v[2][:20]] + v[3:] for v in map(list, draw(st.lists(c04.vendor(), max_size=2)))]]
    else:
        spec = draw(depot.history(tier, 3))
    return kind, spec


def command(what, n, out, versions):
    mask = ["*", "*a*", "*0*;_*", "config", "?*"][n % 5]
    a, b = versions[n % len(versions)], versions[n // 10 % len(versions)]
    return {"eax": ["-eax", out], "ex": ["-ex", out, mask], "eb": ["-eb", out, mask], "sts": ["-sts", out + "/sizes.txt"], "slo": ["-slo", out], "config": ["-ddc", out], "configsave": ["-dc", out], "all": ["-dac", out], "vendors": ["-dvc", out],
            "import": ["-ib", out, mask],
            "depot": ["-drc", str(a), out], "part": ["-dpc", "%d:%d" % (min(a, b), max(a, b)), out]}[what]


@st.composite
def cases(draw, tier):
    kind, spec = draw(databases(tier))
    what = WHAT[kind] * 2 + WHAT["tables"] + ["config"]
    other = None
    if kind != "depot" and draw(st.booleans()):
        # another database with the same tables to import from
        if kind == "tables":
            rows = [draw(tabs.rows_strategy(5, 60, 2)) for _ in spec[3]]
            other = [spec[0], spec[1], spec[2] + 1, [dict(t, r=r, x=[i[:3] + [i[3] + 1] + i[4:] for i in t["x"]]) for t, r in zip(spec[3], rows)]]
        else:
            k, other = draw(databases(tier, ("infobase",)))
            other[0], other[2] = spec[0], spec[2]
        what = what + ["import"] * (len(what) // 3)
    cmds = draw(st.lists(st.tuples(st.sampled_from(what), st.integers(0, 999)).map(list), min_size=2, max_size=5))
    return [kind, spec, cmds, draw(st.booleans()) and not other, draw(st.integers(0, 9999)), other]


class C(Check):
    id = "L09"
    rule = ("databases of tables, infobases with vendor configurations and depots; 2 to 5 exports, dumps, extractions and reports in one run, each into a directory of its own, for some databases with imports of tables of another "
            "database between them, compared with runs of each of them alone one after another: files, exit status and tables of the database. Non-trivial: at least two of the commands write files.")
    quick, thorough = 100, 3000

    def strategy(self, tier):
        return cases(tier)

    def run(self, case, ctx):
        kind, spec, cmds, ne, seed = case[:5]
        other = case[5] if len(case) > 5 else None
        p, _, home = s05.CHECK.make(kind, spec, ctx)
        os.chmod(p, 0o666)
        source = ctx.path("source")
        os.makedirs(source)
        os.chmod(source, 0o777)
        if other:
            q, _, _ = s05.CHECK.make(kind, other, ctx, "another")
            os.chmod(q, 0o666)
            same(ctx.ctool("-ne", q, "-eb", source, "*")[0], 0, "exit status of -eb")
        alone = p
        if any(c[0] == "import" for c in cmds):
            alone = p + ".copy"
            shutil.copyfile(p, alone)
            os.chmod(alone, 0o666)
        versions = depot.Depot(spec).versions if kind == "depot" else [1]
        opts = [["-bf", str(seed % 2)], ["-pb", str(seed // 2 % 2)]] + [["-ne"]] * ne

        def run(which, place, base):
            os.makedirs(ctx.path(place))
            line = [[base]] + opts
            for k in which:
                out = ctx.path(place, str(k))
                os.makedirs(out)
                os.chmod(out, 0o777)
                line.append(command(cmds[k][0], cmds[k][1], source if cmds[k][0] == "import" else out, versions))
            rc, _ = ctx.ctool(*[x for o in line for x in o])
            return rc, [{n: l06.content(b, kind == "depot") if n.lower().endswith(".cf") else b for n, b in l06.tree(ctx.path(place, str(k))).items()} for k in which]

        rc, got = run(range(len(cmds)), "all", p)
        wrote, failed = 0, False
        for k, (what, n) in enumerate(cmds):
            r, (want,) = run([k], "one%d" % k, alone)
            w = "%s after %r" % (what, [c[0] for c in cmds[:k]])
            if what == "slo" and alone != p:
                continue    # which pages are free or lost depends on the order of writing
            same(sorted(got[k]), sorted(want), "files written by " + w)
            for f in want:
                same(got[k][f], want[f], "%s written by %s" % (f, w))
            wrote += bool(want)
            failed |= r != 0
        same(rc != 0, failed, "failure of %r in one run" % [c[0] for c in cmds])
        labels = [kind, "failed" if failed else "succeeded"] + ["several"] * (wrote > 1)
        if alone != p:
            labels.append("import")
            for a, b in zip(*[onecd.Reader(ctx.read(x)).tables() for x in (p, alone)]):
                same([o and o.data for o in a[3:]], [o and o.data for o in b[3:]], "table %s of the database" % a[0])
        return labels

    def nontrivial(self, case, labels):
        return "several" in labels


CHECK = C()
