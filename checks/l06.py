"""L06: outputs that cannot be written completely are reported."""
import os, random, shutil
from hypothesis import strategies as st
from vp.engine import Check, expect, same
from vp import onecd, tabs, conf, cf, depot
from vp.base import script, ok
from checks import c01, c04

TABLES = ["ALPHA", "_Beta1", "Гамма"]
WHAT = {"plain": ["eax", "ex", "eb", "ib", "sts", "slo"], "infobase": ["config", "configsave", "all", "vendors", "eax", "sts"], "depot": ["depot", "part"]}


@st.composite
def cases(draw, tier):
    kind = draw(st.sampled_from(["plain", "plain", "infobase", "infobase", "depot"]))
    what = draw(st.sampled_from(WHAT[kind]))
    extra = dict(h=draw(depot.history(tier, 3))) if kind == "depot" else dict(c=draw(c01.cases("quick")), v=draw(st.lists(c04.vendor(), max_size=2))) if kind == "infobase" else {}
    fault = draw(st.sampled_from(["full", "full", "full", "taken", "taken", "denied", "nodir", "filedir"]))
    return [kind, what, fault, draw(st.integers(0, 9999)), draw(st.integers(0, 9999)), extra]


def tree(d):
    out = {}
    for q, ds, fs in os.walk(d):
        for f in fs:
            with open(os.path.join(q, f), "rb") as h:
                out[os.path.relpath(os.path.join(q, f), d)] = h.read()
    return out


def content(b, depot):
    """elements of a configuration file; those of a depot with neither the times nor the list of random version numbers"""
    try:
        if not depot:
            return cf.parse(b, False)
        return [(x, content(cf.inflate(z), True) if x == "metadata" else z) for x, _, _, z in cf.parse(b, False) if x != "versions"]
    except Exception as e:
        return "not a container: %s" % e


def table_set(ver, seed):
    rnd = random.Random(seed)
    fields = [["ID", "N", 0, 5, 0, "CS"], ["T", "NVC", 1, 200, 0, "CI"], ["B", "I", 1, 0, 0, "CS"]]
    im = onecd.Img(ver, 4096, seed, 2, False)
    n = rnd.choice([0, 1, 3, 30, 150])
    for i, name in enumerate(TABLES):
        r = random.Random(seed * 10 + i)
        x = [["PK", 1, [[0, 5]], 1, 10, 0, list(range(n))]] if i != 1 else []
        tabs.Tab(dict(n=name, f=fields, b=[0, 0, False], x=x), ver, 4096, i, [(0, [[False, "%05d" % k], "text %d " % r.randrange(99) * r.randrange(20), cf.deflate(r.randbytes(r.choice([10, 3000]))) if r.randrange(2) else None]) for k in range(n)]).add(im)
    if ver != "8.3.8.0":
        for k in range(rnd.randrange(3)):
            im.obj(rnd.randbytes(rnd.choice([10, 5000])))
    return im.build()


class C(Check):
    id = "L06"
    rule = ("plain databases, infobases with vendor configurations and depots; one command run freely first, then again where files stop growing at a random size (as on a full disk, temporary files included) or where a directory with a file of the "
            "user takes the place of one of the files to write, a file that of a directory, or where writing or creating directories is not permitted. Exit status zero is allowed only if the output is the same as that of the free run. Non-trivial: the fault hits a file of the output.")
    quick, thorough = 130, 3000

    def strategy(self, tier):
        return cases(tier)

    def run(self, case, ctx):
        kind, what, fault, level, seed, extra = case
        rng = random.Random(seed)
        ver = rng.choice(["8.1.0.0", "8.2.14.0", "8.3.8.0", "8.3.8.0"])
        os.makedirs(ctx.path("b"))
        os.chmod(ctx.path("b"), 0o777)
        base = ctx.path("b", "x.1CD")
        d = None
        if kind == "plain":
            if what == "slo":
                ver = "8.2.14.0"
            ctx.write("b/x.1CD", table_set(ver, seed))
        elif kind == "depot":
            d = depot.Depot(extra["h"])
            base = d.write(ctx, "b/d")
        else:
            v, ps, s, partno, scatter, dyn, dynmode, files, twice = extra["c"]
            t, e = conf.Files("CONFIG", partno, s), conf.Files("CONFIGSAVE", partno, s)
            c01.fill(t, files, None, {})
            e.add("root", cf.deflate(b"edited"), 1, 1)
            for i, (_, supplier, _, pk, vs, old, nodes, parts, policy, split, upper, where) in enumerate(extra["v"]):
                data = c04.embedded("Поставка %d" % i, supplier, "1.%d" % i, pk, vs, old, nodes, policy, split, upper)
                t.add(conf.guid(1000 + i) + "." + conf.guid(2000 + i), cf.deflate(cf.deflate(data)), parts, vs)
            ctx.write("b/x.1CD", conf.infobase(v, ps, s, [t, e], scatter=scatter))
        os.chmod(base, 0o666)
        raw = open(base, "rb").read()
        opts = ["-bf", str(rng.randrange(2))]
        exported = ctx.path("exported")
        if what == "ib":
            os.makedirs(exported)
            os.chmod(exported, 0o777)
            ctx.write("src.1CD", table_set(ver, seed + 1))
            for r in script(ctx, [("open", ctx.path("src.1CD"), 0)] + [("export", i, exported) for i in range(3)]):
                ok(r, "export of the tables to import")
        asfile = rng.randrange(2)

        def command(out):
            if what == "ib":
                return ["-ib", exported, "*"]
            if what in ("ex", "eb"):
                return ["-" + what, out, "*"]
            if what == "part":
                return ["-dpc", "%d:%d" % (d.versions[0], d.versions[-1]), out]
            if what == "sts":
                return ["-sts", os.path.join(out, "sizes.txt")]
            if what in ("config", "configsave", "depot") and asfile:
                out = os.path.join(out, "own.cf")
            return [{"eax": "-eax", "slo": "-slo", "config": "-ddc", "configsave": "-dc", "all": "-dac", "vendors": "-dvc", "depot": "-drc"}[what]] + ([str(d.versions[-1])] if what == "depot" else []) + [out]

        def place(n):
            out = ctx.path(n)
            os.makedirs(out)
            os.chmod(out, 0o777)
            return out

        def result(out):
            if what == "ib":
                return {"x.1CD": open(base, "rb").read()}
            got = {}
            for n, b in tree(out).items():
                if n.endswith(".cf"):
                    b = content(b, what == "depot")
                got[n] = b
            return got

        free = place("free")
        rc, _ = ctx.ctool(base, *opts, *command(free))
        expect(rc == 0, "exit status %d of %s on a %s: %s", rc, what, kind, ctx.err[-300:])
        want = result(free)
        sizes = {n: len(b) for n, b in tree(free).items()} if what != "ib" else {"x.1CD": len(want["x.1CD"])}
        with open(base, "wb") as h:
            h.write(raw)
        out = place("faulty")
        labels = {kind, what, fault}
        mine = {}
        limit = None
        target = base if what == "ib" else out
        if fault == "denied":
            os.chmod(target, 0o444 if what == "ib" else 0o555)
            if sizes and (what != "ib" or want["x.1CD"] != raw):
                labels.add("hit")
        elif fault in ("nodir", "filedir") and what != "ib":
            dirs = sorted(os.path.relpath(os.path.join(q, x), free) for q, ds, fs in os.walk(free) for x in ds)
            for n in want:
                if "/" not in n:
                    with open(os.path.join(out, n), "wb"):
                        pass
                    os.chmod(os.path.join(out, n), 0o666)
            if fault == "nodir":
                os.chmod(out, 0o555)
            elif dirs:
                n = dirs[level % len(dirs)]
                os.makedirs(os.path.dirname(os.path.join(out, n)), exist_ok=True)
                with open(os.path.join(out, n), "wb") as h:
                    h.write(b"keep")
                for q, ds, fs in os.walk(out):
                    for x in ds + fs:
                        os.chmod(os.path.join(q, x), 0o777)
                mine[n] = b"keep"
            if dirs:
                labels.add("hit")
        elif fault == "full" or not sizes or what == "ib":
            top = max(sizes.values(), default=0)
            marks = [0, 1, top // 2, top - 1, 3 * top // 4, min(sizes.values(), default=0), level % (top + 1), level % (top + 1)]
            limit = max(0, marks[level % len(marks)])
            if what == "ib":
                limit = len(raw) + level % max(1, top - len(raw) + 1)
            if any(s > limit for s in sizes.values()):
                labels.add("hit")
        else:
            n = sorted(sizes)[level % len(sizes)]
            os.makedirs(os.path.join(out, n))
            full = level // 100 % 2
            if full:
                with open(os.path.join(out, n, "mine"), "wb") as h:
                    h.write(b"keep")
                os.chmod(os.path.join(out, n, "mine"), 0o666)
                mine[os.path.join(n, "mine")] = b"keep"
            for q, ds, fs in os.walk(out):
                os.chmod(q, 0o777)
            labels.add("hit")
        rc, _ = ctx.ctool(base, *opts, *command(out), limit=limit)
        said = "%s of a %s, %s" % (what, kind, "files limited to %d bytes (%d needed)" % (limit, max(sizes.values(), default=0)) if limit is not None else "directories cannot be created" if fault == "nodir" else "a file in the place of a directory" if fault == "filedir" else "no permission to write" if fault == "denied" else "a directory in the place of %s" % n)
        if fault in ("denied", "nodir"):
            os.chmod(target, 0o777)
        got = result(out)
        for f, b in mine.items():
            same(got.pop(f, None), b, "file of the user in the directory: " + said)
        if rc == 0:
            labels.add("success")
            same(sorted(got), sorted(want), "files written though the exit status is zero: " + said)
            for f in want:
                same(got[f], want[f], "%s written though the exit status is zero: %s" % (f, said))
        elif "hit" in labels:
            labels.add("reported")
        return sorted(labels)

    def nontrivial(self, case, labels):
        return "hit" in labels


CHECK = C()
