"""L03: commands of the program, their results and its exit status."""
import os, random, shutil
from collections import Counter
from hypothesis import strategies as st
from vp.engine import Check, expect, same
from vp import onecd, tabs, conf, cf, depot
from vp.base import script, ok, texts
from checks import c01, c04

TABLES = ["ALPHA", "_Beta1", "Гамма"]
DOINGS = ["config", "configsave", "vendors", "all", "depot", "part", "eax", "ex", "eb", "ib"]
PLACES = ["dir", "dir", "dir", "file", "file", "absent", "notdir", "readonly"]


@st.composite
def cases(draw, tier):
    kind = draw(st.sampled_from(["infobase", "infobase", "depot", "depot", "plain", "plain", "broken"]))
    mine = {"infobase": DOINGS[:4], "depot": DOINGS[4:6], "plain": DOINGS[6:]}.get(kind, DOINGS)
    cmd = st.tuples(st.one_of(st.sampled_from(mine), st.sampled_from(mine), st.sampled_from(mine), st.sampled_from(DOINGS)), st.sampled_from(PLACES), st.integers(0, 9), st.integers(-3, 9)).map(list)
    cmds = draw(st.lists(cmd, min_size=1, max_size=4))
    extra = dict(h=draw(depot.history(tier, 3))) if kind == "depot" else dict(c=draw(c01.cases("quick")), v=draw(st.lists(c04.vendor(), max_size=3))) if kind == "infobase" else {}
    return [kind, cmds, draw(st.sampled_from([None, None, "0", "1"])), draw(st.sampled_from([None, None, "0", "1"])), draw(st.booleans()), draw(st.integers(0, 9999)), extra]


def tree(d):
    out = {}
    for q, _, fs in os.walk(d):
        for f in fs:
            p = os.path.join(q, f)
            out[os.path.relpath(p, d)] = open(p, "rb").read()
    return out


def table_set(ver, seed):
    fields = [["ID", "N", 0, 5, 0, "CS"], ["T", "NVC", 1, 20, 0, "CI"], ["B", "I", 1, 0, 0, "CS"]]
    im = onecd.Img(ver, 4096, seed, 2, False)
    for i, n in enumerate(TABLES):
        r = random.Random(seed * 10 + i)
        x = [["PK", 1, [[0, 5]], 1, 10, 0, sorted(range(4), key=lambda k: k)]] if i != 1 else []
        tabs.Tab(dict(n=n, f=fields, b=[0, 0, False], x=x), ver, 4096, i, [(0, [[False, "%05d" % k], "text %d" % r.randrange(99), cf.deflate(b"data" * r.randrange(200)) if r.randrange(2) else None]) for k in range(4)]).add(im)
    return im.build()


class C(Check):
    id = "L03"
    rule = ("infobases with files waiting and edited and vendor configurations, depots with histories, plain databases and files that are no database; up to 4 commands in one run with the destination an existing directory, a file name, a missing or a "
            "read-only directory or not a directory; results compared with those of the operations called directly or with independent models. Non-trivial: a run in which at least one command succeeds or must fail.")
    quick, thorough = 90, 3000

    def strategy(self, tier):
        return cases(tier)

    def run(self, case, ctx):
        kind, cmds, bf, pb, ne, seed, extra = case
        rng = random.Random(seed)
        labels = {kind}
        d = vendors = None
        os.makedirs(ctx.path("b"))
        os.chmod(ctx.path("b"), 0o777)
        base = ctx.path("b", "x.1CD")
        ver = rng.choice(["8.1.0.0", "8.2.14.0", "8.3.8.0", "8.3.8.0"])
        if kind == "depot":
            d = depot.Depot(extra["h"])
            base = d.write(ctx, "b/d")
        elif kind == "infobase":
            v, ps, s, partno, scatter, dyn, dynmode, files, twice = extra["c"]
            t, e = conf.Files("CONFIG", partno, s), conf.Files("CONFIGSAVE", partno, s)
            c01.fill(t, files, None, {})
            e.add("root", cf.deflate(b"edited"), 1, 1)
            vendors = []
            for i, (_, supplier, _, pk, vs, old, nodes, parts, policy, split, upper, where) in enumerate(extra["v"]):
                name, version = rng.choice(["Поставка %d" % i, "Поставка", "поставка"]), rng.choice(["1.2.%d" % i, "", "3"])
                data = c04.embedded(name, supplier, version, pk, vs, old, nodes, policy, split, upper)
                t.add(conf.guid(1000 + i) + "." + conf.guid(2000 + i), cf.deflate(cf.deflate(data)), parts, vs)
                vendors.append((name + " " + version, data))
            ctx.write("b/x.1CD", conf.infobase(v, ps, s, [t, e], scatter=scatter))
        elif kind == "plain":
            ctx.write("b/x.1CD", table_set(ver, seed))
        else:
            how = seed % 6
            if how == 1:
                os.makedirs(base)
            elif how:
                ctx.write("b/x.1CD", b"" if how == 2 else rng.randbytes(rng.choice([10, 4096, 12288])) if how == 3 else b"1CDBMSV8" + rng.randbytes(50) if how == 4 else table_set(ver, seed)[:24] + b"\xff" * 5000)
        if os.path.isfile(base):
            os.chmod(base, 0o666)
        copy = ctx.path("copy.1CD")
        if os.path.isfile(base):
            if d:
                copy = base
            else:
                shutil.copy(base, copy)
        exported = ctx.path("exported")
        args, plan, good = [], [], kind != "broken"
        importing = any(c[0] == "ib" for c in cmds)
        if importing:
            os.makedirs(exported)
            os.chmod(exported, 0o777)
            ctx.write("src.1CD", table_set(ver, seed + 1))
            os.chmod(ctx.path("src.1CD"), 0o666)
            for r in script(ctx, [("open", ctx.path("src.1CD"), 0)] + [("export", i, exported) for i in range(2 + seed % 2)]):
                ok(r, "export of the tables to import")
        for k, (what, place, n, m) in enumerate(cmds):
            out = ctx.path("out%d" % k)
            fits = kind == {"config": "infobase", "configsave": "infobase", "vendors": "infobase", "all": "infobase", "depot": "depot", "part": "depot"}.get(what, "plain") or (what in DOINGS[6:] and good)
            if what in DOINGS[6:] and kind != "plain":
                what, fits = "eax", good
            if place == "file" and what not in ("config", "configsave", "depot"):
                place = "dir"
            if place in ("dir", "readonly"):
                os.makedirs(out)
                os.chmod(out, 0o555 if place == "readonly" else 0o777)
            if place == "notdir":
                ctx.write("out%d" % k, b"a file")
            if place == "file":
                out = ctx.path("out%d%s" % (k, rng.choice([".cf", ".CF", ".x.cf"])))
            if place == "absent":
                out = ctx.path("no", "such%d" % k)
            if place == "readonly" and not self.unprivileged(ctx):
                place = "dir"
                os.chmod(out, 0o777)
            succeeds = fits and place in ("dir", "file")
            info = None
            if what == "depot" and d:
                ask = n % (len(d.versions) + 1) - len(d.versions) + 1 if m < 0 else d.versions[n % len(d.versions)] + (1000 if m == 9 else 0)
                at = ask if ask in d.versions else None if ask > 0 else d.versions[ask - 1] if -ask < len(d.versions) else None
                info = at
                succeeds = succeeds and at is not None
                args += [["-drc", str(ask), out]]
            elif what == "depot":
                args += [["-drc", str(m), out]]
            elif what == "part":
                if d:
                    i, j = sorted((n % len(d.versions), m % len(d.versions)))
                    a, b = d.versions[i], d.versions[j]
                    info = (a, b)
                    form = rng.randrange(3)
                    x, y = [str(v) if form == 0 or form == 1 and rng.randrange(2) else str(d.versions.index(v) - len(d.versions) + 1) for v in (a, b)]
                    if rng.randrange(4) == 0:
                        x, y = y, x
                    args += [["-dpc", x if a == b and rng.randrange(2) else x + ":" + y, out]]
                    if place == "absent" and rng.randrange(2):      # the last part of the path is created
                        args[-1][-1] = out = ctx.path("new%d" % k)
                        succeeds, place = fits, "new"
                else:
                    args += [["-dpc", "1:2", out]]
            elif what in ("config", "configsave", "vendors", "all"):
                args += [[{"config": "-ddc", "configsave": "-dc", "vendors": "-dvc", "all": "-dac"}[what], out]]
                if what == "vendors" and place == "readonly" and not vendors:
                    succeeds = fits
            elif what == "eax":
                args += [["-eax", out]]
            else:
                mask = ["*", "alpha", "*a*", "_beta?;гамма", "нет"][n % 5]
                info = {0: TABLES, 1: TABLES[:1], 2: TABLES[:2], 3: TABLES[1:], 4: []}[n % 5]
                if what == "ib":
                    if place == "dir":
                        out = exported
                        succeeds = fits and set(info) <= set(TABLES[:2 + seed % 2])
                    succeeds = succeeds and (not ne or not info)
                    if ne and info and place == "dir":
                        succeeds = None
                args += [["-" + what, out, mask]]
                if place == "readonly" and not info:
                    succeeds = fits
            plan.append((what, place, out, info, succeeds))
            if fits and what == "ex" and place == "dir" and not info:
                labels.add("nothing selected")
        opts = [["-bf", bf]] * (bf is not None) + [["-pb", pb]] * (pb is not None) + [["-ne"]] * ne
        line = opts + args
        line.insert(rng.randrange(len(line) + 1), [base])
        before = tree(ctx.dir)
        rc, _ = ctx.ctool(*[x for p in line for x in p])
        what_ = "%r on a %s" % ([a[:2] + [os.path.basename(x) for x in a[2:]] for a in args], kind)
        wants = [p[4] for p in plan]
        if not good or False in wants:
            expect(rc != 0, "exit status zero of %s; succeeding: %r; %s" % (what_, wants, ctx.err[-200:]))
            labels.add("failure")
        elif None not in wants:
            expect(rc == 0, "exit status %d of %s: %s" % (rc, what_, ctx.err[-300:]))
        after = tree(ctx.dir)
        allowed = []
        flags = ("1" if bf == "1" else "0", "0" if pb == "0" else "1")
        imported = []
        for what, place, out, info, succeeds in plan:
            rel = os.path.relpath(out, ctx.dir)
            if what != "ib":
                allowed.append(rel)
            if not succeeds:
                continue
            labels.add(what)
            if what in ("config", "configsave", "all"):
                for kind_, op, name in (("config", "config", "dbcf.cf"), ("configsave", "configsave", "cf.cf")):
                    if what not in (kind_, "all"):
                        continue
                    f = out if place == "file" else os.path.join(out, name)
                    ref = ctx.path("ref.cf")
                    for r in script(ctx, [("open", copy, 0), (op, ref)]):
                        ok(r, op)
                    same(sorted(cf.parse(self.read(f), False)), sorted(cf.parse(self.read(ref), False)), "configuration saved by the program as " + rel)
            if what in ("vendors", "all"):
                got = {n: x for n, x in tree(out).items() if n not in ("cf.cf", "dbcf.cf")}
                same(Counter(got.values()), Counter(x for _, x in vendors), "contents of the files of the vendor configurations")
                titles = Counter(n.lower() for n, _ in vendors)
                for n, x in vendors:
                    if titles[n.lower()] == 1:
                        same(got.get(n + ".cf"), x, "vendor configuration " + n)
                    else:
                        labels.add("equal names")
                        expect(any(f.lower().startswith(n.lower()) and f.endswith(".cf") and b == x for f, b in got.items()), "the vendor configuration %s is not in a file of that name: %r", n, sorted(got))
            if what == "depot":
                f = out if place == "file" else os.path.join(out, "v%d.cf" % info)
                d.check_dump(self.read(f), info, expect, same)
            if what == "part":
                d.check_part(out, *info, expect, same)
            if what in ("eax", "ex", "eb") and not importing:
                ref = ctx.path("ref%d" % len(allowed))
                os.makedirs(ref)
                os.chmod(ref, 0o777)
                r = script(ctx, [("open", copy, 0), ("tables",)])
                names = texts(ok(r[1], "tables"))
                ops = []
                for i, n in enumerate(names):
                    if what != "eax" and n not in info:
                        continue
                    ops.append(("xml", i, os.path.join(ref, n + ".xml")) + flags if what != "eb" else ("export", i, ref))
                fill = [("fillrec", i) for i in range(len(names))]
                for r in script(ctx, [("open", copy, 0)] + fill + ops):
                    ok(r, "export")
                a, b = tree(out), tree(ref)
                same(sorted(a), sorted(b), "files exported by " + what_)
                for n in a:
                    if os.path.basename(n) != "root" or what != "eb":
                        same(a[n], b[n], "%s exported by %s" % (n, what_))
            if what == "ib":
                imported += info
        if importing and kind == "plain" and None not in wants:
            get = lambda b: {t[0]: (t[1], ) + tuple(x.data if x is not None else None for x in t[3:6]) for t in onecd.Reader(b).tables()}
            got, own, src = get(self.read(base)), get(self.read(copy)), get(self.read(ctx.path("src.1CD")))
            may = {t for w, p, o, i, s in plan if w == "ib" and s is False and p == "dir" for t in i}
            for t in TABLES:
                if t in may - set(imported):
                    continue
                w = src if t in imported else own
                same(got[t][1:], w[t][1:], "parts of the table %s after %s" % (t, what_))
        elif os.path.isfile(base):
            same(after[os.path.relpath(base, ctx.dir)], before[os.path.relpath(base, ctx.dir)], "database file after " + what_)
        stray = [f for f in after if f not in before and not any(f == a or f.startswith(a + os.sep) for a in allowed)]
        expect(not stray, "files outside the destinations after %s: %r" % (what_, stray))
        for f in before:
            if f != os.path.relpath(base, ctx.dir) and not any(f == os.path.relpath(p[2], ctx.dir) and p[1] == "file" for p in plan):
                same(after.get(f), before[f], "%s after %s" % (f, what_))
        return sorted(labels)

    @staticmethod
    def read(f):
        expect(os.path.isfile(f), "the file %s is missing" % f)
        return open(f, "rb").read()

    @staticmethod
    def unprivileged(ctx):
        from vp.exe import run_user
        return bool(run_user(ctx.root))

    def nontrivial(self, case, labels):
        return len(labels) > 1


CHECK = C()
