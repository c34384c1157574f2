"""X03: names stored in the data never lead output out of the chosen directory."""
import os, random
from collections import Counter
from hypothesis import strategies as st
from vp.engine import Check, expect, same
from vp import cf, conf, depot, onecd, tabs
from vp.base import script, ok, put
from checks import c04, k02

# @ stands for the (absolute) scratch directory of the case
EVIL = ["../x", "../../x", "../../../x", "..", ".", "/", "@/evil", "@", "a/b", "a/../../x", "a/../b", "..\\x", "a\\b", "@\\evil", "x/", "@/x", "./x", "x/..", "../out/x", "../outer/x", "..//x", "dir/../../keep", "../keep", "@/keep", "a\0/../b"]
TAME = ["a_b", "a", "b", ".._x", "x", "module", "..x", "x..", "...", "a b", "Имя", "_x", "__", "._", "a_b_2"]
NAME = st.one_of(st.sampled_from(EVIL), st.sampled_from(EVIL), st.sampled_from(TAME))


@st.composite
def cases(draw, tier):
    kind = draw(st.sampled_from(["container", "container", "tables", "vendors", "part"]))
    seed = draw(st.integers(0, 999))
    names = draw(st.lists(NAME, min_size=1, max_size=6, unique_by=lambda s: s.lower()))
    if kind == "container":
        body = [draw(st.sampled_from(["file", "file", "dir"])) for _ in names]
        spec = [body, draw(st.lists(NAME, min_size=1, max_size=3, unique_by=lambda s: s.lower()))]
    elif kind == "vendors":
        spec = [draw(NAME) for _ in names]
    elif kind == "part":
        spec = draw(depot.history(tier, 3))
    else:
        spec = draw(st.sampled_from(["eax", "ex", "eb", "ebib"]))
    return [kind, seed, names, spec]


class Depot(depot.Depot):
    names = []

    def extname(self, k, slot):
        n = self.names[(k * 3 + slot) % len(self.names)]
        return n + ("_%d_%d" % (k, slot) if (k * 3 + slot) >= len(self.names) else "")


def snapshot(root, skip):
    out = {}
    for d, ds, fs in os.walk(root):
        ds[:] = [x for x in ds if os.path.join(d, x) not in skip]
        for x in ds:
            out[os.path.join(d, x)] = None
        for x in fs:
            p = os.path.join(d, x)
            if p not in skip:
                out[p] = open(p, "rb").read() if os.path.isfile(p) and not os.path.islink(p) else b"?"
    return out


def contents(root):
    return Counter(open(os.path.join(d, f), "rb").read() for d, _, fs in os.walk(root) for f in fs)


class C(Check):
    id = "X03"
    rule = ("containers (nested), tables, vendor configurations and attached files of depots whose names hold path separators of both kinds, parent directories, absolute paths, zero characters and names of "
            "files existing outside, beside ordinary ones; unpacked, exported to XML and binary form (and imported), extracted and partially dumped into a directory three levels deep: nothing outside it may change or appear, and, "
            "where the operation reports success, the contents are all in it. Non-trivial: at least one name with a separator or a parent directory.")
    quick, thorough = 300, 6000

    def strategy(self, tier):
        return cases(tier)

    def run(self, case, ctx):
        kind, seed, names, spec = case
        r = random.Random(seed)
        here = lambda n: n.replace("@", ctx.dir)
        names = [here(n) for n in names]
        deep = ctx.path("w", "outer", "inner")
        out = os.path.join(deep, "out")
        os.makedirs(out)
        for d in (ctx.path("w"), ctx.path("w", "outer"), deep, out):
            os.chmod(d, 0o777)
            for k in ("keep", "keep.xml", "x", "keep.cf"):
                if d != out:
                    p = os.path.join(d, k)
                    with open(p, "wb") as f:
                        f.write(b"untouched")
                    os.chmod(p, 0o666)
        put(ctx, "keep", b"untouched")
        os.chmod(ctx.dir, 0o777)
        want = None
        skip = {out}
        if kind == "container":
            bodies, inner = spec
            ents, want = [], Counter()
            for i, (n, b) in enumerate(zip(names, bodies)):
                if b == "file":
                    data = b"file %d %d" % (i, seed)
                    want[data] += 1
                else:
                    sub = [(here(x), 1, 2, b"inner %d %d" % (i, j)) for j, x in enumerate(inner)]
                    want.update(x[3] for x in sub)
                    data = cf.build(sub, False, seed, 1, 0)
                ents.append((n, 630000000000000, 630000000000000, data))
            p = put(ctx, "c.cf", cf.build(ents, True, seed, 1, 0))
            before = snapshot(ctx.dir, skip)
            res = k02.run_script(ctx.ex, [(["open", "name", p], b""), (["todir", "", out], b""), (["close"], b"")])
            done = res[0] == b"ok1" and res[1][:2] == b"ok"
            expect(res[0] == b"ok1", "the container was not opened: %r", res[0][:100])
        elif kind == "tables":
            names = [n.replace("\0", "") for n in names]
            names = [n for i, n in enumerate(names) if n.lower() not in [m.lower() for m in names[:i]]]
            im = onecd.Img("8.3.8.0", 4096, seed, 2, False)
            for i, n in enumerate(names):
                tabs.Tab(dict(n=n, f=[["ID", "N", 0, 5, 0, "CS"]], b=[0, 0, False], x=[["PK", 1, [[0, 5]], 1, 10, 0]]), "8.3.8.0", 4096, i, [(0, [[False, "%05d" % (10000 + i)]])]).add(im)
            p = put(ctx, "b.1CD", im.build())
            if spec == "ebib":
                skip.add(p)
            before = snapshot(ctx.dir, skip)
            args = {"eax": ["-eax", out], "ex": ["-ex", out, "*"], "eb": ["-eb", out, "*"], "ebib": ["-eb", out, "*"]}[spec]
            rc, _ = ctx.ctool(p, *args, cwd=deep)
            done = rc == 0
            if spec == "ebib":
                rc, _ = ctx.ctool(p, "-ib", out, "*", cwd=deep)
                done = done and rc == 0
            if done and spec in ("ex", "eax"):
                got = contents(out)
                flat = Counter(n.replace("/", "_").replace("\\", "_") + ".xml" for n in names)
                if max(flat.values()) == 1:
                    for i in range(len(names)):
                        same(sum(c for t, c in got.items() if b"<ID>%d</ID>" % (10000 + i) in t), 1, "exported files with the record of table %r" % names[i])
        elif kind == "vendors":
            t, e = conf.Files("CONFIG", True, seed), conf.Files("CONFIGSAVE", True, seed)
            datas = set()
            for i, (n, v) in enumerate(zip(names, spec)):
                n, v = n.replace("\0", ""), here(v).replace("\0", "")
                data = c04.embedded(n, "supplier", v, 37, i, False, 1, 0, 1, False)
                datas.add(data)
                t.add(conf.guid(1000 + i) + "." + conf.guid(2000 + i), cf.deflate(cf.deflate(data)), 1, i)
            p = put(ctx, "b.1CD", conf.infobase("8.3.8.0", 4096, seed, [t, e]))
            before = snapshot(ctx.dir, skip)
            rc, _ = ctx.ctool(p, "-dvc", out, cwd=deep)
            done = rc == 0
            got = contents(out)
            expect(set(got) <= datas, "a file which is no vendor configuration was written")
            if done:
                expect(sum(got.values()) >= 1, "no vendor configuration was written though success was reported")
        else:
            Depot.names = [n.replace("\0", "") for n in names]
            d = Depot(spec)
            p = d.write(ctx, "d", 0)
            a, b = d.versions[seed % len(d.versions)], d.versions[-1]
            before = snapshot(ctx.dir, skip)
            res = script(ctx, [("open", p, "0"), ("depotpart", out, str(a), str(b))])
            ok(res[0], "opening the depot")
            done = res[1][:2] == b"ok"
        after = snapshot(ctx.dir, skip)
        for q in sorted(set(before) | set(after)):
            if os.path.relpath(q, ctx.dir).split("/")[0] in ("tmp", "stderr.txt"):
                continue
            rel = os.path.relpath(q, ctx.dir)
            expect(q in before, "%s appeared outside the chosen directory %s", rel, os.path.relpath(out, ctx.dir))
            expect(q in after, "%s outside the chosen directory disappeared", rel)
            expect(before[q] == after[q], "%s outside the chosen directory was changed", rel)
        if done and want is not None:
            same(contents(out), want, "contents unpacked")
        return [kind, "done" if done else "refused"] + (["evil"] if any(set("/\\") & set(n) or n in (".", "..") for n in names) else [])

    def nontrivial(self, case, labels):
        return "evil" in labels


CHECK = C()
