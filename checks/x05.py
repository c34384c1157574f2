"""X05: what stood at the place of an output before does not show in the output, and files that are not part of it stay."""
import os, random
from hypothesis import strategies as st
from vp.engine import Check, expect, same
from vp import onecd, depot, tabs, cf
from checks import s05, l06, c01, c04

WHAT = {"plain": ["eax", "ex", "eb", "sts", "slo"], "tables": ["eax", "eax", "ex", "eb"], "infobase": ["config", "configsave", "all", "vendors", "eax"], "depot": ["depot", "depot", "part", "part", "eax"]}


@st.composite
def infobase(draw):
    return [draw(st.sampled_from(onecd.VERSIONS)), draw(st.integers(0, 999)), draw(st.booleans()), draw(st.integers(0, 5)), draw(st.lists(c01.file_strategy("quick"), max_size=4, unique_by=lambda f: f[0])),
            [[v[0][:20], v[1], v[2][:20]] + v[3:] for v in map(list, draw(st.lists(c04.vendor(), max_size=2)))]]


@st.composite
def cases(draw, tier):
    kind = draw(st.sampled_from(["plain", "tables", "tables", "infobase", "depot", "depot"]))
    if kind == "plain":
        one = st.integers(0, 9999)
    elif kind == "tables":
        one = tabs.databases(tabs.table_strategy(1, 5, None, 2, 5, 60, p_many=2), 3)
    elif kind == "infobase":
        one = infobase()
    else:
        one = depot.history(tier, 3)
    mode = draw(st.sampled_from(["junk", "junk", "other", "again", "reduced"]))
    return [kind, draw(one), draw(one) if mode == "other" else None, draw(st.sampled_from(WHAT[kind])), mode, draw(st.integers(0, 9999)), draw(st.integers(0, 9999))]


class C(Check):
    id = "X05"
    rule = ("plain databases, databases of any tables, infobases with vendor configurations and depots; one export or extraction run into an empty directory and again into one holding, in the places of its files, shorter, longer and equal files, containers with other "
            "elements, the output of the same command for another database, for the same one, or the output itself with bytes changed. The output must be the same and every other file must stay. Non-trivial: at least one file stood in the place of an output.")
    quick, thorough = 150, 3000

    def strategy(self, tier):
        return cases(tier)

    def run(self, case, ctx):
        kind, spec, other, what, mode, level, seed = case
        rng = random.Random(seed * 10000 + level)

        def make(spec, name):
            if kind == "plain":
                os.makedirs(ctx.path(name))
                p = ctx.write(name + "/x.1CD", l06.table_set(what == "slo" and "8.2.14.0" or random.Random(spec).choice(["8.1.0.0", "8.2.14.0", "8.3.8.0"]), spec))
            else:
                p, _, home = s05.CHECK.make(kind, spec, ctx)
                os.rename(home, ctx.path(name))
                p = ctx.path(name, os.path.basename(p))
            os.chmod(p, 0o666)
            return p, depot.Depot(spec).versions if kind == "depot" else []

        asfile = seed % 2

        def run(p, versions, out):
            args = {"eax": ["-bf", str(seed % 2), "-pb", str(seed // 2 % 2), "-eax", out], "ex": ["-bf", str(seed % 2), "-ex", out, "*"], "eb": ["-eb", out, "*"], "sts": ["-sts", out + "/sizes.txt"], "slo": ["-slo", out], "config": ["-ddc", out + "/own.cf" if asfile else out],
                    "configsave": ["-dc", out + "/own.cf" if asfile else out], "all": ["-dac", out], "vendors": ["-dvc", out]}.get(what)
            if what == "depot":
                args = ["-drc", str(versions[seed % len(versions)]), out + "/x.cf"]
            elif what == "part":
                a, b = sorted([versions[seed % len(versions)], versions[seed // 10 % len(versions)]])
                args = ["-dpc", "%d:%d" % (a, b), out]
            rc, _ = ctx.ctool("-ne", p, *args)
            return rc

        def place(n):
            out = ctx.path(n)
            os.makedirs(out)
            os.chmod(out, 0o777)
            return out

        def look(d):
            return {n: l06.content(b, what == "depot") if n.endswith(".cf") else b for n, b in l06.tree(d).items()}

        p, versions = make(spec, "one")
        free = place("free")
        if run(p, versions, free):
            return [kind, what, mode, "failed"]
        want, bytes_ = look(free), l06.tree(free)
        out = place("again")
        labels = {kind, what, mode}
        if mode == "other":
            p2, v2 = make(other, "two")
            run(p2, v2, out)
        elif mode == "again":
            run(p, versions, out)
        else:
            for n, b in sorted(bytes_.items()):
                if rng.randrange(5) == 0:
                    continue
                f = os.path.join(out, n)
                os.makedirs(os.path.dirname(f), exist_ok=True)
                k = rng.randrange(6)
                if mode == "reduced":
                    old = b[:rng.randrange(len(b) + 1)] + b"\xee" * rng.randrange(9) + b[rng.randrange(len(b) + 1):]
                elif k == 0:
                    old = b""
                elif k == 1:
                    old = rng.randbytes(rng.randrange(1, 40))
                elif k == 2:
                    old = b + b"tail of an older file\r\n" * rng.choice([1, 1, 500])
                elif k == 3:
                    old = bytes(len(b))
                elif k == 4:
                    old = b"\xff" * (len(b) + rng.choice([1, 16, 100000]))
                else:
                    old = cf.build([("older%d" % i, 10 ** 15, 10 ** 15, rng.randbytes(rng.randrange(3000))) for i in range(rng.randrange(1, 5))], bool(rng.randrange(2)), seed, 2, 1)
                with open(f, "wb") as h:
                    h.write(old)
            for n in ["keep", "root.bak", "a/b/keep.blob"] + [n + ".old" for n in sorted(bytes_)[:2]] + [os.path.join(os.path.dirname(n), "extra") for n in sorted(bytes_)[:2]]:
                if n in bytes_ or any(x.startswith(n + "/") or n.startswith(x + "/") for x in bytes_):
                    continue
                f = os.path.join(out, n)
                os.makedirs(os.path.dirname(f), exist_ok=True)
                with open(f, "wb") as h:
                    h.write(b"keep " + n.encode())
        for q, ds, fs in os.walk(out):
            for x in ds:
                os.chmod(os.path.join(q, x), 0o777)
            for x in fs:
                os.chmod(os.path.join(q, x), 0o666)
        before = look(out)
        if set(before) & set(want):
            labels.add("replaced")
        dirs = lambda names: {os.path.dirname(n)[:k] for n in names for k in [i for i, c in enumerate(n) if c == "/"]}
        if dirs(before) & set(want) or dirs(want) & set(before):
            return [kind, what, mode, "a directory in the place of a file"]
        said = "%s of %s over %s" % (what, kind, {"junk": "other files", "other": "the output for another database", "again": "its own output", "reduced": "its own output with changes"}[mode])
        rc = run(p, versions, out)
        expect(rc == 0, "exit status %d of %s: %s", rc, said, ctx.err[-300:])
        got = look(out)
        same(sorted(got), sorted(set(before) | set(want)), "files after " + said)
        for n in got:
            if n in want:
                same(got[n], want[n], "%s: output file %s" % (said, n))
            else:
                same(got[n], before[n], "%s: other file %s" % (said, n))
        return sorted(labels)

    def nontrivial(self, case, labels):
        return "replaced" in labels


CHECK = C()
