"""L01: lists of table names with wildcards."""
import os, random, re
from hypothesis import strategies as st
from vp.engine import Check, expect, same
from vp import onecd, tabs

ALPHA = "abAB_1Яя漢"
NAME = st.one_of(st.text(ALPHA, min_size=1, max_size=5), st.sampled_from(["_Reference1", "_Reference10", "CONFIGX", "ConfigSaveX", "configx1", "v8users", "_Справочник", "a.b", "a+b", "a$", "(a)", "[ab]", "a^b", "a{2}", "a|b", "a\\d", "_REFERENCE1X1", "_漢字1", "𐍈x", "№a"]))
PIECE = st.one_of(st.sampled_from(["*", "?", "**", "?*", "*_*", "_reference*", "_Reference?", "configx*", "??", "*a", "a*b", "*1*", "a.b", ".*", "a+", "a$", "(a)", "[ab]", "^a", "a|b", "a{2}", "\\d", "*я", "?я", "_СПРАВОЧНИК", "_??1", "?x", "?a"]),
                  st.text(ALPHA + "*?", min_size=1, max_size=5))


@st.composite
def cases(draw, tier):
    names = draw(st.lists(NAME, min_size=1, max_size=12, unique_by=lambda n: n.lower()))
    lists = draw(st.lists(st.lists(st.tuples(st.one_of(PIECE, st.integers(0, 11)), st.sampled_from([",", ";", " ", "\t", ", ", " ; ", ",,"])).map(list), max_size=4), min_size=1, max_size=4))
    return [names, lists, draw(st.integers(0, 9999))]


def match(name, pattern):
    """whole-name wildcard match, letter case ignored"""
    n, p = name.lower(), pattern.lower()
    ok = {0}
    for c in p:
        if c == "*":
            ok = set(range(min(ok), len(n) + 1)) if ok else ok
        else:
            ok = {i + 1 for i in ok if i < len(n) and (c == "?" or n[i] == c)}
    return len(n) in ok


class C(Check):
    id = "L01"
    rule = ("bases of up to 12 tables whose names share prefixes, differ in letter case or contain characters special in regular expressions, exported by lists of up to 4 patterns with and without wildcards, separated in every documented way, "
            "to XML and to binary form, and tables replaced from binary form by such lists. Non-trivial: a list that selects some tables and leaves others out.")
    quick, thorough = 400, 8000

    def strategy(self, tier):
        return cases(tier)

    def run(self, case, ctx):
        names, lists, seed = case
        rng = random.Random(seed)
        ver = rng.choice(["8.1.0.0", "8.2.14.0", "8.3.8.0"])
        im = onecd.Img(ver, 4096, seed, 2, False)
        for i, n in enumerate(names):
            tabs.Tab(dict(n=n, f=[["ID", "N", 0, 5, 0, "CS"]], b=[0, 0, False], x=[["PK", 1, [[0, 5]], 1, 10, 0]] if rng.randrange(2) else []), ver, 4096, i, [(0, [[False, "%05d" % i]])]).add(im)
        ctx.write("b.1CD", im.build())
        os.chmod(ctx.path("b.1CD"), 0o666)
        args, plan, labels = ["-ne", "b.1CD"], [], set()
        for k, pieces in enumerate(lists):
            pats, text = [], rng.choice(["", "", " ", ","])
            for p, sep in pieces:
                if isinstance(p, int):
                    p = names[p % len(names)]
                    p = rng.choice([p, p.lower(), p.upper()])
                pats.append(p)
                text += p + sep
            if rng.randrange(2) and pats:
                text = text[:-len(pieces[-1][1])]
            kind = rng.choice(["-ex", "-eb"])
            d = "out%d" % k
            os.makedirs(ctx.path(d))
            os.chmod(ctx.path(d), 0o777)
            args += [kind, d, text]
            plan.append((kind, d, text, pats, sorted(n for n in names if any(match(n, p) for p in pats))))
        rc, _ = ctx.ctool(*args)
        expect((rc != 0) == any(not p[3] for p in plan), "exit status %d of %r" % (rc, args))
        for kind, d, text, pats, want in plan:
            got = sorted(f[:-4] if kind == "-ex" and f.endswith(".xml") else f for f in os.listdir(ctx.path(d)))
            same(got, sorted(n.replace("\\", "_") for n in want), "tables of %r selected by %s %r" % (names, kind, text))
            if want and len(want) < len(names):
                labels.add("some")
                if not set(names) & set(pats):
                    labels.add("by wildcard or case")
            if any(set(p) & set(".+$()[]^|{}\\") for p in pats):
                labels.add("special characters")
        if seed % 4 == 0:
            self.load(ctx, rng, ver, names, plan)
            labels.add("import")
        return sorted(labels)

    def load(self, ctx, rng, ver, names, plan):
        """the tables of a list replaced by those of another database"""
        text, want = rng.choice([(p[2], p[4]) for p in plan])
        for k, where in enumerate(("old.1CD", "new.1CD")):
            im = onecd.Img(ver, 4096, k, 2, False)
            for i, n in enumerate(names):
                tabs.Tab(dict(n=n, f=[["ID", "N", 0, 5, 0, "CS"]], b=[0, 0, False]), ver, 4096, i, [(0, [[False, "%05d" % (i + 100 * k)]])]).add(im)
            ctx.write(where, im.build())
            os.chmod(ctx.path(where), 0o666)
        for d in ("parts", "after"):
            os.makedirs(ctx.path(d))
            os.chmod(ctx.path(d), 0o777)
        rc, _ = ctx.ctool("-ne", "new.1CD", "-eb", "parts", "*")
        same(rc, 0, "exit status of the export")
        rc, _ = ctx.ctool("old.1CD", "-ib", "parts", text)
        expect((rc != 0) == (not text.strip(" ,;\t")), "exit status %d of an import of %r", rc, text)
        rc, _ = ctx.ctool("-ne", "old.1CD", "-eax", "after")
        same(rc, 0, "exit status of the export of the result")
        got = []
        for i, n in enumerate(names):
            x = ctx.read("after/%s.xml" % n.replace("\\", "_"))
            v = int(re.search(rb"<ID>(\d+)</ID>", x).group(1))
            expect(v in (i, i + 100), "table %s has %d after an import", n, v)
            if v > 99:
                got.append(n)
        same(sorted(got), want, "tables of %r replaced by an import of %r" % (names, text))

    def nontrivial(self, case, labels):
        return "some" in labels


CHECK = C()
