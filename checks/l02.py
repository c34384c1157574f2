"""L02: the command line is understood in any order, case and spelling."""
import os, random
from hypothesis import strategies as st
from vp.engine import Check, expect, same
from vp import onecd, tabs

# option: spellings, number of arguments
OPTIONS = [("help", "h help ?", 0), ("noverbose", "nv noverbose", 0), ("quit", "q quit", 0), ("exportalltoxml", "eax exportalltoxml", 1), ("blobtofile", "bf blobtofile", 1), ("parseblob", "pb parseblob", 1),
           ("exporttoxml", "ex exporttoxml", 2), ("notexclusively", "ne notexclusively", 0), ("dumpdbconfig", "ddc dumpdbconfig", 1), ("dumpconfig", "dc dumpconfig", 1), ("dumpvendorsconfigs", "dvc dumpvendorsconfigs", 1),
           ("dumpallconfigs", "dac dumpallconfigs", 1), ("dumpdepotconfig", "drc dumpdepotconfig", 2), ("dumppartdepotconfig", "dpc dumppartdepotconfig", 2), ("logfile", "l logfile", 1), ("exporttobinary", "eb exporttobinary", 2),
           ("importfrombinary", "ib importfrombinary", 2), ("savelostobjects", "slo savelostobjects", 1), ("savetablessize", "sts savetablessize", 1)]
WORDS = {w for _, s, _ in OPTIONS for w in s.split()}
TEXT = st.one_of(st.sampled_from(["/tmp/x", "C:\\dir", "a b", "Документы", "*", "_Ref?;Config*", "0", "-1", "-ne", "-3:0", "yes", "x.cf", "a\"b", "'q'", "a,b c", "", "-", "—"]),
                 st.text("abcXYZ .,;*?-_/\\:яЮ\"'=", max_size=12))
ARG = st.tuples(TEXT, st.sampled_from([0, 0, 0, 1, 1, 2, 3, 4])).map(list)
TRUE, FALSE = ["1", "y", "Y", "yes", "Yes", "YES", "д", "да", "Да", "ДА"], ["0", "n", "no", "No", "NO", "нет", "off"]


def quoted(text, mode):
    """(argument as given, expected value)"""
    t = text.strip('"')
    if mode == 1:
        return '"' + t + '"', t
    if mode == 2:               # what a backslash before the closing quote leaves on some systems
        return t + '"', t if t else '"'
    if mode == 3:
        return t + '""', t
    if mode == 4:
        return '"' + t + '""', t
    return t, t


def spell(rng, key):
    w = rng.choice([s for n, s, _ in OPTIONS if n == key][0].split())
    k = rng.randrange(3)
    return "-" + (w if k == 0 else w.upper() if k == 1 else "".join(rng.choice([c, c.upper()]) for c in w))


@st.composite
def cases(draw, tier):
    opts = draw(st.lists(st.tuples(st.integers(0, len(OPTIONS) - 1), ARG, ARG).map(list), max_size=6))
    return [opts, draw(st.one_of(st.none(), st.tuples(ARG, st.integers(0, 6)).map(list))), draw(st.sampled_from([0, 0, 0, 0, 1, 2, 3])), draw(st.integers(0, 99999))]


class C(Check):
    id = "L02"
    rule = ("command lines of up to 6 of the 19 options in every documented spelling and any letter case, arguments plain or quoted, containing blanks, wildcards, Cyrillic letters, inner quotes, leading dashes or nothing, the database name anywhere or absent, "
            "unknown options, a last option without its arguments, a second database name; and complete runs of the program with the same options in two orders and spellings whose results must agree. Non-trivial: two options or a quoted argument.")
    quick, thorough = 1500, 60000

    def strategy(self, tier):
        return cases(tier)

    def run(self, case, ctx):
        opts, name, fault, seed = case
        rng = random.Random(seed)
        parts, want, labels = [], [], set()
        for k, a, b in opts:
            key, _, n = OPTIONS[k]
            given = [quoted(*x) for x in (a, b)[:n]]
            labels.update("quoted" for x in given if x[0] != x[1])
            parts.append([spell(rng, key)] + [g for g, _ in given])
            want.append([key] + [w for _, w in given])
        if len(opts) > 1:
            labels.add("several")
        file, pos = "", None
        if name:
            arg, file = quoted(*name[0])
            if not file or arg.startswith("-"):
                arg, file = "/base.1cd", "/base.1cd"
            pos = name[1] % (len(parts) + 1)
            parts.insert(pos, [arg])
        faulty = False
        if fault == 1:
            w = rng.choice(["-zz", "--help", "-", "-exx", "-exporttoxm", "-е", "-h h", "-1", "-helpp", "-dc "])
            parts.insert(rng.randrange(len(parts) + 1), [w])
            faulty = True
        elif fault == 2 and parts and name is None and len(parts[-1]) > 1:
            cut = rng.randrange(1, len(parts[-1]))
            parts[-1] = parts[-1][:cut]
            want[-1] = want[-1][:cut]
            faulty = True
        elif fault == 3 and name:
            parts.insert(rng.randrange(pos + 1, len(parts) + 1), ["/second.1cd"])
            faulty = True
        argv = [x for p in parts for x in p]
        r = [x.decode("utf-8") for x in ctx.ex.call("cmd.parse", *argv)]
        errors = [m for m in ctx.ex.msgs if m.startswith("4|")]
        what = "command line %r" % argv
        same(r[0], file, "database name, " + what)
        got = [r[i:i + 3] for i in range(1, len(r), 3)]
        same([g[0] for g in got], [w[0] for w in want], "options, " + what)
        for i, (g, w) in enumerate(zip(got, want)):
            same(g[1:len(w)], w[1:], "arguments of option %d, %s" % (i + 1, what))
        expect(bool(errors) == faulty, "%s: errors reported: %r" % (what, errors))
        if faulty:
            labels.add("faulty")
        if seed % 20 == 0:
            self.whole(ctx, rng)
            labels.add("whole runs")
        return sorted(labels)

    def whole(self, ctx, rng):
        fields = [["ID", "N", 0, 5, 0, "CS"], ["T", "NVC", 1, 20, 0, "CI"], ["B", "I", 1, 0, 0, "CS"]]
        ver, im = rng.choice(["8.1.0.0", "8.2.14.0", "8.3.8.0"]), None
        im = onecd.Img(ver, 4096, 1, 2, False)
        for i, n in enumerate(("ALPHA", "_Beta1", "Gamma")):
            tabs.Tab(dict(n=n, f=fields, b=[0, 0, False], x=[["PK", 1, [[0, 5]], 1, 10, 0]]), ver, 4096, i,
                     [(0, [[False, "%05d" % k], "text %d" % k, b"data %d" % k * k or None]) for k in range(4)]).add(im)
        ctx.write("b.1CD", im.build())
        os.chmod(ctx.path("b.1CD"), 0o666)
        settings = [o for o in [["quit"], ["noverbose"], ["notexclusively"], ["logfile", "log"], ["blobtofile", rng.random() < 0.5], ["parseblob", rng.random() < 0.5]] if rng.randrange(2)]
        doing = [o for o in [["savetablessize", "sizes"], ["exporttoxml", "ex", rng.choice(["*", "a*", "beta? gamma", "_beta1,alpha"])], ["exporttobinary", "eb", "*a*"], ["exportalltoxml", "eax"]] if rng.randrange(3)]
        if any(o[0] in ("blobtofile", "parseblob") for o in settings) and ["exportalltoxml", "eax"] not in doing:
            doing.append(["exportalltoxml", "eax"])
        bad = [["-unknown"]] if rng.randrange(4) == 0 else []
        outs = []
        for k in range(2):
            d = ctx.path("run%d" % k)
            for x in ("", "ex", "eb", "eax"):
                os.makedirs(os.path.join(d, x), exist_ok=True)
                os.chmod(os.path.join(d, x), 0o777)
            line = []
            for o in settings + doing + bad + [["../b.1CD"]]:
                o = [rng.choice(TRUE if x else FALSE) if isinstance(x, bool) and k else str(int(x)) if isinstance(x, bool) else x for x in o]
                line.append(o if o[0][0] in ".-" else [spell(rng, o[0]) if k else "-" + o[0]] + ([rng.choice(["%s", '"%s"']) % x for x in o[1:]] if k else o[1:]))
            if k:
                rng.shuffle(line)
            rc, out = ctx.ctool(*[x for p in line for x in p], cwd=d)
            tree = {}
            for q, _, fs in os.walk(d):
                for f in fs:
                    p = os.path.join(q, f)
                    tree[os.path.relpath(p, d)] = open(p, "rb").read() if f not in ("log", "root") else b""
            if ["noverbose"] in settings and not bad:
                same((out, ctx.err), ("", ""), "console output with -noverbose")
            expect((rc != 0) == bool(bad), "exit status %d of %r" % (rc, line))
            outs.append((line, tree))
        same(sorted(outs[0][1]), sorted(outs[1][1]), "files written by %r and by %r" % (outs[0][0], outs[1][0]))
        for f, d in outs[0][1].items():
            same(outs[1][1][f], d, "%s written by %r and by %r" % (f, outs[0][0], outs[1][0]))

    def nontrivial(self, case, labels):
        return "quoted" in labels or "several" in labels


CHECK = C()
