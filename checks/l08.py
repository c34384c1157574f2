"""L08: the log file and quiet runs."""
import os, random, shutil
from hypothesis import strategies as st
from vp.engine import Check, expect, same
from vp import depot
from checks import s05, l06, l09


@st.composite
def cases(draw, tier):
    kind, spec = draw(l09.databases(tier))
    cmds = draw(st.lists(st.tuples(st.sampled_from(l09.WHAT[kind] + l09.WHAT["tables"] + ["nodir", "nover", "depot", "config"]), st.integers(0, 999)).map(list), min_size=1, max_size=3))
    options = st.lists(st.sampled_from([["-zz"], ["-nv"], ["-noverbose"], ["-q"], ["-ne"], ["-Ne"], ["second.1CD"], ["-bf", "1"]]), max_size=2)
    return [kind, spec, cmds, draw(options), draw(st.sampled_from(["none", "none", "none", "gone", "bad"])), draw(st.integers(0, 9999))]


NAMES = ["log.txt", "журнал.log", "my log", "x", "a.cf", "d/l.txt"]


class C(Check):
    id = "L08"
    rule = ("databases of tables, infobases, depots and files that are no database; up to 3 commands in one run, failing ones among them, with unknown options and options without effect; run with all messages on the console, quietly, with a log file (new or replacing a "
            "longer or shorter one, relative or absolute, in either spelling of the option and anywhere in the command line) and with both. Non-trivial: the run reports messages before and after opening the database.")
    quick, thorough = 130, 3000

    def strategy(self, tier):
        return cases(tier)

    def run(self, case, ctx):
        kind, spec, cmds, options, damage, seed = case
        rng = random.Random(seed)
        p, _, home = s05.CHECK.make(kind, spec, ctx)
        os.chmod(p, 0o666)
        if damage == "gone":
            p += "x"
        elif damage == "bad":
            ctx.write("bad.1CD", rng.randbytes(rng.choice([0, 10, 4096, 20000])))
            p = ctx.path("bad.1CD")
        versions = depot.Depot(spec).versions if kind == "depot" else []
        place = ctx.path("place")
        args = []
        for k, (what, n) in enumerate(cmds):
            out = os.path.join(place, str(k))
            if what == "nodir":
                args.append(["-eax", os.path.join(place, "no", "such")])
            elif what == "nover":
                args.append(["-drc", "77777", out])
            else:
                args.append(l09.command(what, n, out, versions or [1]))
        given = [[p]] + args + [o for o in options if o[0].lower() not in ("-nv", "-noverbose")]
        rng.shuffle(given)
        names = [x for x in options if x[0].lower() in ("-nv", "-noverbose")]
        quiet = names[0] if names else ["-nV"]
        log = rng.choice(NAMES)
        old = rng.choice([None, b"", b"x", b"\xff\xfe\x00 older messages\n" * 5000])
        absolute = os.path.join(place, log)

        def run(extra):
            shutil.rmtree(place, ignore_errors=True)
            for k in ["d"] + list(range(len(cmds))):
                os.makedirs(os.path.join(place, str(k)))
                os.chmod(os.path.join(place, str(k)), 0o777)
            os.chmod(place, 0o777)
            if old is not None:
                with open(absolute, "wb") as h:
                    h.write(old)
                os.chmod(absolute, 0o666)
            line = list(given)
            for e in extra:
                line.insert(rng.randrange(len(line) + 1), e)
            rc, out = ctx.ctool(*[x for o in line for x in o], cwd=place)
            files = l06.tree(place)
            logged = files.pop(log, None)
            return rc, out, ctx.err, logged, {n: l06.content(b, kind == "depot") if n.lower().endswith(".cf") and n != log else b for n, b in files.items()}

        # messages reported while the command line is read come before the options are known and go to the console
        full = run([])
        rc, out, said, logged, files = full
        same(logged, old, "file of the name of the log in a run without it")
        option = [rng.choice(["-l", "-L", "-logfile", "-LogFile"]), log if rng.randrange(2) else absolute]
        early = run([quiet])
        what = "%r" % [x[:2] for x in given]
        expect(said.startswith(early[2]), "messages of a quiet run of %s are %r, of a full one %r", what, early[2][-200:], said[-200:])
        same((early[0], early[1], early[4]), (rc, out, files), "exit status, help and outputs of a quiet run of " + what)
        first = early[2]
        for l in first.splitlines():
            expect(any(o[0] in ("-zz", "second.1CD") for o in options), "a quiet run of %s says %r", what, l)
        for extra in ([option], [option, quiet]):
            r = run(extra)
            w = "a run of %s with %r" % (what, [e[0] for e in extra])
            same(r[2], first, "messages on the console in " + w)
            expect(r[3] is not None or said == first, "no log file after %s" % w)
            if said != first:
                same(r[3].decode("utf-8", "replace").splitlines(), said[len(first):].splitlines(), "lines of the log of " + w)
            same((r[0], r[1], r[4]), (rc, out, files), "exit status, help and outputs of " + w)
        expect(rc == 0 or said, "exit status %d of %s without a message", rc, what)
        return [kind, damage, "failed" if rc else "succeeded"] + ["early"] * bool(first) + ["late"] * (said != first)

    def nontrivial(self, case, labels):
        return "late" in labels


CHECK = C()
