"""C02: dump of the main (edited) configuration."""
from hypothesis import strategies as st
from vp.engine import Check, expect, same
from vp import onecd, conf, cf
from vp.base import script, ok, put
from checks.c01 import file_strategy, fill, cases as base_cases

OWN = [conf.guid(50 + i) for i in range(3)] + [conf.guid(50) + ".0", "added.7", "Новый"]


@st.composite
def cases(draw, tier):
    base = draw(base_cases(tier))
    version = st.tuples(st.integers(0, 999), st.integers(1, 2000), st.sampled_from([1, 1, 2, 5])).map(list)
    # index in the names of the base or of added files
    edits = draw(st.lists(st.tuples(st.integers(0, 40), version).map(list), max_size=4, unique_by=lambda e: e[0]))
    deleted = draw(st.lists(st.integers(0, 3), max_size=3, unique=True))
    return [base, edits, deleted, draw(st.integers(0, 2))]


class C(Check):
    id = "C02"
    rule = ("configurations as for C01 overlaid with up to 4 edited or added files and a list of deleted ones; the dump of the main configuration is read by an independent container reader. Non-trivial: an edit of a file which "
            "the base has, a version waiting in it, or a deletion.")
    quick, thorough = 700, 15000

    def strategy(self, tier):
        return cases(tier)

    def run(self, case, ctx):
        (ver, ps, seed, partno, scatter, dyn, dynmode, files, twice), edits, deleted, delmode = case
        t, e = conf.Files("CONFIG", partno, seed), conf.Files("CONFIGSAVE", bool(seed % 3), seed)
        want = {}
        if dynmode:
            t.add("DynamicallyUpdated", conf.dynamically_updated([conf.DYN[k] for k in dyn]), 1 if dynmode == 1 else 3, 3)
        # files named by an identifier and nothing else can be deleted
        gone = []
        for k in deleted if delmode else []:
            i = [conf.NAMES.index(conf.guid(1)), conf.NAMES.index(conf.guid(2)), conf.NAMES.index(conf.guid(5).upper())][k % 3]
            f = next((f for f in files if f[0] == i), None)
            if f is None:
                files = files + [[i, [seed + k, 30 + seed % 7 * 100, 1 + k], [], None, None, k]]
            elif not f[1] or f[2] or f[3] or f[4]:
                continue
            gone.append(conf.NAMES[i])
        gone = sorted(set(gone))
        labels = fill(t, files, dyn if dynmode else None, want, True, gone)
        names = sorted(set(want) | set(gone))
        over = {}
        for k, v in edits:
            pool = names + OWN
            name = pool[k % len(pool)]
            if name in over or name.swapcase() in over or name in gone:
                continue
            data = conf.stored(name, conf.content(v[0] + 5000, v[1]))
            over[name] = (data,) + e.add(name, data, v[2], v[0] + 31)
            if name in want:
                labels.add("override")
                other = name.swapcase()
                if v[0] % 6 == 0 and other not in want and name.isascii():
                    # the same name in other letters: the edit takes the place of the file all the same
                    over[other] = over.pop(name)
                    want.pop(name)
                    for row in e.rows:
                        row[1][0] = other if row[1][0] == name else row[1][0]
                    labels.add("letters")
        if delmode:
            e.add("Deleted" if seed % 9 == 4 else "deleted", cf.deflate(conf.dynamically_updated(gone + [conf.guid(77)] * (seed % 2))), 1 if delmode == 1 else 2, 9)
        want.update(over)
        p = put(ctx, "x.1CD", conf.infobase(ver, ps, seed, [t, e], scatter=scatter))
        out = ctx.path("out.cf")
        ops = [("open", p, 0)] + ([("config", ctx.path("db.cf"))] if seed % 3 == 0 else []) + [("configsave", out)] + ([("configsave", out)] if twice else [])
        for r in script(ctx, ops):
            ok(r, "dump")
        same(r[2:], b"1", "result of the dump")
        conf.compare(cf.parse(ctx.read("out.cf"), False), want, "dumped main configuration", expect, same)
        return sorted(labels)

    def nontrivial(self, case, labels):
        return bool({"override", "deleted", "waiting"} & set(labels))


CHECK = C()
