"""C01: dump of the database configuration."""
from hypothesis import strategies as st
from vp.engine import Check, expect, same
from vp import onecd, conf, cf
from vp.base import script, ok, put


def file_strategy(tier):
    size = st.one_of(st.integers(1, 40), st.integers(1, 3000), st.sampled_from([250, 251, 500, 4096, 20000] if tier == "quick" else [250, 251, 500, 4096, 20000, 300000]))
    version = st.tuples(st.integers(0, 999), size, st.sampled_from([1, 1, 2, 3, 7])).map(list)
    # original, listed updates, updates not listed, waiting version
    return st.tuples(st.integers(0, len(conf.NAMES) - 1), st.one_of(st.none(), version, version, version), st.lists(st.tuples(st.integers(0, 4), version).map(list), max_size=2),
                     st.one_of(st.none(), st.none(), version), st.one_of(st.none(), st.none(), version), st.integers(0, 9)).map(list)


@st.composite
def cases(draw, tier):
    ver = draw(st.sampled_from(onecd.VERSIONS))
    ps = draw(st.sampled_from([4096, 8192])) if ver == "8.3.8.0" else 4096
    files = draw(st.lists(file_strategy(tier), max_size=7, unique_by=lambda f: f[0]))
    return [ver, ps, draw(st.integers(0, 999)), draw(st.booleans()), draw(st.integers(0, 5)), draw(st.lists(st.integers(0, 4), max_size=4, unique=True)), draw(st.integers(0, 2)), files, draw(st.booleans())]


def fill(table, files, dyn, want, new=False, gone=()):
    """writes the files of a database configuration; dyn: list of indices of applied updates or None; new: waiting versions are in force; gone: names not expected"""
    labels = set()
    for idx, original, updates, stale, waiting, noise in files:
        name = conf.NAMES[idx]
        done = set()
        best = -1
        def put_(fname, v):
            data = conf.stored(name, conf.content(v[0], v[1]))
            return (data,) + table.add(fname, data, v[2], v[0])
        if original:
            want[name] = put_(name, original)
        for k, v in updates:
            if k in done:
                continue
            done.add(k)
            listed = k in (dyn or [])
            if not listed and not original:
                continue
            r = put_(conf.updated(name, conf.DYN[k]), v)
            if listed:
                labels.add("update")
                if dyn.index(k) > best:
                    best = dyn.index(k)
                    want[name] = r
        if name in want:
            if stale:
                put_(conf.updated(name, conf.guid(900)), stale)
                labels.add("stale")
            if waiting:
                r = put_(name + ".new", waiting)
                if new:
                    want[name] = r
                    labels.add("waiting")
            if name in gone:
                del want[name]
                labels.add("deleted")
        if noise == 0:
            table.add(name, b"removed", 1, 5, removed=True)
        if any(v and v[2] > 1 for v in [original] + [u[1] for u in updates]) and table.partno:
            labels.add("parts")
    return labels


class C(Check):
    id = "C01"
    rule = ("configurations of up to 7 files of ordinary and special names, stored packed or plain in 1..7 parts with records in any order, with updates in force, updates no longer listed, versions waiting, removed records; the dump is "
            "read by an independent container reader. Non-trivial: at least one file.")
    quick, thorough = 700, 15000

    def strategy(self, tier):
        return cases(tier)

    def run(self, case, ctx):
        ver, ps, seed, partno, scatter, dyn, dynmode, files, twice = case
        t = conf.Files("CONFIG", partno, seed)
        want = {}
        if dynmode:
            t.add("DynamicallyUpdated", conf.dynamically_updated([conf.DYN[k] for k in dyn]), 1 if dynmode == 1 else 3, 3)
        labels = fill(t, files, dyn if dynmode else None, want)
        other = conf.Files("CONFIGSAVE", partno, seed)
        other.add("root", b"must not be here", 1, 1)
        p = put(ctx, "x.1CD", conf.infobase(ver, ps, seed, [t, other], scatter=scatter))
        out = ctx.path("out.cf")
        if seed % 4 == 0:
            ctx.write("out.cf", b"an older file" * (1 + 5000 * (seed % 8)))
        ops = [("open", p, 0), ("config", out)] + ([("config", out)] if twice else [])
        for r in script(ctx, ops):
            ok(r, "dump")
        same(r[2:], b"1", "result of the dump")
        got = cf.parse(ctx.read("out.cf"), False)
        conf.compare(got, want, "dumped configuration", expect, same)
        return sorted(labels) + (["files"] if want else [])

    def nontrivial(self, case, labels):
        return "files" in labels


CHECK = C()
