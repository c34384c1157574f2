"""D02: the dump of a depot version is the state of the configuration at that version."""
import os, random
from hypothesis import strategies as st
from vp.engine import Check, expect, same
from vp import cf, conf, depot
from vp.base import script, ok


@st.composite
def cases(draw, tier):
    h = draw(depot.history(tier, 5 if tier == "quick" else 12))
    asks = draw(st.lists(st.tuples(st.integers(0, 9), st.integers(0, 5)).map(list), min_size=1, max_size=3))
    snaps = draw(st.lists(st.tuples(st.integers(0, 9), st.sampled_from([1, 1, 2]), st.tuples(st.integers(0, 9), st.sampled_from([0, 1, 40, 3000, 70000])).map(list), st.sampled_from([0, 0, 1, 2, 3])).map(list), max_size=2))
    return [h, asks, snaps, draw(st.integers(0, 5))]


class C(Check):
    id = "D02"
    rule = ("depots of every supported layout (8.0.3 to 8.3.8, depot formats 3, 5, 6, 7) with 1..8 versions, up to 12 objects with up to 5 changes each (added, changed, removed, added again), attached files inherited or changed, "
            "data inside the tables, in loose files or in packs, rows in any physical order with deleted rows between; snapshots present, damaged or absent; dumps into new and into existing files. "
            "Non-trivial: a dump holding an object that was changed or removed at another version.")
    quick, thorough = 400, 8000

    def strategy(self, tier):
        return cases(tier)

    def run(self, case, ctx):
        h, asks, snaps, scatter = case
        d = depot.Depot(h)
        labels = set()
        held = {}
        for vi, kind, c, damage in snaps:
            vn = d.versions[vi % len(d.versions)]
            if kind == 2 and damage == 3:
                damage = 1
            data = conf.content(*c)
            d.snapshot(vn, kind, data, damage)
            held[vn] = None if damage else data
        p = d.write(ctx, "d", scatter)
        asked, outs, ops = [], [], [("open", p, "0")]
        for i, (vi, mode) in enumerate(asks):
            vn = d.versions[vi % len(d.versions)]
            n = vn
            if mode == 1:
                n = vi % len(d.versions) - len(d.versions) + 1
            out = ctx.path("out%d.cf" % i)
            if mode == 2:
                with open(out, "wb") as f:
                    f.write(b"\xff" * random.Random(vi).choice([0, 10, 200000]))
            if mode == 3 and outs:
                out = outs[-1]
            ops.append(("depot", out, str(n)))
            asked.append(vn)
            outs.append(out)
            if mode != 3:
                continue
        res = script(ctx, ops)
        ok(res[0], "opening the depot")
        final = {}
        for vn, out, r in zip(asked, outs, res[1:]):
            same(ok(r, "dump of version %d" % vn), b"1", "result of the dump of version %d" % vn)
            final[out] = vn
        for out, vn in final.items():
            raw = open(out, "rb").read()
            if held.get(vn) is not None:
                labels.add("snapshot")
                same(raw, held[vn], "dump of a version with a snapshot")
                continue
            d.check_dump(raw, vn, expect, same)
            state = d.at(vn)
            for oid, evs in d.events.items():
                if oid in state and len(evs) > 1:
                    labels.add("changed")
                if any(e[1] for e in evs):
                    labels.add("removed now" if oid not in state else "removed at another version")
                if oid in state and state[oid][2]:
                    labels.add("attached files")
                    if any(not x[2] for e in evs for x in e[5] if e[2] == state[oid][0]):
                        labels.add("inherited file")
            labels.add("8.0" if d.old else "hashes" if d.hashes else "inline")
        return sorted(labels)

    def nontrivial(self, case, labels):
        return "changed" in labels or "removed now" in labels


CHECK = C()
