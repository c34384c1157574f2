"""D03: partial dumps of a range of depot versions."""
import os
from hypothesis import strategies as st
from vp.engine import Check, expect, same
from vp import depot
from vp.base import script, ok


@st.composite
def cases(draw, tier):
    h = draw(depot.history(tier, 5 if tier == "quick" else 12))
    ranges = draw(st.lists(st.tuples(st.integers(0, 7), st.integers(0, 7), st.integers(0, 3)).map(list), min_size=1, max_size=3))
    return [h, ranges, draw(st.integers(0, 5))]


class C(Check):
    id = "D03"
    rule = ("depots of every supported layout with 1..8 versions, up to 12 objects with up to 5 changes each (added, changed, rewritten unchanged, removed, added again), attached files inherited or changed, plain files and containers, "
            "data inside the tables, in loose files or in packs; ranges of one or several versions given in either order, by number or from the last, into new and into existing directories. "
            "Non-trivial: a range that changes some objects and leaves others alone, or removes one.")
    quick, thorough = 400, 8000

    def strategy(self, tier):
        return cases(tier)

    def run(self, case, ctx):
        h, ranges, scatter = case
        d = depot.Depot(h)
        p = d.write(ctx, "d", scatter)
        v = d.versions
        ops, plan, labels = [("open", p, "0")], [], set()
        for k, (i, j, mode) in enumerate(ranges):
            a, b = v[i % len(v)], v[j % len(v)]
            out = ctx.path("out%d" % k)
            if mode == 1:
                os.makedirs(out)
            x, y = (str(v.index(t) - len(v) + 1) if mode == 2 else str(t) for t in (a, b))
            ops.append(("depotpart", out, x, y))
            plan.append((min(a, b), max(a, b), out))
        res = script(ctx, ops)
        ok(res[0], "opening the depot")
        for (a, b, out), r in zip(plan, res[1:]):
            same(ok(r, "dump of versions %d..%d" % (a, b)), b"1", "result of the dump of versions %d..%d" % (a, b))
            d.check_part(out, a, b, expect, same)
            files, may, gone, maybe = d.part(a, b)
            objs = {depot.ms(o) for o in d.events}
            if gone:
                labels.add("removed")
            if set(files) & objs and objs - set(files):
                labels.add("some changed")
            if set(files) - objs:
                labels.add("attached files")
            if may:
                labels.add("unchanged content")
        labels.add("8.0" if d.old else "hashes" if d.hashes else "inline")
        return sorted(labels)

    def nontrivial(self, case, labels):
        return "removed" in labels or "some changed" in labels


CHECK = C()
