"""D01: requested version numbers of a depot."""
import os
from hypothesis import strategies as st
from vp.engine import Check, expect, same
from vp import conf, depot
from vp.base import script, ok


@st.composite
def cases(draw, tier):
    h = draw(depot.history(tier, 2))
    h[1] = draw(st.lists(st.sampled_from([1, 1, 1, 1, 2, 9, 10, 90, 1000]), min_size=0, max_size=8 if tier == "quick" else 60))
    h[2] = [[e for e in evs if e[0] < len(h[1])] for evs in h[2]]
    h[2] = [e for e in h[2] if e] if h[1] else []
    asks = draw(st.lists(st.tuples(st.one_of(st.integers(-10, 12), st.integers(-70, 2000), st.sampled_from([2 ** 31 - 1, -2 ** 31 + 1, -2 ** 31])), st.sampled_from(["depotver", "depotver", "depot", "depotpart"]), st.integers(-2, 3)).map(list), min_size=1, max_size=8))
    return [h, asks, draw(st.integers(0, 5))]


class C(Check):
    id = "D01"
    rule = ("depots of every supported layout with 0..60 versions numbered with and without gaps, rows in any physical order with deleted rows between; requested numbers existing, absent, zero, negative and extreme, for resolution, whole dumps and "
            "ranges given in either order. Non-trivial: at least one number that names a version and the depot has two versions.")
    quick, thorough = 500, 8000

    def strategy(self, tier):
        return cases(tier)

    def run(self, case, ctx):
        h, asks, scatter = case
        d = depot.Depot(h)
        p = d.write(ctx, "d", scatter)
        v = d.versions
        at = lambda n: n if n in v else None if n > 0 else v[len(v) - 1 + n] if len(v) - 1 + n >= 0 else None
        ops, plan, labels = [("open", p, "0")], [], set()
        for k, (n, op, other) in enumerate(asks):
            if 0 < n <= len(v) and k % 4:
                n = v[n - 1]
            out = ctx.path("out%d" % k)
            if op == "depotver":
                ops.append((op, str(n)))
            elif op == "depot":
                ops.append((op, out, str(n)))
            else:
                m = at(n)
                other = v[(v.index(m) + other) % len(v)] if m and other > 0 else other
                ops.append((op, out, str(n), str(other)))
            plan.append((n, op, other, out))
        res = script(ctx, ops)
        ok(res[0], "opening the depot")
        for (n, op, other, out), r in zip(plan, res[1:]):
            want = at(n)
            what = "%s %d in a depot with versions %r" % (op, n, v[-12:])
            if op == "depotver":
                if n > 0:
                    same(ok(r, what), str(n).encode(), what)
                elif want is None:
                    same(r[:3], b"exc", what)
                else:
                    same(ok(r, what), str(want).encode(), what)
            else:
                if op == "depotpart" and at(other) is None:
                    want = None
                if want is None:
                    same(r[:3], b"exc", what)
                else:
                    same(ok(r, what), b"1", what)
                    if op == "depot":
                        d.check_dump(open(out, "rb").read(), want, expect, same)
                    else:
                        a, b = sorted((at(n), at(other)))
                        d.check_part(out, a, b, expect, same)
            if want is not None and len(v) > 1:
                labels.add(op)
                if n <= 0:
                    labels.add("from the last")
            elif want is None:
                labels.add("absent")
        return sorted(labels)

    def nontrivial(self, case, labels):
        return bool(set(labels) - {"absent"})


CHECK = C()
