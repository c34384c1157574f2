"""T05: sort keys order records the way their values are ordered."""
from hypothesis import strategies as st
from vp.engine import Check, expect, same, short
from vp import onecd, tabs
from vp.base import script, ok, items, put

TYPES = ["N", "N", "N", "B", "L", "DT", "DT"]


def order(f, v):
    """value as something that compares"""
    if v is None:
        return (0,)
    if f[1] == "N":
        x = int(v[1]) * (-1 if v[0] else 1)
        return (1, x)
    if f[1] == "L":
        return (1, int(v))
    return (1, bytes.fromhex(v) if f[1] == "B" else v)


def near(f, v, k):
    """a value close to v"""
    if v is None or k == 0:
        return v
    if f[1] == "N":
        d = int(v[1])
        if k == 1:
            return [not v[0], v[1]]
        d = (d + (1 if k == 2 else -1 if k == 3 else 10 ** (k % f[3]))) % 10 ** f[3]
        return [v[0], str(d).zfill(f[3])]
    if f[1] == "L":
        return not v
    if f[1] == "DT":
        return v[:13] + str((int(v[13]) + 1) % 10) if k % 2 else v[:3] + str((int(v[3]) + 1) % 10) + v[4:]
    b = bytearray.fromhex(v)
    b[k % len(b)] ^= 0x80 if k % 2 else 1
    return b.hex()


@st.composite
def cases(draw):
    fs = draw(tabs.fields_strategy(1, 4, TYPES))
    rows = draw(st.lists(st.tuples(st.integers(0, 99), st.integers(0, 99), st.integers(0, 12), st.booleans()).map(list), min_size=1, max_size=4))
    return [draw(st.sampled_from(onecd.VERSIONS)), fs, rows, draw(st.integers(0, 3))]


class C(Check):
    id = "T05"
    rule = ("tables of 1..4 fields of orderable types (numbers of any length, precision and sign, dates, logical, binary and GUID; nullable or not) and pairs of records that are random, equal or "
            "differ a little (sign, one digit, one bit, one second); keys of fields and keys of an index over the leading fields that fit one. Non-trivial: two different values.")
    quick, thorough = 1200, 40000

    def strategy(self, tier):
        return cases()

    def run(self, case, ctx):
        ver, fs, rows, slack = case
        recs, vals = [], []
        for a, b, k, neg in rows:
            va = [tabs.value(f, a + i) for i, f in enumerate(fs)]
            vb = [near(f, v, k) for f, v in zip(fs, va)] if neg or k else [tabs.value(f, b + i) for i, f in enumerate(fs)]
            if neg and k > 6:       # equal but for the last field
                vb = va[:-1] + vb[-1:]
            vals += [va, vb]
        # two keys and more must fit a page: the index has the leading fields of up to 1900 bytes
        nx = max(n for n in range(len(fs) + 1) if sum(map(onecd.size_of, fs[:n])) <= 1900)
        idx = [["PK", 1, [[i, onecd.size_of(f)] for i, f in enumerate(fs[:nx])], 1, 10, 0]] if nx else []
        T = tabs.Tab(dict(n="_T", l=0, f=fs, x=idx), ver, 4096, 1, [(0, v) for v in vals])
        im = onecd.Img(ver, 4096, 1, 1, False)
        T.add(im)
        p = put(ctx, "x.1CD", im.build())
        ops = [("open", p, 0)]
        for n in range(len(vals)):
            for i, f in enumerate(fs):
                ops.append(("sortkey", 0, i, onecd.size_of(f) + slack, T.records[n]))
            if nx:
                ops.append(("idxkey", 0, 0, n))
        res = script(ctx, ops)
        ok(res[0], "opening")
        it = iter(res[1:])
        keys, ikeys = [], []
        for n in range(len(vals)):
            ks = []
            for i, f in enumerate(fs):
                b = ok(next(it), "sort key")
                ln, _, key = b.partition(b":")
                same(int(ln), onecd.size_of(f), "length of the sort key of %s %s(%d,%d)%s" % (f[0], f[1], f[3], f[4], " null" if f[2] else ""))
                expect(key[onecd.size_of(f):] == bytes(slack), "sort key written past its length")
                ks.append(key[:onecd.size_of(f)])
            keys.append(ks)
            if nx:
                ikeys.append(ok(next(it), "index key"))
        differ = False
        sign = lambda a, b: (a > b) - (a < b)
        for n in range(0, len(vals), 2):
            for m in range(len(vals)):
                for i, f in enumerate(fs):
                    a, b = vals[n][i], vals[m][i]
                    want = sign(order(f, a), order(f, b))
                    differ |= want != 0
                    got = sign(keys[n][i], keys[m][i])
                    same(got, want, "order of the keys %s and %s of values %s and %s, field %s(%d,%d)" % (keys[n][i].hex(), keys[m][i].hex(), a, b, f[1], f[3], f[4]))
                if not nx:
                    continue
                want = sign([order(f, v) for f, v in zip(fs[:nx], vals[n])], [order(f, v) for f, v in zip(fs[:nx], vals[m])])
                same(sign(ikeys[n], ikeys[m]), want, "order of the index keys %s and %s of records %s and %s" % (ikeys[n].hex(), ikeys[m].hex(), vals[n], vals[m]))
        return ["differ"] if differ else []

    def nontrivial(self, case, labels):
        return bool(labels)


CHECK = C()
