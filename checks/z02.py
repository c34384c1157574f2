"""Z02: streams against one model, a growable byte array with a position."""
from hypothesis import strategies as st
from vp.engine import Check, expect, same


def filler(n, m):
    return bytes(((i * 7 + i // 251 + m) & 255) for i in range(n))


class Model:
    def __init__(self):
        self.d = bytearray()
        self.p = 0

    def write(self, b):
        if b:
            if self.p > len(self.d):
                self.d += bytes(self.p - len(self.d))
            self.d[self.p:self.p + len(b)] = b
            self.p += len(b)
        return str(len(b)).encode()

    def read(self, n):
        b = bytes(self.d[self.p:self.p + n]) if n > 0 else b""
        self.p += len(b)
        return b

    def seek(self, p):
        if p < 0 or p > len(self.d):
            return b"exc"
        self.p = p
        return str(p).encode()


def apply(ms, op):
    k, s = op[0], op[1]
    m = ms[s]
    if k in ("w", "wb", "ws", "wv"):
        return m.write(bytes.fromhex(op[2]))
    if k == "W":
        return m.write(filler(op[2], op[3]))
    if k in ("r", "rb", "rv"):
        n = op[2]
        if k == "rv" and n <= 0:
            n = len(m.d)                # whole size requested
        b = m.read(n)
        return str(len(b)).encode() + b":" + b
    if k == "sb":
        return m.seek(op[2])
    if k == "sc":
        return m.seek(m.p + op[2])
    if k == "se":
        return m.seek(len(m.d) - op[2])
    if k == "sp":
        m.p = min(op[2], len(m.d))
        return str(m.p).encode()
    if k == "size":
        n = op[2]
        m.d = bytearray(m.d[:n]) + bytes(max(0, n - len(m.d)))
        m.p = min(m.p, n)
        return str(n).encode()
    if k == "c":
        src = ms[op[2]]
        if op[3] == 0:
            src.p = 0
            b = src.read(len(src.d))
        else:
            b = src.read(op[3])
        return m.write(b)
    if k == "close":
        return b"closed"


small = st.binary(max_size=12).map(bytes.hex)
SIZE = st.one_of(st.integers(0, 12), st.integers(0, 200), st.sampled_from([4095, 4096, 4097, 8191, 8192, 10000]))


def ops(n):
    s = st.integers(0, n - 1)
    off = st.one_of(st.integers(0, 12), SIZE)
    return st.one_of(
        st.tuples(st.sampled_from(["w", "wb", "ws", "wv"]), s, small),
        st.tuples(st.just("W"), s, SIZE, st.integers(0, 255)),
        st.tuples(st.sampled_from(["r", "r", "rb", "rv"]), s, SIZE),
        st.tuples(st.just("sb"), s, off),
        st.tuples(st.just("se"), s, off),
        st.tuples(st.just("sc"), s, st.one_of(st.integers(-12, 12), st.integers(-200, 200))),
        st.tuples(st.just("sp"), s, off),
        st.tuples(st.just("size"), s, SIZE),
        st.tuples(st.just("c"), s, s, SIZE).filter(lambda t: t[1] != t[2]),
        st.tuples(st.just("close"), s)).map(list)


class C(Check):
    id = "Z02"
    rule = ("histories of up to 30 operations (writes in four forms, reads in three, seeks from three origins incl. out of range, resizes, "
            "copies between streams, close) over 2..3 streams of the kinds memory, temporary file, disk file, in one or two sessions for "
            "disk files. Non-trivial: some bytes written and at least one seek, resize or copy after it.")
    quick, thorough = 1500, 60000

    def strategy(self, tier):
        # position beyond the end is only reachable by SetPosition; the model clamps, so generated positions are resolved modulo size+1
        return st.tuples(st.text("mtf", min_size=2, max_size=3), st.integers(0, 30)).flatmap(
            lambda t: st.tuples(st.just(t[0]), st.lists(ops(len(t[0])), min_size=1, max_size=max(1, t[1])),
                                st.lists(ops(len(t[0])), max_size=6))).map(list)

    def run(self, case, ctx):
        kinds, h1, h2 = case
        ms = [Model() for _ in kinds]
        labels = []
        for h in (h1, h2):
            script, want, desc = [], [], []
            for op in h:
                op = list(op)
                if op[0] == "close" and kinds[op[1]] == "m":
                    op[0] = "sp"
                    op.append(0)
                if op[0] == "sp":
                    op[2] = op[2] % (len(ms[op[1]].d) + 1)
                w = apply(ms, op)
                m = ms[op[1]]
                script.append(" ".join(str(x) for x in op))
                want.append(w + b"|%d|%d" % (len(m.d), m.p))
                desc.append(op)
                labels.append(op[0])
            r = ctx.ex.call("stream.run", kinds, ctx.path("s"), *script)
            for i, w in enumerate(want):
                same(r[i], w, "result|size|position of operation %d %s on a %s stream after %s" % (i + 1, desc[i], {"m": "memory", "t": "temporary", "f": "disk"}[kinds[desc[i][1]]], desc[max(0, i - 4):i]))
            for i, m in enumerate(ms):
                same(r[len(want) + i], bytes(m.d), "content of stream %d (%s)" % (i, kinds[i]))
                if kinds[i] == "f":
                    same(ctx.read("s%d" % i), bytes(m.d), "bytes of disk file %d" % i)
            if not h2:
                break
            nm = []
            for i, m in enumerate(ms):
                n = Model()
                if kinds[i] == "f":
                    n.d = m.d
                nm.append(n)
            ms = nm
        return sorted(set(labels)) + ["kind-" + k for k in sorted(set(kinds))]

    def nontrivial(self, case, labels):
        w = next((i for i, o in enumerate(case[1]) if o[0] in ("w", "wb", "ws", "wv", "W") and o[2]), None)
        return w is not None and any(o[0] in ("sb", "sc", "se", "size", "c") for o in case[1][w + 1:])


CHECK = C()
