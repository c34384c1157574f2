"""D04: depot objects addressed by hash."""
import hashlib, os, random, struct
from hypothesis import strategies as st
from vp.engine import Check, expect, same
from vp import conf
from vp.base import ok

CONTENT = st.tuples(st.integers(0, 60), st.one_of(st.integers(0, 3000), st.sampled_from([0, 0, 1, 65536, 100000]))).map(list)


@st.composite
def cases(draw, tier):
    npacks = draw(st.integers(0, 3 if tier == "quick" else 6))
    # content, places (bit 0 loose, bit k+1 pack k)
    objects = draw(st.lists(st.tuples(CONTENT, st.integers(1, 2 ** (npacks + 1) - 1)).map(list), max_size=8 if tier == "quick" else 40))
    near = draw(st.lists(st.tuples(st.integers(0, 39), st.integers(0, 19), st.integers(1, 255)).map(list), max_size=4))
    bulk = draw(st.sampled_from([0, 0, 0, 0, 0, 30, 63, 64, 65, 100, 255, 256, 300, 1000]))       # further small objects in the packs
    return [npacks, objects, near, draw(st.integers(0, 999)), draw(st.lists(st.integers(0, 99), max_size=6)), bulk]


def index(records, r, trailer=True):
    b = b"\x11\x22\x33\x44" + struct.pack("<II", r.choice([2, 1, 7]), len(records))
    for h, off in records:
        b += h + struct.pack("<q", off)
    return b + (r.randbytes(40) if trailer else b"")


def write_store(root, stores, seed, junk=True):
    """stores: [[(hash, content)] loose, then per pack]"""
    r = random.Random("pack%d" % seed)
    pd = os.path.join(root, "data", "pack")
    os.makedirs(pd)
    od = os.path.join(root, "data", "objects")
    os.makedirs(od)
    for h, d in stores[0]:
        x = h.hex()
        os.makedirs(os.path.join(od, x[:2]), exist_ok=True)
        with open(os.path.join(od, x[:2], x[2:]), "wb") as f:
            f.write(d)
    for k, objs in enumerate(stores[1:]):
        objs = objs[:]
        r.shuffle(objs)
        body = bytearray(struct.pack("<III", 0x11223344, 1, len(objs)))
        recs = []
        for h, d in objs:
            if r.randrange(4) == 0:
                body += r.randbytes(r.randrange(9))
            recs.append((h, len(body)))
            body += struct.pack("<q", len(d)) + d
        if r.randrange(3):
            recs.sort()
        stem = os.path.join(pd, "pack-" + r.randbytes(20).hex())
        with open(stem + ".pck", "wb") as f:
            f.write(bytes(body) + (r.randbytes(20) if r.randrange(2) else b""))
        with open(stem + ".ind", "wb") as f:
            f.write(index(recs, r, r.randrange(2)))
    if junk and r.randrange(2):
        for n in ("readme.txt", "pack-x.ind.bak", "xpack-1.ind", "pack-x.tmp"):
            with open(os.path.join(pd, n), "wb") as f:
                f.write(b"\xff" * 20)


class C(Check):
    id = "D04"
    rule = ("up to 40 objects of 0..100000 bytes, now and then with up to 1000 small ones, spread over the loose tree and up to 6 packs (in one or several places, indexes sorted or not, gaps, trailers, unrelated files), looked up by present and by absent hashes, among them "
            "hashes differing from present ones in one byte, repeatedly and in any order. Non-trivial: at least one object.")
    quick, thorough = 600, 15000

    def strategy(self, tier):
        return cases(tier)

    def run(self, case, ctx):
        npacks, objects, near, seed, order = case[:5]
        bulk = (case[5:] or [0])[0] if npacks else 0
        held, stores = {}, [[] for _ in range(npacks + 1)]
        labels = set()
        for c, places in objects:
            d = conf.content(c[0], c[1])
            h = hashlib.sha1(d + bytes([c[0]])).digest()
            if h in held:
                continue
            held[h] = d
            for k in range(npacks + 1):
                if places >> k & 1:
                    stores[k].append((h, d))
            labels.add("loose" if places & 1 else "packed")
            if not d:
                labels.add("empty")
        for k in range(bulk):
            d = b"%d/%d" % (seed, k)
            h = hashlib.sha1(d).digest()
            held[h] = d
            stores[1 + k * seed % npacks].append((h, d))
        if bulk:
            labels.add("many")
        root = ctx.path("depot")
        os.makedirs(root)
        if seed % 29 == 0:
            if seed % 2:
                os.makedirs(os.path.join(root, "data", "objects"))
            expect(ctx.ex.attempt("pack.get", root, "00" * 20)[0] == "exc", "a missing pack directory is not reported")
            return []
        write_store(root, stores, seed)
        known = list(held)
        asks = known[:]
        for k, pos, x in near:
            if known:
                h = bytearray(known[k % len(known)])
                h[pos] ^= x
                asks.append(bytes(h))
        asks.append(bytes(20))
        asks += [asks[k % len(asks)] for k in order]
        random.Random(seed).shuffle(asks)
        r = ctx.ex.call("pack.get", root, *[h.hex() for h in asks])
        same(len(r), 2 * len(asks), "answers")
        for i, h in enumerate(asks):
            same(r[2 * i], b"1" if h in held else b"0", "presence of an object")
            same(r[2 * i + 1], held.get(h, b""), "content of an object of %d bytes" % len(held.get(h, b"")))
        return sorted(labels)

    def nontrivial(self, case, labels):
        return bool(labels)


CHECK = C()
