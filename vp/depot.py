"""Configuration depots: a history of objects, its ten tables, the data outside the database file, and what a dump must contain."""
import hashlib, os, random, struct, uuid, zlib
from hypothesis import strategies as st
from . import onecd, tabs, cf, conf
from checks.d04 import write_store

B16 = lambda n, null=0: [n, "B", null, 16, 0, "CS"]
N10 = lambda n: [n, "N", 0, 10, 0, "CS"]
L = lambda n, null=0: [n, "L", null, 0, 0, "CS"]
DT = lambda n, null=0: [n, "DT", null, 0, 0, "CS"]
NVC = lambda n, ln, null=0: [n, "NVC", null, ln, 0, "CI"]
NT = lambda n: [n, "NT", 1, 0, 0, "CI"]
HASH = ["DATAHASH", "B", 1, 20, 0, "CS"]

FIELDS = dict(
    DEPOT=[B16("DEPOTID"), B16("ROOTOBJID"), DT("CREATEDATE"), ["DEPOTVER", "B", 0, 8, 0, "CS"]],
    USERS=[B16("USERID"), NVC("NAME", 256), ["PASSWORD", "NC", 0, 32, 0, "CI"], L("REMOVED")],
    OBJECTS=[B16("OBJID"), B16("CLASSID"), N10("SELFVERNUM"), L("REVISED", 1)],
    VERSIONS=[N10("VERNUM"), B16("USERID"), DT("VERDATE"), ["PVERSION", "B", 0, 8, 0, "CS"], ["CVERSION", "B", 0, 4, 0, "CS"], NVC("CODE", 256, 1), NT("COMMENT"), B16("SNAPSHOTMAKER", 1), ["SNAPSHOTCRC", "B", 1, 4, 0, "CS"]],
    LABELS=[N10("VERNUM"), B16("USERID"), NVC("NAME", 256)],
    HISTORY=[B16("OBJID"), N10("VERNUM"), N10("SELFVERNUM"), B16("OBJVERID"), B16("PARENTID"), B16("OWNERID", 1), NVC("OBJNAME", 256), ["OBJPOS", "N", 0, 6, 0, "CS"], L("REMOVED"), L("DATAPACKED", 1), ["OBJDATA", "I", 1, 0, 0, "CS"]],
    LASTESTVERSIONS=[B16("OBJID"), N10("VERNUM")],
    EXTERNALS=[B16("OBJID"), N10("VERNUM"), NVC("EXTNAME", 128), B16("EXTVERID"), L("DATAPACKED"), ["EXTDATA", "I", 0, 0, 0, "CS"]],
    SELFREFS=[B16("OBJID"), N10("VERNUM"), B16("OBJREF")],
    OUTREFS=[B16("OBJID"), N10("VERNUM"), B16("OBJREF")])
TABLES = list(FIELDS)
SNAP1, SNAP2 = "9eca213772a26b49a093206ea7629574", "78dfdf6f2a06bb46840262145ae55764"


def ms(h):
    return str(uuid.UUID(bytes_le=bytes.fromhex(h)))


def rid(*a):
    return random.Random("id%r" % (a,)).randbytes(16).hex()


# ---------------------------------------------------------------- histories
CONTENT = st.one_of(st.tuples(st.integers(0, 30), st.one_of(st.integers(0, 300), st.sampled_from([0, 1, 1000, 5000]))), st.sampled_from([(1, 10), (2, 10), (4, 100)])).map(list)


@st.composite
def history(draw, tier="quick", objects=5):
    nver = draw(st.sampled_from([4, 3, 5, 2, 6, 8, 1]))
    gaps = draw(st.lists(st.sampled_from([1, 1, 1, 1, 2, 5, 90, 1, 1, 1, 1, 11000]), min_size=nver, max_size=nver))
    ext = st.tuples(st.integers(0, 2), st.booleans(), CONTENT, st.integers(0, 1)).map(list)
    many = st.lists(st.tuples(st.integers(0, 19), st.booleans(), CONTENT, st.integers(0, 1)).map(list), min_size=9, max_size=18, unique_by=lambda e: e[0])
    few = st.lists(ext, max_size=3, unique_by=lambda e: e[0])
    files = st.integers(0, 19).flatmap(lambda k: many if k == 19 else few)
    # version, removal, content, place, attached files
    event = st.tuples(st.integers(0, nver - 1), st.sampled_from([False, False, False, True]), CONTENT, st.integers(0, 2), files).map(list)
    objs = draw(st.lists(st.lists(event, min_size=1, max_size=6, unique_by=lambda e: e[0]), min_size=draw(st.integers(1, max(1, objects - 2))), max_size=objects))
    kind = draw(st.sampled_from([("7", "8.3.8.0"), ("5", "8.2.14.0"), ("3", "8.0.5.0"), ("3", "8.0.3.0"), ("3", "8.1.0.0"), ("3", "8.2.0.0"), ("5", "8.1.0.0"), ("6", "8.2.14.0"), ("7", "8.3.8.0"), ("6", "8.2.14.0")]))
    return [list(kind), gaps, objs, draw(st.integers(0, 999)), draw(st.integers(0, 3))]


class Depot:
    """versions: numbers; events: {object id: [(version, removed, object version id, stored, place, [(ext name, ext version id, packed now, stored)])]}"""

    def __init__(self, h):
        (self.fmt, self.ver), gaps, objs, self.seed, self.npacks = h
        rng = self.rng = random.Random(self.seed)
        self.versions, v = [], 0
        for g in gaps:
            v += g
            self.versions.append(v)
        self.hashes = self.fmt >= "6"
        self.old = self.ver.startswith("8.0")
        self.events = {}
        self.removed_rows = rng.randrange(3)
        for k, evs in enumerate(objs):
            oid = rid("obj", self.seed, k)
            alive, ext, out, prev = False, {}, [], None
            for vi, removed, content, place, exts in sorted(evs):
                vn = self.versions[vi]
                if removed:
                    if not alive:
                        continue
                    out.append((vn, True, rid("gone", k, vi), None, 0, [(n, x[0], False, None, 0) for n, x in ext.items()] if self.removed_rows else []))
                    alive, ext = False, {}
                    continue
                new = {}
                for slot, changed, c, pl in exts:
                    name = self.extname(k, slot)
                    if changed or name not in ext:
                        body = self.near(ext[name][2], k + slot, vi) if name in ext else None
                        new[name] = (rid("ext", k, vi, slot), True, body or self.packed(self.payload(c), k + slot), pl if self.hashes else 0)
                    else:
                        new[name] = (ext[name][0], False) + ext[name][2:]
                ext, alive = new, True
                prev = prev and self.near(prev, k, vi) or self.packed(conf.content(*content), k)
                out.append((vn, False, rid("ver", k, vi), prev, int(place > 0) if self.hashes else 0, [(n,) + x for n, x in sorted(ext.items())]))
            if out:
                self.events[oid] = out
        self.root = list(self.events)[0] if self.events and rng.randrange(4) else rid("root", self.seed)
        self.cversion = rng.choice([(216, 0), (216, 1), (106, 0), (300, 65535)]) if self.fmt != "3" else (6, 0) if self.old else (106, 0) if self.ver == "8.1.0.0" else (216, 0)
        self.snaps = {}

    def extname(self, k, slot):
        return conf.guid(5000 + k) + "." + str(slot)

    def packed(self, data, k):
        """some objects are stored without compression"""
        return cf.deflate(data, 0 if (k + self.seed) % 3 == 0 else 6)

    def near(self, stored, k, vi):
        """the same content except for one byte, which changes nothing about the size of the stored form; None if there is none or in most versions"""
        if (k + self.seed) % 3 or (vi * 31 + self.seed // 3) % 2:
            return None
        d = bytearray(cf.inflate(stored))
        if cf.is_container(d) or not d:
            return None
        r = random.Random(k * 100 + vi)
        d[r.choice([-1, -1, r.randrange(len(d)), 0])] ^= 1 + r.randrange(255)
        return None if cf.is_container(d) else cf.deflate(bytes(d), 0)

    def payload(self, c):
        """content of an attached file: bytes or a container"""
        if c[0] % 5 == 4:
            r = random.Random(c[0])
            return cf.build([("text", 1, 2, conf.content(*c)), ("info", 3, 4, b"\xef\xbb\xbf{3,1,0,\"\",0}")], False, c[1], 1, r.randrange(64))
        d = conf.content(*c)
        return b"x" + d if cf.is_container(d) else d

    def snapshot(self, vn, kind, data, damage=0):
        """kind 1: packed, 2: plain; damage 1: checksum, 2: file absent, 3: not packed at all"""
        maker = {1: self.rng.choice([SNAP1, self.root]), 2: SNAP2}[kind]
        body = cf.deflate(data) if kind == 1 else data
        if damage == 3:
            body = b"\xff\xff\xff" + body
        self.snaps[vn] = (maker, zlib.crc32(data) ^ (1 << self.rng.randrange(32) if damage == 1 else 0), None if damage == 2 else body)

    # ------------------------------------------------------------ storage
    def write(self, ctx, name="d", scatter=2):
        rng, seed = self.rng, self.seed
        root = ctx.path(name)
        os.makedirs(root)
        stores = [[] for _ in range(self.npacks + 1)]
        held = set()

        def place(stored, pl):
            """long value, hash"""
            if not pl:
                return stored, None
            h = hashlib.sha1(stored).digest()
            if h not in held:
                held.add(h)
                stores[rng.randrange(len(stores))].append((h, stored))
            return b"", h.hex()

        n = lambda v, w=10: [False, "%0*d" % (w, v)]
        when = lambda: conf.stamp(rng.randrange(1000))
        hist, exts = [], []
        for k, (oid, evs) in enumerate(self.events.items()):
            for s, (vn, removed, vid, stored, pl, ex) in enumerate(evs):
                d, h = (None, None) if removed else place(stored, pl)
                row = [oid, n(vn), n(s + 1), vid, rid("parent", k % 2), None if k % 2 else rid("owner"), "Объект%d" % k, n(k, 6), removed, (None if rng.randrange(2) else False) if removed else True, d or None]
                hist.append(((bytes.fromhex(oid), vn), row + ([h] if self.hashes else [])))
                for en, ev, packed, est, *epl in ex:
                    ed, eh = place(est, epl[0]) if packed else (b"", None)
                    exts.append(((bytes.fromhex(oid), vn, en), [oid, n(vn), en, ev, packed, ed] + ([eh] if self.hashes else [])))
        vers = []
        for vn in self.versions:
            maker, crc, _ = self.snaps.get(vn, (None if rng.randrange(2) else bytes(16).hex(), None, None))
            cv = struct.pack(">HH", *self.cversion).hex()
            vers.append(((vn,), [n(vn), rid("user"), when(), "0008000200130066", cv, "код" if rng.randrange(2) else None, None, maker, None if crc is None else struct.pack("<I", crc).hex()]))
        rows = dict(DEPOT=[((0,), [rid("depot"), self.root, when(), "0%s00000000000000" % self.fmt])], VERSIONS=vers, HISTORY=hist, EXTERNALS=exts,
                    USERS=[((0,), [rid("user"), "Администратор", "d41d8cd9" * 4, False])])
        im = onecd.Img(self.ver, 4096, seed, 2, False)
        names = TABLES[:]
        rng.shuffle(names)
        for name in names:
            fields = FIELDS[name] + ([HASH] if self.hashes and name in ("HISTORY", "EXTERNALS") else [])
            rr = rows.get(name, [])[:]
            rng.shuffle(rr)
            given = []
            order = []
            for key, row in rr:
                if rng.randrange(6) == 0:
                    given.append((1, row))
                order.append((key, len(given)))
                given.append((0, row))
            order = [i for _, i in sorted(order)]
            pk = {"VERSIONS": [[0, 6]], "HISTORY": [[0, 16], [1, 6]], "EXTERNALS": [[0, 16], [1, 6]]}.get(name)
            x = []
            if pk:
                cap = rng.choice([2, 3, 50])
                x = [["PK", 1, pk, seed, cap, 0, order]]
                other = ["OTHER", 0, [pk[-1]], seed + 1, 3, 0, rng.sample(order, len(order))]
                x = [other] + x if rng.randrange(2) else x + [other]
            tabs.Tab(dict(n=name, f=fields, b=[scatter, scatter % 3, scatter % 2 == 1], x=x), self.ver, 4096, seed, given).add(im)
        data = im.build()
        p = os.path.join(root, "1cv8ddb.1CD")
        with open(p, "wb") as f:
            f.write(data)
        os.chmod(p, 0o666)
        if self.hashes:
            write_store(root, stores, seed)
        if self.snaps or rng.randrange(2):
            os.makedirs(os.path.join(root, "cache"))
            for vn, (_, _, body) in self.snaps.items():
                if body is not None:
                    with open(os.path.join(root, "cache", "ddb%05d.snp" % vn), "wb") as f:
                        f.write(body)
        return p

    # ------------------------------------------------------------ oracles
    def at(self, vn):
        """{object: (object version, stored, {ext: (ext version, stored)})} of the objects alive at a version"""
        out = {}
        for oid, evs in self.events.items():
            last = [e for e in evs if e[0] <= vn]
            if last and not last[-1][1]:
                e = last[-1]
                out[oid] = (e[2], e[3], {x[0]: (x[1], x[3]) for x in e[5]})
        return out

    def check_dump(self, raw, vn, expect, same):
        state = self.at(vn)
        top = {e[0]: e[3] for e in cf.parse(raw, False)}
        text = lambda b: onecd.brackets(self.utf(b))
        want = {"version", "versions"} | ({"metadata"} if self.old else {"root"})
        for x in state.values():
            want |= set(x[2])
        if not self.old:
            want |= {ms(o) for o in state}
        same(sorted(top), sorted(want), "elements of the dump of version %d" % vn)
        same(self.strip(text(cf.inflate(top["version"]))), [[[str(self.cversion[0]), str(self.cversion[1])]]], "element version")
        vids = {}
        for o, (vid, stored, ex) in state.items():
            if not self.old:
                same(top[ms(o)], stored, "content of object " + ms(o))
                vids[ms(o)] = ms(vid)
            for en, (ev, est) in ex.items():
                same(top[en], est, "content of attached file " + en)
                vids[en] = ms(ev)
        if self.old:
            meta = {e[0]: e[3] for e in cf.parse(cf.inflate(top["metadata"]), False)}
            same(sorted(meta), sorted(["root"] + [ms(o) for o in state]), "elements of metadata in the dump of version %d" % vn)
            for o, (vid, stored, ex) in state.items():
                same(meta[ms(o)], cf.inflate(stored), "content of object " + ms(o))
            r = self.strip(text(meta["root"]))[0]
            same(r[:3], ["1", ms(self.root), str(len(state))], "element root")
            same(dict(zip(r[3::2], r[4::2])), {ms(o): ms(x[0]) for o, x in state.items()}, "objects in root")
        else:
            same(self.strip(text(cf.inflate(top["root"])))[0], ["2", ms(self.root)], "element root")
        v = self.strip(text(cf.inflate(top["versions"])))[0]
        n = (len(v) - 2) // 2
        same(v[:2], ["1", str(n)], "element versions")
        got = dict(zip(v[2::2], v[3::2]))
        service = {"", "version", "versions"} | (set() if self.old else {"root"})
        same(sorted(got), sorted(service | set(vids)), "names in versions")
        same({k: x for k, x in got.items() if k not in service}, vids, "versions of the elements")
        ids = [got[k] for k in sorted(service)]
        expect(len(set(ids)) == len(ids) and all(len(x) == 36 for x in ids), "identifiers of service files: %r" % ids)

    def part(self, a, b):
        """a dump of the versions a..b: (changed files {name: content}, files that may be present, deleted names, names that may be listed)"""
        files, may, gone, maybe = {}, {}, set(), set()
        for oid, evs in self.events.items():
            before = [e for e in evs if e[0] < a]
            within = [e for e in evs if a <= e[0] <= b]
            if not within:
                continue
            e = within[-1]
            r = before[-1] if before else None
            if e[1]:
                names = [ms(oid)] + [x[0] for x in e[5]]
                if r and not r[1]:
                    gone.update(names)
                elif r:
                    maybe.update(names)
                continue
            data = cf.inflate(e[3])
            if r is None or r[1] or r[3] != e[3]:
                files[ms(oid)] = data
            elif any(x[1] for x in within) or (r[4] > 0) != (e[4] > 0):
                may[ms(oid)] = data
            for name, verid, packed, stored, *_ in e[5]:
                news = [x for y in within for x in y[5] if x[0] == name and x[1] == verid and x[2]]
                if news:
                    files[name] = cf.inflate(stored)
        return files, may, gone, maybe

    def check_part(self, out, a, b, expect, same):
        files, may, gone, maybe = self.part(a, b)
        got = {}
        for d, _, names in os.walk(out):
            for n in names:
                p = os.path.join(d, n)
                got[os.path.relpath(p, out)] = open(p, "rb").read()
        listed = got.pop("deleted", None)
        what = "versions %d..%d" % (a, b)
        names = listed.decode("utf-8-sig").replace("\r\n", "\n").split("\n")[:-1] if listed else []
        same(len(set(names)), len(names), "repeated deleted names, " + what)
        same(sorted(set(names) - maybe), sorted(gone - maybe), "deleted names, " + what)
        if self.old:
            got = {k[9:] if k.startswith("metadata/") else k: x for k, x in got.items()}
        want, opt = {}, {}
        for src, dst in ((files, want), (may, opt)):
            for n, x in src.items():
                if n in gone or not cf.is_container(x) or n.count(".") == 0:
                    dst[n] = x
                else:
                    for en, _, _, ed in cf.parse(x, False):
                        dst[n + "/" + en] = ed
        same(sorted(set(got) - set(opt)), sorted(want), "files, " + what)
        for n, x in got.items():
            same(x, want[n] if n in want else opt[n], "content of %s, %s" % (n, what))

    @staticmethod
    def utf(b):
        if not b.startswith(b"\xef\xbb\xbf"):
            raise onecd.Bad("text without a byte order mark: %r" % b[:20])
        return b.decode("utf-8-sig")

    @staticmethod
    def strip(t):
        """bracket tree with kinds of values removed"""
        return [Depot.strip(x) if isinstance(x, list) else x[1] if isinstance(x, tuple) else x for x in t]
