"""Generated tables: declarations, records, long values and index trees, with the values an independent reader expects."""
import base64, random, struct, uuid
from xml.sax.saxutils import escape
from hypothesis import strategies as st
from . import onecd

PRES = {"B": "binary", "L": "bool", "N": "number", "NC": "fixed string", "NVC": "string", "RV": "version", "NT": "memo", "T": "text", "I": "image",
        "DT": "datetime", "VB": "var binary", "V8": "hidden version"}
SPECIAL = ["<", ">", "&", '"', "'", " ", "]]>", "\n", "\t", "\r\n", "\r", "&amp;", "{NULL}"]
LETTERS = "abcXYZ019_-.,;:/\\()абвЯЖЁё№€漢é"
NAMES = ["A", "ID", "REF", "FILENAME", "_Fld12", "_IDRRef", "_Code", "_Description", "DataVersion", "Имя", "_Fld7_TYPE", "kind", "_Period", "GUID", "Сумма", "x1", "_Marked", "EXTNAME", "_RecordKind", "VALUE", "Files", "Fields", "Indexes", "Recordlock"]


def guid_1c(b):
    return str(uuid.UUID(bytes=b[12:16] + b[10:12] + b[8:10] + b[0:8]))


def is_guid(f):
    n = f[0].upper()
    return f[1] == "B" and f[3] == 16 and (n.endswith("REF") or n.endswith("ID"))


# ---------------------------------------------------------------- declarations
def field_strategy(types=None, small=False):
    types = types or ["B", "B", "L", "N", "N", "NC", "NVC", "NVC", "RV", "NT", "T", "I", "DT", "VB"]
    big = 12 if small else 60
    # a few fields are much longer than the rest
    long = st.nothing() if small else st.sampled_from([255, 256, 257, 300, 500, 1024])

    def seldom(lens):
        return lens if small else st.integers(0, 15).flatmap(lambda k: long if k == 15 else lens)

    def one(t):
        null = st.integers(0, 1)
        name = st.integers(0, len(NAMES) - 1).map(lambda i: NAMES[i])
        if t == "B":
            lens = st.one_of(st.just(16), seldom(st.integers(1, big)))
        elif t == "N":
            lens = st.integers(1, 38)
        elif t in ("NC", "NVC"):
            lens = seldom(st.one_of(st.integers(1, 10), st.integers(1, big)))
        elif t == "VB":
            lens = seldom(st.integers(1, big))
        else:
            lens = st.just(0)
        return st.tuples(name, st.just(t), null if t != "RV" else st.just(0), lens, st.integers(0, 38), st.sampled_from(["CS", "CI"])).map(fix)

    def fix(f):
        f = list(f)
        f[4] = f[4] % f[3] if f[1] == "N" else 0
        return f
    return st.sampled_from(types).flatmap(one)


def unique(fields):
    """different names for all fields, one record version at most"""
    seen, out, rv = set(), [], False
    for f in fields:
        f = list(f)
        if f[1] == "RV":
            if rv:
                continue
            rv = True
        n, k = f[0], 1
        while n.upper() in seen:
            n = "%s%d" % (f[0], k) if not is_guid(f) else "_%d%s" % (k, f[0])
            k += 1
        f[0] = n
        seen.add(n.upper())
        out.append(f)
    return out


def fields_strategy(lo=1, hi=6, types=None, small=False):
    return st.lists(field_strategy(types, small), min_size=lo, max_size=hi).map(unique).filter(bool)


# ---------------------------------------------------------------- values
def text(r, n):
    """about n characters"""
    out = []
    while len(out) < n:
        k = r.randrange(8)
        if k == 0:
            out += r.choice(SPECIAL)
        elif k == 1:
            out.append(chr(r.choice([r.randrange(0x20, 0x7f), r.randrange(0x400, 0x460), r.randrange(0xa0, 0x3ff), r.randrange(0x3040, 0x9fff), r.randrange(0x20, 0x7f)])))
        elif k == 2:
            out.append(r.choice("😀𝄞𐍈"))
        else:
            out.append(r.choice(LETTERS))
    return "".join(out[:n])


def fit(s, units):
    """longest beginning of s of at most that many UTF-16 units"""
    n = 0
    for i, c in enumerate(s):
        n += 2 if ord(c) > 0xffff else 1
        if n > units:
            return s[:i]
    return s


LONG = [1, 2, 249, 250, 251, 499, 500, 501, 750, 1000, 2500]


def value(f, seed):
    """canonical value number `seed` of field f: None, or str/bool/list/bytes as onecd.encode wants it"""
    name, typ, null, ln, prec = f[:5]
    r = random.Random("%d/%s/%d" % (seed, typ, ln))
    k = seed % 5
    if null and (seed % 3 == 2):
        return None
    if typ == "B":
        return (bytes(ln) if k == 0 else b"\xff" * ln if k == 1 else r.randbytes(ln)).hex()
    if typ == "L":
        return bool(r.randrange(2))
    if typ == "N":
        d = "0" * ln if k == 0 else "9" * ln if k == 1 else "".join(r.choice("0123456789") for _ in range(ln))
        if k == 3:
            z = r.randrange(ln)
            d = "0" * z + d[z:]
        if k == 4:
            z = r.randrange(ln)
            d = d[:z] + "0" * (ln - z)
        return [bool(r.randrange(2)) and d.strip("0") != "", d]
    if typ in ("NC", "NVC"):
        s = fit("" if k == 0 else text(r, r.choice([ln, ln, r.randrange(ln + 1)])), ln)
        if typ == "NC":
            s += " " * (ln - len(s.encode("utf-16le")) // 2)
        return s
    if typ == "RV":
        return [r.choice([0, 1, 2**31 - 1, -2**31, -1, r.randrange(-2**31, 2**31)]) for _ in range(4)]
    if typ in ("NT", "T", "I"):
        n = 0 if k == 0 else r.choice(LONG + [r.randrange(1, 1200)]) if k == 1 else r.randrange(0, 40)
        if k == 1 and r.randrange(50) == 0:
            n = r.choice([32767, 32768, 65535, 65536, 70001])
        if typ == "I":
            return r.randbytes(n)
        s = text(r, n)
        return s.encode("utf-16le" if typ == "NT" else "utf-8")
    if typ == "DT":
        y, m = r.choice([1, 999, 2000, 1999, 9999, r.randrange(1, 10000)]), r.randrange(1, 13)
        return "%04d%02d%02d%02d%02d%02d" % (y, m, r.randrange(1, 29), r.randrange(24), r.randrange(60), r.randrange(60))
    if typ == "VB":
        n = r.choice([0, ln, r.randrange(ln + 1)])
        return (b"\0" * n if k == 0 else r.randbytes(n)).hex()
    raise AssertionError(typ)


def presentation(f, v):
    """text shown for a value that is not null"""
    name, typ, null, ln, prec = f[:5]
    if typ == "B":
        return guid_1c(bytes.fromhex(v)) if is_guid(f) else v
    if typ == "L":
        return "true" if v else "false"
    if typ == "N":
        return onecd.number_text(ln, prec, v[1], v[0])
    if typ in ("NC", "NVC", "VB"):
        return v
    if typ == "RV":
        return ":".join(str(x) for x in v)
    if typ == "DT":
        return "%s.%s.%s %s:%s:%s" % (v[6:8], v[4:6], v[:4], v[8:10], v[10:12], v[12:14])
    return {"NT": "{MEMO}", "T": "{TEXT}", "I": "{IMAGE}"}[typ]


def xml_value(f, v):
    """what an XML parser must yield for a value that is not null (line breaks of base64 removed)"""
    typ = f[1]
    if typ == "DT":
        return "%s-%s-%sT%s:%s:%s" % (v[:4], v[4:6], v[6:8], v[8:10], v[10:12], v[12:14])
    if typ == "NT":
        return v.decode("utf-16le")
    if typ == "T":
        return v.decode("utf-8")
    if typ == "I":
        return base64.b64encode(v).decode()
    return presentation(f, v)


# ---------------------------------------------------------------- records
# rows: list of [removed, seed], or ["*", count, seed, period of removed ones (0: none)]
def rows_strategy(few=6, many=300, p_many=4):
    row = st.tuples(st.integers(0, 3).map(lambda x: int(x == 3)), st.integers(0, 99)).map(list)
    lst = st.lists(row, max_size=few)
    bulk = st.tuples(st.just("*"), st.integers(0, many), st.integers(0, 999), st.sampled_from([0, 2, 3, 7])).map(list)
    return st.tuples(lst, st.integers(0, p_many), bulk).map(lambda t: t[0] + ([t[2]] if t[1] == 0 else []))


def expand_rows(rows):
    """[(removed, seed)]"""
    out = []
    for r in rows:
        if r[0] == "*":
            q = random.Random(r[2])
            for i in range(r[1]):
                out.append((int(r[3] and q.randrange(r[3]) == 0), q.randrange(1 << 20)))
        else:
            out.append((r[0], r[1]))
    return out


class Tab:
    """One table: d = dict(n=name, l=lock, f=fields, r=rows, x=indexes, b=[scatter, holes, short])
    index: [name, primary, [[field number, length]...], seed, entries per leaf, fill, records in order of the keys (random if absent)]"""

    def __init__(self, d, ver, ps, seed, given=None):
        self.d, self.name, self.lock, self.fields = d, d["n"], bool(d.get("l")), d["f"]
        self.ver, self.ps, self.new = ver, ps, ver == "8.3.8.0"
        self.rng = random.Random(seed)
        b = d.get("b", [0, 0, False])
        self.blobs = onecd.BlobFile(self.rng, *b)
        self.has_blob = any(f[1] in ("NT", "T", "I") for f in self.fields) or bool(d.get("blob"))
        self.values, self.removed, data = [], [], []
        rows = expand_rows(d.get("r", []))
        if given is not None:
            rows = given
        for rem, s in rows:
            vals = [value(f, s + 7 * i) for i, f in enumerate(self.fields)] if isinstance(s, int) else s
            self.values.append(vals)
            self.removed.append(bool(rem))
            rec = bytearray(onecd.encode_record(self.fields, vals, self.blobs, self.lock))
            h = onecd.hidden(self.fields, self.lock)
            if h:
                rec[1:1 + h] = struct.pack("<ii", len(self.values), -3)
            if rem:
                rec[0] = 1
                rec[1:5] = struct.pack("<I", self.rng.randrange(len(rows)))
            data.append(bytes(rec))
        self.records = data
        self.data = b"".join(data)
        self.blob = self.blobs.bytes() if self.has_blob else None
        self.live = [i for i, r in enumerate(self.removed) if not r]
        self.indexes = d.get("x", [])
        self.index, self.orders = None, []
        if self.indexes:
            self.build_index()

    def text(self):
        return onecd.description(self.name, self.fields, [[n, p, [[self.fields[k % len(self.fields)][0], ln] for k, ln in fs]] for n, p, fs, *_ in self.indexes], self.lock)

    def add(self, im):
        return im.table(self.text(), self.data, self.blob, self.index)

    def build_index(self):
        ps = self.ps
        pages = {}
        n = len(self.indexes)
        plan = []
        for name, primary, fs, seed, cap, fill, *given in self.indexes:
            r = random.Random(seed)
            recs = self.live[:]
            r.shuffle(recs)
            if given:           # records in the order of their keys
                recs = list(given[0])
            if fill == 1:       # an index over part of the records
                recs = recs[:len(recs) // 2]
            length = max(1, sum(ln for _, ln in fs))
            keys = index_keys(r, len(recs), length)
            plan.append((length, keys, recs, cap, r))
            self.orders.append(recs)
        head = [0] * (n + 1)
        free = IndexPages(self.rng, n)
        blocks = []
        for i, (length, keys, recs, cap, r) in enumerate(plan):
            root = tree(free, ps, self.new, length, keys, recs, cap, r, pages)
            blocks.append((root, length))
        total = free.total()
        out = bytearray(total * ps)
        starts = [free.heads[i] for i in range(n)]
        for p, b in pages.items():
            out[p * ps:p * ps + len(b)] = b
        unit = 1 if self.new else ps
        for i, s in enumerate(starts):
            root, length = blocks[i]
            struct.pack_into("<Ih", out, s * ps, root * unit, length)
        struct.pack_into("<I%dI" % n, out, 0, free.first_free(), *[s * unit for s in starts])
        self.index = bytes(out)


class IndexPages:
    """page numbers of an index file, handed out in a shuffled order"""

    def __init__(self, rng, n):
        self.rng, self.next, self.pool = rng, 1, []
        self.heads = [self.take() for _ in range(n)]

    def take(self):
        if not self.pool:
            self.pool = list(range(self.next, self.next + 6))
            self.next += 6
            self.rng.shuffle(self.pool)
        return self.pool.pop()

    def total(self):
        return self.next

    def first_free(self):
        return self.pool[-1] if self.pool else 0


def index_keys(r, n, length):
    """n different keys in ascending order (as many as the length allows, then repeated ones)"""
    style = r.randrange(4)
    if style == 0:
        ks = {r.randbytes(length) for _ in range(n)}
    elif style == 1:        # long common beginnings
        ks = {(b"\x41" * length)[:max(0, length - 2)] + r.randbytes(min(2, length)) for _ in range(n)}
    elif style == 2:        # zeros at the end
        ks = {r.randbytes(min(length, 2)) + bytes(max(0, length - 2)) for _ in range(n)}
    else:
        ks = {i.to_bytes(4, "big")[-length:].ljust(length, b"\0") if length < 4 else i.to_bytes(4, "big") + bytes(length - 4) for i in range(n)}
    ks = sorted(ks)
    while len(ks) < n:
        ks.append(r.choice(ks) if ks else bytes(length))
    return sorted(ks)


def bits(n):
    return max(1, n.bit_length())


def leaf(ps, length, keys, recs, prev, nxt, flags, widths=(0, 0, 0, 0)):
    """packed leaf page; widths: extra bits for record number, left, right, and extra bytes. None if it does not fit"""
    mx = max(recs) if recs else 0
    nb, lb, rb = bits(mx) + widths[0], bits(length) + widths[1], bits(length) + widths[2]
    nb = min(nb, 32)
    lb, rb = min(lb, 16), min(rb, 16)
    size = min(-(-(nb + lb + rb) // 8) + widths[3], 8)
    if size * 8 < nb + lb + rb:
        nb, lb, rb = bits(mx), bits(length), bits(length)
        size = -(-(nb + lb + rb) // 8)
    out = bytearray(ps)
    at, tail = 30, ps
    last = None
    for k, n in zip(keys, recs):
        left = 0
        if last is not None:
            while left < length and k[left] == last[left]:
                left += 1
        right = 0
        while right < length - left and k[length - 1 - right] == 0:
            right += 1
        body = k[left:length - right]
        tail -= len(body)
        if at + size > tail:
            return None
        out[tail:tail + len(body)] = body
        v = n | left << nb | right << (nb + lb)
        out[at:at + size] = v.to_bytes(8, "little")[:size]
        at += size
        last = k
    struct.pack_into("<HHIIHIHHHHHH", out, 0, flags, len(recs), prev, nxt, max(0, tail - at), (1 << nb) - 1, (1 << lb) - 1, (1 << rb) - 1, nb, lb, rb, size)
    return bytes(out)


def tree(free, ps, new, length, keys, recs, cap, r, pages):
    """writes the pages of one index tree, returns the number of its root page"""
    unit = 1 if new else ps
    LAST = 0xFFFFFFFF
    cap = max(1, cap)
    groups = []
    i = 0
    while i < len(recs):
        k = min(cap, len(recs) - i)
        while True:
            w = (r.randrange(3), r.randrange(3), r.randrange(3), r.randrange(2))
            if leaf(ps, length, keys[i:i + k], recs[i:i + k], 0, 0, 2, w) is not None:
                break
            k = max(1, k * 3 // 4)
        groups.append((i, k, w))
        i += k
    if not groups:
        p = free.take()
        pages[p] = struct.pack("<HHIIHIHHHHHH", 3, 0, LAST, LAST, ps - 30, 1, 1, 1, 1, 1, 1, 1)
        return p
    nums = [free.take() for _ in groups]
    level = []
    for j, (i, k, w) in enumerate(groups):
        prev = nums[j - 1] * unit if j else LAST
        nxt = nums[j + 1] * unit if j + 1 < len(nums) else LAST
        pages[nums[j]] = leaf(ps, length, keys[i:i + k], recs[i:i + k], prev, nxt, 2 | (1 if len(groups) == 1 else 0), w)
        level.append((keys[i + k - 1], recs[i + k - 1], nums[j]))
    fan = max(2, min((ps - 12) // (length + 8), 2 + r.randrange(40)))
    while len(level) > 1:
        parts = [level[i:i + fan] for i in range(0, len(level), fan)]
        nums = [free.take() for _ in parts]
        up = []
        for j, part in enumerate(parts):
            prev = nums[j - 1] * unit if j else LAST
            nxt = nums[j + 1] * unit if j + 1 < len(nums) else LAST
            b = struct.pack("<HHII", 1 if len(parts) == 1 else 0, len(part), prev, nxt)
            for key, rec, page in part:
                b += key + struct.pack(">II", rec, page * unit)
            assert len(b) <= ps
            pages[nums[j]] = b
            up.append((part[-1][0], part[-1][1], nums[j]))
        level = up
    return level[0][2]


# ---------------------------------------------------------------- whole databases
TABNAMES = ["_T1", "Fields", "Indexes", "_Reference12", "T2", "_Document3_VT4", "_Const", "_UsersStorage", "Acc", "_SYSTEMSETTINGS", "_InfoRg77", "_Ссылка"]


def index_strategy(small=True):
    return st.tuples(st.sampled_from(["PK", "_ByCode", "IDX", "_Поиск"]), st.integers(0, 1),
                     st.lists(st.tuples(st.integers(0, 9), st.integers(1, 12 if small else 60)).map(list), min_size=1, max_size=3),
                     st.integers(0, 999), st.sampled_from([1, 2, 3, 5, 20, 1000]), st.sampled_from([0, 0, 0, 1])).map(list)


def table_strategy(lo=1, hi=6, types=None, indexes=2, few=6, many=300, small=False, names=TABNAMES, p_many=4):
    def mk(t):
        n, l, f, r, x, b = t
        seen, xs = set(), []
        for i in x:
            i = list(i)
            while i[0] in seen:
                i[0] += "2"
            seen.add(i[0])
            if any(y[1] for y in xs):
                i[1] = 0
            xs.append(i)
        return dict(n=n, l=l, f=f, r=r, x=xs, b=b)
    return st.tuples(st.sampled_from(names), st.integers(0, 1), fields_strategy(lo, hi, types, small), rows_strategy(few, many, p_many),
                     st.lists(index_strategy(), max_size=indexes), st.tuples(st.integers(0, 9), st.integers(0, 3), st.booleans()).map(list)).map(mk)


def distinct(tabs):
    seen, out = set(), []
    for t in tabs:
        t = dict(t)
        k = 2
        base = t["n"]
        while t["n"].upper() in seen:
            t["n"] = "%s_%d" % (base, k)
            k += 1
        seen.add(t["n"].upper())
        out.append(t)
    return out


@st.composite
def databases(draw, tables=None, max_tables=2, versions=None):
    ver = draw(st.sampled_from(versions or onecd.VERSIONS + ["8.3.8.0", "8.3.8.0"]))
    ps = draw(st.sampled_from([4096, 4096, 8192, 65536])) if ver == "8.3.8.0" else 4096
    ts = draw(st.lists(tables if tables is not None else table_strategy(), min_size=1, max_size=max_tables).map(distinct))
    return [ver, ps, draw(st.integers(0, 999)), ts]


def build(db, spare=2, lang="ru_RU"):
    ver, ps, seed, ts = db
    im = onecd.Img(ver, ps, seed, spare, False, lang)
    out = [Tab(t, ver, im.ps, seed + i) for i, t in enumerate(ts)]
    for t in out:
        t.add(im)
    return im, out
