"""Independent reader and writer of 1CD databases (written from the format, not from the code under test)."""
import random, re, struct


class Bad(Exception):
    pass


def brackets(text):
    """text of nested {...} lists -> nested python lists; quoted strings become ('s', value)"""
    out, stack, i, n = [], [], 0, len(text)
    cur = out
    while i < n:
        c = text[i]
        if c == "{":
            new = []
            cur.append(new)
            stack.append(cur)
            cur = new
            i += 1
        elif c == "}":
            cur = stack.pop()
            i += 1
        elif c == '"':
            j, v = i + 1, []
            while True:
                k = text.index('"', j)
                v.append(text[j:k])
                if text[k + 1:k + 2] == '"':
                    v.append('"')
                    j = k + 2
                else:
                    i = k + 1
                    break
            cur.append(("s", "".join(v)))
        elif c in ", \r\n\t\ufeff":
            i += 1
        else:
            m = re.compile(r"[^,{}]*").match(text, i)
            cur.append(m.group().strip())
            i = m.end()
    return out


class Obj:
    def __init__(self, block):
        self.block, self.len, self.maps, self.pages, self.version = block, 0, [], [], (0, 0, 0)


class Reader:
    """strict: any page used twice, or a page number out of range, is an error"""

    def __init__(self, data):
        self.d = data
        if data[:8] != b"1CDBMSV8":
            raise Bad("signature")
        self.ver = ".".join(str(x) for x in data[8:12])
        self.length, self.first, ps = struct.unpack_from("<IiI", data, 12)
        self.new = self.ver == "8.3.8.0"
        self.ps = ps if self.new else 4096
        if len(data) != self.length * self.ps:
            raise Bad("file length %d is not %d pages of %d" % (len(data), self.length, self.ps))
        self.owner = {0: "header"}
        self.objects = {}
        self.free = []
        self.free_map = []
        self.slots = []  # (position in the file, owner) of every page number of an object in use
        self._free()
        self.root = self.obj(2, "root")

    def page(self, n):
        if not 0 < n < self.length:
            raise Bad("page number %d of %d" % (n, self.length))
        return self.d[n * self.ps:(n + 1) * self.ps]

    def claim(self, n, who):
        if not 0 < n < self.length:
            raise Bad("%s: page number %d of %d" % (who, n, self.length))
        if n in self.owner:
            raise Bad("page %d belongs to %s and to %s" % (n, self.owner[n], who))
        self.owner[n] = who

    def _free(self):
        self.claim(1, "free list")
        p = self.page(1)
        if self.new:
            if p[:2] != b"\x1c\xff":
                raise Bad("free list header")
            fatlevel, n, ver = struct.unpack_from("<hII", p, 2)
            blocks = struct.unpack_from("<%dI" % (self.ps // 4 - 3), p, 12)
        else:
            if p[:8] != b"1CDBOBV8":
                raise Bad("free list header")
            n = struct.unpack_from("<I", p, 8)[0]
            blocks = struct.unpack_from("<1018I", p, 24)
        self.free_len = n
        per = self.ps // 4
        for b in blocks:
            if not b:
                break
            self.claim(b, "free list page")
            self.free_map.append(b)
        if n > per * len(self.free_map):
            raise Bad("free list of %d pages has %d list pages" % (n, len(self.free_map)))
        for i in range(n):
            self.free.append(struct.unpack_from("<I", self.page(self.free_map[i // per]), i % per * 4)[0])
        for f in self.free:
            self.claim(f, "free")

    def obj(self, block, who):
        o = Obj(block)
        self.claim(block, who)
        p = self.page(block)
        if self.new:
            if p[:2] != b"\x1c\xfd":
                raise Bad("%s: page %d is not an object" % (who, block))
            o.fat = struct.unpack_from("<h", p, 2)[0]
            o.version = struct.unpack_from("<III", p, 4)
            o.len = struct.unpack_from("<Q", p, 16)[0]
            blocks = struct.unpack_from("<%dI" % (self.ps // 4 - 6), p, 24)
            per = self.ps // 4
        else:
            if p[:8] != b"1CDBOBV8":
                raise Bad("%s: page %d is not an object" % (who, block))
            o.fat = 1
            o.len = struct.unpack_from("<I", p, 8)[0]
            o.version = struct.unpack_from("<III", p, 12)
            blocks = struct.unpack_from("<1018I", p, 24)
            per = 1023
        n = -(-o.len // self.ps)
        self.slots += [(block * self.ps + 24 + 4 * i, who) for i in range(n if o.fat == 0 else -(-n // per))]
        if o.fat == 0:
            if n > len(blocks):
                raise Bad("%s: %d pages in one level" % (who, n))
            o.pages = list(blocks[:n])
            rest = blocks[n:]
        else:
            m = -(-n // per)
            if m > len(blocks):
                raise Bad("%s: %d map pages" % (who, m))
            o.maps = list(blocks[:m])
            rest = blocks[m:]
            for i, mp in enumerate(o.maps):
                self.claim(mp, who + " map")
                q = self.page(mp)
                k = min(per, n - i * per)
                self.slots += [(mp * self.ps + (0 if self.new else 4) + 4 * j, who) for j in range(k)]
                if self.new:
                    o.pages += struct.unpack_from("<%dI" % k, q)
                else:
                    num = struct.unpack_from("<i", q)[0]
                    if num != k:
                        raise Bad("%s: map page %d counts %d pages instead of %d" % (who, mp, num, k))
                    o.pages += struct.unpack_from("<%dI" % k, q, 4)
        o.rest = [x for x in rest if x]
        for x in o.pages:
            self.claim(x, who + " data")
        o.data = b"".join(self.page(x) for x in o.pages)[:o.len]
        self.objects[block] = o
        return o

    def lost(self):
        return [i for i in range(self.length) if i not in self.owner]

    def tables(self):
        """[(name, description text, descr object or None, data, blob, index objects or None)]"""
        r = self.root.data
        out = []
        if self.new:
            rd = blob(r, 1)
            self.lang = rd[:32].split(b"\0")[0].decode()
            n = struct.unpack_from("<i", rd, 32)[0]
            nums = struct.unpack_from("<%di" % n, rd, 36)
        else:
            k = 8 if self.ver in ("8.0.3.0", "8.0.5.0") else 32
            self.lang = r[:k].split(b"\0")[0].decode()
            n = struct.unpack_from("<i", r, k)[0]
            nums = struct.unpack_from("<%di" % n, r, k + 4)
        for b in nums:
            if self.new:
                t, d = blob(r, b).decode("utf-8-sig"), None
            else:
                d = self.obj(b, "descr")
                t = d.data.decode("utf-16le").lstrip("\ufeff")
            f = brackets(t)[0]
            name = f[0][1]
            if d:
                for p in [d.block] + d.maps + d.pages:
                    self.owner[p] = name + " " + self.owner[p]
            files = [int(x) for x in f[5][1:]]
            out.append((name, t, d) + tuple(self.obj(x, name + " " + w) if x else None for x, w in zip(files, ("data", "blob", "index"))))
        return out


def blob(data, start, length=None):
    out, seen, b = [], set(), start
    while b:
        if b in seen or (b + 1) * 256 > len(data):
            raise Bad("long value chain at %d" % b)
        seen.add(b)
        nxt, ln = struct.unpack_from("<Ih", data, b * 256)
        if ln > 250:
            raise Bad("long value block length %d" % ln)
        out.append(data[b * 256 + 6:b * 256 + 6 + ln])
        b = nxt
    r = b"".join(out)
    return r


# ---------------------------------------------------------------- writer
VERSIONS = ["8.0.3.0", "8.0.5.0", "8.1.0.0", "8.2.0.0", "8.2.14.0", "8.3.8.0"]


class Img:
    """A database under construction. Objects are numbered in order of creation; their pages are placed by a seeded permutation,
    pages left over become the free list."""

    def __init__(self, ver="8.3.8.0", ps=4096, seed=0, spare=3, stale=False, lang="ru_RU"):
        self.ver, self.new = ver, ver == "8.3.8.0"
        self.ps = ps if self.new else 4096
        self.rng = random.Random(seed)
        self.spare, self.stale, self.lang = spare, stale, lang
        self.objs = []
        self.tabs = []
        self.extra_free_lists = 0

    def obj(self, data, fat=None, version=None):
        """data: bytes, or a function of (block number of object) -> bytes"""
        self.objs.append([data, fat, version or (self.rng.randrange(1, 9), self.rng.randrange(9), 0), None])
        return len(self.objs) - 1

    def table(self, text, data=b"", blob=None, index=None):
        """text: function (data block, blob block, index block) -> description"""
        ids = [self.obj(data), None if blob is None else self.obj(blob), None if index is None else self.obj(index)]
        self.tabs.append((text, ids))
        return len(self.tabs) - 1

    def maps(self, n, fat):
        if not self.new:
            return -(-n // 1023)
        if fat is None:
            fat = 0 if n <= self.ps // 4 - 6 else 1
        return -(-n // (self.ps // 4)) if fat else 0

    def pages_of(self, ln, fat):
        n = -(-ln // self.ps)
        return n + self.maps(n, fat)

    def build(self):
        ps, per = self.ps, self.ps // 4
        descrs = []
        def texts(num):
            return [t(*[num(i) if i is not None else 0 for i in ids]) for t, ids in self.tabs]
        if self.new:
            def rootdata(num):
                bl = BlobFile(self.rng)
                nums = [None] * len(self.tabs)
                st = bl.reserve()
                k = 36 + 4 * len(self.tabs)
                for i, t in enumerate(texts(num)):
                    nums[i] = bl.add(t.encode("utf-8"))
                bl.put(st, self.lang.encode().ljust(32, b"\0") + struct.pack("<i%di" % len(nums), len(nums), *nums))
                return bl.bytes()
        else:
            descrs = [None] * len(self.tabs)
            k = 8 if self.ver in ("8.0.3.0", "8.0.5.0") else 32
            for i in range(len(self.tabs)):
                descrs[i] = self.obj((lambda i: lambda num: texts(num)[i].encode("utf-16le"))(i))
            def rootdata(num):
                return self.lang.encode().ljust(k, b"\0") + struct.pack("<i%di" % len(descrs), len(descrs), *[num(d) for d in descrs])
        state = self.rng.getstate()
        size = lambda d: len(d(lambda i: 99999999)) if callable(d) else len(d)
        need = 3 + sum(1 + self.pages_of(size(d), f) for d, f, v, _ in self.objs)
        self.rng.setstate(state)
        need += self.pages_of(len(rootdata(lambda i: 99999999)), None)
        self.rng.setstate(state)
        need += self.extra_free_lists
        total = need + self.spare + (1 if self.spare and not self.extra_free_lists else 0)
        while True:     # room for the list of free pages
            pool = list(range(3, total))
            break
        self.rng2 = random.Random(self.rng.random())
        self.rng2.shuffle(pool)
        img = bytearray(total * ps)
        for o in self.objs:
            o[3] = pool.pop()
        num = lambda i: self.objs[i][3]
        def place(block, data, fat, version):
            n = -(-len(data) // ps)
            pages = [pool.pop() for _ in range(n)]
            for i, p in enumerate(pages):
                img[p * ps:p * ps + min(ps, len(data) - i * ps)] = data[i * ps:(i + 1) * ps]
            if self.new:
                if fat is None:
                    fat = 0 if n <= per - 6 else 1
                assert fat or n <= per - 6
                top = pages
                if fat:
                    top = []
                    for i in range(0, n, per):
                        m = pool.pop()
                        struct.pack_into("<%dI" % len(pages[i:i + per]), img, m * ps, *pages[i:i + per])
                        top.append(m)
                struct.pack_into("<2sh3IQ%dI" % len(top), img, block * ps, b"\x1c\xfd", fat, version[0], version[1], version[2], len(data), *top)
            else:
                top = []
                for i in range(0, n, 1023):
                    m = pool.pop()
                    part = pages[i:i + 1023]
                    struct.pack_into("<i%dI" % len(part), img, m * ps, len(part), *part)
                    top.append(m)
                struct.pack_into("<8sI3I%dI" % len(top), img, block * ps, b"1CDBOBV8", len(data), version[0], version[1], version[2], *top)
        place(2, rootdata(num), None, (1, 1, 0))
        for d, f, v, b in self.objs:
            place(b, d(num) if callable(d) else d, f, v)
        # free list
        lists = []
        while pool and -(-(len(pool)) // per) > len(lists):
            lists.append(pool.pop())
        for _ in range(self.extra_free_lists):
            if pool:
                lists.append(pool.pop())
        assert len(pool) <= per * len(lists)
        free = pool[:]
        for i, m in enumerate(lists):
            part = free[i * per:(i + 1) * per]
            if self.stale and len(part) < per:
                part = part + [self.rng2.randrange(3, total) for _ in range(min(5, per - len(part)))]
            struct.pack_into("<%dI" % len(part), img, m * ps, *part)
        if self.stale:
            for p in free:
                img[p * ps:p * ps + 64] = self.rng2.randbytes(64)
        if self.new:
            struct.pack_into("<2shII%dI" % len(lists), img, ps, b"\x1c\xff", 0, len(free), self.rng2.randrange(1, 9), *lists)
        else:
            struct.pack_into("<8sIIII%dI" % len(lists), img, ps, b"1CDBOBV8", len(free), self.rng2.randrange(1, 9), self.rng2.randrange(1, 9), 0, *lists)
        v = [int(x) for x in self.ver.split(".")]
        struct.pack_into("<8s4BIi", img, 0, b"1CDBMSV8", *v, total, 1)
        if self.new:
            struct.pack_into("<I", img, 20, ps)
        return bytes(img)


class BlobFile:
    """Long-value file: 256-byte blocks, block 0 heads the chain of free blocks; values scattered over a random order of blocks."""

    def __init__(self, rng, scatter=0, holes=0, short=False):
        self.rng, self.scatter, self.short = rng, scatter, short
        self.blocks = [None]
        self.pool = []
        self.freed = []
        if holes:
            for _ in range(holes):
                self.blocks.append(None)
                self.freed.append(len(self.blocks) - 1)

    def _take(self):
        if not self.pool:
            k = max(1, self.scatter)
            self.pool = list(range(len(self.blocks), len(self.blocks) + k))
            self.blocks += [None] * k
            self.rng.shuffle(self.pool)
        return self.pool.pop()

    def reserve(self):
        assert len(self.blocks) == 1
        self.blocks.append(None)
        return 1

    def put(self, first, data):
        parts = []
        p = 0
        while p < len(data) or not parts:
            n = 250 if not self.short else self.rng.choice([250, 250, 250, self.rng.randrange(1, 251)])
            parts.append(data[p:p + n])
            p += n
        b = first
        for i, part in enumerate(parts):
            nxt = self._take() if i + 1 < len(parts) else 0
            self.blocks[b] = struct.pack("<Ih", nxt, len(part)) + part.ljust(250, b"\0")
            b = nxt

    def add(self, data):
        if not data:
            return 0
        b = self._take()
        self.put(b, data)
        return b

    def bytes(self):
        free = sorted(self.freed + self.pool)
        chain = [0] + free
        for a, b in zip(chain, chain[1:] + [0]):
            self.blocks[a] = struct.pack("<Ih", b, 0).ljust(256, b"\0")
        return b"".join(self.blocks)


# ---------------------------------------------------------------- tables
def quote(s):
    return '"' + s.replace('"', '""') + '"'


def size_of(f):
    name, typ, null, ln, prec = f[:5]
    return (1 if null else 0) + {"B": ln, "L": 1, "N": (ln + 2) >> 1, "NC": 2 * ln, "NVC": 2 * ln + 2, "RV": 16, "NT": 8, "T": 8, "I": 8,
                                 "DT": 7, "VB": ln + 2}[typ]


def order(fields):
    return [i for i, f in enumerate(fields) if f[1] == "RV"] + [i for i, f in enumerate(fields) if f[1] != "RV"]


def hidden(fields, lock):
    return 8 if lock and not any(f[1] == "RV" for f in fields) else 0


def record_len(fields, lock=False):
    return max(5, 1 + hidden(fields, lock) + sum(size_of(f) for f in fields))


def offsets(fields, lock=False):
    out, p = {}, 1 + hidden(fields, lock)
    for i in order(fields):
        out[i] = p
        p += size_of(fields[i])
    return out


def bcd_number(ln, prec, digits, negative):
    """digits: exactly ln decimal digits"""
    assert len(digits) == ln
    nib = [0 if negative else 1] + [int(c) for c in digits]
    nib += [0] * (((ln + 2) >> 1) * 2 - len(nib))
    return bytes(nib[i] << 4 | nib[i + 1] for i in range(0, len(nib), 2))


def number_text(ln, prec, digits, negative):
    """plain decimal text of the number"""
    a, b = digits[:ln - prec].lstrip("0"), digits[ln - prec:].rstrip("0") if prec else ""
    s = (a or "0") + ("." + b if b else "")
    return ("-" if negative and s != "0" else "") + s


def encode(f, v, blobs=None):
    """stored form of value v (None = null) of field f"""
    name, typ, null, ln, prec = f[:5]
    if v is None:
        assert null
        return bytes(size_of(f))
    if typ == "B":
        b = bytes.fromhex(v)
        assert len(b) == ln
    elif typ == "L":
        b = bytes([1 if v else 0])
    elif typ == "N":
        b = bcd_number(ln, prec, v[1], v[0])
    elif typ == "NC":
        b = v.encode("utf-16le")
        b += b" \0" * (ln - len(b) // 2)
        assert len(b) == 2 * ln
    elif typ == "NVC":
        b = v.encode("utf-16le")
        assert len(b) <= 2 * ln
        b = struct.pack("<h", len(b) // 2) + b + b" \0" * (ln - len(b) // 2)
    elif typ == "RV":
        b = struct.pack("<4i", *v)
    elif typ in ("NT", "T", "I"):
        b = struct.pack("<II", blobs.add(v), len(v))
    elif typ == "DT":
        b = bytes.fromhex(v)
        assert len(b) == 7
    elif typ == "VB":
        b = bytes.fromhex(v)
        assert len(b) <= ln
        b = struct.pack("<h", len(b)) + b.ljust(ln, b"\0")
    return (b"\1" if null else b"") + b


def encode_record(fields, values, blobs=None, lock=False):
    out = bytearray(b"\0" + b"\0" * hidden(fields, lock))
    for i in order(fields):
        out += encode(fields[i], values[i], blobs)
    return bytes(out.ljust(5, b"\0"))


def description(name, fields, indexes=(), lock=False):
    """function (data, blob, index) -> text; index: (name, primary, [(field, len), ...])"""
    fs = ",\n".join('{%s,%s,%d,%d,%d,%s}' % (quote(f[0]), quote(f[1]), 1 if f[2] else 0, f[3], f[4], quote(f[5] if len(f) > 5 else "CS")) for f in fields)
    ix = "".join(",\n{%s,%d,%s}" % (quote(i[0]), 1 if i[1] else 0, ",".join("{%s,%d}" % (quote(a), b) for a, b in i[2])) for i in indexes)
    return lambda d, b, x: '{%s,0,\n{"Fields",\n%s\n},\n{"Indexes"%s},\n{"Recordlock","%d"},\n{"Files",%d,%d,%d}\n}' % (quote(name), fs, ix, 1 if lock else 0, d, b, x)
