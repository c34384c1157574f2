"""Independent reader and writer of 1C container files."""
import random, struct, zlib

LAST = 0x7fffffff


class Bad(Exception):
    pass


def deflate(d, level=6):
    c = zlib.compressobj(level, zlib.DEFLATED, -15)
    return c.compress(d) + c.flush()


def inflate(b):
    o = zlib.decompressobj(-15)
    try:
        d = o.decompress(b)
    except zlib.error as e:
        raise Bad("element is not packed: %s" % e)
    if not o.eof:
        raise Bad("packed element ends early")
    return d


def _block(b, pos, used):
    """data of the page chain at pos; records the pages visited"""
    out = bytearray()
    total = None
    while pos != LAST:
        h = b[pos:pos + 31]
        if len(h) != 31 or h[:2] != b"\r\n" or h[10:11] != b" " or h[19:20] != b" " or h[28:31] != b" \r\n":
            raise Bad("no page header at %d" % pos)
        try:
            ds, ps, nx = int(h[2:10], 16), int(h[11:19], 16), int(h[20:28], 16)
        except ValueError:
            raise Bad("page header at %d is not hexadecimal: %r" % (pos, h))
        if pos in used:
            raise Bad("page at %d belongs to two chains" % pos)
        if pos + 31 + ps > len(b):
            raise Bad("page at %d (+%d) ends after the file (%d)" % (pos, ps, len(b)))
        used[pos] = 31 + ps
        if total is None:
            total = ds
        out += b[pos + 31:pos + 31 + ps]
        pos = nx
    if len(out) < total:
        raise Bad("page chain holds %d of %d bytes" % (len(out), total))
    return bytes(out[:total])


def is_container(b):
    if b == struct.pack("<iiii", LAST, 512, 0, 0):
        return True
    if len(b) < 47:
        return False
    h = b[16:47]
    if not (h[:2] == b"\r\n" and h[10:11] == b" " and h[19:20] == b" " and h[28:31] == b" \r\n"):
        return False
    fr = struct.unpack("<I", b[:4])[0]
    if fr == LAST:
        return True
    if fr + 31 > len(b):
        return False
    h = b[fr:fr + 31]
    return h[:2] == b"\r\n" and h[10:11] == b" " and h[19:20] == b" " and h[28:31] == b" \r\n"


def parse(b, zipped, whole=False):
    """[(name, create, modify, data)]; verifies the structure of the whole file; whole: every page must belong to something"""
    if len(b) < 16:
        raise Bad("file of %d bytes" % len(b))
    free, page, ver, zero = struct.unpack("<iiii", b[:16])
    if len(b) == 16:
        return []
    used = {}
    fat = _block(b, 16, used)
    if len(fat) % 12:
        raise Bad("table of contents has %d bytes" % len(fat))
    out = []
    for i in range(0, len(fat), 12):
        ha, da, mark = struct.unpack("<iii", fat[i:i + 12])
        if mark != LAST:
            raise Bad("entry %d of the table of contents ends with %x" % (i // 12, mark))
        h = _block(b, ha, used)
        if len(h) < 24 or len(h) % 2:
            raise Bad("element header of %d bytes" % len(h))
        c, m, z = struct.unpack("<qqi", h[:20])
        if h[-4:] != bytes(4) or z != 0:
            raise Bad("element header without zero fields")
        name = h[20:-4].decode("utf-16-le")
        data = b"" if da in (0, LAST) else _block(b, da, used)
        if zipped and da not in (0, LAST):
            data = inflate(data)
        out.append((name, c, m, data))
    _block_free(b, free, used)
    prev = 16
    for pos in sorted(used):
        if pos < prev:
            raise Bad("page at %d overlaps the one before it" % pos)
        if whole and pos > prev:
            raise Bad("the bytes %d..%d belong neither to an element nor to the free pages" % (prev, pos))
        prev = pos + used[pos]
    if whole and prev != len(b):
        raise Bad("the bytes %d..%d belong neither to an element nor to the free pages" % (prev, len(b)))
    return out


def _block_free(b, free, used):
    if free != LAST:
        if free <= 0 or free >= len(b):
            raise Bad("free page list starts at %d" % free)
        hdr = b[free + 2:free + 10]
        # every free page is chained through its header
        pos = free
        while pos != LAST:
            h = b[pos:pos + 31]
            if len(h) != 31 or h[:2] != b"\r\n":
                raise Bad("no page header at free page %d" % pos)
            if pos in used:
                raise Bad("free page at %d is in use or listed twice" % pos)
            used[pos] = 31 + int(h[11:19], 16)
            pos = int(h[20:28], 16)


def build(entries, zipped=False, seed=0, split=0, policy=0, upper=False):
    """entries: [(name, create, modify, data or None)]; split: how often chains are broken up;
    policy bits: 1 padded pages, 2 scattered order, 4 spare free pages, 8 no-data address 0 instead of LAST, 16 noise in padding, 32 empty pages within chains"""
    r = random.Random(seed)
    blocks = []           # (kind, index, bytes)
    for i, (name, c, m, data) in enumerate(entries):
        blocks.append(["h", i, struct.pack("<qqi", c, m, 0) + name.encode("utf-16-le") + bytes(4)])
        if data is not None:
            blocks.append(["d", i, deflate(data, r.randrange(10)) if zipped else data])
    if policy & 2:
        r.shuffle(blocks)
    pages = []            # [kind, index, piece, page size, total or 0, is last]

    def add(kind, i, data, fixed=None):
        pieces = []
        if fixed:
            pieces = [data[k:k + fixed] for k in range(0, len(data), fixed)] or [b""]
        elif split and len(data) > 1:
            n = r.randrange(1, split + 2)
            cuts = sorted(r.randrange(0 if policy & 32 else 1, len(data)) for _ in range(n - 1))
            pieces = [data[a:z] for a, z in zip([0] + cuts, cuts + [len(data)])]
            pieces = [p for p in pieces if p or policy & 32] or [b""]
        else:
            pieces = [data]
        res = []
        for k, p in enumerate(pieces):
            size = fixed or len(p)
            if policy & 1 and k == len(pieces) - 1:
                size = max(size, len(p) + r.randrange(0, 700))
            res.append([kind, i, p, size, len(data) if k == 0 else 0, k])
        return res
    fat_len = 12 * len(entries)
    fatp = add("fat", 0, bytes(fat_len), 512 if fat_len > 512 or r.randrange(2) else None)
    for p in fatp:
        p[3] = max(p[3], 512) if p[3] == 512 else p[3]
    rest = []
    for k, i, d in blocks:
        rest += add(k, i, d)
    if policy & 4:
        for _ in range(r.randrange(1, 4)):
            rest.append(["free", 0, b"", r.randrange(1, 600), 0, 0])
    rest += fatp[1:]
    if policy & 2:
        r.shuffle(rest)
    order = [fatp[0]] + rest
    addr, pos = {}, 16
    for n, p in enumerate(order):
        key = (p[0], p[1], p[5]) if p[0] != "free" else ("free", n, 0)
        addr[key] = pos
        pos += 31 + p[3]
    frees = [k for k in addr if k[0] == "free"]
    r.shuffle(frees)
    nd = 0 if policy & 8 else LAST
    fat = b"".join(struct.pack("<iii", addr[("h", i, 0)], addr.get(("d", i, 0), nd), LAST) for i in range(len(entries)))
    out = bytearray(struct.pack("<iiii", addr[frees[0]] if frees else LAST, 512, r.randrange(50), 0))
    fmt = b"\r\n%08X %08X %08X \r\n" if upper else b"\r\n%08x %08x %08x \r\n"
    for n, p in enumerate(order):
        kind, i, piece, size, total, k = p
        if kind == "free":
            me = frees.index(("free", n, 0))
            nx = addr[frees[me + 1]] if me + 1 < len(frees) else LAST
            out += fmt % (LAST, size, nx) + r.randbytes(size)
            continue
        nx = addr.get((kind, i, k + 1), LAST)
        if kind == "fat":
            a = sum(len(x[2]) for x in fatp[:k])
            piece = fat[a:a + len(piece)]
        out += fmt % (total, size, nx) + piece + (r.randbytes(size - len(piece)) if policy & 16 else bytes(size - len(piece)))
    return bytes(out)
