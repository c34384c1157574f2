"""Configuration tables: files stored by name and part, and what a dump of them must contain."""
import random, uuid
from datetime import datetime
from . import onecd, tabs, cf

FIELDS = [["FILENAME", "NVC", 0, 128, 0, "CS"], ["CREATION", "DT", 0, 0, 0, "CS"], ["MODIFIED", "DT", 0, 0, 0, "CS"], ["ATTRIBUTES", "N", 0, 5, 0, "CS"], ["DATASIZE", "N", 0, 10, 0, "CS"],
          ["BINARYDATA", "I", 0, 0, 0, "CS"]]
PARTNO = ["PARTNO", "N", 0, 10, 0, "CS"]
BASE = ["CONFIG", "CONFIGSAVE", "PARAMS", "FILES", "DBSCHEMA"]


def guid(n):
    return str(uuid.UUID(int=random.Random("guid%d" % n).getrandbits(128)))


def plain_name(name):
    """files of these names are stored as they are, all others packed"""
    u = name.upper()
    if u in ("DYNAMICALLYUPDATED", "SPRSCNDINFO", "DBNAMESVERSION", "SIVERSIONS") or u.startswith("{") or "FO_VERSION" in u:
        return True
    return "." in u and u.rsplit(".", 1)[1] in ("INF", "PF")


def stored(name, content):
    return content if plain_name(name) else cf.deflate(content)


def content(seed, n):
    r = random.Random(seed)
    k = r.randrange(3)
    if k == 0:
        return r.randbytes(n)
    return (("{%d,\"Текст\",%d},\r\n" % (seed, n)) * (n // 10 + 1)).encode()[:n]


def stamp(seed):
    r = random.Random("t%d" % seed)
    return "%04d%02d%02d%02d%02d%02d" % (r.randrange(2000, 2030), r.randrange(1, 13), r.randrange(1, 29), r.randrange(24), r.randrange(60), r.randrange(60))


def ticks(st):
    d = datetime.strptime(st, "%Y%m%d%H%M%S") - datetime(1, 1, 1)
    return (d.days * 86400 + d.seconds) * 10000


class Files:
    """Contents of one table. partno: the table has part numbers."""

    def __init__(self, name, partno, seed):
        self.name, self.partno, self.rng = name, partno, random.Random(seed)
        self.rows = []

    def add(self, fname, data, parts=1, seed=0, removed=False):
        """data: stored bytes; split into `parts` parts when the table has part numbers"""
        if not self.partno:
            parts = 1
        parts = max(1, min(parts, len(data)))
        cuts = [0] + sorted(self.rng.sample(range(1, len(data)), parts - 1)) + [len(data)] if parts > 1 else [0, len(data)]
        for i in range(parts):
            d = data[cuts[i]:cuts[i + 1]]
            s = seed if i == 0 else seed + 1000 + i
            vals = [fname, stamp(s), stamp(s + 7), [False, "00000"], [False, "%010d" % len(d)], d]
            if self.partno:
                vals.append([False, "%010d" % i])
            self.rows.append((int(removed), vals))
        return ticks(stamp(seed)), ticks(stamp(seed + 7))

    def tab(self, ver, ps, seed, scatter=3):
        rows = self.rows[:]
        self.rng.shuffle(rows)
        return tabs.Tab(dict(n=self.name, f=FIELDS + ([PARTNO] if self.partno else []), b=[scatter, scatter % 3, scatter % 2 == 1]), ver, ps, seed, rows)


def infobase(ver, ps, seed, files, others=(), scatter=3):
    """database with the given Files; missing obligatory tables are added empty"""
    im = onecd.Img(ver, ps, seed, 2, False)
    names = [f.name.upper() for f in files]
    todo = list(files) + [Files(n, bool(seed % 2), seed) for n in BASE if n not in names and n != "DBSCHEMA"]
    todo.sort(key=lambda f: random.Random("%s%d" % (f.name, seed)).random())
    for i, f in enumerate(todo):
        f.tab(ver, im.ps, seed + i, scatter).add(im)
    if "DBSCHEMA" not in names:
        tabs.Tab(dict(n="DBSCHEMA", f=[["SERIALIZEDDATA", "I", 0, 0, 0, "CS"]]), ver, im.ps, seed, [(0, [b"{0}"])]).add(im)
    for t in others:
        t.add(im)
    return im.build()


NAMES = ["root", "version", "versions", guid(1), guid(2), guid(1) + ".0", guid(1) + ".1", guid(3) + ".0", "DBNamesVersion", "siVersions", "SprScndInfo", "x.pf", "Y.INF", "{a}", "fo_version.7", "Модуль.0",
         "a.b.c", "deadbeef", guid(2) + ".5", "n" * 70, "Имя файла", "_dyn", "x.newer", "new", "dynupdate",
         "FO_Version.12", "tail.FO_VERSION", "a.b.inf", "c.d.Pf", "x.inf.1", "inf", "PF", "{%s}.0" % guid(4), "x{a}", guid(5).upper()]
DYN = [guid(100 + i) for i in range(5)]


def updated(name, g):
    a, dot, b = name.rpartition(".")
    return "%s_dynupdate_%s.%s" % (a, g, b) if dot else "%s_dynupdate_%s" % (name, g)


def dynamically_updated(guids):
    return ("\ufeff{1,%d%s}" % (len(guids), "".join("," + g for g in guids))).encode()


def compare(got, want, what, expect, same):
    """got: parsed container; want: {name: (data, creation, modification)}"""
    names = [e[0] for e in got]
    same(sorted(names), sorted(want), what + ": names of the elements")
    for name, c, m, d in got:
        w = want[name]
        same(d, w[0], "%s: content of %s" % (what, name))
        same((c, m), w[1:], "%s: times of %s" % (what, name))
