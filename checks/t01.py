"""T01: table descriptions are understood completely, malformed ones refused."""
import struct
from hypothesis import strategies as st
from vp.engine import Check, expect, same
from vp import onecd, tabs
from vp.base import script, ok, texts, put


def q(s):
    return ["s", s]


def parts(t, files):
    """nested lists of the description; ["s", x] quoted string, plain str number/bare"""
    fs = [[q(f[0]), q(f[1]), str(f[2]), str(f[3]), str(f[4]), q(f[5])] for f in t.fields]
    ix = [[q(i[0]), str(i[1])] + [[q(t.fields[k % len(t.fields)][0]), str(l)] for k, l in i[2]] for i in t.indexes]
    return [q(t.name), "0", [q("Fields")] + fs, [q("Indexes")] + ix, [q("Recordlock"), q("1" if t.lock else "0")], [q("Files")] + [str(x) for x in files]]


def render(x, sep=","):
    if isinstance(x, str):
        return x
    if len(x) == 2 and x[0] == "s":
        return '"' + x[1].replace('"', '""') + '"'
    return "{" + sep.join(render(y, sep) for y in x) + "}"


WORDS = ["", "X", "Field", "fields", "NN", "BB", "cs", "CX", "2", "10", "NVCC"]

MUT = ["name", "nofields", "fieldskw", "fieldstype", "cut", "more", "fname", "ftype", "ftypetype", "fnull", "fnulltype", "flen", "fprec", "fcs", "fcstype", "idxkw", "idxname", "idxprim", "idxprimtype",
       "idxnofields", "idxfieldnode", "idxfieldunknown", "idxfieldlen", "idxfieldname", "lock", "lockkw", "locktype", "lockcut", "fileskw", "filestype", "filescut", "filesmore", "drop", "dup", "nodata", "noindex",
       "strayindex", "datalen", "idxlen", "idxstart", "idxfree", "brace", "twice", "list"]


def mutate(t, p, kind, a, b, sizes):
    """True if the description has been made wrong"""
    F, I, R, L = p[2], p[3], p[4], p[5]
    f = F[1 + a % (len(F) - 1)]
    x = I[1 + a % (len(I) - 1)] if len(I) > 1 else None
    w = WORDS[b % len(WORDS)]
    if kind == "name": p[0] = "123"
    elif kind == "nofields": del F[1:]
    elif kind == "fieldskw": F[0] = q(w)
    elif kind == "fieldstype": F[0] = "1"
    elif kind == "cut": del f[b % 6]
    elif kind == "more": f.insert(b % 7, "0" if b % 2 else q("CS"))
    elif kind == "fname": f[0] = "1"
    elif kind == "ftype": f[1] = q(w)
    elif kind == "ftypetype": f[1] = "1"
    elif kind == "fnull": f[2] = str(2 + b)
    elif kind == "fnulltype": f[2] = q(f[2])
    elif kind == "flen": f[3] = q(f[3])
    elif kind == "fprec": f[4] = q(f[4])
    elif kind == "fcs": f[5] = q(w)
    elif kind == "fcstype": f[5] = "1"
    elif kind == "lock": R[1] = q(w if w else "3")
    elif kind == "lockkw": R[0] = q(w)
    elif kind == "locktype": R[1] = "1"
    elif kind == "lockcut": del R[b % 2]
    elif kind == "fileskw": L[0] = q(w)
    elif kind == "filestype": L[1 + b % 3] = q(L[1 + b % 3])
    elif kind == "filescut": del L[1 + b % 3]
    elif kind == "filesmore": L.append("0")
    elif kind == "drop": del p[b % 6]
    elif kind == "dup": p.insert(b % 6, p[b % 6])
    elif kind == "nodata": L[1] = "0"
    elif kind == "strayindex":
        if x is not None:
            return False
        L[3] = L[1]
    elif kind == "list": p[2 + b % 4] = q("x")
    elif x is None: return False
    elif kind == "idxkw": I[0] = q(w)
    elif kind == "idxname": x[0] = "1"
    elif kind == "idxprim": x[1] = str(2 + b)
    elif kind == "idxprimtype": x[1] = q(x[1])
    elif kind == "idxnofields": del x[2:]
    elif kind == "idxfieldnode": x[2].append("1")
    elif kind == "idxfieldunknown": x[2][0] = q("NoSuchField")
    elif kind == "idxfieldlen": x[2][1] = q("3")
    elif kind == "idxfieldname": x[2][0] = "1"
    elif kind == "noindex": L[3] = "0"
    else: return False
    return True


def expected(t, nums):
    fs = [list(f) for f in t.fields]
    if onecd.hidden(t.fields, t.lock):
        fs.append(["VERSION", "V8", 0, 0, 0, "CS"])
    out = [t.name, "0", str(onecd.record_len(t.fields, t.lock)), str(int(t.lock)), None] + [str(x) for x in nums] + [str(len(t.values)), str(len(fs))]
    off = onecd.offsets(t.fields, t.lock)
    for i, f in enumerate(fs):
        size = 8 if f[1] == "V8" else onecd.size_of(f)
        hid = f[1] == "V8"
        out += [f[0], tabs.PRES[f[1]], str(f[2]), None if hid else str(f[3]), None if hid else str(f[4]), None if hid else str(int(f[5] == "CS")), str(size), str(1 if hid else off[i])]
    out.append(str(len(t.indexes)))
    starts = struct.unpack_from("<%dI" % (len(t.indexes) + 1), t.index)[1:] if t.indexes else []
    for i, x in enumerate(t.indexes):
        out += [x[0], str(int(bool(x[1]))), str(max(1, sum(l for _, l in x[2]))), str(starts[i] * (t.ps if t.new else 1)), str(len(x[2]))]
        for k, l in x[2]:
            out += [t.fields[k % len(t.fields)][0], str(l)]
    return out


@st.composite
def cases(draw):
    db = draw(tabs.databases(tabs.table_strategy(1, 7, None, 2, 2, 40), 3))
    mut = draw(st.one_of(st.none(), st.tuples(st.sampled_from(MUT), st.integers(0, 9), st.integers(0, 20), st.integers(0, 2)).map(list)))
    return [db, draw(st.sampled_from([",", ",\r\n", ", ", ",\t\n "])), mut]


class C(Check):
    id = "T01"
    rule = ("databases of all versions with 1..3 tables of 1..7 fields over all field types, lengths, precisions and 0..2 indexes, descriptions in several layouts; half of the cases "
            "violate the grammar of one description (or the consistency of its parts) in one of 44 ways. Non-trivial: more than one field.")
    quick, thorough = 700, 20000

    def strategy(self, tier):
        return cases()

    def run(self, case, ctx):
        db, sep, mut = case
        ver, ps, seed, ts = db
        new = ver == "8.3.8.0"
        wrong = [False]
        im = onecd.Img(ver, ps, seed, 2, False)
        T = [tabs.Tab(t, ver, im.ps, seed + i) for i, t in enumerate(ts)]
        bad = mut[3] % len(T) if mut else -1
        nums = {}
        for i, t in enumerate(T):
            data, index = t.data, t.index
            if i == bad:
                k = mut[0]
                if k == "datalen" and len(data) and onecd.record_len(t.fields, t.lock) > 1:
                    data = data[:-1 - mut[2] % (onecd.record_len(t.fields, t.lock) - 1)]
                    wrong[0] = True
                elif k == "idxlen" and index:
                    index = index + b"\0" * (1 + mut[2])
                    wrong[0] = True
                elif k in ("idxstart", "idxfree") and index:
                    index = bytearray(index)
                    at = 0 if k == "idxfree" else 4 * (1 + mut[1] % len(t.indexes))
                    over = len(index) // im.ps + mut[2]
                    if k == "idxstart" and not new:
                        over = over * im.ps if mut[2] % 2 else struct.unpack_from("<I", index, at)[0] + 1 + mut[2] * 7
                    struct.pack_into("<I", index, at, over)
                    index = bytes(index)
                    wrong[0] = True

            def text(d, b, x, i=i, t=t):
                nums[i] = (d, b, x)
                p = parts(t, (d, b, x))
                if i == bad and mutate(t, p, mut[0], mut[1], mut[2], None):
                    wrong[0] = True
                s = render(p, sep)
                if i == bad and mut[0] == "brace":
                    s = s[:-1] if mut[2] % 2 else s + "}"
                    wrong[0] = True
                if i == bad and mut[0] == "twice":
                    s += ",{1}"
                    wrong[0] = True
                return s
            im.table(text, data, t.blob, index)
        raw = im.build()
        p = put(ctx, "x.1CD", raw)
        good = onecd.Img("8.3.8.0", 4096, 1, 1, False)
        good.table(onecd.description("G", [["A", "B", 0, 4, 0, "CS"]]), b"\0abcd" * 3)
        g = put(ctx, "good.1CD", good.build())
        ops = [("open", p, 0)]
        if wrong[0]:
            ops += [("open", g, 0), ("tables",)]
            res = script(ctx, ops)
            expect(res[0][:3] == b"exc", "a database whose table %d has a malformed description (%s) was opened", bad, mut)
            same(texts(ok(res[2], "tables of the next database")), ["G"], "tables of a sound database opened next")
            return ["refused", mut[0]]
        ops.append(("tables",))
        for i, t in enumerate(T):
            ops += [("tinfo", i), ("tdescr", i)] + [("findfield", i, f[0]) for f in t.fields] + [("getfield", i, f[0]) for f in t.fields] + [("findfield", i, "NoSuch"), ("getfield", i, "NoSuch")]
            ops += [("findindex", i, x[0]) for x in t.indexes] + [("findindex", i, "NoSuch")]
        res = script(ctx, ops)
        ok(res[0], "opening a well-formed database")
        same(texts(ok(res[1], "tables")), [t.name for t in T], "table names")
        k = 2
        for i, t in enumerate(T):
            got = texts(ok(res[k], "table info"))
            want = expected(t, nums[i])
            sysname = t.name[0] != "_" or t.name.upper().endswith("STORAGE") or t.name.upper() == "_SYSTEMSETTINGS"
            want[4] = str(int(sysname))
            want = [g if w is None else w for g, w in zip(got, want)] if len(got) == len(want) else want
            same(got, want, "table %s (version %s)" % (t.name, ver))
            k += 1
            d = ok(res[k], "description").decode()
            same(d, render(parts(t, nums[i]), sep), "description of %s" % t.name)
            k += 1
            for f in t.fields:
                same(res[k], b"ok=" + f[0].encode(), "finding field %s" % f[0])
                k += 1
            for f in t.fields:
                same(res[k], b"ok" + f[0].encode(), "getting field %s" % f[0])
                k += 1
            same(res[k], b"oknone", "finding an absent field")
            expect(res[k + 1][:3] == b"exc", "getting an absent field did not fail")
            k += 2
            for x in t.indexes:
                same(res[k], b"ok=" + x[0].encode(), "finding index %s" % x[0])
                k += 1
            same(res[k], b"oknone", "finding an absent index")
            k += 1
        return ["opened"] + sorted({f[1] for t in T for f in t.fields})

    def nontrivial(self, case, labels):
        return any(len(t["f"]) > 1 for t in case[0][3])


CHECK = C()
