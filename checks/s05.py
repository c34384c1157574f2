"""S05: inspecting and exporting never modifies the database file."""
import hashlib, os, random
from hypothesis import strategies as st
from vp.engine import Check, expect, same
from vp import onecd, tabs, conf, cf, depot
from vp.base import script, ok, texts
from checks import c01, c04, c05

OPS = ["tables", "tinfo", "tdescr", "rec", "iter", "iterx", "fillrec", "recoff", "idx", "idxdump", "idxkey", "blob", "blobadd", "blobbuf", "store", "xml", "export", "fname", "bind", "get", "getr", "lock", "garbage", "save", 
       "blocks", "len", "drop", "config", "configsave", "ext", "extdb", "depot", "depotpart", "depotver", "suppliers", "supplier", "storage", "info", "flush", "reopen", "findfield", "getfield"]
CMDS = ["-eax", "-ex", "-eb", "-sts", "-slo", "-ddc", "-dc", "-dvc", "-dac", "-drc", "-dpc"]


@st.composite
def cases(draw, tier):
    kind = draw(st.sampled_from(["tables", "tables", "infobase", "depot"]))
    if kind == "tables":
        spec = draw(tabs.databases(tabs.table_strategy(1, 6, None, 2, 5, 200, p_many=3), 4))
    elif kind == "infobase":
        spec = [draw(st.sampled_from(onecd.VERSIONS)), draw(st.integers(0, 999)), draw(st.booleans()), draw(st.integers(0, 5)), draw(st.lists(c01.file_strategy("quick"), max_size=5, unique_by=lambda f: f[0])),
                draw(st.lists(c04.vendor(), max_size=2))]
    else:
        spec = draw(depot.history(tier, 4))
    n = 12 if tier == "quick" else 30
    ops = draw(st.lists(st.tuples(st.sampled_from(OPS), st.integers(0, 999), st.integers(0, 999), st.integers(0, 999)).map(list), min_size=1, max_size=n))
    cmds = draw(st.one_of(st.just([]), st.lists(st.tuples(st.sampled_from(CMDS), st.integers(0, 9)).map(list), min_size=1, max_size=4)))
    return [kind, spec, draw(st.sampled_from([True, True, False])), draw(st.integers(0, 3)), ops, cmds]


def tree(path):
    out = {}
    for d, _, fs in os.walk(path):
        for f in fs:
            p = os.path.join(d, f)
            out[os.path.relpath(p, path)] = hashlib.sha1(open(p, "rb").read()).hexdigest()
    return out


class C(Check):
    id = "S05"
    rule = ("table databases, information bases with vendor configurations and depots of every supported version, opened exclusively or shared, from files writable or not; up to 30 reading operations of the library in any order with any "
            "arguments, valid or not, then up to 4 reading commands of the program; the file is compared byte for byte. Non-trivial: at least three operations succeeded on an exclusively opened database.")
    quick, thorough = 500, 8000

    def strategy(self, tier):
        return cases(tier)

    def make(self, kind, spec, ctx, place="base"):
        """path, tables, their fields, depot directory"""
        home = ctx.path(place)
        if kind == "depot":
            d = depot.Depot(spec)
            p = d.write(ctx, place)
            return p, depot.TABLES, home
        os.makedirs(home)
        p = os.path.join(home, "1cv8.1CD")
        if kind == "tables":
            im, ts = tabs.build(spec)
            data, names = im.build(), [t.name for t in ts]
        else:
            ver, seed, partno, scatter, files, vendors = spec
            t, e = conf.Files("CONFIG", partno, seed), conf.Files("CONFIGSAVE", not partno, seed + 1)
            c01.fill(t, files, None, {})
            c01.fill(e, files[:2], None, {})
            for i, (name, supplier, version, k, s, old, nodes, parts, policy, split, upper, where) in enumerate(vendors):
                t.add(conf.guid(1000 + i) + "." + conf.guid(2000 + i), cf.deflate(cf.deflate(c04.embedded(name, supplier, version, k, s, old, nodes, policy, split, upper))), parts, s)
            cas, save = conf.Files("CONFIGCAS", partno, seed), conf.Files("CONFIGCASSAVE", partno, seed)
            cas.add("00" * 20, cf.deflate(b"{0}"), 2, 1)
            data, names = conf.infobase(ver, 4096, seed, [t, e, cas, save], scatter=scatter), ["CONFIG", "CONFIGSAVE", "CONFIGCAS", "PARAMS", "FILES", "DBSCHEMA"]
        with open(p, "wb") as f:
            f.write(data)
        return p, names, home

    def run(self, case, ctx):
        kind, spec, exclusive, perm, ops, cmds = case
        p, names, home = self.make(kind, spec, ctx)
        writable = exclusive or perm != 0
        os.chmod(p, 0o666 if writable else 0o444)
        before = tree(home)
        out = ctx.path("out")
        os.makedirs(out)
        os.chmod(out, 0o777)
        n = len(names)
        look = script(ctx, [("open", p, 0)] + [("tinfo", t) for t in range(n)])
        about = [texts(ok(r, "table")) for r in look[1:]]
        records = [int(x[8]) for x in about]
        fields = [[x[10 + 8 * i] for i in range(int(x[9]))] for x in about]
        longs = [[x[10 + 8 * i] for i in range(int(x[9])) if x[11 + 8 * i] in ("NT", "T", "I")] for x in about]
        indexes = [int(x[10 + 8 * int(x[9])]) for x in about]
        todo = [("open", p, int(exclusive))]
        bound = 0
        for k, (op, a, b, c) in enumerate(ops):
            t = a % n
            to = os.path.join(out, "o%d" % k)
            if op in ("rec", "recoff", "fname", "idxkey", "store") and not records[t] or op in ("idx", "idxdump", "idxkey") and not indexes[t]:
                continue
            rec = b % records[t] if records[t] else 0
            idx = c % indexes[t] if indexes[t] else 0
            field = fields[t][c // 2 % len(fields[t])]
            if op in ("tables", "suppliers", "info", "flush", "garbage"):
                todo.append((op,))
            elif op == "reopen":
                todo += [("close",), ("open", p, int(exclusive))]
                bound = 0
            elif op in ("tinfo", "tdescr", "fillrec"):
                todo.append((op, t))
            elif op in ("rec",):
                todo.append((op, t, rec, "pxbrn"[c % 5]))
            elif op == "iter":
                todo.append((op, t, "p"))
            elif op == "iterx":
                todo.append((op, t, ["PK", "OTHER", "IDX", "_ByCode"][b % 4], "p"))
            elif op in ("recoff", "fname"):
                todo.append((op, t, rec))
            elif op == "idx":
                todo.append((op, t, idx))
            elif op == "idxdump":
                todo.append((op, t, idx, to))
            elif op == "idxkey":
                todo.append((op, t, idx, rec))
            elif op in ("blob", "blobbuf"):
                todo.append((op, t, b % 40, c))
            elif op == "blobadd":
                todo.append((op, t, b % 40, c, b"before"))
            elif op == "store":
                if longs[t]:
                    todo.append((op, t, rec, longs[t][c // 2 % len(longs[t])], c % 2))
            elif op == "xml":
                todo.append((op, t, to, b % 2, c % 2))
            elif op == "export":
                os.makedirs(to)
                os.chmod(to, 0o777)
                todo.append((op, t, to))
            elif op == "bind":
                todo.append((op, "h%d" % bound, t, ["data", "blob", "index"][b % 3]))
                bound += 1
            elif op in ("get", "len", "blocks", "drop"):
                todo.append((op, "h%d" % (b % max(1, bound))))
            elif op == "lock":
                todo.append((op, "h%d" % (b % max(1, bound)), c % 2))
            elif op == "getr":
                todo.append((op, "h%d" % (b % max(1, bound)), c, b))
            elif op == "save":
                todo.append((op, "h%d" % (b % max(1, bound)), to))
            elif op in ("config", "configsave"):
                todo.append((op, to))
            elif op == "ext":
                todo.append((op, to, conf.guid(a), "00" * 20))
            elif op == "extdb":
                todo.append((op, to, "00" * 20))
            elif op == "depot":
                todo.append((op, to, a % 5 - 2))
            elif op == "depotpart":
                os.makedirs(to)
                os.chmod(to, 0o777)
                todo.append((op, to, a % 5 - 2, b % 5 - 2))
            elif op == "depotver":
                todo.append((op, a % 5 - 2))
            elif op == "supplier":
                if kind == "infobase" and spec[5]:
                    todo.append(("suppliers",))
                    todo.append((op, a % len(spec[5]), to))
            elif op == "storage":
                if kind == "infobase":
                    todo.append((op, ["config", "configsave"][a % 2], "x", storage_reads(b)))
            elif op == "findfield":
                todo.append((op, t, field if b % 3 else "nothing"))
            elif op == "getfield":
                todo.append((op, t, field if b % 3 else "nothing"))
        done = 0
        res = script(ctx, todo)
        if res[0][:2] != b"ok":
            expect(False, "opening failed: %s", res[0][3:])
        for o, r in zip(todo, res):
            done += r[:2] == b"ok" and o[0] not in ("close", "open")
        same(tree(home), before, "database files after %s in %s mode" % ([o[0] for o in todo], "exclusive" if exclusive else "shared"))
        if cmds:
            args = [] if exclusive else ["-ne"]
            args.append(p)
            for j, (c, m) in enumerate(cmds):
                to = os.path.join(out, "c%d" % j)
                if c != "-sts":
                    os.makedirs(to)
                    os.chmod(to, 0o777)
                args += [c] + {"-ex": [to, "*"], "-eb": [to, "*"], "-drc": [str(m % 5 - 2), to], "-dpc": ["%d:%d" % (m % 3, -(m % 2)), to]}.get(c, [to])
            ctx.ctool(*args)
            same(tree(home), before, "database files after the program ran with %s" % [x for x in args if x[:1] == "-"])
        labels = [kind] + (["exclusive"] if exclusive else [])
        if done >= 3:
            labels.append("several")
        if cmds:
            labels.append("program")
        return labels

    def nontrivial(self, case, labels):
        return "several" in labels and "exclusive" in labels


def storage_reads(n):
    r = random.Random(n)
    out = b""
    for _ in range(3):
        for x in (r.choice([b"read", b"exists"]), r.choice(conf.NAMES + c05.NAMES).encode(), b""):
            out += len(x).to_bytes(4, "little") + x
    return out


CHECK = C()
