"""C05: files of a configuration addressed by path in a directory, a container file, the database configuration and the edited one."""
import os, random
from hypothesis import strategies as st
from vp.engine import Check, expect, same
from vp import onecd, conf, cf
from vp.base import script, ok, put, items

NAMES = ["root", "version", "Модуль", "text", "a", "ab", "abc", "metadata", "info", "x.0", "Имя.1", conf.guid(1), conf.guid(2) + ".0", "a b",
         "DBNamesVersion", "siVersions", "SprScndInfo", "FO_Version.12", "tail.fo_version", "a.b.inf", "x.Pf", "x.inf.1", "inf", "{%s}.0" % conf.guid(4), "x{a}"]
CONTENT = st.tuples(st.integers(0, 99), st.one_of(st.integers(0, 60), st.integers(0, 1500), st.sampled_from([512, 513, 4096]))).map(list)


def tree_strategy(depth):
    leaf = CONTENT
    node = leaf if depth == 0 else st.one_of(leaf, leaf, st.deferred(lambda: tree_strategy(depth - 1)).map(lambda t: ["d", t]))
    return st.lists(st.tuples(st.integers(0, len(NAMES) - 1), node).map(list), max_size=4, unique_by=lambda e: e[0])


@st.composite
def cases(draw, tier):
    kind = draw(st.sampled_from(["dir", "cf", "cf", "config", "config", "configsave"]))
    op = st.tuples(st.sampled_from(["read", "read", "read", "exists", "write"]), st.integers(0, 99), st.integers(0, 9), CONTENT).map(list)
    return [kind, draw(st.sampled_from(["cf", "epf", "cfe", "dat"])), draw(st.integers(0, 999)), draw(tree_strategy(2)), draw(st.lists(op, min_size=1, max_size=10)), draw(st.sampled_from(onecd.VERSIONS)), draw(st.integers(0, 63))]


def leaf(c):
    d = conf.content(c[0], c[1])
    return b"L" + d if cf.is_container(d) else d


def make(tree):
    return {NAMES[n]: make(x[1]) if x[0] == "d" else leaf(x) for n, x in tree}


def pack(node, seed, policy, zipped=False):
    """bytes of a leaf or of a container of elements; remembers bytes of inner containers"""
    if isinstance(node, bytes):
        return node
    ents = []
    for i, (n, x) in enumerate(node.items()):
        ents.append((n, 10 ** 15 + i, 10 ** 15 + 5 * i, pack(x, seed + i + 1, policy)))
    return cf.build(ents, zipped, seed, 2, policy)


def unpack(raw, zipped, model):
    got = {e[0]: e[3] for e in cf.parse(raw, zipped)}
    return {n: unpack(d, False, model[n]) if isinstance(model.get(n), dict) else d for n, d in got.items()}


class C(Check):
    id = "C05"
    rule = ("trees of files and nested containers up to three levels held in a directory, a container file of any kind, or as files of the database or the edited configuration; up to 10 reads, existence queries and writes by path in any "
            "letter case and either separator, existing, absent and leading through plain files. Non-trivial: a read of a nested file or a write.")
    quick, thorough = 700, 15000

    def strategy(self, tier):
        return cases(tier)

    def run(self, case, ctx):
        kind, ext, seed, tree, ops, ver, policy = case
        model = make(tree)
        rng = random.Random(seed)
        labels = {kind}
        zipped = ext in ("cf", "epf", "cfe")
        if kind == "dir":
            place = ctx.path("d")
            os.makedirs(place)

            def lay(d, node):
                for n, x in node.items():
                    q = os.path.join(d, n)
                    if isinstance(x, dict):
                        os.makedirs(q)
                        lay(q, x)
                    else:
                        with open(q, "wb") as f:
                            f.write(x)
            lay(place, model)
        elif kind == "cf":
            place = ctx.write("x." + ext, pack(model, seed, policy, zipped))
            os.chmod(place, 0o666)
        else:
            t, e = conf.Files("CONFIG", bool(seed % 2), seed), conf.Files("CONFIGSAVE", bool(seed % 3), seed)
            for i, (n, x) in enumerate(model.items()):
                data = conf.stored(n, pack(x, seed + i, policy))
                over = kind == "configsave" and rng.randrange(2)
                (e if over else t).add(n, data, 1 + rng.randrange(3), i)
                if over and rng.randrange(2):
                    t.add(n, conf.stored(n, b"older"), 1, i)
            if not data_ok(model):
                return []
            place = "x"
            p = put(ctx, "x.1CD", conf.infobase(ver, 4096, seed, [t, e]))
        paths = []

        def walk(node, prefix):
            for n, x in node.items():
                paths.append((prefix + [n], x))
                if isinstance(x, dict):
                    walk(x, prefix + [n])
        walk(model, [])
        sep = lambda: "/" if kind == "dir" or rng.randrange(2) else "\\"
        data, wants = b"", []
        written = False

        def find(parts):
            node = model
            for q in parts:
                if not isinstance(node, dict):
                    return None
                m = [k for k in node if k == q or (kind != "dir" and k.lower() == q.lower())]
                if not m:
                    return None
                node = node[m[0]]
            return node

        for op, k, mut, content in ops:
            base = list(paths[k % len(paths)][0]) if paths else [NAMES[k % len(NAMES)]]
            if mut == 1:
                base[-1] = NAMES[(k // 3) % len(NAMES)]
            elif mut == 2:
                base.append(NAMES[(k // 3) % len(NAMES)])
            elif mut == 3:
                base = [NAMES[k % len(NAMES)]]
            elif mut == 4:
                base = [NAMES[k % len(NAMES)], NAMES[(k // 5) % len(NAMES)]]
            elif mut == 5:
                base[0] = base[0] + "x"
            elif mut == 6 and len(base[-1]) > 1:
                base[-1] = base[-1][:-1]
            elif mut == 7 and kind != "dir":
                base = [x.upper() if rng.randrange(2) else x for x in base]
            node = find(base)
            text = base[0]
            for q in base[1:]:
                text += sep() + q
            if op == "exists":
                want = b"1" if find(base if kind == "dir" else base[:1]) is not None else b"0"
                body = b""
            elif op == "write" and kind in ("dir", "cf"):
                body = leaf(content)
                parent = find(base[:-1])
                if kind == "dir" and not isinstance(parent, dict) or isinstance(node, dict):
                    continue
                leaves = [x for x in (find(base[:i]) for i in range(1, len(base))) if isinstance(x, bytes)]
                if leaves and (kind == "dir" or not leaves[0]):
                    continue        # an empty element may become a container
                if leaves:
                    want = b"0"     # no element can be written into a plain file
                    labels.add("write-refused")
                else:
                    d = model
                    for q in base[:-1]:
                        m = [x for x in d if x == q or (kind != "dir" and x.lower() == q.lower())]
                        d = d.setdefault(m[0] if m else q, {})
                    m = [x for x in d if x == base[-1] or (kind != "dir" and x.lower() == base[-1].lower())]
                    d[m[0] if m else base[-1]] = body
                    paths.append((base, body))
                    written = True
                    want = b"1"
                    labels.add("write")
            else:
                op = "read"
                body = b""
                if isinstance(node, dict):
                    continue
                want = b"" if node is None else b"+" + node
                if node is not None and len(base) > 1:
                    labels.add("nested")
            for x in (op.encode(), text.encode(), body):
                data += len(x).to_bytes(4, "little") + x
            wants.append((op, text, want))
        run = [("open", p, 0)] if kind.startswith("config") else []
        if kind == "dir" and seed % 2:
            place += "/"
        r = script(ctx, run + [("storage", kind, place, data)])
        got = items(ok(r[-1], "access by path"))
        same(len(got), len(wants), "number of answers")
        for g, (op, text, want) in zip(got, wants):
            same(g, want, "%s %s in %s" % (op, text, kind))
        if kind == "cf" and written:
            same(unpack(ctx.read("x." + ext), zipped, model), model, "container after writing")
        return sorted(labels)

    def nontrivial(self, case, labels):
        return "nested" in labels or "write" in labels


def data_ok(model):
    """files without content are not stored in tables"""
    return all(x != b"" for x in model.values())


CHECK = C()
