"""P01: the 1C braces text parser, differentially against an independent reference parser."""
BOM = b"\xef\xbb\xbf"

import re
from hypothesis import strategies as st
from vp.engine import Check, expect, same
from vp.data import text

EMPTY, STRING, NUMBER, NUMEXP, GUID, LIST, BINARY, BINARY2, LINK, BINARY_D = range(10)
CLASSES = [
    (NUMBER, re.compile(rb"-?[0-9]+")),
    (NUMEXP, re.compile(rb"-?[0-9]+(\.[0-9]*)?([eE]-?[0-9]+)?")),
    (GUID, re.compile(rb"[0-9a-fA-F]{8}-[0-9a-fA-F]{4}-[0-9a-fA-F]{4}-[0-9a-fA-F]{4}-[0-9a-fA-F]{12}")),
    (BINARY, re.compile(rb"#base64:[0-9a-zA-Z+=\r\n/]*")),
    (LINK, re.compile(rb"[0-9]+:[0-9a-fA-F]{32}")),
    (BINARY2, re.compile(rb"[0-9a-zA-Z+=\r\n/]+")),
    (BINARY_D, re.compile(rb"#data:[0-9a-zA-Z+=\r\n/]*")),
]
WS = b" \t\r\n"
STOP = re.compile(rb"[,}]")


class Bad(Exception):
    pass


def classify(v):
    for k, r in CLASSES:
        if r.fullmatch(v):
            return k
    raise Bad("unknown value")


def reference(src):
    """-> list of top-level nodes (kind, value, children)"""
    i, n = 0, len(src)
    # explicit stack: texts may be nested arbitrarily deep
    out, stack = [], []
    while True:
        # expecting a value
        while i < n and src[i] in WS:
            i += 1
        if i >= n:
            raise Bad("value expected")
        c = src[i:i + 1]
        if c == b",":
            out.append((EMPTY, b"", []))
            i += 1
            continue
        if c == b"{":
            i += 1
            new = []
            out.append((LIST, b"", new))
            stack.append(out)
            out = new
            continue
        if c == b"}":
            if not stack:
                raise Bad("extra }")
            if out:
                out.append((EMPTY, b"", []))
            out = stack.pop()
            i += 1
        elif c == b'"':
            i += 1
            v = []
            while True:
                j = src.find(b'"', i)
                if j < 0:
                    raise Bad("unterminated string")
                v.append(src[i:j])
                i = j + 1
                if src[i:i + 1] == b'"':
                    v.append(b'"')
                    i += 1
                    continue
                break
            out.append((STRING, b"".join(v), []))
        else:
            m = STOP.search(src, i)
            j = m.start() if m else n
            out.append((classify(src[i:j]), src[i:j], []))
            i = j
        # expecting a delimiter
        while True:
            while i < n and src[i] in WS:
                i += 1
            if i >= n:
                if stack:
                    raise Bad("missing }")
                return out
            if src[i:i + 1] == b",":
                i += 1
                break
            if src[i:i + 1] == b"}":
                if not stack:
                    raise Bad("extra }")
                out = stack.pop()
                i += 1
                continue
            raise Bad("delimiter expected")


def dump(node):
    out, stack = [], []
    todo = [node]
    while True:
        if not todo:
            if not stack:
                return b"".join(out)
            todo = stack.pop()
            out.append(b")")
            continue
        k, v, ch = todo.pop()
        out.append(b"(%d:%d:%s:%d" % (k, len(v), v, len(ch)))
        stack.append(todo)
        todo = ch[::-1]


def render(node, ws):
    """text of a generated tree; ws(i) gives whitespace"""
    k, v, ch = node
    if k == LIST:
        return ws() + b"{" + b",".join(render(c, ws) for c in ch) + (ws() if not ch or ch[-1][0] in (LIST, STRING) else b"") + b"}" + ws()
    if k == STRING:
        return ws() + b'"' + v.replace(b'"', b'""') + b'"' + ws()
    if k == EMPTY:
        return b""
    return ws() + v


hexs = lambda n: st.text("0123456789abcdefABCDEF", min_size=n, max_size=n)
b64 = st.text("ABCabc019+/=\r\n", max_size=12)
value = st.one_of(
    st.just([EMPTY, ""]),
    text(12).map(lambda s: [STRING, s]),
    text(3).map(lambda s: [STRING, s]),
    st.tuples(text(8), st.integers(2, 60), text(3), st.sampled_from(["", '"'])).map(lambda t: [STRING, t[2] + (t[0] + t[3]) * t[1]]),
    st.sampled_from(['"', '""', '"a', 'a"', '{', '},', ',', ' ', '\r\n', '{"', '"}', '']).map(lambda s: [STRING, s]),
    st.integers(-10**12, 10**12).map(lambda i: [NUMBER, str(i)]),
    st.sampled_from(["00", "-0", "007", "0"]).map(lambda s: [NUMBER, s]),
    st.tuples(st.integers(-999, 999), st.sampled_from(["", ".", ".5", ".001"]), st.sampled_from(["e5", "E-3", "e0", "", "e100", "E-12345", "e007"])).map(lambda t: [None, "%d%s%s" % t]),
    st.tuples(hexs(8), hexs(4), hexs(4), hexs(4), hexs(12)).map(lambda t: [GUID, "-".join(t)]),
    b64.map(lambda s: [BINARY, "#base64:" + s]),
    b64.map(lambda s: [BINARY_D, "#data:" + s]),
    st.tuples(st.integers(0, 99), hexs(32)).map(lambda t: [LINK, "%d:%s" % t]),
    st.text("ABCabc019+/=", min_size=1, max_size=12).map(lambda s: [None, s]),
)
tree = st.recursive(value, lambda ch: st.lists(ch, max_size=6).map(lambda l: [LIST, l]), max_leaves=25)
toplist = st.lists(tree, max_size=6).map(lambda l: [LIST, l])


def node(t):
    k, v = t
    if k == LIST:
        return (LIST, b"", [node(c) for c in v])
    b = v.encode()
    return (classify(b) if k is None else k, b, [])


def unrepresentable(n):
    # a list whose only element is empty has no text form ({} is the empty list)
    return n[0] == LIST and ((len(n[2]) == 1 and n[2][0][0] == EMPTY) or any(unrepresentable(c) for c in n[2]))


def has_nul(n):
    return b"\0" in n[1] or any(has_nul(c) for c in n[2])


class C(Check):
    id = "P01"
    rule = ("four kinds of case: (tree) a random tree of all value kinds rendered with random whitespace; (mutate) such a text with "
            "one character inserted, removed or replaced; (soup) random text over the grammar's alphabet; (large) texts with up to hundreds of "
            "thousands of nesting levels, list elements or characters in a value, well-formed or with a brace more or less. Non-trivial: the text has "
            "at least one brace or quote and at least 3 characters.")
    quick, thorough = 2500, 100000

    def strategy(self, tier):
        small = self.small()
        n = st.one_of(st.integers(1, 300), st.integers(1000, 20000), st.integers(50000, 200000))
        seg = st.one_of(
            st.tuples(st.just("nest"), n, st.sampled_from(["", "1,", '"a",', "{},", ",", " \r\n"]), st.sampled_from(["", ",1", ',"b"', ",{}", ",", " "])),
            st.tuples(st.just("wide"), n, st.sampled_from(["1", '"a"', "{}", "", "{1,{2}}", "1:" + "0" * 32]), st.just("")),
            st.tuples(st.just("value"), n, st.sampled_from(["", "#base64:", "#data:", "-", "0.", "1e", '"', "1:"]),
                      st.sampled_from(["", "A", ".5", "e7", "E-1", '"', "=", "-", ":" + "0" * 32])).flatmap(
                          lambda t: st.sampled_from(["0", "1", "12", "A", "a\r\n", "+/", "ж"]).map(lambda u: t + (u,))))
        large = st.tuples(st.just("large"), st.lists(seg.map(list), min_size=1, max_size=3), st.sampled_from([0, 0, 0, 0, 1, -1]))
        return st.integers(0, 199).flatmap(lambda i: large.map(list) if i == 7 else small)

    def small(self):
        ws = st.lists(st.sampled_from(["", "", "", " ", "\r\n", "\t", "  "]), min_size=1, max_size=7)
        soup = st.lists(st.sampled_from(["{", "}", ",", '"', '"', "1", "-", ".", "e", "a", " ", "\r\n", "#base64:", "Я", "{", "}", ",", "0" * 8, ":"]), max_size=24).map("".join)
        return st.one_of(
            st.tuples(st.just("tree"), toplist, ws),
            st.tuples(st.just("mutate"), toplist, ws, st.integers(0, 400), st.sampled_from(["ins", "del", "sub"]),
                      st.sampled_from(["{", "}", ",", '"', "1", "a", " ", "#", ".", "\n", "Я"])),
            st.tuples(st.just("soup"), soup)).map(list)

    def text(self, case):
        if case[0] == "large":
            inner = ""
            for g in case[1]:
                if g[0] == "nest":
                    inner = "{" + g[2] + ("{" + g[2]) * (g[1] - 1) + inner + (g[3] + "}") * (g[1] - 1) + g[3] + "}"
                elif g[0] == "wide":
                    inner = "{" + (g[2] + ",") * g[1] + (inner or "1") + "}"
                else:
                    inner = "{" + (inner + "," if inner else "") + g[2] + g[4] * g[1] + g[3] + ('"' if g[2] == '"' and g[3] != '"' else "") + "}"
            return (inner + "}" if case[2] == 1 else inner[:-1] if case[2] == -1 else inner).encode()
        if case[0] == "soup":
            return case[1].encode()
        k = [0]

        def ws():
            k[0] += 1
            return case[2][k[0] % len(case[2])].encode()
        s = render(node(case[1]), ws)
        if case[0] == "mutate":
            u = list(s.decode())
            if u:
                p = case[3] % len(u)
                if case[4] == "ins":
                    u.insert(p, case[5])
                elif case[4] == "del":
                    del u[p]
                else:
                    u[p] = case[5]
            s = "".join(u).encode()
        return s

    def run(self, case, ctx):
        src = self.text(case)
        brief = src if len(src) < 2000 else src[:300] + b"... (%d bytes) ..." % len(src) + src[-100:]
        labels = [case[0]]
        if b"\0" in src:
            src = src.replace(b"\0", b"_")
        if src.startswith(BOM):
            src = src[3:]
        try:
            want = reference(src)
        except Bad:
            want = None
        if case[0] == "tree":
            n = node(case[1])
            if not unrepresentable(n) and not has_nul(n):
                expect(want is not None, "generator/reference mismatch")
                assert want == [n], (want, n)   # the reference parser is the inverse of the renderer
        for cmd, text in (("tree.parse", src), ("tree.stream", src), ("tree.stream", BOM + src)):
            r = ctx.ex.attempt(cmd, text)
            errors = [m for m in ctx.ex.msgs if m.startswith("4|")]
            if want is None:
                expect(r[0] == "exc" or errors, "%s accepted text that is not well-formed: %r", cmd, brief)
                labels.append("rejected")
            else:
                expect(r[0] == "ok", "%s refused the well-formed text %r: %s", cmd, brief, r[1:])
                expect(not errors, "%s reported errors for %r: %s", cmd, brief, errors)
                root = (LIST, b"", want)
                same(r[1][1], dump(root), "%s tree of %r" % (cmd, brief))
                if len(want) >= 1 and want[0][0] != EMPTY:
                    # the writer emits the first top-level node
                    back = ctx.ex.attempt(cmd, r[1][2])
                    expect(back[0] == "ok", "written text %r (of %r) cannot be parsed: %s", r[1][2][:2000], brief, back[1:])
                    same(back[1][1], dump((LIST, b"", [want[0]])), "tree of the rewritten text %r (of %r)" % (r[1][2][:2000], brief))
                labels.append("accepted")
        return labels

    def nontrivial(self, case, labels):
        s = self.text(case)
        return len(s) >= 3 and (b"{" in s or b'"' in s)


CHECK = C()
