"""P08: XML escaping."""
import xml.etree.ElementTree as ET
from hypothesis import strategies as st
from vp.engine import Check, expect, same

CH = st.one_of(st.sampled_from("&<>'\"&<>'\" abЯ;#"), st.sampled_from(["&amp;", "&lt;", "<![CDATA[", "]]>", "&#65;", "&&", "<<", "\r", "\r\n", "\n", "\t"]),
               st.characters(min_codepoint=0x20, blacklist_categories=("Cs",), blacklist_characters="￾￿"))


class C(Check):
    id = "P08"
    rule = "random XML-representable texts rich in markup characters and entity look-alikes. Non-trivial: contains a markup character."
    quick, thorough = 4000, 100000

    def strategy(self, tier):
        return st.lists(CH, max_size=20).map(lambda l: ["".join(l)])

    def run(self, case, ctx):
        s = case[0]
        o = ctx.ex.call("toxml", s)[0].decode("utf-8")
        for c in "<>'\"":
            expect(c not in o, "escaped form %r of %r contains %r", o, s, c)
        for doc, get in (("<a>%s</a>" % o, lambda e: e.text or ""),) + (() if "\n" in s or "\t" in s else ( ('<a b="%s"/>' % o, lambda e: e.get("b")), ("<a b='%s'/>" % o, lambda e: e.get("b")))):
            try:
                got = get(ET.fromstring(doc.encode("utf-8")))
            except ET.ParseError as e:
                expect(False, "escaped form %r of %r is not XML: %s", o, s, e)
            same(got, s, "decoded form of %r" % o)
        return ["special" if any(c in s for c in "&<>'\"") else "plain"]

    def nontrivial(self, case, labels):
        return "special" in labels


CHECK = C()
