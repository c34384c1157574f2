// Text helpers, codecs, numbers and dates.
#include "vexec.h"
#include <cstring>
#include "Base64.h"
#include "BinaryDecimalNumber.h"
#include "BinaryGuid.h"
#include "CRC32.h"
#include "Common.h"
#include "UZLib.h"
#include "Parse_tree.h"
#include "SystemClasses/System.Classes.hpp"

using namespace System;

static void fill(TMemoryStream &m, const std::string &s, long long pos = 0)
{
	if (!s.empty()) m.Write(s.data(), s.size());
	m.Seek(pos, soFromBeginning);
}
static std::string bytes(TMemoryStream &m)
{
	std::string r(m.GetSize(), '\0');
	m.Seek(0, soFromBeginning);
	if (!r.empty()) m.Read(&r[0], r.size());
	return r;
}

// exactly sized heap copy, so that reads past the end are noticed
struct Exact {
	std::vector<char> v;
	explicit Exact(const std::string &s) : v(s.begin(), s.end()) {}
	const char *p() const { return v.data(); }
};

// ---- strings
COMMAND("lower") { return {LowerCase(a[0])}; }
COMMAND("upper") { return {UpperCase(a[0])}; }
COMMAND("cmp") { return {S(Compare(a[0], a[1])), S(CompareIC(a[0], a[1])), B(Equal(a[0], a[1])), B(EqualIC(a[0], a[1]))}; }
COMMAND("endswith") { return {B(EndsWithIC(a[0], a[1]))}; }
COMMAND("replace") { return {StringReplace(a[0], a[1], a[2], (int)I(a[3]))}; }
COMMAND("ext") { return {ExtractFileExt(a[0])}; }
COMMAND("toint") { return {S(ToIntDef(a[0], (int)I(a[1])))}; }
COMMAND("settext") { TStringList l; l.SetText(a[0]); Args r; r.push_back(S(l.Count())); for (int i = 0; i < l.Count(); i++) r.push_back(l[i]); return r; }
COMMAND("loadlines") { TStringList l; l.LoadFromFile(a[0]); Args r; r.push_back(S(l.Count())); for (int i = 0; i < l.Count(); i++) r.push_back(l[i]); return r; }

// ---- encodings
static TEncoding *enc(const std::string &s) { return s == "utf8" ? TEncoding::UTF8 : TEncoding::Unicode; }
static std::vector<uint8_t> vec(const std::string &s) { return std::vector<uint8_t>(s.begin(), s.end()); }
static std::string str(const std::vector<uint8_t> &v) { return std::string(v.begin(), v.end()); }
COMMAND("enc.toutf8") { return {enc(a[0])->toUtf8(vec(a[1]), (int)I(a[2]))}; }
COMMAND("enc.fromutf8") { return {str(enc(a[0])->fromUtf8(a[1]))}; }
COMMAND("enc.preamble") { return {str(enc(a[0])->GetPreamble())}; }
COMMAND("enc.detect")
{
	TEncoding *e = a[1].empty() ? nullptr : enc(a[1]);
	int n = TEncoding::GetBufferEncoding(vec(a[0]), e);
	return {S(n), e == TEncoding::UTF8 ? "utf8" : e == TEncoding::Unicode ? "utf16" : e ? "other" : "none"};
}
COMMAND("enc.convert") { return {str(TEncoding::Convert(enc(a[0]), enc(a[1]), vec(a[2]), (int)I(a[3]), (int)I(a[4])))}; }
COMMAND("writer")
{
	TMemoryStream m;
	{ TStreamWriter w(&m, enc(a[0]), 1024); for (size_t i = 1; i < a.size(); i++) w.Write(a[i]); }
	return {bytes(m)};
}
COMMAND("reader")
{
	TMemoryStream m; fill(m, a[0]);
	TStreamReader r(&m, I(a[1]) != 0);
	std::string o; int c;
	for (size_t i = 0; i <= a[0].size() + 4; i++) { c = r.Read(); o += S(c) + ","; if (c < 0) break; }
	return {o};
}

// ---- codecs
COMMAND("b64enc") { TMemoryStream i, o; fill(i, a[0], a.size() > 2 ? I(a[2]) : 0); base64_encode(&i, &o, (int)I(a[1])); return {bytes(o)}; }
COMMAND("b64dec") { TMemoryStream i, o; fill(i, a[0]); base64_decode(&i, &o); return {bytes(o)}; }
COMMAND("b64decs") { TMemoryStream o; base64_decode(a[0], &o, (int)I(a[1])); return {bytes(o)}; }
COMMAND("crc") { TMemoryStream i; fill(i, a[0], I(a[1])); return {S(_crc32(&i))}; }
COMMAND("deflate") { TMemoryStream i, o; fill(i, a[0]); bool ok = ZDeflateStream(&i, &o); return {bytes(o), B(ok)}; }
COMMAND("inflate") { TMemoryStream i, o; fill(i, a[0]); ZInflateStream(&i, &o); return {bytes(o)}; }
COMMAND("inflatecopy") { TMemoryStream i, o; fill(i, a[0]); ZInflateOrCopy(&i, &o); return {bytes(o)}; }

// ---- guid, hex
COMMAND("guid.text") { Exact e(a[0]); BinaryGuid g(e.p()); const unsigned char *p = (const unsigned char *)e.p();
	return {g.as_1C(), g.as_MS(), GUIDas1C(p), GUIDasMS(p), GUID_to_string(g), B(g.is_empty())}; }
COMMAND("guid.parse") { BinaryGuid g; bool ok = string_to_GUID(a[0], &g); return {B(ok), g.as_1C(), g.as_MS()}; }
COMMAND("guid.ctor") { BinaryGuid g(a[0]); return {g.as_1C(), g.as_MS()}; }
COMMAND("guid.cmp") { BinaryGuid g(a[0].data()), h(a[1].data()); return {B(g == h), B(g != h), B(g > h)}; }
COMMAND("hex") { TMemoryStream i; fill(i, a[0]); return {hexstring(a[0].data(), (int)a[0].size()), hexstring(&i)}; }
COMMAND("hex2") { unsigned char c = 0; bool ok = two_hex_digits_to_byte(a[0][0], a[0][1], c); return {B(ok), S(c)}; }
COMMAND("revbytes") { return {S(reverse_byte_order((unsigned)I(a[0])))}; }
COMMAND("tohex32") { return {to_hex_string((uint32_t)I(a[0])), to_hex_string((uint32_t)I(a[0]), false), to_hex_string((uint16_t)I(a[0]), false)}; }

// ---- numbers and dates
COMMAND("bcd.read") { Exact e(a[0]); BinaryDecimalNumber n(e.p(), (int)I(a[1]), (int)I(a[2]), a[3] == "1"); 
	std::string o(a[0].size() + 16, '\x5a'); n.write_to(&o[0]);
	return {n.get_presentation(), o}; }
COMMAND("bcd.parse") { BinaryDecimalNumber n(a[0], a[1] == "1", (int)I(a[2]), (int)I(a[3]));
	std::string o((size_t)I(a[4]), '\x5a'); n.write_to(&o[0]);
	return {n.get_presentation(), o}; }
COMMAND("bcd.parts") { BinaryDecimalNumber n(a[0], a[1] == "1", (int)I(a[2]), (int)I(a[3]));
	std::string i, f; for (int d : n.get_int()) i += (char)('0' + d); for (int d : n.get_frac()) f += (char)('0' + d);
	return {i, f}; }
COMMAND("date.read") { Exact e(a[0]); BinaryDecimalDate d(e.p()); return {d.get_presentation(), S(d.get_year()), S(d.get_month()), S(d.get_day()), S(d.get_hour()), S(d.get_minute()), S(d.get_second())}; }
COMMAND("date.parse") { BinaryDecimalDate d = a.size() > 1 ? BinaryDecimalDate(a[0], a[1]) : BinaryDecimalDate(a[0]); std::string o(16, '\x5a'); d.write_to(&o[0]); return {d.get_presentation(), o}; }
COMMAND("date.texts") { Exact e(a[0]); return {date_to_string(e.p()), date_to_string1C(e.p())}; }
COMMAND("date.from") { std::vector<char> o(7, '\x5a'); bool ok = string_to_date(a[0], &o[0]); return {B(ok), std::string(o.begin(), o.end())}; }
COMMAND("date.from1c") { std::vector<char> o(7, '\x5a'); bool ok = string1C_to_date(a[0], &o[0]); return {B(ok), std::string(o.begin(), o.end())}; }
COMMAND("toxml") { return {toXML(a[0])}; }

// ---- parse tree
static void dump(Tree *root, std::string &o)
{
	Tree *t = root;   // no recursion: texts may be nested arbitrarily deep
	while (true) {
		o += "("; o += S((int)t->get_type()); o += ":"; o += S(t->get_value().size()); o += ":"; o += t->get_value();
		o += ":" + S(t->get_num_subnode());
		int n = 0;
		for (Tree *c = t->get_first(); c; c = c->get_next()) {
			n++; if (c->get_parent() != t) o += "!P"; if (!c->get_next() && t->get_last() != c) o += "!L";
			if ((n < 40 || !c->get_next()) && t->get_subnode(n - 1) != c) o += "!I";
		}
		if (n != t->get_num_subnode()) o += "!N";
		if (t->get_first()) { t = t->get_first(); continue; }
		o += ")";
		while (t != root && !t->get_next()) { t = t->get_parent(); o += ")"; }
		if (t == root) break;
		t = t->get_next();
	}
}
COMMAND("tree.parse") { auto t = parse_1Ctext(a[0], "case"); if (!t) return {"null"}; std::string o; dump(t.get(), o); std::string x = outtext(t.get()); return {"tree", o, x}; }
COMMAND("tree.stream") { TMemoryStream m; fill(m, a[0]); auto t = parse_1Cstream(&m, "case"); if (!t) return {"null"}; std::string o; dump(t.get(), o); std::string x = outtext(t.get()); return {"tree", o, x}; }
COMMAND("tree.path") { auto t = parse_1Ctext(a[0], "case"); Tree *x = t.get(); for (size_t i = 1; i < a.size(); i++) { x = x->get_subnode((int)I(a[i])); if (!x) return {"null"}; } return {"node", x->path(), x->get_value()}; }
