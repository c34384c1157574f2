// Stored objects: reading, writing, resizing.
#include "base.h"
#include "Table.h"

using namespace System;

static V8Object *part(Session &s, const std::string &tab, const std::string &what)
{
	Table *t = s.t(tab);
	if (what == "data") return t->get_file_data();
	if (what == "blob") return t->get_file_blob();
	if (what == "index") return t->get_file_index();
	return t->get_descriptor_table();
}

OP("bind")      // handle, table, part
{
	V8Object *p = part(s, a[2], a[3]);
	if (!p) return "0";
	s.obj[a[1]] = p;
	s.own[a[1]] = false;
	return "1";
}
OP("bindb") { V8Object *p = new V8Object(s.b(), (int32_t)I(a[2])); s.obj[a[1]] = p; s.own[a[1]] = true; return S(p->get_block_number()); }
OP("bindnew") { V8Object *p = new V8Object(s.b()); s.obj[a[1]] = p; s.own[a[1]] = true; return S(p->get_block_number()); }
OP("drop") { s.drop(a[1]); return ""; }
OP("len") { return S(s.o(a[1])->get_len()); }
OP("get")
{
	V8Object *o = s.o(a[1]);
	char *d = o->get_data();
	return d ? std::string(d, o->get_len()) : std::string();
}
OP("getr")      // handle, start, length
{
	unsigned long long st = std::stoull(a[2]), n = std::stoull(a[3]);
	std::vector<char> b(n + 1, 0x5a);
	char *r = s.o(a[1])->get_data(b.data(), st, n);
	if (!r) return "null";
	return "=" + std::string(b.data(), n);
}
OP("lock") { s.o(a[1])->set_lockinmemory(a[2] == "1"); return ""; }
OP("garbage") { V8Object::garbage(); return ""; }
OP("save") { s.o(a[1])->savetofile(boost::filesystem::path(a[2])); return ""; }
OP("fileoff") { return S(s.o(a[1])->get_fileoffset(std::stoull(a[2]))); }
OP("set") { return B(s.o(a[1])->set_data(data.data(), (uint64_t)data.size())); }
OP("setr") { return B(s.o(a[1])->set_data(data.data(), std::stoull(a[2]), (uint64_t)data.size())); }
OP("sets") { TMemoryStream m; fill(m, data); if (a.size() > 2) m.Seek(I(a[2]), soFromBeginning); return B(s.o(a[1])->set_data(&m)); }
OP("setsr")     // handle, start, position in the stream, length
{
	TMemoryStream m;
	fill(m, data);
	m.Seek(I(a[3]), soFromBeginning);
	return B(s.o(a[1])->set_data(&m, std::stoull(a[2]), std::stoull(a[4])));
}
OP("setlen") { s.o(a[1])->set_len(std::stoull(a[2])); return ""; }
OP("oblob")     // handle, start block, length
{
	TMemoryStream m;
	if (a[3].empty()) s.o(a[1])->readBlob(&m, (uint32_t)I(a[2]));
	else s.o(a[1])->readBlob(&m, (uint32_t)I(a[2]), (uint32_t)I(a[3]));
	return bytes(m);
}
OP("blocks")
{
	V8Object *o = s.o(a[1]);
	std::string r;
	for (uint32_t i = 0; i < o->get_numblocks(); i++) r += S(o->get_block_by_index(i)) + " ";
	return r;
}
OP("rebind")    // handle: the object that had this handle before the base was closed
{
	auto i = s.was.find(a[1]);
	if (i == s.was.end()) throw std::runtime_error("no object");
	V8Object *p = new V8Object(s.b(), (int32_t)i->second);
	s.obj[a[1]] = p;
	s.own[a[1]] = true;
	return "";
}
OP("blockno") { return S(s.o(a[1])->get_block_number()); }
OP("snap")      // from, to: copy of the file as it is now
{
	std::ifstream in(a[1], std::ios::binary);
	std::ofstream out(a[2], std::ios::binary | std::ios::trunc);
	out << in.rdbuf();
	return "";
}
