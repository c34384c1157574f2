// Tables: descriptions, records, iteration, indexes, export and import.
#include "base.h"
#include "Table.h"
#include "Index.h"
#include "Field.h"
#include "TableIterator.h"

using namespace System;

static std::string blk(V8Object *o) { return o ? S(o->get_block_number()) : "0"; }

OP("tables")
{
	Out o;
	for (int i = 0; i < s.b()->get_numtables(); i++) o << s.b()->get_table(i)->get_name();
	return o.s;
}
OP("tinfo")
{
	Table *t = s.t(a[1]);
	Out o;
	o << t->get_name() << B(t->is_bad()) << (long long)t->get_recordlen() << B(t->get_recordlock()) << B(t->get_issystem())
	  << blk(t->get_file_data()) << blk(t->get_file_blob()) << blk(t->get_file_index()) << (long long)t->get_phys_numrecords();
	o << (long long)t->get_num_fields();
	for (int i = 0; i < t->get_num_fields(); i++) {
		Field *f = t->get_field(i);
		o << f->get_name() << f->get_presentation_type() << B(f->get_null_exists()) << (long long)f->get_length() << (long long)f->get_precision()
		  << B(f->get_case_sensitive()) << (long long)f->get_size() << (long long)f->get_offset();
	}
	o << (long long)t->get_num_indexes();
	for (int i = 0; i < t->get_num_indexes(); i++) {
		Index *x = t->get_index(i);
		o << x->get_name() << B(x->is_primary()) << (long long)x->get_length() << (long long)x->get_start_offset() << (long long)x->get_num_records();
		for (auto &r : x->get_records()) o << r.field->get_name() << (long long)r.len;
	}
	return o.s;
}
OP("tdescr") { return s.t(a[1])->get_description(); }
OP("findfield") { Field *f = s.t(a[1])->find_field(a[2]); return f ? "=" + f->get_name() : "none"; }
OP("findindex") { Index *f = s.t(a[1])->find_index(a[2]); return f ? "=" + f->get_name() : "none"; }
OP("getfield") { return s.t(a[1])->get_field(a[2])->get_name(); }

static void put_record(Out &o, const TableRecord &r, const std::string &what)
{
	const Table *ct = r.get_table();
	Table *t = const_cast<Table *>(ct);
	o << B(r.is_removed());
	for (int i = 0; i < t->get_num_fields(); i++) {
		Field *f = t->get_field(i);
		bool null = r.is_null_value(f);
		o << B(null);
		for (char c : what) {
			try {
				if (c == 's') o << r.get_string(f);
				if (c == 'x') o << r.get_xml_string(f);
				if (c == 'r') o << std::string(r.get_raw(f), f->get_size());
				if (c == 'd') o << std::string(r.get_data(f), f->get_size() - (f->get_null_exists() ? 1 : 0));
				if (c == 'p') o << f->get_presentation(r.get_raw(f) - f->get_offset(), true);
			} catch (const std::exception &e) {
				o << std::string("!") + e.what();
			}
		}
	}
}
OP("rec")       // table, record, what
{
	std::unique_ptr<TableRecord> r(s.t(a[1])->get_record((uint32_t)I(a[2])));
	Out o;
	put_record(o, *r, a[3]);
	return o.s;
}
OP("iter")      // table, what
{
	Table *t = s.t(a[1]);
	TableIterator it(t);
	Out o;
	long n = 0;
	for (; !it.eof(); it.next()) {
		Out one;
		put_record(one, it.current(), a[2]);
		o << one.s;
		if (++n > 200000) return "endless";
	}
	return o.s;
}
OP("iterx")     // table, index, what
{
	Table *t = s.t(a[1]);
	IndexedTableIterator it(t, a[2]);
	Out o;
	long n = 0;
	for (; !it.eof(); it.next()) {
		Out one;
		put_record(one, it.current(), a[3]);
		o << one.s;
		if (++n > 200000) return "endless";
	}
	return o.s;
}
OP("fillrec")
{
	Table *t = s.t(a[1]);
	t->fill_records_index();
	Out o;
	o << (long long)t->get_log_numrecords();
	for (auto r : t->recordsindex) o << (long long)r;
	return o.s;
}
OP("recoff") { return S(s.t(a[1])->get_file_offset((uint32_t)I(a[2]))); }
OP("idx")
{
	Index *x = s.t(a[1])->get_index((int)I(a[2]));
	uint32_t n = x->get_numrecords();
	Out o;
	for (uint32_t i = 0; i < n; i++) o << (long long)x->get_numrec(i);
	return o.s;
}
OP("idxdump") { s.t(a[1])->get_index((int)I(a[2]))->dump(a[3]); return ""; }
OP("idxkey")    // table, index, record -> key bytes
{
	Table *t = s.t(a[1]);
	Index *x = t->get_index((int)I(a[2]));
	std::unique_ptr<TableRecord> r(t->get_record((uint32_t)I(a[3])));
	std::vector<char> b(x->get_length() + 4096, 0);
	x->calcRecordIndex(r.get(), b.data());
	return std::string(b.data(), x->get_length());
}
OP("unpack")    // table, index; data is the page -> count, entries
{
	Index *x = s.t(a[1])->get_index((int)I(a[2]));
	x->get_length();
	std::vector<char> page(data.begin(), data.end());
	uint32_t n = 0;
	char *r = x->unpack_leafpage(page.data(), n);
	if (!r) return "null";
	std::string v = S(n) + ":" + std::string(r, (size_t)n * (x->get_length() + 4));
	delete[] r;
	return v;
}
OP("pack")      // table, index, count, page size; data is the entries -> page
{
	Index *x = s.t(a[1])->get_index((int)I(a[2]));
	x->get_length();
	std::vector<char> ent(data.begin(), data.end());
	ent.push_back(0);
	std::vector<char> page(I(a[4]), 0);
	bool ok = x->pack_leafpage(ent.data(), (uint32_t)I(a[3]), page.data());
	return B(ok) + (ok ? std::string(page.data(), page.size()) : std::string());
}
OP("blob")      // table, start, length
{
	TMemoryStream m;
	s.t(a[1])->readBlob(&m, (uint32_t)std::stoul(a[2]), (uint32_t)std::stoul(a[3]));
	return bytes(m);
}
OP("blobadd")   // table, start, length; data is already in the stream
{
	TMemoryStream m;
	if (!data.empty()) m.Write(data.data(), data.size());
	s.t(a[1])->readBlob(&m, (uint32_t)std::stoul(a[2]), (uint32_t)std::stoul(a[3]), false);
	return bytes(m);
}
OP("blobbuf")   // table, start, length -> bytes read : content
{
	uint32_t n = (uint32_t)std::stoul(a[3]);
	std::vector<char> b(n + 1, 0x5a);
	uint32_t k = s.t(a[1])->readBlob(b.data(), (uint32_t)std::stoul(a[2]), n);
	if (b[n] != 0x5a) return "overrun";
	return S(k) + ":" + std::string(b.data(), k < n ? k : n);
}
OP("store")     // table, record, field name, inflate -> 0 or 1 content
{
	Table *t = s.t(a[1]);
	std::unique_ptr<TableRecord> r(t->get_record((uint32_t)I(a[2])));
	TStream *out = nullptr;
	bool ok = r->try_store_blob_data(t->get_field(a[3]), out, a[4] == "1");
	if (!ok) return "0";
	std::string v;
	v.resize(out->GetSize());
	out->Seek(0, soFromBeginning);
	if (!v.empty()) out->Read(&v[0], v.size());
	delete out;
	return "1" + v;
}
OP("xml") { return B(s.t(a[1])->export_to_xml(a[2], a[3] == "1", a[4] == "1")); }
OP("export") { s.t(a[1])->export_table(boost::filesystem::path(a[2])); return ""; }
OP("import") { s.t(a[1])->import_table(boost::filesystem::path(a[2])); return ""; }
OP("fname") { Table *t = s.t(a[1]); std::unique_ptr<TableRecord> r(t->get_record((uint32_t)I(a[2]))); return t->get_file_name_for_record(r.get()); }
OP("binval")    // table, field number, null; data is the value -> ok flag, bytes
{
	Field *f = s.t(a[1])->get_field((int)I(a[2]));
	std::vector<char> b(f->get_size() + 8, 0x5a);
	bool ok = f->get_binary_value(b.data(), a[3] == "1", data);
	for (int i = 0; i < 8; i++) if (b[f->get_size() + i] != 0x5a) return "overrun";
	return B(ok) + std::string(b.data(), f->get_size());
}
OP("sortkey")   // table, field number, buffer length; data is the record -> returned length : buffer
{
	Field *f = s.t(a[1])->get_field((int)I(a[2]));
	std::vector<char> rec(data.begin(), data.end());
	std::vector<unsigned char> key(I(a[3]) + 1, 0);
	uint32_t n = f->get_sort_key(rec.data(), key.data(), (int)I(a[3]));
	return S(n) + ":" + std::string((char *)key.data(), I(a[3]));
}
