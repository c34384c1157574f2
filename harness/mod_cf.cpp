// Container files: a script of operations over one container.
#include "vexec.h"
#include <cstring>
#include <fstream>
#include <iterator>
#include <memory>
#include "SystemClasses/System.Classes.hpp"
#include "SystemClasses/TFileStream.hpp"
#include "cfapi/V8Catalog.h"
#include "cfapi/V8File.h"
#include "cfapi/TV8FileStream.h"

using namespace System;

static const char FS = '\x1f', PS = '\x1e';

static std::vector<std::string> split(const std::string &s, char sep, size_t limit = (size_t)-1)
{
	std::vector<std::string> r;
	size_t b = 0;
	while (r.size() + 1 < limit) {
		size_t e = s.find(sep, b);
		if (e == std::string::npos) break;
		r.push_back(s.substr(b, e - b));
		b = e + 1;
	}
	r.push_back(s.substr(b));
	return r;
}

static std::string slurp(const std::string &name)
{
	std::ifstream f(name, std::ios::binary);
	return std::string(std::istreambuf_iterator<char>(f), std::istreambuf_iterator<char>());
}

struct NotFound : std::runtime_error {
	NotFound() : std::runtime_error("notfound") {}
};

struct CfSession {
	V8Catalog *cat = nullptr;
	TMemoryStream *mem = nullptr;
	std::string kind, path;

	void open(const std::string &k, const std::string &p)
	{
		kind = k; path = p;
		if (k == "name") cat = new V8Catalog(p);
		else if (k == "plain" || k == "zip") cat = new V8Catalog(p, k == "zip");
		else {
			mem = new TMemoryStream();
			std::string d = slurp(p);
			if (!d.empty()) mem->Write(d.data(), d.size());
			mem->Seek(0, soFromBeginning);
			cat = new V8Catalog(mem, k == "memzip", true);
		}
	}
	void close()
	{
		delete cat;
		cat = nullptr;
		if (mem) {
			std::ofstream f(path, std::ios::binary | std::ios::trunc);
			f.write((const char *)mem->GetMemory(), mem->GetSize());
			delete mem;
			mem = nullptr;
		}
	}
	~CfSession() { if (cat) close(); }

	V8Catalog *dir(const std::string &p)
	{
		V8Catalog *c = cat;
		if (p.empty()) return c;
		for (auto &n : split(p, PS)) {
			V8File *f = c->get_file(n);
			if (!f) throw NotFound();
			c = f->get_catalog();
			if (!c) throw NotFound();
		}
		return c;
	}
	void parts(const std::string &p, std::string &d, std::string &n)
	{
		size_t i = p.rfind(PS);
		d = i == std::string::npos ? "" : p.substr(0, i);
		n = i == std::string::npos ? p : p.substr(i + 1);
	}
	V8File *file(const std::string &p)
	{
		std::string d, n;
		parts(p, d, n);
		V8File *f = dir(d)->get_file(n);
		if (!f) throw NotFound();
		return f;
	}
};

static std::string ft(const FILETIME &f)
{
	return std::to_string(((unsigned long long)(uint32_t)f.dwHighDateTime << 32) | (uint32_t)f.dwLowDateTime);
}
static void fill(TMemoryStream &m, const std::string &s)
{
	if (!s.empty()) m.Write(s.data(), s.size());
	m.Seek(0, soFromBeginning);
}
static std::string bytes(TMemoryStream &m) { return std::string((const char *)m.GetMemory(), m.GetSize()); }

static void list(V8Catalog *c, const std::string &prefix, bool content, std::string &out)
{
	auto put = [&out](const std::string &s) { uint32_t n = s.size(); out.append((const char *)&n, 4); out += s; };
	for (V8File *f = c->get_first(); f; f = f->get_next()) {
		bool isc = f->is_catalog();
		put(prefix + f->get_file_name());
		put(isc ? "c" : "f");
		put(ft(f->get_time_create()));
		put(ft(f->get_time_modify()));
		if (content && isc) { put(""); list(f->get_catalog(), prefix + f->get_file_name() + PS, content, out); }
		else if (content) {
			TMemoryStream m;
			f->save_to_stream(&m);
			put(bytes(m));
		} else put(S(f->get_file_length()));
	}
}

static std::string one(CfSession &s, const std::vector<std::string> &o, const std::string &data)
{
	const std::string &op = o[0];
	auto arg = [&o](size_t i) { return i < o.size() ? o[i] : std::string(); };
	if (op == "open") { s.open(arg(1), arg(2)); return B(s.cat->isOpen()); }
	if (op == "close") { s.close(); return ""; }
	if (!s.cat) throw std::runtime_error("no container");
	// what has been put down up to now
	if (op == "flush") { s.dir(arg(1))->Flush(); return s.mem ? std::string((const char *)s.mem->GetMemory(), s.mem->GetSize()) : slurp(s.path); }
	if (op == "half") { s.cat->HalfClose(); std::string r = slurp(s.path); s.cat->HalfOpen(s.path); return r; }
	if (op == "list" || op == "dump") { std::string r; list(s.dir(arg(1)), "", op == "dump", r); return r; }
	if (op == "todir") { s.dir(arg(1))->SaveToDir(arg(2)); return ""; }
	std::string d, n;
	s.parts(arg(1), d, n);
	if (op == "create") { V8File *f = s.dir(d)->createFile(n); return f ? f->get_file_name() : "null"; }
	if (op == "mkdir") { return B(s.dir(d)->CreateCatalog(n) != nullptr); }
	if (op == "delete") { s.dir(d)->delete_file(n); return ""; }
	if (op == "find") { return B(s.dir(d)->get_file(n) != nullptr); }
	V8File *f = s.file(arg(1));
	if (op == "delfile") { f->delete_file(); delete f; return ""; }
	if (op == "rename") { f->set_file_name(arg(2)); return f->get_file_name(); }
	if (op == "fopen") return B(f->open());
	if (op == "fclose") { f->close(); return ""; }
	if (op == "fflush") { f->flush(); return ""; }
	if (op == "len") return S(f->get_file_length());
	if (op == "iscat") return B(f->is_catalog());
	if (op == "full") return f->get_full_name();
	if (op == "parent") return B(f->get_parent_catalog() == s.dir(d));
	if (op == "write") return S(f->write(data.data(), (int)data.size()));
	if (op == "writep") return S(f->write(data.data(), (int)I(arg(2)), (int)data.size()));
	if (op == "writev") return S(f->write(std::vector<uint8_t>(data.begin(), data.end()), (int)I(arg(2)), (int)data.size()));
	if (op == "ws") { TMemoryStream m; fill(m, data); return S(f->write(&m)); }
	if (op == "wsp") { TMemoryStream m; fill(m, data); m.Seek(I(arg(4)), soFromBeginning); return S(f->write(&m, (int)I(arg(2)), (int)I(arg(3)))); }
	if (op == "wac") { TMemoryStream m; fill(m, data); m.Seek(I(arg(3)), soFromBeginning); return S(f->write_and_close(&m, (int)I(arg(2)))); }
	if (op == "read") {
		int st = (int)I(arg(2)), len = (int)I(arg(3));
		std::vector<char> b(len + 1, 0x5a);
		auto r = f->read(b.data(), st, len);
		return S(r) + ":" + std::string(b.data(), r > 0 ? r : 0);
	}
	if (op == "tostream") { TMemoryStream m; f->save_to_stream(&m); return bytes(m); }
	if (op == "tofile") { f->save_to_file(arg(2)); return ""; }
	if (op == "times") return ft(f->get_time_create()) + " " + ft(f->get_time_modify());
	if (op == "settimes") {
		unsigned long long c = std::stoull(arg(2)), m = std::stoull(arg(3));
		FILETIME a; a.dwLowDateTime = (uint32_t)c; a.dwHighDateTime = (uint32_t)(c >> 32);
		FILETIME b; b.dwLowDateTime = (uint32_t)m; b.dwHighDateTime = (uint32_t)(m >> 32);
		f->set_time_create(a); f->set_time_modify(b);
		return "";
	}
	if (op == "tree") { auto t = f->get_tree(); return t ? outtext(t.get()) : "null"; }
	if (op == "stream") {   // seeks, reads and writes through one element stream: steps "b 3", "c -2", "e 1", "r 5", "w hex", "s", "p"
		std::unique_ptr<TV8FileStream> st(f->get_stream());
		std::string out;
		for (auto &step : split(arg(2), ',')) {
			if (step.empty()) continue;
			char k = step[0];
			std::string v = step.size() > 2 ? step.substr(2) : "";
			if (k == 'b') out += S(st->Seek(I(v), soFromBeginning));
			else if (k == 'c') out += S(st->Seek(I(v), soFromCurrent));
			else if (k == 'e') out += S(st->Seek(I(v), soFromEnd));
			else if (k == 's') out += S(st->GetSize());
			else if (k == 'r') { std::vector<char> b(I(v) + 1); auto r = st->Read(b.data(), I(v)); out += S(r) + ":" + std::string(b.data(), r); }
			else if (k == 'w') {
				std::string h;
				for (size_t i = 0; i + 1 < v.size(); i += 2) h.push_back((char)std::stoi(v.substr(i, 2), nullptr, 16));
				out += S(st->Write(h.data(), h.size()));
			}
			out += ",";
		}
		return out;
	}
	return "?";
}

// arguments come in pairs: operation, data
COMMAND("cf.run")
{
	CfSession s;
	Args r;
	for (size_t k = 0; k + 1 < a.size(); k += 2) {
		try {
			r.push_back("ok" + one(s, split(a[k], FS), a[k + 1]));
		} catch (const NotFound &) {
			r.push_back("notfound");
		} catch (const std::exception &e) {
			r.push_back(std::string("exc") + e.what());
		}
	}
	return r;
}
