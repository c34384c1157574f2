// Database session: opening and the script runner.
#include "base.h"
#include <typeinfo>
#include "FieldType.h"

using namespace System;

static std::map<std::string, Op> &ops()
{
	static std::map<std::string, Op> t;
	return t;
}
OpReg::OpReg(const char *name, Op f) { ops()[name] = f; }

void Session::close()
{
	for (auto &kv : obj) was[kv.first] = kv.second->get_block_number();
	while (!obj.empty()) drop(std::string(obj.begin()->first));
	T_1CD *p = base;
	base = nullptr;
	delete p;
}

static std::string info(T_1CD *b)
{
	Out o;
	o << B(b->is_open());
	if (b->is_open())
		o << b->ver << (long long)b->get_pagesize() << std::string(b->locale ? b->locale : "") << (long long)b->get_numtables()
		  << B(b->is_infobase()) << B(b->is_depot) << B(b->get_readonly());
	return o.s;
}

OP("open")
{
	s.close();
	FieldType::showGUIDasMS = false;
	FieldType::showGUID = false;
	s.base = new T_1CD(boost::filesystem::path(a[1]), nullptr, a[2] == "1");
	return info(s.base);
}
OP("open2")     // default construction, then open
{
	s.close();
	FieldType::showGUIDasMS = false;
	FieldType::showGUID = false;
	s.base = new T_1CD();
	s.base->open(boost::filesystem::path(a[1]), a[2] == "1");
	return info(s.base);
}
OP("info") { return info(s.b()); }
OP("isopen") { return B(s.b()->is_open()); }
OP("close") { s.close(); return ""; }
OP("flush") { s.b()->flush(); return ""; }

// arguments come in pairs: operation, data
COMMAND("base.run")
{
	Session s;
	Args r;
	for (size_t k = 0; k + 1 < a.size(); k += 2) {
		std::vector<std::string> o;
		size_t p = 0;
		for (;;) {
			size_t e = a[k].find('\x1f', p);
			o.push_back(a[k].substr(p, e == std::string::npos ? e : e - p));
			if (e == std::string::npos) break;
			p = e + 1;
		}
		auto it = ops().find(o[0]);
		if (it == ops().end()) { r.push_back("nocmd" + o[0]); continue; }
		try {
			r.push_back("ok" + it->second(s, o, a[k + 1]));
		} catch (const std::exception &e) {
			r.push_back(std::string("exc") + e.what());
		} catch (...) {
			r.push_back("exc?");
		}
	}
	return r;
}
