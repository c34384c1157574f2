// One database session driven by a script of operations.
#ifndef VBASE_H
#define VBASE_H
#include "vexec.h"
#include <cstring>
#include <fstream>
#include <iterator>
#include <memory>
#include "SystemClasses/System.Classes.hpp"
#include "SystemClasses/TFileStream.hpp"
#include "Class_1CD.h"

struct Session {
	T_1CD *base = nullptr;
	std::map<std::string, V8Object *> obj;
	std::map<std::string, bool> own;
	std::map<std::string, uint32_t> was;    // block numbers of objects bound before closing
	T_1CD *b() { if (!base) throw std::runtime_error("no base"); return base; }
	V8Object *o(const std::string &h) { auto i = obj.find(h); if (i == obj.end() || !i->second) throw std::runtime_error("no object " + h); return i->second; }
	Table *t(const std::string &n) { return b()->get_table((int)I(n)); }
	void drop(const std::string &h) { if (own[h]) delete obj[h]; obj.erase(h); own.erase(h); }
	void close();
	~Session() { close(); }
};
typedef std::function<std::string(Session &, const std::vector<std::string> &, const std::string &)> Op;
struct OpReg { OpReg(const char *name, Op f); };
#define OP(name) \
	static std::string VCAT(op_, __LINE__)(Session &s, const std::vector<std::string> &a, const std::string &data); \
	static OpReg VCAT(opreg_, __LINE__)(name, VCAT(op_, __LINE__)); \
	static std::string VCAT(op_, __LINE__)(Session &s, const std::vector<std::string> &a, const std::string &data)

// list of strings, length prefixed
struct Out {
	std::string s;
	Out &operator<<(const std::string &v) { uint32_t n = v.size(); s.append((const char *)&n, 4); s += v; return *this; }
	Out &operator<<(const char *v) { return *this << std::string(v); }
	Out &operator<<(long long v) { return *this << S(v); }
};
inline std::string bytes(TMemoryStream &m) { return std::string((const char *)m.GetMemory(), m.GetSize()); }
inline void fill(TMemoryStream &m, const std::string &s)
{
	if (!s.empty()) m.Write(s.data(), s.size());
	m.Seek(0, System::Classes::soFromBeginning);
}
#endif
