// Streams and timestamps.
#include "vexec.h"
#include <cstring>
#include <fstream>
#include <memory>
#include <sstream>
#include "Common.h"
#include "SystemClasses/System.Classes.hpp"
#include "SystemClasses/TFileStream.hpp"
#include "TempStream.h"
#include "cfapi/V8Time.h"

using namespace System;

static std::string unhex(const std::string &s)
{
	std::string r;
	for (size_t i = 0; i + 1 < s.size(); i += 2) r.push_back((char)std::stoi(s.substr(i, 2), nullptr, 16));
	return r;
}

// a[0] = kinds, one letter per stream (m, t, f); a[1] = prefix of disk file names; a[2..] = operations
// every operation yields one string; afterwards "size pos" and the content of each stream
COMMAND("stream.run")
{
	std::vector<std::unique_ptr<TStream>> st;
	for (size_t i = 0; i < a[0].size(); i++) {
		if (a[0][i] == 'm') st.emplace_back(new TMemoryStream());
		else if (a[0][i] == 't') st.emplace_back(new TTempStream());
		else {
			std::string name = a[1] + std::to_string(i);
			bool exists = std::ifstream(name).good();
			st.emplace_back(new TFileStream(name, exists ? fmOpenReadWrite : fmCreate));
		}
	}
	Args r;
	for (size_t k = 2; k < a.size(); k++) {
		std::istringstream in(a[k]);
		std::string op; int s; long long n = 0, m = 0;
		in >> op >> s;
		TStream &t = *st[s];
		std::string out;
		try {
			if (op == "w" || op == "wb" || op == "ws" || op == "wv") {
				std::string hex; in >> hex;
				std::string d = unhex(hex);
				if (op == "w") out = S(t.Write(d.data(), d.size()));
				else if (op == "wb") out = S(t.WriteBuffer(d.data(), d.size()));
				else if (op == "ws") { t.WriteString(d); out = S(d.size()); }
				else out = S(t.Write(std::vector<uint8_t>(d.begin(), d.end()), 0));
			} else if (op == "W") {
				in >> n >> m;
				std::string d(n, '\0');
				for (size_t i = 0; i < d.size(); i++) d[i] = (char)((i * 7 + i / 251 + m) & 255);
				out = S(t.Write(d.data(), d.size()));
			} else if (op == "r" || op == "rb") {
				in >> n;
				std::vector<char> b(n + 1, 0x5a);
				auto got = op == "r" ? t.Read(b.data(), n) : t.ReadBuffer(b.data(), n);
				out = S(got) + ":" + std::string(b.data(), got > 0 ? got : 0);
			} else if (op == "rv") {
				in >> n;
				std::vector<uint8_t> b;
				auto got = t.Read(b, n);
				out = S(got) + ":" + std::string(b.begin(), b.begin() + (got > 0 ? got : 0));
			} else if (op == "sb") { in >> n; out = S(t.Seek(n, soFromBeginning)); }
			else if (op == "sc") { in >> n; out = S(t.Seek(n, soFromCurrent)); }
			else if (op == "se") { in >> n; out = S(t.Seek(n, soFromEnd)); }
			else if (op == "sp") { in >> n; t.SetPosition(n); out = S(t.GetPosition()); }
			else if (op == "size") { in >> n; t.SetSize(n); out = S(t.GetSize()); }
			else if (op == "c") { in >> m >> n; out = S(t.CopyFrom(st[m].get(), n)); }
			else if (op == "close") { t.Close(); out = "closed"; }
			else out = "?";
		} catch (const std::exception &) {
			out = "exc";
		}
		r.push_back(out + "|" + S(t.GetSize()) + "|" + S(t.GetPosition()));
	}
	for (size_t i = 0; i < st.size(); i++) {
		TStream &t = *st[i];
		std::vector<char> b(t.GetSize() + 16, 0x5a);
		t.Seek(0, soFromBeginning);
		auto got = t.Read(b.data(), t.GetSize() + 16);
		r.push_back(std::string(b.data(), got > 0 ? got : 0));
	}
	return r;
}

// ---- time
static std::string U(const FILETIME &f)
{
	return std::to_string(((unsigned long long)(uint32_t)f.dwHighDateTime << 32) | (uint32_t)f.dwLowDateTime);
}
static FILETIME F(const std::string &s)
{
	unsigned long long v = std::stoull(s);
	FILETIME f;
	f.dwLowDateTime = (uint32_t)v;
	f.dwHighDateTime = (uint32_t)(v >> 32);
	return f;
}
struct Zone {
	explicit Zone(const std::string &tz) { setenv("TZ", tz.c_str(), 1); tzset(); }
	~Zone() { setenv("TZ", "UTC", 1); tzset(); }
};
static std::string V(const V8Time &t)
{
	TMemoryStream m;
	t.write_to_stream(&m);
	long long v = 0;
	if (m.GetSize() == 8) memcpy(&v, m.GetMemory(), 8);
	return S(v);
}
// a[0] = time zone
COMMAND("time.v8.toft") { Zone z(a[0]); V8Time t((int64_t)I(a[1])); return {U(t.to_file_time()), V(t)}; }
COMMAND("time.v8.fromft") { Zone z(a[0]); V8Time t(F(a[1])); V8Time u; u.from_file_time(F(a[1])); return {V(t), V(u)}; }
COMMAND("time.v8.utime") { Zone z(a[0]); auto u = V8Time::to_file_times(V8Time((int64_t)I(a[1])), V8Time((int64_t)I(a[2]))); return {S((long long)u.actime), S((long long)u.modtime)}; }
COMMAND("time.v8.now") { Zone z(a[0]); return {V(V8Time::current_time())}; }
COMMAND("time.posix") { FILETIME f = F(a[1]); return {S((long long)FileTime_to_POSIX(&f))}; }
COMMAND("time.unix") { FILETIME f; UnixTimeToFileTime((time_t)I(a[1]), &f); return {U(f)}; }
COMMAND("time.1cd") { Zone z(a[0]); FILETIME f; time1CD_to_FileTime(&f, a[1].data()); return {U(f)}; }
