#include "vexec.h"
#include <unistd.h>
#include <fcntl.h>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <stdexcept>
#include <typeinfo>
#include <cxxabi.h>
#include "MessageRegistration.h"

extern Registrator msreg_g;

static std::map<std::string, Handler> &table()
{
	static std::map<std::string, Handler> t;
	return t;
}

Reg::Reg(const char *name, Handler h) { table()[name] = h; }

std::vector<std::string> &messages()
{
	static std::vector<std::string> m;
	return m;
}

class Recorder : public MessageRegistrator
{
public:
	void AddDetailedMessage(const std::string &description, const MessageState mstate, const TStringList *param) override
	{
		if (messages().size() > 200) return;
		std::string s = std::to_string((int)mstate) + "|" + description;
		if (param) for (size_t i = 0; i < param->size(); i++) s += "\n" + (*param)[i];
		messages().push_back(s);
	}
	void Status(const std::string &) override {}
};

static bool read_all(int fd, void *buf, size_t n)
{
	char *p = (char *)buf;
	while (n) {
		ssize_t k = ::read(fd, p, n);
		if (k <= 0) return false;
		p += k; n -= k;
	}
	return true;
}
static void write_all(int fd, const void *buf, size_t n)
{
	const char *p = (const char *)buf;
	while (n) {
		ssize_t k = ::write(fd, p, n);
		if (k <= 0) _exit(3);
		p += k; n -= k;
	}
}

static std::string type_name(const std::exception &e)
{
	int st = 0;
	char *d = abi::__cxa_demangle(typeid(e).name(), 0, 0, &st);
	std::string r = d ? d : typeid(e).name();
	free(d);
	return r;
}

static Args run(const Args &a)
{
	Args r;
	messages().clear();
	auto it = table().find(a[0]);
	if (it == table().end()) { r.push_back("nocmd"); return r; }
	try {
		Args b(a.begin() + 1, a.end());
		Args o = it->second(b);
		r.push_back("ok");
		r.insert(r.end(), o.begin(), o.end());
	} catch (const std::exception &e) {
		r.clear();
		r.push_back("exc"); r.push_back(type_name(e)); r.push_back(e.what());
	} catch (...) {
		r.clear();
		r.push_back("exc"); r.push_back("unknown"); r.push_back("");
	}
	return r;
}

COMMAND("messages.flush") { (void)a; return Args(); }
COMMAND("commands") { (void)a; Args r; for (auto &kv : table()) r.push_back(kv.first); return r; }

int main()
{
	// the protocol uses private descriptors; stdout of the product goes to stderr
	int in = dup(0), out = dup(1);
	int nul = open("/dev/null", O_RDWR);
	dup2(nul, 0);
	dup2(nul, 1);
	static Recorder rec;
	msreg_g.AddMessageRegistrator(&rec);
	for (;;) {
		uint32_t n;
		if (!read_all(in, &n, 4)) break;
		Args a(n);
		for (uint32_t i = 0; i < n; i++) {
			uint32_t len;
			if (!read_all(in, &len, 4)) return 2;
			a[i].resize(len);
			if (len && !read_all(in, &a[i][0], len)) return 2;
		}
		Args r = run(a);
		std::string msgs;
		for (auto &m : messages()) { msgs += m; msgs += '\0'; }
		r.push_back(msgs);
		std::string o;
		uint32_t k = r.size();
		o.append((char *)&k, 4);
		for (auto &s : r) { uint32_t l = s.size(); o.append((char *)&l, 4); o += s; }
		write_all(out, o.data(), o.size());
	}
	return 0;
}
