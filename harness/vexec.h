// Executor protocol: requests and responses are lists of byte strings.
#ifndef VEXEC_H
#define VEXEC_H
#include <cstdint>
#include <functional>
#include <map>
#include <string>
#include <vector>

typedef std::vector<std::string> Args;
typedef std::function<Args(const Args &)> Handler;

struct Reg {
	Reg(const char *name, Handler h);
};
#define VCAT2(a, b) a##b
#define VCAT(a, b) VCAT2(a, b)
#define COMMAND(name) \
	static Args VCAT(cmd_, __LINE__)(const Args &a); \
	static Reg VCAT(reg_, __LINE__)(name, VCAT(cmd_, __LINE__)); \
	static Args VCAT(cmd_, __LINE__)(const Args &a)

inline std::string S(long long v) { return std::to_string(v); }
inline std::string B(bool v) { return v ? "1" : "0"; }
inline long long I(const std::string &s) { return std::stoll(s); }

// messages registered by the product since the last command began, "state|text"
std::vector<std::string> &messages();
#endif
