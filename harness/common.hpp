// Shared harness protocol: deterministic RNG, case loop, event trace, violation recording, JSON output.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <algorithm>
#include <deque>
#include <functional>
#include <map>
#include <memory>
#include <set>
#include <sstream>
#include <string>
#include <unordered_set>
#include <utility>
#include <vector>

namespace vh {

typedef uint64_t u64;
typedef std::vector<uint8_t> Bytes;

inline u64 mix64(u64 x) {
	x += 0x9E3779B97F4A7C15ULL;
	x = (x ^ (x >> 30)) * 0xBF58476D1CE4E5B9ULL;
	x = (x ^ (x >> 27)) * 0x94D049BB133111EBULL;
	return x ^ (x >> 31);
}
inline u64 hash_bytes(const void *p, size_t n, u64 h = 1469598103934665603ULL) {
	auto c = static_cast<const uint8_t *>(p);
	for (size_t i = 0; i != n; ++i)
		h = (h ^ c[i]) * 1099511628211ULL;
	return h;
}
inline u64 hash_str(const std::string &s) { return hash_bytes(s.data(), s.size()); }

struct Rng {
	u64 s = 1;
	explicit Rng(u64 seed = 1) : s(seed) {}
	u64 next() {
		s += 0x9E3779B97F4A7C15ULL;
		u64 z = s;
		z     = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ULL;
		z     = (z ^ (z >> 27)) * 0x94D049BB133111EBULL;
		return z ^ (z >> 31);
	}
	u64 below(u64 n) { return n ? next() % n : 0; }
	u64 range(u64 a, u64 b) { return a + below(b - a + 1); }  // inclusive
	bool chance(unsigned percent) { return below(100) < percent; }
	bool coin() { return next() & 1; }
	uint8_t byte() { return uint8_t(next()); }
	double unit() { return double(next() >> 11) / 9007199254740992.0; }
	size_t len(size_t max) {  // skewed towards small and towards boundaries
		switch (below(6)) {
		case 0: return below(std::min<size_t>(max, 3) + 1);
		case 1: return below(std::min<size_t>(max, 16) + 1);
		case 2: return below(std::min<size_t>(max, 140) + 1);
		case 3: return max - below(std::min<size_t>(max, 4) + 1);
		default: return below(max + 1);
		}
	}
	Bytes bytes(size_t n) {
		Bytes b(n);
		for (auto &x : b) x = byte();
		return b;
	}
	std::string str(size_t n, const char *alphabet) {
		std::string r(n, ' ');
		size_t al = std::strlen(alphabet);
		for (auto &x : r) x = alphabet[below(al)];
		return r;
	}
	std::string bstr(size_t n) {
		std::string r(n, ' ');
		for (auto &x : r) x = char(byte());
		return r;
	}
	template<class T>
	const T &pick(const std::vector<T> &v) { return v[below(v.size())]; }
	template<class T>
	void shuffle(std::vector<T> &v) {
		for (size_t i = v.size(); i > 1; --i) std::swap(v[i - 1], v[below(i)]);
	}
};

inline std::string quote(const std::string &s, size_t max = 400) {
	std::string r;
	for (size_t i = 0; i != s.size() && i < max; ++i) {
		unsigned char c = static_cast<unsigned char>(s[i]);
		char buf[8];
		if (c == '\\' || c == '"') { r += '\\'; r += char(c); }
		else if (c == '\r') r += "\\r";
		else if (c == '\n') r += "\\n";
		else if (c < 32 || c > 126) { std::snprintf(buf, sizeof buf, "\\x%02x", c); r += buf; }
		else r += char(c);
	}
	if (s.size() > max) r += "...(" + std::to_string(s.size()) + " bytes)";
	return r;
}
inline std::string quote(const Bytes &b, size_t max = 400) { return quote(std::string(b.begin(), b.end()), max); }

struct Violation { std::string key, msg; u64 caseseed; };

struct Ctx {
	std::string mode, out;
	u64 seed = 1, cases = 0, shard = 0;
	bool thorough = false, verbose = false, has_replay = false;
	u64 replay = 0;
	// per case
	u64 caseseed = 0;
	Rng rng;
	u64 th = 0;       // trace hash
	u64 events = 0;   // events observed in this case
	bool nontrivial = false, failed = false;
	std::string only;  // if set, violations whose key does not start with it belong to other properties
	std::string desc;  // human description of the case (kept for samples)
	std::deque<std::string> log;
	// totals
	u64 done = 0, total_events = 0, nontrivial_cases = 0;
	std::unordered_set<u64> hashes;
	std::map<std::string, u64> counters;
	std::vector<std::string> samples;
	std::vector<Violation> violations;
	std::map<std::string, int> viol_keys;
};
Ctx &ctx();

inline void count(const char *name, u64 n = 1) { ctx().counters[name] += n; }
inline void ev(u64 x) {  // an observed event enters the trace hash
	Ctx &c = ctx();
	c.th   = mix64(c.th ^ (x * 0x9E3779B97F4A7C15ULL + 0x1234567));
	c.events++;
}
inline void note(const std::string &s) {
	Ctx &c = ctx();
	if (c.verbose) { std::fprintf(stderr, "  %s\n", s.c_str()); }
	c.log.push_back(s);
	if (c.log.size() > 200) c.log.pop_front();
}
#define NOTE(expr)                                    \
	do {                                              \
		std::ostringstream _os;                       \
		_os << expr;                                  \
		::vh::note(_os.str());                        \
	} while (0)
void viol(const std::string &key, const std::string &msg);
#define VIOL(key, expr)                               \
	do {                                              \
		std::ostringstream _os;                       \
		_os << expr;                                  \
		::vh::viol(key, _os.str());                   \
	} while (0)
// checks a condition; records a violation named by key
#define EXPECT(cond, key, expr)                       \
	do {                                              \
		if (!(cond)) VIOL(key, expr << " [" #cond "]"); \
	} while (0)

// Run N cases of fn; handles seeds, replay, exceptions and output. Modes registered in main().
typedef std::function<void()> CaseFn;
int harness_main(int argc, char **argv, const std::map<std::string, CaseFn> &modes);
[[noreturn]] void finish_now(int code);  // write output and exit (used after unrecoverable harness state)

size_t live_heap();  // bytes currently allocated, 0 if unknown

}  // namespace vh
