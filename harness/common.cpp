#include "common.hpp"
#include <fcntl.h>
#include <sys/mman.h>
#include <sys/time.h>
#include <unistd.h>
#include <csignal>
#include <ctime>
#include <exception>

extern "C" size_t __sanitizer_get_current_allocated_bytes() __attribute__((weak));

namespace vh {

Ctx &ctx() {
	static Ctx *c = new Ctx;
	return *c;
}
size_t live_heap() { return __sanitizer_get_current_allocated_bytes ? __sanitizer_get_current_allocated_bytes() : 0; }

static std::string js(const std::string &s) {
	std::string r = "\"";
	for (unsigned char c : s) {
		char b[8];
		if (c == '"' || c == '\\') { r += '\\'; r += char(c); }
		else if (c < 32 || c > 126) { std::snprintf(b, sizeof b, "\\u%04x", c); r += b; }
		else r += char(c);
	}
	return r + "\"";
}

static void write_out() {
	Ctx &c = ctx();
	if (c.out.empty()) return;
	FILE *f = std::fopen((c.out + ".tmp").c_str(), "w");
	if (!f) std::abort();
	std::fprintf(f, "{\"mode\":%s,\"shard\":%llu,\"cases\":%llu,\"events\":%llu,\"nontrivial\":%llu,\"distinct\":%zu,\n\"counters\":{",
	    js(c.mode).c_str(), (unsigned long long)c.shard, (unsigned long long)c.done, (unsigned long long)c.total_events,
	    (unsigned long long)c.nontrivial_cases, c.hashes.size());
	bool first = true;
	for (auto &kv : c.counters) { std::fprintf(f, "%s%s:%llu", first ? "" : ",", js(kv.first).c_str(), (unsigned long long)kv.second); first = false; }
	std::fprintf(f, "},\n\"samples\":[");
	first = true;
	for (auto &s : c.samples) { std::fprintf(f, "%s%s", first ? "" : ",\n", js(s).c_str()); first = false; }
	std::fprintf(f, "],\n\"violations\":[");
	first = true;
	for (auto &v : c.violations) {
		std::fprintf(f, "%s{\"key\":%s,\"msg\":%s,\"caseseed\":\"%llu\"}", first ? "" : ",\n", js(v.key).c_str(), js(v.msg).c_str(), (unsigned long long)v.caseseed);
		first = false;
	}
	std::fprintf(f, "]}\n");
	std::fclose(f);
	FILE *h = std::fopen((c.out + ".hash").c_str(), "wb");
	if (h) {
		for (u64 x : c.hashes) std::fwrite(&x, 8, 1, h);
		std::fclose(h);
	}
	std::rename((c.out + ".tmp").c_str(), c.out.c_str());
}

void finish_now(int code) {
	write_out();
	_exit(code);
}

void viol(const std::string &key, const std::string &msg) {
	Ctx &c   = ctx();
	if (key.compare(0, c.only.size(), c.only) != 0) { count("other_reports"); return; }
	c.failed = true;
	int &n   = c.viol_keys[key];
	if (c.verbose) std::fprintf(stderr, "VIOL %s: %s\n", key.c_str(), msg.c_str());
	if (++n <= 3) {
		std::string full = msg;
		if (!c.desc.empty()) full += " | case: " + c.desc;
		std::string tail;
		size_t from = c.log.size() > 25 ? c.log.size() - 25 : 0;
		for (size_t i = from; i < c.log.size(); ++i) tail += " / " + c.log[i];
		if (!tail.empty()) full += " | log:" + tail;
		if (full.size() > 6000) full.resize(6000);
		c.violations.push_back({key, full, c.caseseed});
	}
}

static volatile u64 *g_progress = nullptr;
static void on_cpu_limit(int) {
	g_progress[3] = 2;
	_exit(99);
}
static void arm_cpu_limit(int seconds) {
	struct itimerval tv = {};
	tv.it_value.tv_sec  = seconds;
	::setitimer(ITIMER_PROF, &tv, nullptr);
}

int harness_main(int argc, char **argv, const std::map<std::string, CaseFn> &modes) {
	Ctx &c = ctx();
	for (int i = 1; i < argc; ++i) {
		std::string a = argv[i];
		auto val      = [&]() -> std::string { return i + 1 < argc ? argv[++i] : std::string{}; };
		if (a == "--mode") c.mode = val();
		else if (a == "--seed") c.seed = std::strtoull(val().c_str(), nullptr, 10);
		else if (a == "--shard") c.shard = std::strtoull(val().c_str(), nullptr, 10);
		else if (a == "--cases") c.cases = std::strtoull(val().c_str(), nullptr, 10);
		else if (a == "--out") c.out = val();
		else if (a == "--thorough") c.thorough = true;
		else if (a == "-v") c.verbose = true;
		else if (a == "--replay") { c.has_replay = true; c.replay = std::strtoull(val().c_str(), nullptr, 10); }
		else { std::fprintf(stderr, "bad arg %s\n", a.c_str()); return 2; }
	}
	auto it = modes.find(c.mode);
	if (it == modes.end()) { std::fprintf(stderr, "unknown mode %s\n", c.mode.c_str()); return 2; }
	static u64 dummy_progress[4];
	g_progress = dummy_progress;
	if (!c.out.empty()) {
		int fd = ::open((c.out + ".progress").c_str(), O_RDWR | O_CREAT | O_TRUNC, 0644);
		if (fd >= 0 && ::ftruncate(fd, 4096) == 0) {
			void *p = ::mmap(nullptr, 4096, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
			if (p != MAP_FAILED) g_progress = static_cast<volatile u64 *>(p);
			::close(fd);
		}
	}
	u64 base = mix64(c.seed * 1000003 + hash_str(c.mode));
	std::signal(SIGPROF, on_cpu_limit);
	u64 n    = c.has_replay ? 1 : c.cases;
	std::time_t started = std::time(nullptr);
	for (u64 i = 0; i < n; ++i) {
		c.caseseed   = c.has_replay ? c.replay : mix64(base + c.shard * 0x100000000ULL + i);
		g_progress[0] = c.caseseed;
		g_progress[1] = i + 1;
		arm_cpu_limit(40);  // CPU time of one case, normally milliseconds
		c.rng         = Rng(c.caseseed);
		c.th          = 0;
		c.events      = 0;
		c.nontrivial  = false;
		c.failed      = false;
		c.desc.clear();
		c.log.clear();
		try {
			it->second();
		} catch (const std::exception &ex) {
			viol("exception:" + c.mode, std::string("exception escaped: ") + ex.what());
		} catch (...) {
			viol("exception:" + c.mode, "unknown exception escaped");
		}
		c.done++;
		c.total_events += c.events;
		if (c.nontrivial) {
			c.nontrivial_cases++;
			if (c.hashes.size() < 4000000) c.hashes.insert(mix64(c.th ^ hash_str(c.mode)));
		}
		if (c.samples.size() < 3 && c.nontrivial && !c.desc.empty()) c.samples.push_back(c.desc.substr(0, 600));
		g_progress[2] = c.done;
		if (c.failed && !c.has_replay) write_out();  // not lost when a later case has to be stopped
		if (c.violations.size() >= 12 || (!c.violations.empty() && std::time(nullptr) - started > 60)) break;
	}
	g_progress[3] = 1;
	write_out();
	if (c.has_replay && c.verbose)
		for (auto &kv : c.counters) std::fprintf(stderr, "counter %s=%llu\n", kv.first.c_str(), (unsigned long long)kv.second);
	std::fflush(nullptr);
	_exit(c.has_replay && !c.violations.empty() ? 1 : 0);
}

}  // namespace vh
