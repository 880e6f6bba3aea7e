// Shared by the harnesses which run the library on the simulated kernel.
#pragma once
#include <crab/crab.hpp>
#include <condition_variable>
#include <list>
#include <mutex>
#include <netdb.h>
#include "sim.hpp"

using namespace vh;
using sim::EP;
using sim::MS;
using sim::SEC;

inline uint8_t pat(u64 stream, u64 pos) { return uint8_t(mix64(stream * 0x9E3779B97F4A7C15ULL + pos / 8) >> (8 * (pos % 8))); }
inline std::string pats(u64 stream, u64 pos, size_t n) {
	std::string r(n, ' ');
	for (size_t i = 0; i != n; ++i) r[i] = char(pat(stream, pos + i));
	return r;
}
inline std::string diff(u64 stream, u64 pos, const uint8_t *d, size_t n) {  // empty if equal
	for (size_t i = 0; i != n; ++i)
		if (d[i] != pat(stream, pos + i)) {
			std::ostringstream os;
			os << "byte " << pos + i << " differs";
			for (u64 k = 0; k < pos + 100000 && n - i >= 8; ++k) {  // where do these bytes come from
				bool same = true;
				for (size_t q = 0; q != 8 && same; ++q) same = pat(stream, k + q) == d[i + q];
				if (same) { os << " (carries bytes from position " << k << ")"; break; }
			}
			return os.str();
		}
	return {};
}
inline sim::Addr sa(const crab::Address &a) {
	if (!a.impl_get_sockaddr_length()) return {};
	return sim::from_sockaddr(a.impl_get_sockaddr(), socklen_t(a.impl_get_sockaddr_length()));
}
inline crab::Address ca(const sim::Addr &a) {
	crab::Address r;
	sim::to_sockaddr(a, r.impl_get_sockaddr(), sizeof(sockaddr_storage));
	return r;
}
inline EP find_ep(const sim::Addr &local, const sim::Addr &remote) {
	EP r;
	sim::for_each_library_endpoint([&](const EP &e) { if (e->local == local && e->remote == remote) r = e; });
	return r;
}
inline std::string fault_text(int e) { return std::to_string(e); }

// errors each system call may really return
inline int pick_errno(sim::Sys s, Rng &r) {
	static const std::map<int, std::vector<int>> m = {
	    {sim::S_SOCKET, {EMFILE, ENFILE, ENOBUFS, ENOMEM}}, {sim::S_SETSOCKOPT, {ENOPROTOOPT, ENOBUFS, EINVAL}}, {sim::S_FCNTL, {EINVAL}},
	    {sim::S_BIND, {EADDRINUSE, EADDRNOTAVAIL, EACCES}}, {sim::S_LISTEN, {EADDRINUSE}},
	    {sim::S_CONNECT, {ECONNREFUSED, ENETUNREACH, EADDRNOTAVAIL, EAGAIN, EACCES}},
	    {sim::S_ACCEPT, {EMFILE, ENFILE, ENOBUFS, ENOMEM, ECONNABORTED, EPERM, EINTR, ENETDOWN, EPROTO, EHOSTUNREACH}},
	    {sim::S_RECV, {ECONNRESET, ETIMEDOUT, EHOSTUNREACH, ENOMEM}}, {sim::S_SEND, {ECONNRESET, EPIPE, ENOBUFS, ETIMEDOUT}},
	    {sim::S_RECVFROM, {ECONNREFUSED, EHOSTUNREACH}}, {sim::S_SENDTO, {ECONNREFUSED, ENETUNREACH, EPERM, ENOBUFS}},
	    {sim::S_EPOLL_CREATE, {EMFILE, ENFILE, ENOMEM}}, {sim::S_EPOLL_CTL, {ENOMEM, ENOSPC}}, {sim::S_EVENTFD, {EMFILE, ENFILE, ENOMEM}},
	    {sim::S_SHUTDOWN, {ENOTCONN}}, {sim::S_CLOSE, {EINTR, EIO}}};
	auto it = m.find(s);
	return it == m.end() ? 0 : r.pick(it->second);
}
struct Faults {
	unsigned rate[sim::S_COUNT] = {};  // per 10000
	bool on = false;
	void arm(Rng &r, bool all) {
		on = true;
		for (int s = 0; s != sim::S_COUNT; ++s) rate[s] = r.chance(40) ? unsigned(r.below(all ? 2500 : 300)) : 0;
		rate[sim::S_RECV] /= 8;
		rate[sim::S_SEND] /= 8;
		rate[sim::S_EPOLL_WAIT] = 0;
		if (!all) rate[sim::S_SETSOCKOPT] = rate[sim::S_FCNTL] = rate[sim::S_CLOSE] = rate[sim::S_EPOLL_CREATE] = rate[sim::S_EVENTFD] = rate[sim::S_SHUTDOWN] = 0;
	}
	int operator()(sim::Sys s) {
		if (!on || !rate[s] || sim::rng().below(10000) >= rate[s]) return 0;
		count("faults_injected");
		return pick_errno(s, sim::rng());
	}
};
// small buffers make every byte an event: keep the volume in proportion
inline u64 vol(u64 n) { size_t c = sim::cfg().cap_min; return c < 20 ? n / 60 + 1 : c < 200 ? n / 8 + 1 : n; }
inline void random_net(sim::Config &c, Rng &r) {
	c.spurious     = unsigned(r.below(12));
	c.eintr        = unsigned(r.below(6));
	c.subset       = unsigned(r.below(80));
	c.split        = unsigned(r.below(100));
	c.sync_connect = unsigned(r.below(50));
	switch (r.below(4)) {
	case 0: c.cap_max = 20; break;
	case 1: c.cap_min = 20; c.cap_max = 1000; break;
	default: c.cap_min = 200; c.cap_max = 70000;
	}
	switch (r.below(3)) {
	case 0: c.delay_max = 1000; break;
	case 1: c.delay_max = 100000; break;
	default: c.delay_max = 5 * MS;
	}
}
// Names are resolved when the harness says so, at a moment of virtual time: the library's worker thread waits in getaddrinfo.
struct DnsGate {
	std::mutex mu;
	std::condition_variable cv;
	std::set<std::string> released;
	std::map<std::string, sim::Gai> answers;
	std::map<std::string, int> asked;  // lookups that reached the resolver
	bool active = false;
	int inside  = 0;
	std::deque<std::string> order;  // outstanding requests, oldest first (main thread)
	static DnsGate &get() { static DnsGate *g = new DnsGate; return *g; }
	void begin() {
		{
			std::lock_guard<std::mutex> l(mu);
			active = true;
			released.clear();
			answers.clear();
			asked.clear();
		}
		order.clear();
		sim::resolver = [this](const std::string &name, const std::string &service, int) {
			std::unique_lock<std::mutex> l(mu);
			std::string host = answers.count(name + ":" + service) ? name + ":" + service : name;
			asked[host]++;
			inside++;
			cv.wait(l, [&] { return !active || released.count(host); });
			inside--;
			cv.notify_all();
			auto it = answers.find(host);
			if (it != answers.end()) return it->second;
			sim::Gai g;
			g.rc = EAI_NONAME;
			return g;
		};
	}
	void ask(const std::string &host, const sim::Gai &g) {  // before the library is asked
		std::lock_guard<std::mutex> l(mu);
		answers[host] = g;
		released.erase(host);
		order.push_back(host);
	}
	bool pending(const std::string &host) const { return std::find(order.begin(), order.end(), host) != order.end(); }
	void cancelled(const std::string &host) {  // after the library was told to cancel
		auto it = std::find(order.begin(), order.end(), host);
		if (it == order.end()) return;
		order.erase(it);
		std::lock_guard<std::mutex> l(mu);
		released.insert(host);
		cv.notify_all();
	}
	bool try_release(const std::string &host) {  // true when the answer is on its way to the loop (or nobody waits for it)
		auto it = std::find(order.begin(), order.end(), host);
		if (it == order.end()) return true;
		if (it != order.begin()) return false;
		u64 w = sim::foreign_wakes();
		{
			std::lock_guard<std::mutex> l(mu);
			released.insert(host);
			cv.notify_all();
		}
		order.pop_front();
		if (!sim::wait_foreign(w, 60)) {
			VIOL("dns-lost", "the resolver answered for " << host << ", the loop was not woken");
			finish_now(0);
		}
		count("dns_answers");
		return true;
	}
	void end() {
		std::unique_lock<std::mutex> l(mu);
		active = false;
		cv.notify_all();
		cv.wait(l, [&] { return inside == 0; });
	}
};

// Runs the loop until ops are exhausted and `settle` virtual time passed.
template<class T>
struct Settling {
	static void run(T &t, crab::RunLoop &loop, u64 settle_ns) {
		u64 since = 0;
		crab::Watcher w([&] { t.settle(); });
		sim::on_wait = [&](int) {
			t.tick();
			if (t.ops_left > 0 || t.stop) return;
			if (!since) { since = sim::now(); w.call(); }
			if (sim::now() > std::max(since, t.progress) + settle_ns) { t.stop = true; loop.cancel(); }
		};
		loop.run();
		t.stop = true;
		sim::on_wait = nullptr;
		sim::on_block = nullptr;
	}
};


// M03: the same history again and again must not leave more and more memory allocated.
inline void repeat_release(const std::string &what, const std::function<void()> &fn) {
	Rng start = ctx().rng;
	size_t before = 0, grown = 0;
	std::vector<long long> d;
	d.reserve(8);
	for (int i = 0; i != 5; ++i) {
		ctx().rng = start;
		ctx().log.clear();
		ctx().desc.clear();
		fn();
		std::deque<std::string>().swap(ctx().log);
		std::string().swap(ctx().desc);
		size_t now = live_heap();
		if (i >= 2) { d.push_back((long long)now - (long long)before); if (now > before) grown++; }
		before = now;
	}
	count("release_cases");
	if (grown == d.size() && !ctx().failed) {
		std::ostringstream os;
		for (auto x : d) os << x << " ";
		VIOL("memory-leak", "each repetition of the same history leaves more memory allocated: " << os.str() << "bytes, history " << what);
	}
	ctx().desc = "history " + what + " repeated 5 times";
}
