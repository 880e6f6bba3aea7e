// E03 watchers across threads, E04 run loops and threads, N05 name resolution, N06 signals, M02 mixed programs.
// Real threads on the real kernel; scheduling is perturbed at lock, wakeup and resolver calls. Nothing here may
// order the library's own accesses: monitors use relaxed atomics, so that ThreadSanitizer sees only what the library does.
#include <crab/crab.hpp>
#include <arpa/inet.h>
#include <dirent.h>
#include <fcntl.h>
#include <netdb.h>
#include <poll.h>
#include <pthread.h>
#include <signal.h>
#include <spawn.h>
#include <sys/epoll.h>
#include <sys/eventfd.h>
#include <sys/socket.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>
#include <atomic>
#include <list>
#include <mutex>
#include <thread>
#include "common.hpp"

using namespace vh;
namespace http = crab::http;
extern char **environ;

namespace {
const auto RLX = std::memory_order_relaxed;
u64 real_ns() { timespec t; ::clock_gettime(CLOCK_MONOTONIC, &t); return u64(t.tv_sec) * 1000000000ULL + u64(t.tv_nsec); }
void usleep_(u64 us) { timespec t{time_t(us / 1000000), long(us % 1000000) * 1000}; ::nanosleep(&t, nullptr); }
// ---------------------------------------------------------------- perturbation
std::atomic<int> g_noise{0};  // per thousand calls
std::atomic<u64> g_perturbed{0};
thread_local u64 t_rng = 0;
u64 trnd() {
	if (!t_rng) t_rng = mix64(u64(::pthread_self()) ^ real_ns());
	return t_rng = mix64(t_rng);
}
void noise() {
	int k = g_noise.load(RLX);
	if (!k || int(trnd() % 1000) >= k) return;
	int e = errno;
	g_perturbed.fetch_add(1, RLX);
	switch (trnd() % 4) {
	case 0: ::sched_yield(); break;
	case 1: { u64 n = trnd() % 2000; for (volatile u64 i = 0; i < n; i = i + 1) {} } break;
	case 2: usleep_(1 + trnd() % 60); break;
	default: if (trnd() % 4 == 0) usleep_(trnd() % 600); else ::sched_yield();
	}
	errno = e;
}
// ---------------------------------------------------------------- events and violations of any thread
const u64 LOGN = 1 << 15;
std::atomic<uint32_t> g_log[LOGN];
std::atomic<u64> g_logn{0};
std::atomic<uint32_t> g_threads{0};
thread_local uint32_t t_id = 0;
std::atomic<u64> g_case{0};
void tev(uint32_t what) {
	if (!t_id) t_id = 1 + g_threads.fetch_add(1, RLX);
	u64 i = g_logn.fetch_add(1, RLX);
	if (i < LOGN) g_log[i].store(t_id << 20 | (what & 0xfffff), RLX);
}
std::mutex &vmu() { static std::mutex *m = new std::mutex; return *m; }
std::vector<std::pair<std::string, std::string>> &vlist() { static auto *v = new std::vector<std::pair<std::string, std::string>>; return *v; }
void tviol(const std::string &key, const std::string &msg) {
	std::unique_lock<std::mutex> l(vmu());
	vlist().push_back({key, msg});
	if (ctx().verbose) std::fprintf(stderr, "VIOL %s: %s\n", key.c_str(), msg.c_str());
}
void flush_viols() {
	std::unique_lock<std::mutex> l(vmu());
	for (auto &v : vlist()) viol(v.first, v.second);
	vlist().clear();
}
[[noreturn]] void give_up(const std::string &key, const std::string &msg) {  // threads cannot be stopped any more
	tviol(key, msg);
	g_noise = 0;
	flush_viols();
	finish_now(ctx().has_replay ? 1 : 0);
}
#define TVIOL(key, expr) do { std::ostringstream _os; _os << expr; tviol(key, _os.str()); } while (0)
#define TEXPECT(cond, key, expr) do { if (!(cond)) TVIOL(key, expr << " [" #cond "]"); } while (0)
const u64 PATIENCE = 30000;  // ms; nothing here takes longer than milliseconds
template<class F>
bool wait_for(F f, u64 ms = PATIENCE) {
	u64 end = 0;
	for (u64 i = 0;; ++i) {
		if (f()) return true;
		if (i < 50) { ::sched_yield(); continue; }
		u64 now = real_ns();
		if (!end) end = now + ms * 1000000;
		if (now > end) return f();
		usleep_(i < 200 ? 20 : 300);
	}
}
std::atomic<u64> g_deadline{0};
void watchdog() {
	static bool started = false;
	if (started) return;
	started = true;
	std::thread([] {
		while (true) {
			usleep_(200000);
			u64 d = g_deadline.load(RLX);
			if (d && real_ns() > d) give_up("hang:" + ctx().mode, "case did not finish in 100 seconds");
		}
	}).detach();
}
size_t open_fds() {
	size_t n = 0;
	DIR *d = ::opendir("/proc/self/fd");
	if (!d) return 0;
	while (::readdir(d)) ++n;
	::closedir(d);
	return n;
}
int noise_level(Rng &r) { static const std::vector<int> k = {0, 20, 100, 100, 300, 700}; return r.pick(k); }
void spin(Rng &r) {  // a random pause
	switch (r.below(6)) {
	case 0: break;
	case 1: case 2: { u64 n = r.below(3000); for (volatile u64 i = 0; i < n; i = i + 1) {} } break;
	case 3: ::sched_yield(); break;
	case 4: usleep_(r.below(100)); break;
	default: if (r.chance(20)) usleep_(r.below(1500)); else usleep_(r.below(20));
	}
}
std::atomic<long long> clock_ahead{0};  // ns added to the steady clock, so that what the library caches for a while expires often
void after_us(crab::Timer &t, u64 us) { t.once(std::chrono::duration_cast<std::chrono::steady_clock::duration>(std::chrono::microseconds(us))); }

struct Real {  // frame of a case
	Rng &r;
	bool dog;
	explicit Real(bool dog = true) : r(ctx().rng), dog(dog) {
		g_logn = 0;
		g_perturbed = 0;
		g_threads = 0;
		t_id = 0;
		t_rng = mix64(r.next());
		g_deadline = real_ns() + 100000000000ULL;
		if (dog) watchdog();
		g_noise = noise_level(r);
	}
	void finish(const std::string &desc, bool nontrivial) {
		g_noise = 0;
		u64 n = std::min<u64>(g_logn.load(), LOGN);
		for (u64 i = 0; i != n; ++i) ev(g_log[i].load(RLX));
		count("perturbations", g_perturbed.load());
		ctx().desc = desc + ", " + std::to_string(n) + " events";
		ctx().nontrivial = nontrivial;
	}
	u64 born = real_ns();
	~Real() { if (ctx().verbose) std::fprintf(stderr, "case %llu took %llu ms: %s\n", (unsigned long long)ctx().caseseed, (unsigned long long)((real_ns() - born) / 1000000), ctx().desc.c_str()); g_noise = 0; g_deadline = 0; flush_viols(); }
};

// ================================================================ E03 watchers
struct WatchCase : Real {
	struct W {
		crab::Watcher *ptr = nullptr;
		std::atomic<bool> open{true};
		std::atomic<int> users{0};
		std::atomic<u64> started{0}, done{0}, begun{0}, cancels{0};  // cancels is odd while cancelling
		size_t loop = 0, slot = 0;
		std::unique_ptr<crab::Watcher> w;
		// loop thread
		bool alive = true, solo = false;
		u64 floor = 0, since = 0;
		std::vector<u64> cells;  // plain memory written before the calls of a solo watcher
	};
	struct Obl { W *w = nullptr; u64 b0 = 0, c0 = 0; bool own = false; };
	struct Loop {
		std::unique_ptr<crab::Thread> th;
		std::unique_ptr<std::atomic<W *>[]> slots;
		std::deque<std::unique_ptr<W>> all;
		std::list<crab::Timer> timers;
		std::unique_ptr<crab::Idle> idle;
		std::thread::id tid;
		Rng r{1};
		int acts = 0;
		std::vector<Obl> obl;
		size_t index = 0;
		std::unique_ptr<crab::Watcher> ctl;
		std::atomic<int> ready{0}, synced{0};
	};
	std::vector<std::unique_ptr<Loop>> loops;
	size_t nslots = 1;
	bool cancels = false, destroys = false, own_calls = false;
	std::atomic<bool> quiet{false};  // no actions any more
	std::atomic<u64> n_calls{0}, n_cb{0}, n_cancel{0}, n_destroy{0}, n_sync{0}, n_solo{0};

	W *make(size_t li, size_t s, size_t solo = 0) {  // loop thread
		Loop &l = *loops[li];
		l.all.emplace_back(new W);
		W *w    = l.all.back().get();
		w->loop = li;
		w->slot = s;
		w->cells.resize(solo);
		w->solo = solo != 0;
		std::string canary(48, 'w');
		w->w.reset(new crab::Watcher([this, w, canary] { auto *self = this; W *ww = w; std::string c = canary; self->on_cb(*ww); }));
		w->ptr = w->w.get();
		l.slots[s].store(w);
		return w;
	}
	bool call(W &w, Obl &o) {
		w.users.fetch_add(1);
		if (!w.open.load()) { w.users.fetch_sub(1); return false; }
		o.w  = &w;
		o.c0 = w.cancels.load();
		o.b0 = w.begun.load(RLX);
		w.started.fetch_add(1, RLX);
		n_calls.fetch_add(1, RLX);
		tev(uint32_t(w.loop * 64 + w.slot));
		w.ptr->call();
		w.done.fetch_add(1);
		w.users.fetch_sub(1);
		return true;
	}
	static bool met(const Obl &o) { return (o.c0 & 1) || o.w->begun.load(RLX) > o.b0 || o.w->cancels.load() != o.c0; }
	void on_cb(W &w) {
		u64 b  = w.begun.fetch_add(1, RLX) + 1;
		u64 st = w.started.load(RLX);
		n_cb.fetch_add(1, RLX);
		tev(uint32_t(0x10000 + w.loop * 64 + w.slot));
		Loop &l = *loops[w.loop];
		TEXPECT(std::this_thread::get_id() == l.tid, "callback-thread", "callback of watcher " << w.slot << " of loop " << w.loop);
		TEXPECT(w.alive, "callback-after-destroy", "watcher " << w.slot);
		TEXPECT(b <= st, "callback-excess", "callback " << b << " after " << st << " calls");
		w.since++;
		TEXPECT(w.since <= st - w.floor, "callback-after-cancel", "callback " << w.since << " since cancel, calls that could cause it: " << st - w.floor);
		if (w.solo && b <= w.cells.size()) TEXPECT(w.cells[b - 1] == mix64(b), "write-unseen", "write before call " << b << " not seen by its callback");
		if (!quiet.load(RLX)) act(l, &w);
	}
	void cancel(W &w) {
		u64 d = w.done.load();
		w.cancels.fetch_add(1);
		tev(uint32_t(0x20000 + w.loop * 64 + w.slot));
		w.w->cancel();
		w.floor = d;
		w.since = 0;
		w.cancels.fetch_add(1);
		n_cancel.fetch_add(1, RLX);
	}
	void destroy(W &w, bool remake) {
		w.open = false;
		wait_for([&] { return w.users.load() == 0; });
		w.cancels.fetch_add(1);
		tev(uint32_t(0x30000 + w.loop * 64 + w.slot));
		w.alive = false;
		w.w.reset();
		w.cancels.fetch_add(1);
		n_destroy.fetch_add(1, RLX);
		if (remake) make(w.loop, w.slot);
	}
	void act(Loop &l, W *self) {
		if (l.acts <= 0) return;
		size_t li = l.index;
		--l.acts;
		if (l.r.chance(50)) return;
		auto any = [&](size_t k) { return loops[k]->slots[l.r.below(nslots)].load(); };
		W *w = l.r.coin() && self && !self->solo ? self : any(li);
		switch (l.r.below(8)) {
		case 0: case 1: if (cancels && !w->solo) cancel(*w); break;
		case 2: if (destroys && !w->solo) destroy(*w, true); break;
		case 3: spin(l.r); break;
		default:
			if (!own_calls) break;
			{
				W *o = any(l.r.below(loops.size()));
				Obl b;
				if (o && !o->solo && call(*o, b)) { l.obl.push_back(b); if (l.obl.size() > 4000) l.obl.clear(); }
			}
		}
	}
	void loop_main(size_t li, size_t solos, size_t solo_calls, int ntimers, bool idle) {
		Loop &l = *loops[li];
		l.tid   = std::this_thread::get_id();
		for (size_t s = 0; s != nslots; ++s) make(li, s);
		for (size_t s = 0; s != solos; ++s) make(li, nslots + s, solo_calls);
		for (int i = 0; i != ntimers; ++i) {
			l.timers.emplace_back([] {});
			crab::Timer *t = &l.timers.back();
			t->set_handler([this, &l, t] { if (quiet.load(RLX)) return; act(l, nullptr); after_us(*t, 20 + l.r.below(1500)); });
			after_us(*t, l.r.below(500));
		}
		if (idle) l.idle.reset(new crab::Idle([this, &l] { if (quiet.load(RLX)) l.idle.reset(); else act(l, nullptr); }));
		l.ctl.reset(new crab::Watcher([&l] { l.synced = 1; }));
		l.ready = 1;
		crab::RunLoop::current()->run();
		l.ctl.reset();
		l.idle.reset();
		l.timers.clear();
		for (auto &w : l.all) if (w->w) destroy(*w, false);
	}
	void run() {
		size_t nloops = 1 + r.below(3), ncallers = 1 + r.below(4);
		nslots        = 1 + r.below(6);
		size_t solos = r.below(3), solo_calls = 10 + r.below(60);
		cancels = r.chance(60);
		destroys = r.chance(40);
		own_calls = r.chance(60);
		int ntimers = r.coin() ? 0 : int(1 + r.below(3));
		bool idle = r.chance(20);
		for (size_t i = 0; i != nloops; ++i) {
			loops.emplace_back(new Loop);
			loops[i]->r = Rng(r.next());
			loops[i]->index = i;
			loops[i]->slots.reset(new std::atomic<W *>[nslots + solos]);
			for (size_t s = 0; s != nslots + solos; ++s) loops[i]->slots[s] = nullptr;
			loops[i]->acts = int(r.below(300));
		}
		for (size_t i = 0; i != nloops; ++i) loops[i]->th.reset(new crab::Thread([this, i, solos, solo_calls, ntimers, idle] { loop_main(i, solos, solo_calls, ntimers, idle); }));
		for (auto &l : loops) if (!wait_for([&] { return l->ready.load() != 0; })) give_up("thread-start", "loop function did not start");
		std::vector<std::thread> callers;
		std::vector<std::vector<Obl>> obl(ncallers);
		for (size_t c = 0; c != ncallers; ++c) {
			u64 seed = r.next();
			int n    = int(20 + r.below(100));
			unsigned sync = r.chance(30) ? 100 : unsigned(r.below(100));
			callers.emplace_back([this, c, seed, n, sync, &obl] {
				Rng q(seed);
				for (int k = 0; k != n; ++k) {
					Loop &l = *loops[q.below(loops.size())];
					W *w    = l.slots[q.below(nslots)].load();
					Obl o;
					if (!call(*w, o)) continue;
					if (q.chance(sync)) {
						n_sync.fetch_add(1, RLX);
						if (!wait_for([&] { return met(o); })) give_up("call-lost", "watcher " + std::to_string(w->slot) + " was called after its last callback began and got no further callback");
					} else
						obl[c].push_back(o);
					spin(q);
				}
			});
		}
		for (size_t i = 0; i != nloops; ++i)
			for (size_t s = 0; s != solos; ++s) {
				W *w = loops[i]->slots[nslots + s].load();
				u64 seed = r.next();
				callers.emplace_back([this, w, seed] {
					Rng q(seed);
					for (u64 k = 0; k != w->cells.size(); ++k) {
						w->cells[k] = mix64(k + 1);
						w->started.fetch_add(1, RLX);
						w->ptr->call();
						n_solo.fetch_add(1, RLX);
						if (!wait_for([&] { return w->begun.load(RLX) > k; })) give_up("call-lost", "call " + std::to_string(k + 1) + " of a watcher with a single caller");
						spin(q);
					}
				});
			}
		bool early = r.chance(25);  // loops end while callers go on
		auto finish_loops = [&] {
			quiet = true;
			if (r.coin()) for (auto &l : loops) l->th->cancel();
			for (auto &l : loops) l->th.reset();
		};
		if (early && solos == 0) {
			spin(r);
			// callers that wait are released because destruction of the watchers ends their obligations
			for (auto &l : loops) wait_for([&] { return n_calls.load(RLX) > 10; }, 200);
			finish_loops();
			for (auto &t : callers) t.join();
			count("loops_ended_early");
		} else {
			for (auto &t : callers) t.join();
			quiet = true;
			for (auto &v : obl) for (auto &o : v) if (!wait_for([&] { return met(o); })) give_up("call-lost", "watcher " + std::to_string(o.w->slot) + " was called after its last callback began and got no further callback (async)");
			for (auto &l : loops) {
				l->ctl->call();
				if (!wait_for([&] { return l->synced.load() != 0; })) give_up("call-lost", "control watcher");
				for (auto &o : l->obl) if (!wait_for([&] { return met(o); })) give_up("call-lost", "watcher " + std::to_string(o.w->slot) + " was called by a loop thread after its last callback began and got no further callback");
				count("awaited_calls", l->obl.size());
			}
			finish_loops();
		}
		for (auto &l : loops) for (auto &w : l->all) {
			TEXPECT(w->begun.load() <= w->started.load(), "callback-excess", "");
			if (w->solo && !early) TEXPECT(w->begun.load() == w->cells.size(), "callback-excess", "solo watcher had " << w->begun.load() << " callbacks for " << w->cells.size() << " calls");
		}
		count("watcher_calls", n_calls + n_solo);
		count("watcher_callbacks", n_cb);
		count("awaited_calls", n_sync + n_solo);
		count("watcher_cancels", n_cancel);
		count("watchers_destroyed", n_destroy);
		count("handed_over_writes", n_solo);
		std::ostringstream os;
		os << nloops << " loops of " << nslots << " watchers and " << solos << " solo watchers, " << ncallers << " callers, " << n_calls << " calls, " << n_cb << " callbacks, " << n_cancel << " cancels, " << n_destroy << " destroyed";
		finish(os.str(), n_cb > 0);
	}
};

// ================================================================ E04 run loops and threads
struct RunCase : Real {
	std::atomic<u64> n_cancel{0}, n_runs{0}, n_cb{0};
	// work that keeps a loop busy or lets it sleep
	struct Work {
		RunCase &c;
		Rng r;
		std::list<crab::Timer> timers;
		std::list<crab::Idle> idles;
		std::unique_ptr<crab::Watcher> w;
		bool ended = false;
		u64 after_cancel = 0;
		bool cancelled = false;
		unsigned kind;
		int left;
		Work(RunCase &c, u64 seed) : c(c), r(seed), kind(unsigned(r.below(5))), left(int(r.below(40))) {
			w.reset(new crab::Watcher([this] { work(); if (left > 0) w->call(); }));
			if (kind == 1 || kind == 4) for (u64 i = 0, n = 1 + r.below(3); i != n; ++i) {
				timers.emplace_back([] {});
				crab::Timer *t = &timers.back();
				t->set_handler([this, t] { work(); if (left > 0) after_us(*t, r.below(300)); });
				after_us(*t, r.below(300));
			}
			if (kind == 2 || kind == 4) idles.emplace_back([this] { work(); if (left <= 0 && !idles.empty() && !cancelled) idles.front().set_active(false); });
			if (kind == 3) w->call();
		}
		void work() {
			c.n_cb.fetch_add(1, RLX);
			tev(0x40000 + kind);
			if (ended) TVIOL("callback-after-run", "");
			if (cancelled && ++after_cancel > 100000) give_up("run-goes-on", "100000 callbacks after cancel");
			if (left > 0) --left;
		}
	};
	void threads() {
		struct T {
			std::unique_ptr<crab::Thread> th;
			std::atomic<u64> returned{0}, begun{0};
			std::atomic<bool> stop{false}, over{false}, self{false};
			std::atomic<int> threw{0};
		};
		size_t n = 1 + r.below(5);
		std::vector<std::unique_ptr<T>> ts;
		for (size_t i = 0; i != n; ++i) {
			ts.emplace_back(new T);
			T *t     = ts.back().get();
			u64 seed = r.next();
			unsigned kind = unsigned(r.below(6));
			t->self = kind == 1;
			auto fn = [this, t, seed, kind] {
				Rng q(seed);
				crab::RunLoop *loop = crab::RunLoop::current();
				TEXPECT(loop != nullptr, "current-missing", "in a thread function");
				if (kind == 0) { t->over = true; return; }  // does not run its loop
				if (kind == 2) spin(q);
				try { crab::RunLoop second; TVIOL("second-loop", "a second loop of a thread was constructed"); } catch (const std::exception &) { t->threw.fetch_add(1); }
				TEXPECT(crab::RunLoop::current() == loop, "current-changed", "");
				{
					Work w(*this, q.next());
					do {
						t->begun.fetch_add(1);
						if (t->self) { loop->cancel(); w.cancelled = true; }
						w.ended = false;
						tev(0x50001);
						loop->run();
						tev(0x50002);
						w.ended = true;
						n_runs.fetch_add(1, RLX);
						t->returned.fetch_add(1);
						if (q.chance(30)) spin(q);
					} while (!t->stop.load() && !t->self.load());
				}
				t->over = true;
			};
			u64 t0 = real_ns();
			t->th.reset(new crab::Thread(fn));
			(void)t0;
			if (r.chance(20)) t->th->cancel(), n_cancel.fetch_add(1, RLX);
		}
		// several threads cancel each of them, one after the other
		std::vector<std::thread> cs;
		for (auto &up : ts) {
			T *t = up.get();
			u64 seed = r.next();
			cs.emplace_back([this, t, seed] {
				Rng q(seed);
				for (u64 k = 0, m = q.below(6); k != m; ++k) {
					u64 before = t->returned.load();
					if (q.coin()) spin(q);
					tev(0x50003);
					t->th->cancel();
					n_cancel.fetch_add(1, RLX);
					if (!wait_for([&] { return t->returned.load() > before || t->over.load(); })) give_up("cancel-lost", "Thread::cancel() did not end run()");
				}
				t->stop = true;
			});
		}
		bool early = r.chance(30);
		if (early) for (auto &t : ts) t->stop = true;
		if (!early || true) for (auto &c : cs) c.join();
		if (r.coin()) for (auto &t : ts) { t->th->cancel(); n_cancel.fetch_add(1, RLX); }
		for (auto &t : ts) {
			tev(0x50004);
			t->th.reset();  // a hang is found by the watchdog
			TEXPECT(t->over.load(), "thread-not-joined", "~Thread returned before the thread function did");
		}
		count("threads", n);
	}
	void rounds() {  // one loop, run again and again, each run ended by one cancel at some moment
		std::atomic<crab::RunLoop *> ptr{nullptr};
		std::atomic<u64> round{0}, returned{0}, asked{0};
		u64 n = 20 + r.below(60);
		u64 seed = r.next();
		bool before = r.chance(30);  // cancels come before run() is called
		bool busy = r.coin();
		std::atomic<bool> left{false};
		std::thread runner([&] {
			Rng q(seed);
			crab::RunLoop loop;
			TEXPECT(crab::RunLoop::current() == &loop, "current-changed", "");
			std::unique_ptr<Work> w;
			ptr = &loop;
			for (u64 i = 1; i <= n; ++i) {
				if (busy && q.chance(40)) w.reset(new Work(*this, q.next()));
				round = i;
				if (before && q.coin()) wait_for([&] { return asked.load() >= i; });
				else if (q.coin()) spin(q);
				if (w) w->ended = false;
				tev(0x60001);
				loop.run();
				tev(0x60002);
				if (w) w->ended = true;
				n_runs.fetch_add(1, RLX);
				TEXPECT(asked.load() >= i, "run-returned", "run() returned although nobody cancelled it");
				returned = i;
			}
			w.reset();
			wait_for([&] { return left.load(); });  // cancel() could still be on its way out
		});
		std::thread canceller([&] {
			Rng q(mix64(seed));
			if (!wait_for([&] { return ptr.load() != nullptr; })) give_up("thread-start", "");
			for (u64 i = 1; i <= n; ++i) {
				if (!wait_for([&] { return round.load() >= i; })) give_up("cancel-lost", "runner stopped");
				spin(q);
				asked = i;
				tev(0x60003);
				ptr.load()->cancel();
				n_cancel.fetch_add(1, RLX);
				if (!wait_for([&] { return returned.load() >= i; })) give_up("cancel-lost", "RunLoop::cancel() did not end run " + std::to_string(i));
			}
			left = true;
		});
		canceller.join();
		runner.join();
		count("cancel_rounds", n);
	}
	void storm() {  // a sleeping loop, cancelled by many threads at once, from callbacks too
		size_t m = 1 + r.below(5);
		u64 n = 5 + r.below(20);
		std::atomic<crab::RunLoop *> ptr{nullptr};
		std::atomic<u64> round{0};
		std::atomic<bool> over{false};
		u64 seed = r.next();
		std::vector<std::thread> cs;
		std::thread runner([&] {
			Rng q(seed);
			crab::RunLoop loop;
			Work w(*this, q.next());
			crab::Timer self([&] { loop.cancel(); });
			ptr = &loop;
			for (u64 i = 1; i <= n; ++i) {
				if (q.chance(30)) after_us(self, q.below(300));
				round = i;
				tev(0x70001);
				loop.run();
				n_runs.fetch_add(1, RLX);
			}
			over = true;
			if (!wait_for([&] { return round.load() == u64(-1); })) return;
		});
		for (size_t k = 0; k != m; ++k) {
			u64 s2 = r.next();
			cs.emplace_back([&, s2] {
				Rng q(s2);
				if (!wait_for([&] { return ptr.load() != nullptr; })) give_up("thread-start", "");
				u64 t0 = real_ns();
				while (!over.load()) {
					spin(q);
					tev(0x70002);
					ptr.load()->cancel();
					n_cancel.fetch_add(1, RLX);
					if (real_ns() > t0 + PATIENCE * 1000000) give_up("cancel-lost", "repeated cancels do not end run()");
				}
			});
		}
		for (auto &c : cs) c.join();
		round = u64(-1);
		runner.join();
	}
	void unique() {  // loops of one thread, one after the other
		size_t fds = 0;
		for (int i = 0, n = int(3 + r.below(20)); i != n; ++i) {
			TEXPECT(crab::RunLoop::current() == nullptr, "current-left", "");
			crab::RunLoop loop;
			if (i == 1) fds = open_fds();
			TEXPECT(crab::RunLoop::current() == &loop, "current-changed", "");
			int k = int(r.below(4));
			for (int j = 0; j != k; ++j) {
				try { crab::RunLoop second; TVIOL("second-loop", "a second loop of a thread was constructed"); } catch (const std::exception &) { count("second_loops_refused"); }
				TEXPECT(crab::RunLoop::current() == &loop, "current-changed", "after a refused construction");
			}
			u64 fired = 0;
			crab::Timer t([&] { ++fired; loop.cancel(); });
			crab::Watcher w([&] { ++fired; loop.cancel(); });
			std::thread other;
			switch (r.below(4)) {
			case 0: after_us(t, r.below(300)); break;
			case 1: w.call(); break;
			case 2: other = std::thread([&] { TEXPECT(crab::RunLoop::current() == nullptr, "current-shared", "another thread sees this loop"); crab::RunLoop mine; TEXPECT(crab::RunLoop::current() == &mine, "current-shared", ""); w.call(); }); break;
			default: loop.cancel(); ++fired;
			}
			loop.run();
			n_runs.fetch_add(1, RLX);
			n_cancel.fetch_add(1, RLX);
			TEXPECT(fired == 1, "run-returned", "run() returned after " << fired << " callbacks that cancel");
			if (other.joinable()) other.join();
			if (i > 1) { size_t f = open_fds(); TEXPECT(f == fds, "fd-leak", f << " descriptors instead of " << fds); }
			tev(0x80000 + uint32_t(k));
		}
	}
	void run() {
		u64 k = r.below(4);
		if (k == 0) threads();
		else if (k == 1) rounds();
		else if (k == 2) storm();
		else unique();
		count("loop_cancels", n_cancel);
		count("loop_runs", n_runs);
		count("loop_callbacks", n_cb);
		static const char *names[] = {"threads", "rounds", "storm", "one after the other"};
		std::ostringstream os;
		os << names[k] << ": " << n_runs << " runs, " << n_cancel << " cancels, " << n_cb << " callbacks";
		finish(os.str(), n_runs + n_cancel > 0);
	}
};

// ================================================================ N05 names
struct Script {
	std::atomic<u64> id{0};
	int rc = 0;
	std::vector<std::pair<int, uint8_t>> addrs;  // family and last byte
	u64 delay_us = 0;
	std::atomic<bool> gated{false};
	bool loopback = false;
};
const size_t SCRIPTS = 1 << 14;
Script *scripts() { static Script *s = new Script[SCRIPTS]; return s; }
std::atomic<u64> g_name{1};
std::atomic<int> gai_in{0};
std::atomic<u64> gai_calls{0};
std::atomic<int64_t> gai_live{0};
std::atomic<bool> g_gai_stop{false};
std::string name_of(u64 id) { return "n" + std::to_string(id) + ".test"; }
uint32_t ip4_of(u64 id, uint8_t last) { return htonl(0x0A000000u | uint32_t(id & 0xffff) << 8 | last); }
void ip6_of(u64 id, uint8_t last, uint8_t *out) {
	std::memset(out, 0, 16);
	out[0] = 0xfd;
	for (int i = 0; i != 8; ++i) out[4 + i] = uint8_t(id >> (8 * i));
	out[15] = last;
}
Script &new_script(Rng &r, u64 &id) {
	id = g_name.fetch_add(1);
	Script &s = scripts()[id % SCRIPTS];
	static const std::vector<int> rcs = {EAI_NONAME, EAI_AGAIN, EAI_FAIL, EAI_MEMORY, EAI_SYSTEM};
	s.rc = r.chance(20) ? r.pick(rcs) : 0;
	s.addrs.clear();
	for (size_t i = 0, n = r.below(r.chance(10) ? 20 : 4); i != n; ++i) s.addrs.push_back({r.coin() ? AF_INET : r.chance(90) ? AF_INET6 : AF_UNIX, uint8_t(1 + i)});
	s.delay_us = r.coin() ? 0 : r.below(r.chance(20) ? 3000 : 200);
	s.gated    = false;
	s.loopback = false;
	s.id       = id;
	return s;
}
std::vector<std::string> expected(const Script &s, u64 id, uint16_t port, bool v4, bool v6) {
	std::vector<std::string> e;
	if (s.rc) return e;
	bool any6 = false;
	for (auto &a : s.addrs) any6 |= a.first == AF_INET6;
	char b[80];
	for (auto &a : s.addrs) {
		if (a.first == AF_INET && v4) {
			uint32_t ip = ip4_of(id, a.second);
			inet_ntop(AF_INET, &ip, b, sizeof b);
			e.push_back(std::string(b) + ":" + std::to_string(port));
		} else if (a.first == AF_INET6 && v6) {
			uint8_t x[16];
			ip6_of(id, a.second, x);
			inet_ntop(AF_INET6, x, b, sizeof b);
			e.push_back(std::string(b) + ":" + std::to_string(port));
		}
	}
	std::sort(e.begin(), e.end());
	return e;
}
std::vector<std::string> sorted(const std::vector<crab::Address> &v) {
	std::vector<std::string> e;
	for (auto &a : v) e.push_back(a.get_address() + ":" + std::to_string(a.get_port()));
	std::sort(e.begin(), e.end());
	return e;
}
std::string join(const std::vector<std::string> &v) { std::string s; for (auto &x : v) s += x + " "; return s; }
int fake_getaddrinfo(const char *node, const char *service, const addrinfo *hints, addrinfo **res) {
	gai_in.fetch_add(1);
	gai_calls.fetch_add(1, RLX);
	noise();
	struct Leave { ~Leave() { gai_in.fetch_sub(1); } } leave;
	u64 id = node && node[0] == 'n' ? std::strtoull(node + 1, nullptr, 10) : 0;
	Script &s = scripts()[id % SCRIPTS];
	if (!id || s.id.load() != id) return EAI_NONAME;
	tev(0x90000 + uint32_t(id & 0xff));
	for (u64 k = 0; s.gated.load() && !g_gai_stop.load() && k != 400000; ++k) usleep_(30);
	if (s.delay_us) usleep_(s.delay_us);
	if (s.rc) return s.rc;
	if (s.id.load() != id) return EAI_NONAME;
	long port = service ? std::strtol(service, nullptr, 10) : 0;
	addrinfo *first = nullptr, **tail = &first;
	int fam = hints ? hints->ai_family : AF_UNSPEC, type = hints ? hints->ai_socktype : 0;
	for (auto &a : s.addrs) {
		if (fam == AF_INET && a.first == AF_INET6) continue;
		if (fam == AF_INET6 && a.first == AF_INET) continue;
		for (int rep = 0; rep != (type ? 1 : 3); ++rep) {
			auto *ai = static_cast<addrinfo *>(std::calloc(1, sizeof(addrinfo)));
			auto *ss = static_cast<sockaddr_storage *>(std::calloc(1, sizeof(sockaddr_storage)));
			gai_live.fetch_add(1, RLX);
			ai->ai_family   = a.first;
			ai->ai_socktype = type ? type : 1 + rep;
			ai->ai_addr     = reinterpret_cast<sockaddr *>(ss);
			ss->ss_family   = sa_family_t(a.first);
			if (a.first == AF_INET) {
				auto *in = reinterpret_cast<sockaddr_in *>(ss);
				in->sin_port = htons(uint16_t(port));
				in->sin_addr.s_addr = s.loopback ? htonl(0x7F000000u | a.second) : ip4_of(id, a.second);
				ai->ai_addrlen = sizeof(sockaddr_in);
			} else if (a.first == AF_INET6) {
				auto *in = reinterpret_cast<sockaddr_in6 *>(ss);
				in->sin6_port = htons(uint16_t(port));
				ip6_of(id, a.second, in->sin6_addr.s6_addr);
				ai->ai_addrlen = sizeof(sockaddr_in6);
			} else
				ai->ai_addrlen = 110;
			*tail = ai;
			tail = &ai->ai_next;
		}
	}
	if (!first) return EAI_NONAME;
	*res = first;
	return 0;
}

struct DnsCase : Real {
	struct Res {
		std::unique_ptr<crab::DNSResolver> d;
		u64 cur = 0, gen = 0;
		uint16_t port = 0;
		bool v4 = false, v6 = false;
	};
	struct Loop {
		std::unique_ptr<crab::Thread> th;
		std::vector<Res> res;
		std::list<crab::Timer> timers;
		std::thread::id tid;
		Rng r{1};
		int acts = 0;
		std::atomic<int> outstanding{0}, acts_left{1}, ready{0};
		std::unique_ptr<crab::Watcher> poke;
	};
	std::vector<std::unique_ptr<Loop>> loops;
	std::atomic<u64> n_resolve{0}, n_answer{0}, n_empty{0}, n_cancel{0}, n_destroy{0}, n_again{0};
	std::vector<std::atomic<bool> *> gates;
	std::mutex gmu;
	void make(Loop &l, size_t i) {
		Res &x = l.res[i];
		x.gen++;
		x.cur   = 0;
		u64 gen = x.gen;
		Loop *lp = &l;
		std::string canary(48, 'd');
		x.d.reset(new crab::DNSResolver([this, lp, i, gen, canary](const std::vector<crab::Address> &names) { auto *self = this; auto *ll = lp; std::string c = canary; self->on_names(*ll, i, gen, names); }));
	}
	void resolve(Loop &l, size_t i) {
		Res &x = l.res[i];
		if (x.cur) { n_again.fetch_add(1, RLX); l.outstanding.fetch_sub(1); }
		u64 id;
		Script &s = new_script(l.r, id);
		if (l.r.chance(10)) { s.gated = true; std::unique_lock<std::mutex> lk(gmu); gates.push_back(&s.gated); }
		x.port = uint16_t(l.r.chance(20) ? l.r.below(2) * 65535 : l.r.below(65536));
		u64 k  = l.r.below(8);
		x.v4   = k != 0 && k != 1;
		x.v6   = k == 1 || k >= 5;
		x.cur  = id;
		l.outstanding.fetch_add(1);
		n_resolve.fetch_add(1, RLX);
		tev(0xA0000 + uint32_t(i));
		x.d->resolve(name_of(id), x.port, x.v4, x.v6);
	}
	void on_names(Loop &l, size_t i, u64 gen, const std::vector<crab::Address> &names) {
		Res &x = l.res[i];
		tev(0xB0000 + uint32_t(i));
		TEXPECT(std::this_thread::get_id() == l.tid, "answer-thread", "");
		if (gen != x.gen) { TVIOL("answer-after-destroy", ""); return; }
		if (!x.cur) { TVIOL("answer-excess", "resolver has no request outstanding"); return; }
		u64 id    = x.cur;
		x.cur     = 0;
		Script &s = scripts()[id % SCRIPTS];
		auto want = x.v4 || x.v6 ? expected(s, id, x.port, x.v4, x.v6) : std::vector<std::string>();
		auto got = sorted(names);
		TEXPECT(got == want, "answer-wrong", "request " << id << " port " << x.port << " v4 " << x.v4 << " v6 " << x.v6 << " rc " << s.rc << ": got " << join(got) << "instead of " << join(want));
		n_answer.fetch_add(1, RLX);
		if (want.empty()) n_empty.fetch_add(1, RLX);
		l.outstanding.fetch_sub(1);
		act(l, i, true);
	}
	void drop(Loop &l, size_t i) { if (l.res[i].cur) l.outstanding.fetch_sub(1); l.res[i].cur = 0; }
	void act(Loop &l, size_t self, bool in_handler) {
		if (l.acts <= 0) { l.acts_left = 0; return; }
		--l.acts;
		size_t i = in_handler && l.r.coin() ? self : l.r.below(l.res.size());
		switch (l.r.below(8)) {
		case 0: n_cancel.fetch_add(1, RLX); tev(0xC0000 + uint32_t(i)); drop(l, i); l.res[i].d->cancel(); if (l.r.coin()) resolve(l, i); break;
		case 1: n_destroy.fetch_add(1, RLX); tev(0xD0000 + uint32_t(i)); drop(l, i); l.res[i].gen++; l.res[i].d.reset(); make(l, i); if (l.r.coin()) resolve(l, i); break;
		case 2: spin(l.r); break;
		default: if (!l.res[i].cur || l.r.chance(25)) resolve(l, i);
		}
	}
	void loop_main(Loop &l, size_t n) {
		l.tid = std::this_thread::get_id();
		l.res.resize(n);
		for (size_t i = 0; i != n; ++i) make(l, i);
		for (int i = 0; i != 2; ++i) {
			l.timers.emplace_back([] {});
			crab::Timer *t = &l.timers.back();
			t->set_handler([this, &l, t] { act(l, 0, false); if (l.acts_left.load()) after_us(*t, l.r.below(700)); });
			after_us(*t, l.r.below(300));
		}
		l.ready = 1;
		crab::RunLoop::current()->run();
		for (auto &x : l.res) x.gen++;
		l.timers.clear();
		l.res.clear();
	}
	void run() {
		size_t nloops = 1 + r.below(3);
		for (size_t i = 0; i != nloops; ++i) {
			loops.emplace_back(new Loop);
			Loop *l = loops.back().get();
			l->r    = Rng(r.next());
			l->acts = int(10 + r.below(50));
			size_t n = 1 + r.below(5);
			l->th.reset(new crab::Thread([this, l, n] { loop_main(*l, n); }));
		}
		bool early = r.chance(35);
		u64 until = real_ns() + r.below(4000000);
		std::atomic<bool> gate_stop{false};
		std::thread gatekeeper([&] {
			Rng q(1);
			while (!gate_stop.load()) {
				usleep_(100 + trnd() % 1500);
				std::unique_lock<std::mutex> lk(gmu);
				for (auto *g : gates) *g = false;
				gates.clear();
			}
			for (auto *g : gates) *g = false;
		});
		u64 n_sync = 0;
		for (int k = int(r.below(6)); k > 0; --k) {  // blocking resolution in this thread meanwhile
			u64 id;
			Script &s = new_script(r, id);
			bool v4 = r.coin(), v6 = r.coin();
			uint16_t port = uint16_t(r.below(65536));
			if (r.chance(70)) {
				auto got = sorted(crab::DNSResolver::sync_resolve(name_of(id), port, v4, v6));
				auto want = v4 || v6 ? expected(s, id, port, v4, v6) : std::vector<std::string>();
				TEXPECT(got == want, "sync-wrong", "got " << join(got) << "instead of " << join(want));
			} else {
				auto w4 = expected(s, id, port, true, false), w6 = expected(s, id, port, false, true);
				try {
					crab::Address a = crab::DNSResolver::sync_resolve_single(name_of(id), port);
					std::string got = a.get_address() + ":" + std::to_string(a.get_port());
					auto &w = w4.empty() ? w6 : w4;
					TEXPECT(std::find(w.begin(), w.end(), got) != w.end(), "sync-single-wrong", got);
				} catch (const std::exception &) { TEXPECT(w4.empty() && w6.empty(), "sync-single-threw", join(w4) << join(w6)); }
			}
			++n_sync;
		}
		if (early) {
			while (real_ns() < until) usleep_(50);
			count("ended_outstanding");
		} else {
			for (auto &l : loops)
				if (!wait_for([&] { return l->acts_left.load() == 0 && l->outstanding.load() == 0; })) give_up("answer-missing", std::to_string(l->outstanding.load()) + " requests were not answered; resolver calls " + std::to_string(gai_calls.load()) + ", inside " + std::to_string(gai_in.load()));
			for (auto &l : loops) TEXPECT(l->outstanding.load() == 0, "answer-count", l->outstanding.load());
		}
		for (auto &l : loops) l->th.reset();
		gate_stop = true;
		gatekeeper.join();
		if (!wait_for([] { return gai_in.load() == 0; })) give_up("resolver-stuck", "");
		count("resolves", n_resolve);
		count("answers", n_answer);
		count("empty_answers", n_empty);
		count("resolver_cancels", n_cancel);
		count("resolvers_destroyed", n_destroy);
		count("resolved_again", n_again);
		count("sync_resolves", n_sync);
		std::ostringstream os;
		os << nloops << " loops, " << n_resolve << " requests, " << n_answer << " answers (" << n_empty << " empty), " << n_cancel << " cancels, " << n_destroy << " destroyed" << (early ? ", ended with requests outstanding" : "");
		finish(os.str(), n_resolve > 0);
	}
};

// ================================================================ children
struct ChildResult { int status = 0; bool hung = false; std::string text; };
ChildResult spawn_self(const char *mode, u64 seed, int timeout_s) {
	ChildResult res;
	int p[2];
	if (::pipe2(p, O_CLOEXEC) != 0) finish_now(77);
	posix_spawn_file_actions_t fa;
	posix_spawn_file_actions_init(&fa);
	posix_spawn_file_actions_adddup2(&fa, p[1], 2);
	posix_spawnattr_t at;
	posix_spawnattr_init(&at);
	sigset_t all, none;
	sigemptyset(&none);
	sigfillset(&all);
	posix_spawnattr_setsigmask(&at, &none);
	sigset_t def;
	sigemptyset(&def);
	for (int s : {SIGINT, SIGTERM, SIGHUP, SIGQUIT, SIGUSR1, SIGUSR2, SIGALRM, SIGWINCH}) sigaddset(&def, s);
	posix_spawnattr_setsigdefault(&at, &def);
	posix_spawnattr_setflags(&at, POSIX_SPAWN_SETSIGMASK | POSIX_SPAWN_SETSIGDEF);
	std::string seeds = std::to_string(seed);
	char exe[4096];
	ssize_t n = ::readlink("/proc/self/exe", exe, sizeof exe - 1);
	if (n <= 0) finish_now(77);
	exe[n] = 0;
	const char *argv[] = {exe, "--mode", mode, "--replay", seeds.c_str(), "-v", nullptr};
	pid_t pid = 0;
	if (posix_spawn(&pid, exe, &fa, &at, const_cast<char **>(argv), environ) != 0) finish_now(77);
	posix_spawn_file_actions_destroy(&fa);
	posix_spawnattr_destroy(&at);
	::close(p[1]);
	u64 end = real_ns() + u64(timeout_s) * 1000000000ULL;
	char buf[4096];
	while (true) {
		u64 now = real_ns();
		if (now > end) { res.hung = true; ::kill(pid, SIGKILL); }
		pollfd pf{p[0], POLLIN, 0};
		int k = ::poll(&pf, 1, now > end ? 1000 : int(std::min<u64>((end - now) / 1000000 + 1, 1000)));
		if (k <= 0) continue;
		n = ::read(p[0], buf, sizeof buf);
		if (n <= 0) break;
		if (res.text.size() < 100000) res.text.append(buf, size_t(n));
	}
	::close(p[0]);
	while (::waitpid(pid, &res.status, 0) < 0 && errno == EINTR) {}
	return res;
}
std::string judge(const ChildResult &c) {  // counters of the child are added to ours
	std::istringstream is(c.text);
	std::string line, first;
	while (std::getline(is, line)) {
		if (line.compare(0, 5, "VIOL ") == 0) {
			size_t k = line.find(": ");
			VIOL(line.substr(5, k - 5), (k == std::string::npos ? "" : line.substr(k + 2)));
			if (first.empty()) first = line;
		} else if (line.compare(0, 8, "counter ") == 0) {
			size_t k = line.find('=');
			if (k != std::string::npos) ctx().counters[line.substr(8, k - 8)] += std::strtoull(line.c_str() + k + 1, nullptr, 10);
		} else if (line.compare(0, 6, "trace ") == 0) ev(std::strtoull(line.c_str() + 6, nullptr, 10));
	}
	return first;
}
// ================================================================ N06 signals
std::atomic<u64> g_handled[65];
void count_signal(int s) { g_handled[s].fetch_add(1, RLX); }
struct SigChild : Real {  // runs alone in a process of its own
	struct S {
		std::unique_ptr<crab::Signal> s;
		std::vector<int> sigs;
		std::atomic<u64> started{0}, begun{0};
		std::atomic<bool> open{false};
		u64 gen = 0;
		bool alive = false;
	};
	std::deque<S> ss;
	std::unique_ptr<crab::RunLoop> loop;
	std::thread::id tid = std::this_thread::get_id();
	std::unique_ptr<crab::Watcher> ctl;
	std::list<crab::Timer> timers;
	std::vector<std::function<void()>> todo;
	std::mutex mu;
	std::atomic<u64> n_raise{0}, n_cb{0}, n_destroy{0}, n_pending{0};
	SigChild() : Real(false) {}
	void make(S &s) {
		s.gen++;
		s.alive = true;
		S *sp = &s;
		std::string canary(48, 's');
		u64 gen = s.gen;
		s.s.reset(new crab::Signal([this, sp, gen, canary] { auto *self = this; auto *x = sp; u64 g = gen; std::string c = canary; self->on_signal(*x, g); }, s.sigs));
		s.open = true;
	}
	void on_signal(S &s, u64 gen) {
		u64 b = s.begun.fetch_add(1) + 1;
		n_cb.fetch_add(1, RLX);
		tev(0x1000);
		TEXPECT(std::this_thread::get_id() == tid, "signal-thread", "");
		TEXPECT(s.alive && gen == s.gen, "signal-after-destroy", "");
		TEXPECT(b <= s.started.load(), "signal-excess", "callback " << b << " after " << s.started.load() << " raises");
	}
	void raise_one(S &s, Rng &q) {
		const std::vector<int> def = {SIGINT, SIGTERM};
		int sig = q.pick(s.sigs.empty() ? def : s.sigs);
		s.started.fetch_add(1);
		n_raise.fetch_add(1, RLX);
		tev(uint32_t(0x2000 + sig));
		::kill(::getpid(), sig);
	}
	void on_loop(std::function<void()> f) {  // and wait until it ran there
		auto done = std::make_shared<std::atomic<bool>>(false);
		{ std::unique_lock<std::mutex> l(mu); todo.push_back([f, done] { f(); *done = true; }); }
		ctl->call();
		if (!wait_for([&] { return done->load(); })) { TVIOL("loop-stuck", ""); ::_exit(1); }
	}
	void run() {
		loop.reset(new crab::RunLoop);
		static const std::vector<std::vector<int>> sets1 = {{}, {SIGINT}, {SIGTERM, SIGHUP}, {SIGUSR1}, {SIGINT, SIGTERM, SIGHUP, SIGQUIT, SIGUSR1, SIGUSR2}, {SIGUSR2, SIGINT}};
		ss.resize(1);
		ss[0].sigs = r.pick(sets1);
		if (r.chance(40)) {  // further objects for other signals
			ss.resize(2);
			ss[0].sigs = r.coin() ? std::vector<int>{} : std::vector<int>{SIGTERM};
			ss[1].sigs = r.coin() ? std::vector<int>{SIGUSR1, SIGHUP} : std::vector<int>{SIGQUIT};
		}
		for (auto &s : ss) make(s);
		ctl.reset(new crab::Watcher([this] {
			std::vector<std::function<void()>> t;
			{ std::unique_lock<std::mutex> l(mu); t.swap(todo); }
			for (auto &f : t) f();
		}));
		if (r.coin()) {  // otherwise the loop sleeps without end
			timers.emplace_back([] {});
			auto *t = &timers.back();
			t->set_handler([this, t] { after_us(*t, 50 + r.below(2000)); });
			after_us(*t, 100);
		}
		bool alarms = r.chance(30);
		if (alarms) {  // unrelated signals interrupt system calls
			struct sigaction sa {};
			sa.sa_handler = count_signal;
			::sigaction(SIGALRM, &sa, nullptr);
			itimerval tv{{0, 700}, {0, 700}};
			::setitimer(ITIMER_REAL, &tv, nullptr);
		}
		std::vector<std::thread> idle_threads;
		std::atomic<bool> over{false};
		for (u64 i = 0, n = r.below(3); i != n; ++i) idle_threads.emplace_back([&] { while (!over.load()) usleep_(300); });
		std::list<crab::Thread> crab_threads;
		if (r.chance(40)) crab_threads.emplace_back([] { crab::RunLoop::current()->run(); });
		int rounds = int(2 + r.below(5));
		u64 seed = r.next();
		std::thread director([&, seed] {
			Rng q(seed);
			for (int k = 0; k != rounds; ++k) {
				std::vector<std::thread> raisers;
				for (u64 i = 0, n = 1 + q.below(3); i != n; ++i) {
					u64 s2 = q.next();
					raisers.emplace_back([&, s2] {
						Rng p(s2);
						for (u64 j = 0, m = 1 + p.below(8); j != m; ++j) {
							S &s   = ss[p.below(ss.size())];
							u64 b0 = s.begun.load();
							raise_one(s, p);
							if (p.chance(70) && !wait_for([&] { return s.begun.load() > b0; })) { TVIOL("signal-lost", "signal was raised, no callback followed"); ::_exit(1); }
							spin(p);
						}
					});
				}
				for (auto &t : raisers) t.join();
				// let everything raised be delivered: a further raise and its callback, then one more turn of the loop
				for (auto &s : ss) { u64 b0 = s.begun.load(); raise_one(s, q); if (!wait_for([&] { return s.begun.load() > b0; })) { TVIOL("signal-lost", ""); ::_exit(1); } }
				on_loop([] {});
				on_loop([] {});
				S &s = ss[q.below(ss.size())];
				bool pending = q.coin();
				on_loop([&] {
					const std::vector<int> def = {SIGINT, SIGTERM};
					auto &sg = s.sigs.empty() ? def : s.sigs;
					if (pending) {  // raised and destroyed before the loop could look; the signal itself then goes to an ordinary handler
						struct sigaction sa {};
						sa.sa_handler = count_signal;
						for (int x : sg) ::sigaction(x, &sa, nullptr);
						raise_one(s, q);
						n_pending.fetch_add(1, RLX);
					}
					s.open  = false;
					s.alive = false;
					u64 b = s.begun.load();
					s.s.reset();
					n_destroy.fetch_add(1, RLX);
					if (q.coin() && !pending) { s.started = s.begun.load(); make(s); return; }
					timers.emplace_back([&s, b] { TEXPECT(s.begun.load() == b, "signal-after-destroy", ""); });
					after_us(timers.back(), 1500);
				});
				usleep_(4000);
				on_loop([&] {
					const std::vector<int> def = {SIGINT, SIGTERM};
					if (s.alive) return;
					s.started = s.begun.load();  // earlier raises were settled
					make(s);
				});
			}
			on_loop([&] { over = true; loop->cancel(); });
		});
		loop->run();
		director.join();
		for (auto &t : idle_threads) t.join();
		crab_threads.clear();
		if (alarms) { itimerval tv{}; ::setitimer(ITIMER_REAL, &tv, nullptr); count("interrupts", g_handled[SIGALRM]); }
		for (auto &s : ss) { s.alive = false; s.s.reset(); }
		timers.clear();
		ctl.reset();
		loop.reset();
		count("signals_raised", n_raise);
		count("signal_callbacks", n_cb);
		count("signal_destroys", n_destroy);
		count("signal_pending_destroys", n_pending);
		finish("", true);
		std::fprintf(stderr, "trace %llu\n", (unsigned long long)ctx().th);
		flush_viols();
	}
};
void signal_case() {
	Real frame;
	u64 seed = frame.r.next();
	ChildResult c = spawn_self("sigchild", seed, 60);
	std::string first = judge(c);
	if (c.hung) VIOL("signal-hang", "process with signal handlers did not finish");
	else if (WIFSIGNALED(c.status)) VIOL("signal-killed", "process was killed by signal " << WTERMSIG(c.status) << " while a signal handler object existed; seed " << seed);
	else if (WEXITSTATUS(c.status) != 0 && first.empty()) {
		std::fprintf(stderr, "%s", c.text.c_str());
		if (WEXITSTATUS(c.status) == 98) finish_now(98);
		VIOL("signal-child", "child exit status " << WEXITSTATUS(c.status) << ": " << quote(c.text, 600));
	}
	count("processes");
	frame.finish("child " + std::to_string(seed) + ": " + (first.empty() ? "fine" : first), true);
}
// ---------------------------------------------------------------- leaving the process with requests outstanding
void dnsexit_child() {
	Rng &r = ctx().rng;
	bool leak = r.coin();
	auto *loop = new crab::RunLoop;
	std::vector<crab::DNSResolver *> ds;
	for (u64 i = 0, n = 1 + r.below(4); i != n; ++i) {
		u64 id;
		Script &s = new_script(r, id);
		s.delay_us = r.below(20000);
		ds.push_back(new crab::DNSResolver([](const std::vector<crab::Address> &) {}));
		ds.back()->resolve(name_of(id), 1, true, true);
	}
	if (r.coin()) usleep_(r.below(5000));
	if (!leak) {
		for (auto *d : ds) delete d;
		delete loop;
	}
	std::exit(leak ? 40 : 41);  // static objects are destroyed here
}
void dnsexit_case() {
	Real frame;
	u64 seed = frame.r.next();
	ChildResult c = spawn_self("dnsexitchild", seed, 60);
	judge(c);
	if (c.hung) VIOL("exit-hang", "process that ends with resolutions outstanding does not exit");
	else if (!WIFEXITED(c.status) || (WEXITSTATUS(c.status) != 40 && WEXITSTATUS(c.status) != 41)) {
		std::fprintf(stderr, "%s", c.text.c_str());
		if (WIFEXITED(c.status) && WEXITSTATUS(c.status) == 98) finish_now(98);
		VIOL("exit-crash", "process that ends with resolutions outstanding: status " << c.status << " " << quote(c.text, 600));
	} else ev(u64(WEXITSTATUS(c.status)) * 1000 + seed % 1000);
	count("exits_outstanding");
	frame.finish("child " + std::to_string(seed), true);
}
// ================================================================ M02 mixed programs
struct MixCase : Real {
	// A server thread whose handlers hand work to worker threads, client threads resolving names and sending requests.
	struct Job { http::Client *who; std::string body; };
	std::atomic<u64> n_ok{0}, n_err{0}, n_jobs{0}, n_ws{0}, n_req{0}, n_own{0};
	std::atomic<int> ready{0}, failed{0}, server_done{0}, workers_gone{0};
	static std::atomic<unsigned> port_seq;
	uint16_t port = 0;
	std::string answer_of(const std::string &q) { return "<" + q + ">" + std::to_string(hash_str(q) % 1000); }
	struct Worker {  // a thread with a queue, answering through a watcher of the server
		std::mutex mu;
		std::deque<std::pair<u64, std::string>> in;
		std::unique_ptr<crab::Watcher> wake;
		std::unique_ptr<crab::Thread> th;
		std::atomic<int> ready{0};
		uint16_t port = 0;  // of its own server, 0 if it has none
	};
	std::mutex out_mu;
	std::deque<std::pair<u64, std::string>> out;
	std::unique_ptr<crab::Watcher> out_wake;
	std::vector<std::unique_ptr<Worker>> workers;
	std::map<u64, http::Client *> waiting;
	u64 next_job = 1;
	void worker_main(Worker &w) {
		Rng q(trnd());
		w.wake.reset(new crab::Watcher([this, &w, &q] {
			std::deque<std::pair<u64, std::string>> todo;
			{ std::unique_lock<std::mutex> l(w.mu); todo.swap(w.in); }
			for (auto &j : todo) {
				spin(q);
				std::string a = answer_of(j.second);
				{ std::unique_lock<std::mutex> l(out_mu); out.push_back({j.first, a}); }
				out_wake->call();
				n_jobs.fetch_add(1, RLX);
			}
		}));
		std::unique_ptr<http::Server> own;  // servers of several threads share nothing
		for (int k = 0; k != 20 && !own; ++k) {
			w.port = uint16_t(20000 + (port_seq.fetch_add(1) * 7 + unsigned(::getpid()) * 13) % 12000);
			try { own.reset(new http::Server(crab::Address("127.0.0.1", w.port))); } catch (const std::exception &) { w.port = 0; }
		}
		if (own) own->r_handler = [this, &q](http::Client *who, http::Request &&rq) {
			n_own.fetch_add(1, RLX);
			std::string a = answer_of(rq.body);
			if (q.chance(30)) {
				http::ResponseHeader h;
				h.status = 200;
				h.transfer_encoding_chunked = true;
				who->start_write_stream(h, [] {});
				who->write(std::move(a));
				who->write_last_chunk();
				return;
			}
			http::Response rs;
			rs.header.status = 200;
			rs.set_body(std::move(a));
			who->write(std::move(rs));
		};
		w.ready = 1;
		crab::RunLoop::current()->run();
		own.reset();
		w.wake.reset();
	}
	void server_main() {
		std::unique_ptr<http::Server> server;
		for (int k = 0; k != 200 && !server; ++k) {
			port = uint16_t(20000 + (port_seq.fetch_add(1) * 7 + unsigned(::getpid()) * 13) % 12000);
			try { server.reset(new http::Server(crab::Address("127.0.0.1", port))); } catch (const std::exception &) {}
		}
		if (!server) { failed = 1; ready = 1; return; }
		out_wake.reset(new crab::Watcher([this] {
			std::deque<std::pair<u64, std::string>> o;
			{ std::unique_lock<std::mutex> l(out_mu); o.swap(out); }
			for (auto &a : o) {
				auto it = waiting.find(a.first);
				if (it == waiting.end()) continue;
				http::Client *who = it->second;
				waiting.erase(it);
				http::Response rs;
				rs.header.status = 200;
				rs.set_body(std::move(a.second));
				who->write(std::move(rs));
			}
		}));
		u64 turn = 0;
		server->r_handler = [&](http::Client *who, http::Request &&rq) {
			if (rq.header.is_websocket_upgrade()) {
				who->web_socket_upgrade([this, who](http::WebMessage &&m) { if (m.is_binary() || m.is_text()) { n_ws.fetch_add(1, RLX); who->write(http::WebMessage(m.opcode, answer_of(m.body))); } });
				who->write(http::WebMessage("hello"));
				return;
			}
			u64 id = next_job++;
			if (workers.empty() || id % 5 == 0) {
				http::Response rs;
				rs.header.status = 200;
				rs.set_body(answer_of(rq.body));
				who->write(std::move(rs));
				return;
			}
			waiting[id] = who;
			who->postpone_response([this, id] { waiting.erase(id); });
			Worker &w = *workers[turn++ % workers.size()];
			{ std::unique_lock<std::mutex> l(w.mu); w.in.push_back({id, rq.body}); }
			w.wake->call();
		};
		ready = 1;
		crab::RunLoop::current()->run();
		server_done = 1;
		wait_for([&] { return workers_gone.load() != 0; });
		server.reset();
		out_wake.reset();
	}
	void client_main(u64 seed, int nreq, u64 name, std::atomic<int> &left) {
		Rng q(seed);
		std::unique_ptr<http::ClientRequestSimple> c;
		std::unique_ptr<http::ClientConnection> ws;
		std::string sent;
		crab::Timer next([&] {
			if (nreq-- <= 0) { left.fetch_sub(1); return; }
			http::Request rq;
			rq.header.method = "POST";
			rq.header.path = "/";
			rq.header.host = name_of(name);
			sent = q.str(q.below(q.chance(10) ? 20000 : 50), "abcdef");
			rq.set_body(std::string(sent));
			n_req.fetch_add(1, RLX);
			if (q.chance(15)) clock_ahead.fetch_add(600 * 1000000ll, RLX);
			tev(0x1001);
			uint16_t to = port;
			if (!workers.empty() && q.coin()) { to = workers[q.below(workers.size())]->port; if (!to) to = port; }
			c->send(std::move(rq), to, "http");
		});
		auto again = [&] { if (q.chance(10)) c.reset(), make_client(c, next, sent, q); after_us(next, q.below(300)); };
		again_fn() = again;
		make_client(c, next, sent, q);
		int frames = int(q.below(10));
		if (frames) {
			ws.reset(new http::ClientConnection([] {}));
			std::string *expect = new std::string;
			std::shared_ptr<std::string> hold(expect);
			auto *wp = ws.get();
			auto send_one = [this, wp, hold, &q] { *hold = q.str(1 + q.below(200), "xyz"); wp->write(http::WebMessage(http::WebMessageOpcode::TEXT, *hold)); };
			int *fl = &frames;
			ws->set_handler([this, wp, hold, send_one, fl] {
				http::Response rs;
				while (wp->read_next(rs)) {}
				http::WebMessage m;
				while (wp->read_next(m)) {
					if (m.is_text()) { TEXPECT(m.body == (hold->empty() ? "hello" : answer_of(*hold)), "mix-message", quote(m.body, 80)); tev(0x1003); if (--*fl > 0) send_one(); else { wp->close(); return; } }
				}
			});
			ws->connect(name_of(name), port, "http");
			http::RequestHeader rq;
			rq.path = "/ws";
			ws->web_socket_upgrade(rq);
		}
		after_us(next, q.below(500));
		crab::RunLoop::current()->run();
		again_fn() = nullptr;
		c.reset();
		ws.reset();
	}
	static std::function<void()> &again_fn() { static thread_local std::function<void()> f; return f; }
	void make_client(std::unique_ptr<http::ClientRequestSimple> &c, crab::Timer &next, std::string &sent, Rng &q) {
		c.reset(new http::ClientRequestSimple([this, &sent](http::Response &&rs) {
			tev(0x1002);
			n_ok.fetch_add(1, RLX);
			TEXPECT(rs.body == answer_of(sent), "mix-answer", quote(rs.body, 80) << " for " << quote(sent, 80));
			auto f = again_fn();
			if (f) f();
		}, [this](std::string &&) { n_err.fetch_add(1, RLX); auto f = again_fn(); if (f) f(); }));
	}
	void run();
};
std::atomic<unsigned> MixCase::port_seq{1};
void MixCase::run() {
	u64 id;
	Script &s  = new_script(r, id);
	s.rc       = 0;
	s.loopback = true;
	s.addrs    = {{AF_INET, 1}};
	for (u64 i = 0, n = r.below(3); i != n; ++i) {
		workers.emplace_back(new Worker);
		Worker *w = workers.back().get();
		w->th.reset(new crab::Thread([this, w] { worker_main(*w); }));
	}
	for (auto &w : workers) if (!wait_for([&] { return w->ready.load() != 0; })) give_up("thread-start", "");
	std::unique_ptr<crab::Thread> srv(new crab::Thread([this] { server_main(); }));
	if (!wait_for([&] { return ready.load() != 0; })) give_up("thread-start", "");
	if (failed.load()) finish_now(77);
	std::atomic<int> left{0};
	std::list<crab::Thread> clients;
	size_t nc = 1 + r.below(3);
	left = int(nc);
	for (size_t i = 0; i != nc; ++i) {
		u64 seed = r.next();
		int nreq = int(3 + r.below(25));
		clients.emplace_back([this, seed, nreq, id, &left] { client_main(seed, nreq, id, left); });
	}
	bool early = r.chance(30);
	if (early) usleep_(r.below(8000));
	else if (!wait_for([&] { return left.load() == 0; }, 60000)) give_up("mix-stuck", "requests were neither answered nor failed: " + std::to_string(n_req) + " sent, " + std::to_string(n_ok) + " answered, " + std::to_string(n_err) + " failed");
	if (!early) TEXPECT(n_err.load() == 0, "mix-error", n_err.load() << " requests failed");
	for (auto &c : clients) c.cancel();
	clients.clear();
	srv->cancel();
	if (!wait_for([&] { return server_done.load() != 0; })) give_up("cancel-lost", "server thread");
	for (auto &w : workers) w->th.reset();  // they may call the server's watcher until here
	workers_gone = 1;
	srv.reset();
	wait_for([] { return gai_in.load() == 0; });
	count("mixed_requests", n_req);
	count("mixed_answers", n_ok);
	count("mixed_jobs", n_jobs);
	count("mixed_answers_of_workers", n_own);
	count("mixed_messages", n_ws);
	std::ostringstream os;
	os << workers.size() << " workers, " << nc << " client threads, " << n_req << " requests, " << n_ok << " answers, " << n_err << " errors, " << n_ws << " messages" << (early ? ", ended early" : "");
	finish(os.str(), n_req > 0);
}

// ================================================================ M02 threads that share nothing
struct ApartCase : Real {
	// Every thread uses everything the library offers for itself: whatever they share is shared inside the library.
	std::atomic<u64> n_pure{0}, n_dgrams{0}, n_bytes{0}, n_answers{0}, n_frames{0}, n_resolved{0}, n_ticks{0};
	std::atomic<int> done{0};
	std::atomic<unsigned> unusable{0};
	std::string text_of(Rng &q, size_t n) { return q.str(n, "abcdefghijklmnopqrstuvwxyz0123456789 /?&=%+;:\xc3\xa9"); }
	void pure(Rng &q) {
		n_pure.fetch_add(1, RLX);
		std::string t = text_of(q, q.below(200));
		const uint8_t *d = reinterpret_cast<const uint8_t *>(t.data());
		switch (q.below(13)) {
		case 0: {
			crab::Address a(std::to_string(q.below(256)) + "." + std::to_string(q.below(256)) + "." + std::to_string(q.below(256)) + ".7", uint16_t(1 + q.below(60000))), b;
			TEXPECT(crab::Address::parse(b, a.to_string()) && a.to_string() == b.to_string() && a.get_ip4() == b.get_ip4(), "apart-address", a.to_string());
			crab::Address c("fe80::" + crab::to_hex(reinterpret_cast<const uint8_t *>("\x12\x34"), 2), 80);
			TEXPECT(c.get_address() == "fe80::1234", "apart-address", c.get_address());
			break;
		}
		case 1: { std::vector<uint8_t> r2; TEXPECT(crab::base64::decode(&r2, crab::base64::encode(d, t.size())) && std::string(r2.begin(), r2.end()) == t, "apart-base64", quote(t)); break; }
		case 2: { crab::bdata r2; TEXPECT(crab::from_hex(r2, crab::to_hex(d, t.size())) && std::string(r2.begin(), r2.end()) == t, "apart-hex", quote(t)); break; }
		case 3: {
			uint8_t a[crab::md5::hash_size], b[crab::md5::hash_size], e[crab::sha1::hash_size], f[crab::sha1::hash_size];
			size_t k = q.below(t.size() + 1);
			crab::md5 m, n; m.add(d, t.size()).finalize(a); n.add(d, k).add(d + k, t.size() - k).finalize(b);
			crab::sha1 o, p2; o.add(d, t.size()).finalize(e); p2.add(d, k).add(d + k, t.size() - k).finalize(f);
			TEXPECT(!std::memcmp(a, b, sizeof(a)) && !std::memcmp(e, f, sizeof(e)), "apart-digest", quote(t));
			TEXPECT(crab::crc32(crab::crc32(0, d, k), d + k, t.size() - k) == crab::crc32(0, d, t.size()) && crab::crc32c(crab::crc32c(0, d, k), d + k, t.size() - k) == crab::crc32c(0, d, t.size()), "apart-digest", quote(t));
			break;
		}
		case 4: { crab::is_valid_utf8(t); TEXPECT(crab::is_valid_utf8(std::string("a\xc3\xa9z")), "apart-utf8", ""); break; }
		case 5: {
			int64_t v = int64_t(q.next()) >> q.below(60);
			crab::IntegerSaver<int64_t> sv(v);
			TEXPECT(crab::integer_cast<int64_t>(std::string(sv.data(), sv.size())) == v, "apart-integer", v);
			bool threw = false;
			try { crab::integer_cast<uint8_t>(v | 0x100); } catch (const std::out_of_range &) { threw = true; }
			TEXPECT(threw, "apart-integer", v);
			break;
		}
		case 6: { TEXPECT(http::url_decode(http::url_encode(t)) == t && http::url_decode(http::url_encode(t, true)) == t, "apart-url", quote(t)); break; }
		case 7: {
			http::URI u = http::parse_uri("http://u:p@host" + std::to_string(q.below(100)) + ":81/a/../b?x=" + http::url_encode(t));
			TEXPECT(u.port == "81" && u.path == "/b" && u.user_info == "u:p", "apart-uri", u.to_string());
			auto m = http::parse_query_string(u.query);
			TEXPECT(m.size() == 1 && m["x"] == t, "apart-query", quote(u.query));
			auto c = http::parse_cookie_string("a=1; b=" + std::to_string(t.size()));
			TEXPECT(c.size() == 2 && c["b"] == std::to_string(t.size()), "apart-cookie", "");
			break;
		}
		case 8: {
			http::Request rq;
			rq.header.method = "POST"; rq.header.path = "/p"; rq.header.host = "h" + std::to_string(q.below(1000));
			rq.header.headers.push_back({"x-one", "1"});
			rq.set_body(std::string(t));
			std::string w = rq.header.to_string();
			http::RequestParser ps;
			const uint8_t *e = ps.parse(reinterpret_cast<const uint8_t *>(w.data()), reinterpret_cast<const uint8_t *>(w.data()) + w.size());
			TEXPECT(ps.is_good() && e == reinterpret_cast<const uint8_t *>(w.data()) + w.size() && ps.req.host == rq.header.host && ps.req.content_length && *ps.req.content_length == t.size(), "apart-request", quote(w, 300));
			break;
		}
		case 9: {
			http::ResponseHeader h;
			h.status = q.pick(std::vector<int>{200, 404, 422, 501, 799});
			h.transfer_encoding_chunked = true;
			h.date = http::Server::get_date();
			std::string w = h.to_string();
			http::ResponseParser ps;
			ps.parse(reinterpret_cast<const uint8_t *>(w.data()), reinterpret_cast<const uint8_t *>(w.data()) + w.size());
			TEXPECT(ps.is_good() && ps.req.status == h.status && ps.req.status_text == http::status_to_string(h.status) && ps.req.date == h.date, "apart-response", quote(w, 300));
			http::BodyParser bp({}, true);
			std::string c = crab::to_hex(reinterpret_cast<const uint8_t *>("\x03"), 1) + "\r\nabc\r\n0\r\n\r\n";
			bp.parse(reinterpret_cast<const uint8_t *>(c.data()), reinterpret_cast<const uint8_t *>(c.data()) + c.size());
			TEXPECT(bp.is_good() && bp.body.get_buffer() == "abc", "apart-body", "");
			break;
		}
		case 10: {
			uint32_t key = uint32_t(q.next());
			http::WebMessageHeaderSaver sv(true, 2, t.size(), key);
			http::WebMessageHeaderParser ps;
			ps.parse(sv.data(), sv.data() + sv.size());
			std::string m = t;
			http::WebMessageHeaderParser::mask_data(0, &m[0], m.size(), key);
			http::WebMessageHeaderParser::mask_data(0, &m[0], m.size(), key);
			TEXPECT(ps.is_good() && ps.payload_len == t.size() && m == t, "apart-frame", "");
			TEXPECT(http::ResponseHeader::generate_sec_websocket_accept("dGhlIHNhbXBsZSBub25jZQ==") == "s3pPLMBiTxaQ9kYGzzhZRbK+xOo=", "apart-accept", "");
			break;
		}
		case 11: {
			crab::Random a(q.next());
			crab::Random b;
			std::string p2 = a.printable_string(q.below(50));
			for (char c : p2) TEXPECT(std::isalnum(uint8_t(c)), "apart-random", quote(p2));
			double x = b.double_value();
			TEXPECT(x >= 0 && x < 1, "apart-random", x);
			break;
		}
		default: {
			crab::StringStream ss; crab::VectorStream vs; crab::Buffer b(1 + q.below(50));
			ss.write(t.data(), t.size());
			while (true) { size_t k = b.read_from(ss); if (!k) break; b.write_to(vs); }
			TEXPECT(std::string(vs.get_buffer().begin(), vs.get_buffer().end()) == t, "apart-stream", quote(t));
		}
		}
	}
	template<class T, class... A>
	std::unique_ptr<T> on_port(uint16_t &port, A &&... a) {
		std::unique_ptr<T> v;
		for (int k = 0; k != 50 && !v; ++k) {
			port = uint16_t(20000 + (MixCase::port_seq.fetch_add(1) * 7 + unsigned(::getpid()) * 13) % 12000);
			try { v.reset(new T(crab::Address("127.0.0.1", port), A(a)...)); } catch (const std::exception &) {}
		}
		if (!v) unusable.fetch_add(1, RLX);
		return v;
	}
	void thread_main(u64 seed, u64 name) {
		Rng q(seed);
		auto *loop = crab::RunLoop::current();
		for (int i = 0, n = int(q.below(40)); i != n; ++i) pure(q);
		int left = 0;  // parts of the program still running
		auto part_done = [&] { if (--left == 0) done.fetch_add(1); };
		// datagrams to itself
		uint16_t uport = 0, tport = 0, hport = 0;
		int dgrams = int(1 + q.below(10));
		std::unique_ptr<crab::UDPTransmitter> ut;
		std::unique_ptr<crab::UDPReceiver> ur = on_port<crab::UDPReceiver>(uport, crab::Handler([&] {
			uint8_t buf[300];
			crab::Address from;
			while (ur) {
				auto k = ur->read_datagram(buf, sizeof(buf), &from);
				if (!k) break;
				n_dgrams.fetch_add(1, RLX);
				ur->write_datagram(buf, *k, from);
			}
		}));
		auto send = [&] { uint8_t b[20] = {}; for (auto &x : b) x = uint8_t(dgrams); ut->write_datagram(b, sizeof(b)); };
		if (ur) {
			ut.reset(new crab::UDPTransmitter(crab::Address("127.0.0.1", uport), [&] {
				uint8_t buf[300];
				crab::Address from;
				while (auto k = ut->read_datagram(buf, sizeof(buf), &from)) {
					TEXPECT(*k == 20 && buf[0] == uint8_t(dgrams) && from.get_port() == uport, "apart-datagram", *k << " bytes from " << from.to_string());
					n_dgrams.fetch_add(1, RLX);
					if (--dgrams == 0) part_done(); else if (dgrams > 0) send();
				}
			}));
			++left;
			send();
		}
		// a stream to itself
		std::string out = text_of(q, q.below(60000)), in;
		std::unique_ptr<crab::TCPAcceptor> ac;
		std::unique_ptr<crab::BufferedTCPSocket> a, b;
		ac = on_port<crab::TCPAcceptor>(tport, crab::Handler([&] { if (ac && a && ac->can_accept()) { a->accept(*ac); } }));
		if (ac) {
			a.reset(new crab::BufferedTCPSocket([&] {
				uint8_t buf[5000];
				while (size_t k = a->read_some(buf, 1 + q.below(sizeof(buf)))) { in.append(reinterpret_cast<char *>(buf), k); n_bytes.fetch_add(k, RLX); }
				if (in.size() == out.size() && !a->is_open()) { TEXPECT(in == out, "apart-stream", "other bytes"); part_done(); }
			}));
			b.reset(new crab::BufferedTCPSocket([&] {}));
			if (b->connect(crab::Address("127.0.0.1", tport))) {
				++left;
				for (size_t i = 0; i < out.size();) { size_t k = std::min<size_t>(out.size() - i, 1 + q.below(3000)); b->write(out.data() + i, k, q.coin() ? crab::WRITE : crab::BUFFER_ONLY); i += k; }
				b->write_shutdown();
			}
		}
		// requests and messages to itself
		int asked = int(1 + q.below(12)), frames = int(q.below(6));
		bool hello = true;  // the server speaks first
		std::string body;
		std::unique_ptr<http::ClientRequestSimple> rs;
		std::unique_ptr<http::ClientConnection> ws;
		std::unique_ptr<http::Server> sv = on_port<http::Server>(hport);
		auto ask = [&] {
			http::Request rq;
			rq.header.method = "POST"; rq.header.path = "/x"; rq.header.host = name_of(name);
			body = text_of(q, q.below(q.chance(10) ? 9000 : 60));
			rq.set_body(std::string(body));
			if (q.chance(20)) clock_ahead.fetch_add(600 * 1000000ll, RLX);
			rs->send(std::move(rq), hport, "http");
		};
		crab::Timer next([&] { ask(); });
		if (sv) {
			sv->r_handler = [&](http::Client *who, http::Request &&rq) {
				if (rq.header.is_websocket_upgrade()) {
					who->web_socket_upgrade([who](http::WebMessage &&m) { if (m.is_text()) who->write(http::WebMessage("<" + m.body + ">")); });
					who->write(http::WebMessage("<hello>"));
					return;
				}
				switch (q.below(4)) {
				case 0: throw std::runtime_error(rq.body);
				case 1: {
					http::ResponseHeader h;
					h.status = 200;
					h.transfer_encoding_chunked = true;
					who->start_write_stream(h, [] {});
					who->write(std::string(rq.body));
					who->write_last_chunk();
					return;
				}
				default: who->write(http::Response::simple_text(200, std::string(rq.body)));
				}
			};
			rs.reset(new http::ClientRequestSimple([&](http::Response &&r2) {
				TEXPECT((r2.header.status == 200 || r2.header.status == 422) && r2.body == body, "apart-answer", r2.header.status << " " << quote(r2.body, 100));
				n_answers.fetch_add(1, RLX);
				pure(q);
				if (--asked == 0) part_done(); else next.once(0);
			}, [&](std::string &&e) { TVIOL("apart-error", "request failed: " << e); part_done(); }));
			++left;
			ask();
			if (frames) {
				ws.reset(new http::ClientConnection([] {}));
				ws->set_handler([&] {
					http::WebMessage m;
					while (ws->read_next(m)) {
						TEXPECT(m.body == (hello ? "<hello>" : "<" + std::to_string(frames) + ">"), "apart-message", quote(m.body, 50));
						if (hello) { hello = false; ws->write(http::WebMessage(std::to_string(frames))); continue; }
						n_frames.fetch_add(1, RLX);
						if (--frames == 0) { ws->close(); part_done(); return; }
						ws->write(http::WebMessage(std::to_string(frames)));
					}
				});
				ws->connect(name_of(name), hport, "http");
				http::RequestHeader h;
				h.path = "/ws";
				ws->web_socket_upgrade(h);
				++left;
			}
		}
		// timers, idle handlers, own watchers, names
		int ticks = int(1 + q.below(20));
		crab::Timer tick([&] { n_ticks.fetch_add(1, RLX); if (--ticks == 0) { part_done(); return; } after_us(tick, q.below(300)); });
		++left;
		tick.once(0);
		int turns = int(1 + q.below(20));
		std::unique_ptr<crab::Idle> idle;
		idle.reset(new crab::Idle([&] { pure(q); if (--turns == 0) { idle->set_active(false); part_done(); } }));
		++left;
		crab::Watcher self([&] { part_done(); });
		++left;
		self.call();
		crab::DNSResolver dns([&](const std::vector<crab::Address> &names) {
			TEXPECT(names.size() == 1 && names[0].get_port() == 77 && names[0].is_local(), "apart-name", names.size());
			n_resolved.fetch_add(1, RLX);
			part_done();
		});
		++left;
		dns.resolve(name_of(name), 77, true, false);
		loop->run();
		std::ostringstream os;
		loop->stats.print_records(os);
		TEXPECT(!os.str().empty(), "apart-stats", "no records");
	}
	void run() {
		u64 id;
		Script &s  = new_script(r, id);
		s.rc       = 0;
		s.loopback = true;
		s.addrs    = {{AF_INET, 1}};
		size_t nt = 2 + r.below(3);
		std::list<crab::Thread> ths;
		for (size_t i = 0; i != nt; ++i) {
			u64 seed = r.next();
			ths.emplace_back([this, seed, id] { thread_main(seed, id); });
		}
		bool early = r.chance(20);
		if (early) usleep_(r.below(8000));
		else if (!wait_for([&] { return done.load() == int(nt); }, 60000)) give_up("apart-stuck", "a thread's own work did not finish: " + std::to_string(done.load()) + " of " + std::to_string(nt) + " did");
		for (auto &t : ths) t.cancel();
		ths.clear();
		wait_for([] { return gai_in.load() == 0; });
		count("apart_threads", nt);
		count("apart_pure", n_pure);
		count("apart_datagrams", n_dgrams);
		count("apart_bytes", n_bytes);
		count("apart_answers", n_answers);
		count("apart_frames", n_frames);
		count("apart_resolved", n_resolved);
		std::ostringstream os;
		os << nt << " threads apart, " << n_pure << " computations, " << n_dgrams << " datagrams, " << n_bytes << " bytes, " << n_answers << " answers, " << n_frames << " frames" << (early ? ", ended early" : "");
		ev(n_pure); ev(n_answers); ev(n_frames);
		finish(os.str(), n_pure > 0);
	}
};
template<class T>
void body() {
	int n = ctx().has_replay ? 100 : 1;  // schedules are not reproducible, so a replay repeats the program
	for (int i = 0; i != n; ++i) {
		if (n > 1) ctx().rng = Rng(ctx().caseseed);
		{ T t; t.run(); }
		if (ctx().failed) return;
	}
}
}  // namespace

extern "C" {
int __real_pthread_mutex_lock(pthread_mutex_t *m);
int __wrap_pthread_mutex_lock(pthread_mutex_t *m) { noise(); int rc = __real_pthread_mutex_lock(m); noise(); return rc; }
int __real_pthread_mutex_unlock(pthread_mutex_t *m);
int __wrap_pthread_mutex_unlock(pthread_mutex_t *m) { int rc = __real_pthread_mutex_unlock(m); noise(); return rc; }
int __real_pthread_cond_signal(pthread_cond_t *c);
int __wrap_pthread_cond_signal(pthread_cond_t *c) { noise(); int rc = __real_pthread_cond_signal(c); noise(); return rc; }
int __real_eventfd_write(int fd, eventfd_t v);
int __wrap_eventfd_write(int fd, eventfd_t v) { noise(); int rc = __real_eventfd_write(fd, v); noise(); return rc; }
int __real_eventfd_read(int fd, eventfd_t *v);
int __wrap_eventfd_read(int fd, eventfd_t *v) { noise(); int rc = __real_eventfd_read(fd, v); noise(); return rc; }
std::chrono::steady_clock::time_point __real__ZNSt6chrono3_V212steady_clock3nowEv();
std::chrono::steady_clock::time_point __wrap__ZNSt6chrono3_V212steady_clock3nowEv() { return __real__ZNSt6chrono3_V212steady_clock3nowEv() + std::chrono::nanoseconds(clock_ahead.load(RLX)); }
ssize_t __real_read(int fd, void *p, size_t n);
ssize_t __wrap_read(int fd, void *p, size_t n) { noise(); return __real_read(fd, p, n); }
ssize_t __real_write(int fd, const void *p, size_t n);
ssize_t __wrap_write(int fd, const void *p, size_t n) { noise(); return __real_write(fd, p, n); }
int __real_epoll_wait(int fd, epoll_event *e, int n, int t);
int __wrap_epoll_wait(int fd, epoll_event *e, int n, int t) { noise(); int rc = __real_epoll_wait(fd, e, n, t); noise(); return rc; }
int __real_getaddrinfo(const char *node, const char *service, const addrinfo *hints, addrinfo **res);
int __wrap_getaddrinfo(const char *node, const char *service, const addrinfo *hints, addrinfo **res) { return fake_getaddrinfo(node, service, hints, res); }
void __real_freeaddrinfo(addrinfo *res);
void __wrap_freeaddrinfo(addrinfo *res) {
	while (res) {
		addrinfo *n = res->ai_next;
		std::free(res->ai_addr);
		std::free(res);
		gai_live.fetch_sub(1, RLX);
		res = n;
	}
}
}

int main(int argc, char **argv) {
	return harness_main(argc, argv, {{"watch", body<WatchCase>}, {"run", body<RunCase>}, {"dns", body<DnsCase>}, {"dnsexit", dnsexit_case}, {"dnsexitchild", dnsexit_child},
	    {"signal", signal_case}, {"sigchild", [] { SigChild s; s.run(); }}, {"mix", body<MixCase>}, {"apart", body<ApartCase>}});
}
