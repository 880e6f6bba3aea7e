// E01 timers, E05 idle handlers, E02 silence and destruction in callbacks: on the simulated kernel.
#include <crab/crab.hpp>
#include <cmath>
#include <limits>
#include <list>
#include "sim.hpp"

using namespace vh;
using crab::steady_clock;
using sim::MS;
using sim::SEC;

static u64 ns_of(steady_clock::time_point t) { return u64(t.time_since_epoch().count()); }
static const long double FOREVER = 9.2e18L;

// ---------------------------------------------------------------- E01
namespace {
struct TimerModel {
	bool armed = false, moved = false;
	long double lo = 0, hi = 0;  // due time interval in virtual ns
	u64 gen = 0, fired = 0, armings = 0;
};
struct TimerCase {
	Rng &r;
	crab::RunLoop loop;
	std::vector<std::unique_ptr<crab::Timer>> t;
	std::vector<TimerModel> m;
	std::unique_ptr<crab::Watcher> ext;
	int ops_left;
	int in_cb = -1;
	bool cancelled = false;
	bool slow;
	u64 horizon;

	TimerCase() : r(ctx().rng), ops_left(int(20 + ctx().rng.below(120))), slow(ctx().rng.chance(40)) {
		size_t k = 1 + r.below(r.chance(20) ? 40 : 8);
		m.resize(k);
		t.resize(k);
		for (size_t i = 0; i != k; ++i) make(i);
		ext.reset(new crab::Watcher([this] { on_ext(); }));
		horizon = sim::now() + 400 * 3600 * SEC;
	}
	void make(size_t i) {
		t[i].reset(new crab::Timer([this, i] { on_timer(i); }));
		m[i] = TimerModel{};
	}
	static std::string show(long double v) {
		char b[64];
		std::snprintf(b, sizeof b, "%.0Lf", v);
		return b;
	}
	void arm(size_t i) {
		long double now = (long double)ns_of(loop.now());
		TimerModel &x   = m[i];
		bool was        = x.armed;
		long double old_lo = x.lo;
		x.gen++;
		x.armings++;
		switch (r.below(10)) {
		case 0: {  // special doubles
			static const double sp[] = {0.0, -0.0, -1.0, -1e300, 1e300, 1e10, std::numeric_limits<double>::infinity(), -std::numeric_limits<double>::infinity(), 1e-9, 1e-10, 4e9, 9.3e9, 9.2e9, 1e9};
			double d = sp[r.below(sizeof sp / sizeof *sp)];
			set_double(x, now, d);
			NOTE("t" << i << ".once(" << d << ")");
			t[i]->once(d);
			break;
		}
		case 1: {
			static const int64_t sp[] = {0, -1, 1, INT64_MAX, INT64_MIN, INT64_MAX - 1, INT64_MAX / 2, 999999, 1000000, 1000001};
			int64_t d = sp[r.below(sizeof sp / sizeof *sp)];
			long double due = d <= 0 ? now : now + (long double)d;
			x.lo = x.hi = due;
			if (due >= FOREVER) x.lo = x.hi = FOREVER * 2;
			NOTE("t" << i << ".once(ns " << d << ")");
			t[i]->once(steady_clock::duration(d));
			break;
		}
		case 2: {
			int64_t abs;
			switch (r.below(5)) {
			case 0: abs = INT64_MAX; break;
			case 1: abs = INT64_MIN; break;
			case 2: abs = int64_t(now) - int64_t(r.below(5 * SEC)); break;
			case 3: abs = 0; break;
			default: abs = int64_t(now) + int64_t(r.below(5 * SEC)); break;
			}
			x.lo = x.hi = (long double)abs;
			if (abs == INT64_MAX) x.lo = x.hi = FOREVER * 2;
			NOTE("t" << i << ".once_at(" << abs << ")");
			t[i]->once_at(steady_clock::time_point(steady_clock::duration(abs)));
			break;
		}
		default: {
			u64 d;
			switch (r.below(6)) {
			case 0: d = r.below(2000000); break;
			case 1: d = r.below(50) * MS; break;
			case 2: d = r.below(20) * 100 * MS; break;
			case 3: d = r.below(3 * SEC); break;
			case 4: d = r.below(100) * 60 * SEC; break;
			default: d = r.below(3) * 1800 * SEC + r.below(5) * MS; break;
			}
			if (r.coin()) {
				x.lo = x.hi = now + (long double)d;
				NOTE("t" << i << ".once(ns " << d << ")");
				t[i]->once(steady_clock::duration(int64_t(d)));
			} else {
				double ds = double(d) / 1e9;
				set_double(x, now, ds);
				NOTE("t" << i << ".once(" << ds << ")");
				t[i]->once(ds);
			}
		}
		}
		x.moved = was;
		if (was && x.lo < old_lo) count("timers_moved_earlier");
		if (was && x.lo > old_lo) count("timers_moved_later");
		x.armed = true;
		ev(i * 64 + 1);
		EXPECT(t[i]->is_set(), "is_set-false", "timer " << i << " was just armed");
	}
	static void set_double(TimerModel &x, long double now, double d) {
		if (!(d > 0)) { x.lo = x.hi = now; return; }
		long double v = (long double)d * 1e9L;
		if (v > 1e19L || now + v >= FOREVER) { x.lo = x.hi = FOREVER * 2; return; }
		x.lo = now + v * (1 - 1e-12L) - 2;
		x.hi = now + v * (1 + 1e-12L) + 2;
	}
	void op() {
		size_t i = r.below(t.size());
		switch (r.below(12)) {
		case 0:
			NOTE("t" << i << ".cancel");
			t[i]->cancel();
			m[i].armed = false;
			EXPECT(!t[i]->is_set(), "is_set-after-cancel", "timer " << i);
			count("timers_cancelled");
			break;
		case 1:
			if (int(i) == in_cb) break;  // own destruction is exercised by E02
			NOTE("t" << i << " destroyed");
			make(i);
			count("timers_destroyed");
			break;
		default: arm(i);
		}
		check_set();
	}
	void check_set() {
		for (size_t i = 0; i != t.size(); ++i)
			EXPECT(t[i]->is_set() == m[i].armed, "is_set-wrong", "timer " << i << " is_set=" << t[i]->is_set() << " but outstanding=" << m[i].armed);
	}
	void some_ops(unsigned max) {
		for (u64 n = r.below(max + 1); n && ops_left > 0; --n, --ops_left) op();
		if (slow && r.chance(30)) {
			u64 d = r.below(4) ? r.below(30 * MS) : r.below(4 * SEC);
			sim::advance(d);
			count("slow_callbacks");
		}
	}
	void on_timer(size_t i) {
		TimerModel &x = m[i];
		long double now = (long double)sim::now();
		ev(i * 64 + 2);
		count("timer_fires");
		NOTE("t" << i << " fired at " << show(now));
		EXPECT(x.armed, "fired-not-armed", "timer " << i << " fired without an outstanding arming (armings " << x.armings << ", fired " << x.fired << ")");
		EXPECT(!x.armed || now >= x.lo, "fired-early", "timer " << i << " fired " << show(x.lo - now) << " ns early");
		if (x.armed && !x.moved)
			for (size_t j = 0; j != m.size(); ++j)
				if (j != i && m[j].armed && !m[j].moved)
					EXPECT(m[j].hi >= x.lo, "order", "timer " << i << " due " << show(x.lo) << " fired before timer " << j << " due " << show(m[j].hi));
		x.armed = false;
		x.fired++;
		check_set();
		in_cb = int(i);
		some_ops(3);
		in_cb = -1;
	}
	void on_ext() {
		count("external_wakeups");
		some_ops(4);
		if (ops_left > 0) schedule_ext();
	}
	void schedule_ext() {
		u64 d = r.below(3) ? r.below(40 * MS) : r.below(3) ? r.below(2 * SEC) : r.below(3600 * SEC);
		sim::at(d, [this] { ext->call(); });
	}
	void on_wait(int timeout) {
		long double now = (long double)sim::now();
		EXPECT(timeout >= 0, "wait-negative", "epoll_wait timeout " << timeout);
		long double wake = now + (long double)timeout * MS;
		for (size_t i = 0; i != m.size(); ++i)
			if (m[i].armed) {
				long double due = std::max(m[i].hi, now);
				EXPECT(wake <= due + 5 * MS, "oversleep", "loop goes to sleep for " << timeout << " ms while timer " << i << " is due in " << show(due - now) << " ns");
			}
		count("waits_checked");
		bool any = false;
		for (auto &x : m) any = any || (x.armed && x.hi < (long double)horizon);
		if ((!any && ops_left <= 0) || sim::now() > horizon) {
			if (!cancelled) { cancelled = true; loop.cancel(); }
		}
		EXPECT(sim::total_waits() < 300000, "spin", "loop polls without progress");
	}
	void run() {
		schedule_ext();
		sim::on_wait = [this](int tmo) { on_wait(tmo); };
		some_ops(6);
		loop.run();
		for (size_t i = 0; i != m.size(); ++i)
			EXPECT(!m[i].armed || m[i].hi >= (long double)sim::now() - (long double)SEC, "never-fired", "timer " << i << " was due " << show((long double)sim::now() - m[i].hi) << " ns ago and never fired");
		ctx().nontrivial = true;
		std::ostringstream os;
		os << t.size() << " timers, " << ctx().events << " events, slow=" << slow << ", virtual s=" << (sim::now() / SEC - 1000);
		ctx().desc = os.str();
	}
};
}  // namespace
static void case_timers() {
	sim::Config c;
	c.eintr    = unsigned(ctx().rng.below(20));
	c.spurious = 0;
	sim::begin(c, ctx().rng.next());
	{
		TimerCase tc;
		tc.run();
	}
	EXPECT(sim::open_fds() == 0, "fd-leak", sim::open_fd_list());
	sim::end();
}

// ---------------------------------------------------------------- E05
namespace {
struct IdleCase {
	Rng &r;
	crab::RunLoop loop;
	struct I {
		std::unique_ptr<crab::Idle> o;
		bool active = false;
		u64 since   = 0;   // order number of the last activation
		u64 ran     = 0;   // order number of the last run
	};
	std::vector<I> idles;
	std::vector<std::unique_ptr<crab::Watcher>> w;
	std::vector<u64> wcalls, wcbs;
	std::vector<std::unique_ptr<crab::Timer>> t;
	std::vector<long double> due;
	std::unique_ptr<crab::UDPReceiver> udp;
	u64 udp_in = 0, udp_read = 0;
	u64 seq = 0, last_wait_events = 1, callbacks_since_wait = 1;
	int last_timeout = -1;
	int steps;
	bool stop = false;

	IdleCase() : r(ctx().rng), steps(int(100 + ctx().rng.below(300))) {
		idles.resize(1 + r.below(6));
		for (size_t i = 0; i != idles.size(); ++i) create(i);
		for (size_t i = 0, n = r.below(4); i != n; ++i) {
			w.emplace_back(new crab::Watcher([this, i] { other("watcher"); wcbs[i] = wcalls[i]; }));
			wcalls.push_back(0);
			wcbs.push_back(0);
		}
		for (size_t i = 0, n = 1 + r.below(4); i != n; ++i) {
			t.emplace_back(new crab::Timer([this, i] { due[i] = FOREVER; other("timer"); }));
			due.push_back(FOREVER);
		}
		udp.reset(new crab::UDPReceiver(crab::Address("127.0.0.1", 5000), [this] {
			uint8_t b[16];
			while (udp->read_datagram(b, sizeof b)) udp_read++;
			other("udp");
		}));
	}
	void create(size_t i) {
		idles[i].o.reset(new crab::Idle([this, i] { on_idle(i); }));
		idles[i].active = true;
		idles[i].since  = ++seq;
	}
	void ops(size_t self) {
		for (u64 n = r.below(3); n; --n) {
			size_t i = r.below(idles.size());
			switch (r.below(8)) {
			case 0:
				idles[i].o->set_active(false);
				idles[i].active = false;
				NOTE("idle" << i << " off");
				count("idle_deactivated");
				break;
			case 1:
				idles[i].o->set_active(true);
				idles[i].active = true;
				idles[i].since  = ++seq;
				NOTE("idle" << i << " on");
				count("idle_activated");
				break;
			case 2:
				if (i != self && idles[i].o) {
					create(i);
					NOTE("idle" << i << " recreated");
				}
				break;
			case 3:
				if (!t.empty()) arm(r.below(t.size()));
				break;
			case 4:
				if (!w.empty()) { size_t k = r.below(w.size()); wcalls[k]++; w[k]->call(); NOTE("watcher" << k << " called"); }
				break;
			case 5: { u64 d = r.below(20 * MS); sim::at(d, [] { sim::udp_send(sim::ip4("127.0.0.1", 1), sim::ip4("127.0.0.1", 5000), "x", 0); }); udp_in++; break; }
			case 6: sim::advance(r.below(3 * MS)); break;
			default: break;
			}
			EXPECT(idles[i].o->is_active() == idles[i].active, "is_active", "idle " << i);
		}
	}
	void arm(size_t i) {
		u64 d  = r.below(20 * MS);
		due[i] = (long double)ns_of(loop.now()) + d;
		t[i]->once(steady_clock::duration(int64_t(d)));
	}
	void other(const char *what) {
		callbacks_since_wait++;
		NOTE(what << " ran");
		ev(7);
		count("other_callbacks");
		if (--steps > 0) ops(size_t(-1));
	}
	void on_idle(size_t i) {
		ev(100 + i);
		count("idle_runs");
		NOTE("idle" << i << " ran");
		EXPECT(idles[i].active, "inactive-ran", "idle " << i << " ran while not active");
		EXPECT(callbacks_since_wait == 0, "idle-after-work", "idle " << i << " ran without polling for events after another callback");
		EXPECT(last_wait_events == 0 && last_timeout == 0, "idle-before-events", "idle " << i << " ran although the last poll reported " << last_wait_events << " events");
		for (size_t j = 0; j != due.size(); ++j)
			EXPECT(due[j] > (long double)ns_of(loop.now()), "idle-before-timer", "idle " << i << " ran while timer " << j << " is due");
		for (size_t j = 0; j != idles.size(); ++j)
			if (j != i && idles[j].active && idles[i].ran && idles[i].since < idles[i].ran)
				EXPECT(idles[j].ran > idles[i].ran || idles[j].since > idles[i].ran, "unfair", "idle " << i << " ran twice while active idle " << j << " did not run");
		idles[i].ran = ++seq;
		callbacks_since_wait++;
		if (--steps > 0) ops(i);
		else finish();
	}
	void finish() {
		if (stop) return;
		stop = true;
		for (auto &x : idles) { x.o->set_active(false); x.active = false; }
	}
	void run() {
		sim::on_wait = [this](int tmo) {
			last_timeout         = tmo;
			callbacks_since_wait = 0;
			bool any = false;
			for (auto &x : idles) any = any || x.active;
			if (any) EXPECT(tmo == 0, "slept-with-idle", "loop waits " << tmo << " ms while an idle handler is active");
			count("waits_checked");
			if (steps <= 0) finish();
			if (steps > 0 && !any && sim::rng().chance(50)) { idles[0].o->set_active(true); idles[0].active = true; idles[0].since = ++seq; }
		};
		sim::on_wait_return = [this](int n) { last_wait_events = u64(n < 0 ? 0 : n); };
		sim::on_quiet = [this] {
			bool pending = false;
			for (auto d : due) pending = pending || d < FOREVER;
			if (pending) return;
			if (steps > 0) { idles[0].o->set_active(true); idles[0].active = true; idles[0].since = ++seq; steps -= 5; }
			else loop.cancel();
		};
		ops(size_t(-1));
		loop.run();
		for (size_t i = 0; i != w.size(); ++i) EXPECT(wcalls[i] == wcbs[i], "watcher-starved", "watcher " << i << " call never delivered while idles ran");
		EXPECT(udp_in == udp_read, "udp-starved", udp_in << " datagrams, " << udp_read << " read");
		ctx().nontrivial = true;
		std::ostringstream os;
		os << idles.size() << " idles, " << w.size() << " watchers, " << t.size() << " timers, " << ctx().events << " events";
		ctx().desc = os.str();
	}
};
}  // namespace
static void case_idle() {
	sim::Config c;
	c.spurious  = 0;
	c.eintr     = 0;
	c.udp_queue = 100000;
	sim::begin(c, ctx().rng.next());
	{
		IdleCase ic;
		ic.run();
	}
	EXPECT(sim::open_fds() == 0, "fd-leak", sim::open_fd_list());
	sim::end();
}

// ---------------------------------------------------------------- E02
namespace {
enum ZK { Z_TIMER, Z_IDLE, Z_WATCHER, Z_UDPR, Z_UDPT, Z_TCP, Z_BUF, Z_ACC, Z_KINDS };
const char *zname[] = {"timer", "idle", "watcher", "udpr", "udpt", "tcp", "buffered", "acceptor"};
struct Zoo;
struct Obj {
	ZK kind;
	u64 id;
	bool dead = false;
	// exactly one of these
	std::unique_ptr<crab::Timer> timer;
	std::unique_ptr<crab::Idle> idle;
	std::unique_ptr<crab::Watcher> watcher;
	std::unique_ptr<crab::UDPReceiver> udpr;
	std::unique_ptr<crab::UDPTransmitter> udpt;
	std::unique_ptr<crab::TCPSocket> tcp;
	std::unique_ptr<crab::BufferedTCPSocket> buf;
	std::unique_ptr<crab::TCPAcceptor> acc;
	// model
	bool armed = false;       // timer armed / idle active
	u64 calls = 0;            // watcher calls minus callbacks since the last cancel
	bool served = true;       // a callback began after the last call
	bool open = false;        // socket: harness believes it is open
	bool closing = false;     // close(true) asked: one more callback, closed
	bool shut = false;
	u64 cbs = 0, got = 0;
};
struct Zoo {
	Rng &r;
	crab::RunLoop loop;
	std::map<u64, std::unique_ptr<Obj>> all;
	std::vector<sim::PeerP> peers;
	u64 next_id = 0;
	int ops_left;
	bool teardown = false, stop = false;
	std::vector<u64> running;
	u64 idle_spins = 0;
	std::unique_ptr<crab::Watcher> ext;
	sim::ListenerP lst;

	Zoo() : r(ctx().rng), ops_left(int(30 + ctx().rng.below(150))) {
		ext.reset(new crab::Watcher([this] { on_ext(); }));
		lst = sim::peer_listen(sim::ip4("10.0.0.1", 80), [this](sim::PeerP p) { add_peer(p); });
		for (u64 n = 2 + r.below(8); n; --n) create();
	}
	void add_peer(const sim::PeerP &p) {
		peers.push_back(p);
		p->on_event = [this, p = p.get()] {
			if (stop) return;
			Rng &g = sim::rng();
			if (g.chance(20)) p->write(g.str(1 + g.below(3000), "abc"));
			if (g.chance(6)) p->shutdown();
			else if (g.chance(4)) p->close();
			else if (g.chance(3)) p->abort();
		};
		u64 n = sim::rng().below(4);
		for (u64 i = 0; i != n; ++i) {
			std::weak_ptr<sim::Peer> wp = p;
			sim::at(sim::rng().below(40 * MS), [this, wp] {
				auto p = wp.lock();
				if (!p) return;
				Rng &g = sim::rng();
				switch (g.below(6)) {
				case 0: p->close(); break;
				case 1: p->abort(); break;
				case 2: p->shutdown(); break;
				default: p->write(g.str(1 + g.below(6000), "xyz"));
				}
			});
		}
	}
	Obj *create() {
		std::unique_ptr<Obj> o(new Obj);
		o->kind = ZK(r.below(Z_KINDS));
		o->id   = ++next_id;
		Obj *p  = o.get();
		auto h  = [this, id = o->id] { auto self = this; u64 i = id; self->callback(i); };
		try {
			switch (o->kind) {
			case Z_TIMER: o->timer.reset(new crab::Timer(h)); break;
			case Z_IDLE: o->idle.reset(new crab::Idle(h)); o->armed = true; break;
			case Z_WATCHER: o->watcher.reset(new crab::Watcher(h)); break;
			case Z_UDPR: o->udpr.reset(new crab::UDPReceiver(crab::Address("127.0.0.1", uint16_t(6000 + o->id)), h)); break;
			case Z_UDPT: o->udpt.reset(new crab::UDPTransmitter(crab::Address("127.0.0.1", uint16_t(6000 + r.below(20))), h)); break;
			case Z_TCP: o->tcp.reset(new crab::TCPSocket(h)); break;
			case Z_BUF: o->buf.reset(new crab::BufferedTCPSocket(h)); break;
			case Z_ACC: o->acc.reset(new crab::TCPAcceptor(crab::Address("127.0.0.1", uint16_t(7000 + o->id)), h)); break;
			default: break;
			}
		} catch (const std::exception &ex) {
			VIOL("create-failed", zname[o->kind] << ": " << ex.what());
			return nullptr;
		}
		NOTE("create " << zname[o->kind] << " #" << o->id);
		ev(1000 + o->kind);
		count("objects_created");
		all[o->id] = std::move(o);
		return p;
	}
	void destroy(u64 id) {
		auto it = all.find(id);
		if (it == all.end()) return;
		std::unique_ptr<Obj> o = std::move(it->second);
		all.erase(it);
		bool self = std::find(running.begin(), running.end(), id) != running.end();
		count(self ? "destroyed_in_own_callback" : running.empty() ? "destroyed_outside" : "destroyed_in_other_callback");
		NOTE("destroy " << zname[o->kind] << " #" << id << (self ? " (self)" : ""));
		ev(2000 + o->kind);
		o.reset();
	}
	bool is_open(Obj *o) { return o->kind == Z_TCP ? o->tcp->is_open() : o->buf->is_open(); }
	void connect(Obj *o) {
		crab::Address a(r.chance(80) ? "10.0.0.1" : "10.0.0.2", 80);
		bool ok = o->kind == Z_TCP ? o->tcp->connect(a) : o->buf->connect(a);
		NOTE("connect #" << o->id << " -> " << ok);
		// connect closes an earlier connection silently
		o->open    = ok;
		o->closing = false;
		if (o->kind == Z_BUF) o->shut = false;
	}
	void op(u64 self) {
		if (r.chance(12) && all.size() < 25) { create(); return; }
		if (all.empty()) { create(); return; }
		auto it = all.begin();
		if (self && r.chance(35) && all.count(self)) it = all.find(self);
		else std::advance(it, r.below(all.size()));
		Obj *o = it->second.get();
		u64 id = o->id;
		if (r.chance(14)) { destroy(id); return; }
		switch (o->kind) {
		case Z_TIMER:
			if (r.chance(25)) { o->timer->cancel(); o->armed = false; NOTE("cancel timer #" << id); }
			else { o->timer->once(steady_clock::duration(int64_t(r.below(30 * MS)))); o->armed = true; }
			break;
		case Z_IDLE: {
			bool a = r.chance(30);
			o->idle->set_active(a);
			o->armed = a;
			break;
		}
		case Z_WATCHER:
			if (r.chance(30)) { o->watcher->cancel(); o->calls = 0; o->served = true; NOTE("cancel watcher #" << id); }
			else { o->watcher->call(); o->calls++; o->served = false; NOTE("call watcher #" << id); }
			break;
		case Z_UDPR: {
			std::string d = r.bstr(r.below(50));
			if (r.coin()) o->udpr->write_datagram(crab::uint8_cast(d.data()), d.size(), crab::Address("127.0.0.1", uint16_t(6000 + r.below(20))));
			else sim::udp_send(sim::ip4("127.0.0.1", 9), sim::ip4("127.0.0.1", uint16_t(6000 + id)), d, 0);
			break;
		}
		case Z_UDPT: {
			std::string d = r.bstr(r.below(50));
			o->udpt->write_datagram(crab::uint8_cast(d.data()), d.size());
			break;
		}
		case Z_TCP:
		case Z_BUF: {
			u64 k = r.below(10);
			if (k < 3) { if (!o->open || r.chance(30)) connect(o); }
			else if (k == 3) {
				NOTE("close #" << id);
				if (o->kind == Z_TCP) o->tcp->close(); else o->buf->close();
				o->open = o->closing = o->shut = false;
				EXPECT(!is_open(o), "open-after-close", zname[o->kind]);
				count("closed_silently");
			} else if (k == 4) {
				bool was = is_open(o);
				NOTE("close(true) #" << id << " was " << was);
				if (o->kind == Z_TCP) o->tcp->close(true); else o->buf->close(true);
				o->open = false;
				o->shut = false;
				o->closing = was;
			} else if (k == 5 && o->kind == Z_BUF) { o->buf->write_shutdown(); if (o->open) o->shut = true; }
			else {
				std::string d = r.bstr(1 + r.below(4000));
				if (o->kind == Z_TCP) o->tcp->write_some(crab::uint8_cast(d.data()), d.size());
				else if (r.coin()) o->buf->write(std::move(d));
				else o->buf->write(d.data(), d.size());
				check_lost(o);
			}
			break;
		}
		case Z_ACC: {
			sim::PeerP p = sim::peer_connect(sim::ip4("127.0.0.1", uint16_t(7000 + id)), sim::ip4("10.9.9.9", uint16_t(1000 + r.below(60000))));
			add_peer(p);
			break;
		}
		default: break;
		}
		ev(3000 + o->kind);
	}
	void check_lost(Obj *) {}
	void ops(u64 self, unsigned max) {
		if (teardown) return;
		for (u64 n = r.below(max + 1); n && ops_left > 0; --n, --ops_left) op(self);
	}
	void callback(u64 id) {
		auto it = all.find(id);
		if (it == all.end()) { VIOL("callback-after-destroy", "object #" << id << " was destroyed, its callback ran"); return; }
		Obj *o = it->second.get();
		o->cbs++;
		ev(4000 + o->kind);
		count("callbacks");
		NOTE(zname[o->kind] << " #" << id << " callback");
		running.push_back(id);
		switch (o->kind) {
		case Z_TIMER:
			EXPECT(o->armed, "timer-after-cancel", "timer #" << id);
			o->armed = false;
			break;
		case Z_IDLE:
			EXPECT(o->armed, "idle-inactive", "idle #" << id);
			if (++idle_spins > 2000) { o->idle->set_active(false); o->armed = false; }
			break;
		case Z_WATCHER:
			EXPECT(o->calls > 0, "watcher-after-cancel", "watcher #" << id << " called back without a call since its last callback or cancel");
			if (o->calls) o->calls--;  // one callback may stand for several calls, never the other way round
			o->served = true;
			break;
		case Z_UDPR: { uint8_t b[20]; while (o->udpr->read_datagram(b, sizeof b)) count("datagrams"); break; }
		case Z_UDPT: { uint8_t b[20]; while (o->udpt->read_datagram(b, sizeof b)) count("datagrams"); break; }
		case Z_TCP:
		case Z_BUF: {
			bool op = is_open(o);
			if (op) EXPECT(o->open, "socket-callback-after-close", zname[o->kind] << " #" << id << " called back open although it is closed");
			else {
				EXPECT(o->open || o->closing, "socket-callback-after-close", zname[o->kind] << " #" << id << " closed callback although it was closed before");
				o->open = o->closing = o->shut = false;
				count("disconnects");
			}
			uint8_t b[777];
			while (size_t n = (o->kind == Z_TCP ? o->tcp->read_some(b, sizeof b) : o->buf->read_some(b, sizeof b))) { o->got += n; if (!op) VIOL("read-after-close", "read " << n << " bytes from a closed socket"); }
			break;
		}
		case Z_ACC:
			while (o->acc->can_accept()) {
				Obj *n = nullptr;
				for (auto &kv : all)
					if ((kv.second->kind == Z_TCP || kv.second->kind == Z_BUF) && !kv.second->open && !kv.second->closing && r.coin()) { n = kv.second.get(); break; }
				if (!n) {
					std::unique_ptr<Obj> x(new Obj);
					x->kind = r.coin() ? Z_TCP : Z_BUF;
					x->id   = ++next_id;
					auto h  = [this, i = x->id] { auto self = this; u64 k = i; self->callback(k); };
					if (x->kind == Z_TCP) x->tcp.reset(new crab::TCPSocket(h)); else x->buf.reset(new crab::BufferedTCPSocket(h));
					n = x.get();
					all[x->id] = std::move(x);
				}
				if (n->kind == Z_TCP) n->tcp->accept(*o->acc); else n->buf->accept(*o->acc);
				n->open = true;
				n->closing = n->shut = false;
				count("accepts");
			}
			break;
		default: break;
		}
		ops(id, 3);
		running.pop_back();
	}
	void on_ext() {
		ops(0, 3);
		if (ops_left > 0) next_ext();
	}
	void next_ext() { sim::at(r.below(15 * MS), [this] { if (!stop) ext->call(); }); }
	void settle_check() {
		for (auto &kv : all) {
			Obj *o = kv.second.get();
			if (o->kind == Z_WATCHER) EXPECT(o->served, "watcher-lost", "call of watcher #" << o->id << " was never delivered");
			if (o->kind == Z_TIMER) EXPECT(!o->armed, "timer-lost", "timer #" << o->id << " never fired");
			if (o->kind == Z_TCP || o->kind == Z_BUF) {
				EXPECT(!o->closing, "close-event-lost", "close(true) of #" << o->id << " never reported");
				EXPECT(is_open(o) == o->open, "open-wrong", zname[o->kind] << " #" << o->id << " is_open " << is_open(o) << " model " << o->open);
			}
		}
		size_t lib = 0;
		sim::for_each_library_endpoint([&](const sim::EP &e) {
			lib++;
			EXPECT(e->unread() == 0, "data-unreported", "a socket that reads everything was not told about " << e->unread() << " bytes");
			EXPECT(!e->fin, "eof-unreported", "end of stream was not reported to a reading socket");
			EXPECT(e->st != sim::Endpoint::DEAD, "reset-unreported", "reset was not reported");
		});
		size_t open = 0;
		for (auto &kv : all) open += (kv.second->kind == Z_TCP || kv.second->kind == Z_BUF) && kv.second->open;
		EXPECT(lib == open, "open-count", lib << " connections hold descriptors, " << open << " sockets are open");
	}
	void run() {
		sim::connect_fate = [](const sim::Addr &) {
			u64 x = sim::rng().below(20);
			return x == 0 ? sim::REFUSED_SYNC : x == 1 ? sim::REFUSED_ASYNC : x == 2 ? sim::UNREACH_SYNC : sim::ACCEPTED;
		};
		u64 settle = 0;
		sim::on_wait = [&](int) {
			if (ops_left > 0 || stop) return;
			if (!settle) {
				settle   = sim::now();
				teardown = true;
				for (auto &kv : all)
					if (kv.second->kind == Z_IDLE) { kv.second->idle->set_active(false); kv.second->armed = false; }
			}
			if (sim::now() > settle + 90 * SEC) { stop = true; loop.cancel(); }
		};
		next_ext();
		ops(0, 6);
		loop.run();
		stop = true;
		settle_check();
		// what is left is destroyed in random order
		std::vector<u64> ids;
		for (auto &kv : all) ids.push_back(kv.first);
		r.shuffle(ids);
		for (u64 i : ids) destroy(i);
		for (auto &p : peers) p->on_event = nullptr;
		ctx().nontrivial = true;
		std::ostringstream os;
		os << next_id << " objects, " << peers.size() << " peers, " << ctx().events << " events";
		ctx().desc = os.str();
	}
};
}  // namespace
static void case_zoo() {
	sim::Config c;
	Rng &r      = ctx().rng;
	c.spurious  = unsigned(r.below(10));
	c.eintr     = unsigned(r.below(6));
	c.subset    = unsigned(r.below(70));
	c.cap_max   = r.coin() ? 100 : 70000;
	c.delay_max = r.coin() ? 100000 : 5 * MS;
	sim::begin(c, r.next());
	{
		Zoo z;
		z.run();
	}
	EXPECT(sim::open_fds() == 0, "fd-leak", sim::open_fd_list());
	sim::end();
}

int main(int argc, char **argv) {
	return harness_main(argc, argv, {{"timers", case_timers}, {"idle", case_idle}, {"zoo", case_zoo}});
}
