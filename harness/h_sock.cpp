// N01/N02 TCP sockets, N03 acceptors, N04 UDP, N08 buffered sockets, M03 release of descriptors and memory.
// The real socket code on the simulated kernel; every byte carries its position, so loss, duplication and reordering show.
#include "netcase.hpp"

// ================================================================= N01, N02
namespace {
struct PeerSt { sim::PeerP p; u64 wrote = 0, got = 0; u64 budget = 0; bool slow = false, went = false; };
struct TcpCase {
	struct S {
		u64 id = 0;
		std::unique_ptr<crab::TCPSocket> s;
		bool open = false, closing = false, user_closed = false, injected = false, called = false;
		bool hungry = false, wblocked = false, wshut = false, accept_failed = false;
		unsigned style = 0;
		u64 rx = 0, tx = 0;
		EP ep, other;
	};
	Rng &r;
	crab::RunLoop loop;
	bool faulty;
	Faults faults;
	std::map<u64, std::unique_ptr<S>> socks;
	std::map<u64, std::pair<u64, bool>> lib_tx;  // endpoint id of a library side -> bytes accepted, shut
	std::vector<std::shared_ptr<PeerSt>> peers;
	std::unique_ptr<crab::TCPAcceptor> acc;
	std::unique_ptr<crab::Watcher> ext;
	u64 next_id = 0;
	u64 progress = 0;  // when the last event was seen
	int ops_left;
	bool stop = false, settling = false;
	unsigned tail_writes = 60;
	S *cur = nullptr;

	explicit TcpCase(bool f) : r(ctx().rng), faulty(f), ops_left(int(40 + ctx().rng.below(200))) {
		ext.reset(new crab::Watcher([this] { ops(4); if (ops_left > 0) next_ext(); }));
		acc.reset(new crab::TCPAcceptor(crab::Address("127.0.0.1", 9000), [this] { accept_all(); }));
		lst = sim::peer_listen(sim::ip4("10.0.0.1", 80), [this](sim::PeerP p) { add_peer(p); });
		sim::connect_fate = [](const sim::Addr &a) {
			if (a.port == 9000) return sim::ACCEPTED;
			u64 x = sim::rng().below(30);
			return x == 0 ? sim::REFUSED_SYNC : x == 1 ? sim::REFUSED_ASYNC : x == 2 ? sim::UNREACH_SYNC : x == 3 ? sim::TIMEOUT_ASYNC : sim::ACCEPTED;
		};
		if (faulty) faults.arm(r, false);
		sim::on_block = [this] { block(); };
		sim::fault = [this](sim::Sys s, int fd) {
			int e = faults(s);
			if (e && (s == sim::S_RECV || s == sim::S_SEND))
				for (auto &kv : socks) if (kv.second->ep && kv.second->ep->fd == fd) kv.second->injected = true;
			return e;
		};
	}
	sim::ListenerP lst;
	~TcpCase() { sim::fault = nullptr; for (auto &p : peers) p->p->on_event = nullptr; }
	void next_ext() { sim::at(r.below(r.coin() ? 3 * MS : 60 * MS), [this] { if (!stop) ext->call(); }); }

	// --- harness side
	void add_peer(const sim::PeerP &p) {
		auto st    = std::make_shared<PeerSt>();
		st->p      = p;
		st->budget = sim::rng().len(vol(40000));
		st->slow   = sim::rng().chance(30);
		peers.push_back(st);
		if (settling) st->slow = false;
		if (st->slow) p->read_quota = sim::rng().below(100);
		p->on_event = [this, st] { peer_event(*st); };
		for (u64 n = 1 + sim::rng().below(6); n; --n) sim::at(sim::rng().below(80 * MS), [this, st] { if (!stop) peer_act(*st); });
		peer_act(*st);
	}
	void peer_event(PeerSt &st) {
		sim::Peer &p = *st.p;
		if (!p.in.empty()) {
			EP o = p.ep->peer.lock();
			auto d = diff(o->id, st.got, reinterpret_cast<const uint8_t *>(p.in.data()), p.in.size());
			EXPECT(d.empty(), "peer-bytes", "peer of endpoint " << o->id << " received wrong bytes: " << d);
			st.got += p.in.size();
			auto it = lib_tx.find(o->id);
			EXPECT(it != lib_tx.end() && st.got <= it->second.first, "peer-excess", "peer received " << st.got << " bytes, library reported " << (it == lib_tx.end() ? 0 : it->second.first) << " accepted");
			progress = sim::now(); count("peer_bytes", p.in.size());
			p.in.clear();
		}
		if (st.slow && p.read_quota == 0 && !settling && !st.went) {
			st.went = true;
			sim::at(sim::rng().below(30 * MS), [this, &st, w = std::weak_ptr<sim::Peer>(st.p)] { auto p = w.lock(); if (p && !stop) { st.went = false; p->read_quota = settling ? size_t(-1) : 1 + sim::rng().below(3000); p->poll(); } });
		}
	}
	void peer_act(PeerSt &st) {
		Rng &g = sim::rng();
		sim::Peer &p = *st.p;
		if (p.closed || p.shut_after_flush || p.close_after_flush) return;
		if (st.budget) {
			size_t n = std::min<u64>(st.budget, 1 + g.len(vol(20000)));
			st.budget -= n;
			p.write(pats(p.ep->id, st.wrote, n));
			st.wrote += n;
		}
		switch (g.below(14)) {
		case 0: p.shutdown(); break;
		case 1: p.close(); break;
		case 2: p.abort(); break;
		default: break;
		}
	}
	// --- library side
	S *make() {
		std::unique_ptr<S> x(new S);
		x->id    = ++next_id;
		x->style = unsigned(r.below(5));
		x->s.reset(new crab::TCPSocket([this, id = x->id] { auto self = this; u64 i = id; self->callback(i); }));
		S *p = x.get();
		socks[x->id] = std::move(x);
		return p;
	}
	void fresh(S &x) {
		x.open = true;
		x.closing = x.user_closed = x.injected = x.called = x.hungry = x.wblocked = x.wshut = x.accept_failed = false;
		x.rx = x.tx = 0;
		x.ep.reset();
		x.other.reset();
	}
	void bind_ep(S &x, const crab::Address &remote) {
		x.ep = find_ep(sa(x.s->local_address()), sa(remote));
		if (x.ep) { x.other = x.ep->peer.lock(); lib_tx[x.ep->id]; }
	}
	void accept_all() {
		while (acc->can_accept()) {
			S &x = *make();
			crab::Address from;
			x.s->accept(*acc, &from);
			fresh(x);
			bind_ep(x, from);
			if (!x.ep) { x.accept_failed = x.closing = true; EXPECT(faulty, "accept-lost", "accepted socket holds no connection"); }
			else EXPECT(sa(from) == x.ep->remote, "accept-address", sa(from).str() << " instead of " << x.ep->remote.str());
			EXPECT(x.s->is_open(), "accept-not-open", "");
			count("accepted");
		}
	}
	void gone(S &x) {  // forget a connection the user closed
		x.open = x.closing = false;
		x.hungry = x.wblocked = false;
	}
	void after_io(S &x) {
		if (x.open && !x.closing && x.ep && x.ep->app_closed) {
			x.closing = true;
			EXPECT(x.s->is_open(), "closed-before-report", "socket " << x.id << " closed itself without a pending notification");
		}
	}
	size_t read(S &x, size_t n) {
		bool live = x.open && !x.closing;
		u64 before = x.ep ? x.ep->taken : 0;
		size_t got = 0;
		std::unique_ptr<uint8_t[]> a, b;
		if (r.chance(30) && n > 1) {
			size_t k = r.below(n + 1);
			a.reset(new uint8_t[k]);
			b.reset(new uint8_t[n - k]);
			got = x.s->read_some(a.get(), k, b.get(), n - k);
			EXPECT(got <= n, "read-count", "read " << got << " of " << n);
			if (got <= n && live) {
				verify_rx(x, a.get(), std::min(k, got));
				if (got > k) verify_rx(x, b.get(), got - k);
			}
		} else {
			a.reset(new uint8_t[n]);
			got = r.coin() ? x.s->read_some(a.get(), n) : x.s->read_some(reinterpret_cast<char *>(a.get()), n);
			EXPECT(got <= n, "read-count", "read " << got << " of " << n);
			if (got <= n && live) verify_rx(x, a.get(), got);
		}
		EXPECT(live || got == 0, "read-closed", "closed socket " << x.id << " read " << got << " bytes");
		if (x.ep) EXPECT(x.ep->taken - before == got, "read-reported", "kernel handed over " << x.ep->taken - before << " bytes, read reported " << got);
		count("bytes_read", got);
		ev(got * 16 + 1);
		if (live && got == 0) x.hungry = true;
		after_io(x);
		return got;
	}
	void verify_rx(S &x, const uint8_t *d, size_t n) {
		if (!n) return;
		if (!x.other) { VIOL("read-nowhere", "bytes from an unknown connection"); return; }
		auto e = diff(x.other->id, x.rx, d, n);
		EXPECT(e.empty(), "read-bytes", "socket " << x.id << ": " << e);
		x.rx += n;
	}
	size_t write(S &x, size_t n) {
		bool live = x.open && !x.closing;
		u64 before = x.ep ? x.ep->sent : 0;
		u64 sid = x.ep ? x.ep->id : 0;
		size_t got = 0, offered = n;
		if (r.chance(30)) {
			std::deque<crab::Buffer> q;
			size_t left = n, parts = 0;
			while (left) {
				size_t k = std::min(left, size_t(1 + r.len(r.coin() ? 50 : 3000)));
				q.emplace_back(k + r.below(20));
				if (r.chance(35) && k > 1) {  // wrapped: two memory areas
					crab::Buffer &w = q.back();
					size_t first    = 1 + r.below(k - 1), junk = w.capacity() - first;
					std::string d = pats(sid, x.tx + (n - left), k), pad = r.bstr(junk);
					w.write(pad.data(), pad.size());
					w.write(d.data(), first);
					w.did_read(junk);
					w.write(d.data() + first, k - first);
					if (w.read_count2()) count("wrapped_buffers");
				} else {
					std::string d = pats(sid, x.tx + (n - left), k);
					q.back().write(d.data(), d.size());
				}
				left -= k;
				if (r.chance(10)) q.emplace_back(r.below(5));  // empty buffer in the middle
				if (++parts == 60) { n -= left; break; }
			}
			if (parts > 12) count("gathers_many");
			got = x.s->write_some(q);
			offered = 0;
		} else {
			std::string d = pats(sid, x.tx, n);
			std::unique_ptr<uint8_t[]> h(new uint8_t[n]);
			std::copy(d.begin(), d.end(), h.get());
			got = r.coin() ? x.s->write_some(h.get(), n) : x.s->write_some(reinterpret_cast<const char *>(h.get()), n);
		}
		EXPECT(got <= n, "write-count", "wrote " << got << " of " << n);
		EXPECT(live || got == 0, "write-closed", "closed socket " << x.id << " wrote " << got << " bytes");
		if (x.ep) EXPECT(x.ep->sent - before == got, "write-reported", "kernel accepted " << x.ep->sent - before << " bytes, write reported " << got);
		x.tx += got;
		if (x.ep) lib_tx[x.ep->id].first += got;
		count("bytes_written", got);
		ev(got * 16 + 2);
		if (live && (got == 0 || got < offered)) x.wblocked = true;
		after_io(x);
		return got;
	}
	void drain(S &x) { while (read(x, 1 + r.len(r.coin() ? 30 : 5000))) {} }
	void close(S &x, bool ev_) {
		bool was = x.s->is_open();
		NOTE("close(" << ev_ << ") " << x.id);
		x.s->close(ev_);
		if (ev_) {
			EXPECT(x.s->is_open() == was, "close-event", "close(true) of a socket with is_open " << was << " leaves is_open " << x.s->is_open());
			if (was) { x.closing = true; x.user_closed = true; x.hungry = x.wblocked = false; count("closed_with_event"); }
		} else {
			EXPECT(!x.s->is_open(), "close-open", "");
			gone(x);
			count("closed_silently");
		}
	}
	void connect(S &x) {
		bool lib = r.chance(25);
		crab::Address a = lib ? crab::Address("127.0.0.1", 9000) : crab::Address(r.chance(90) ? "10.0.0.1" : "10.0.0.9", 80);
		crab::TCPSocket::Settings st;
		st.tcp_delay = r.coin();
		if (r.chance(20)) st.sndbuf_size = 1000 + r.below(100000);
		if (r.chance(20)) st.rcvbuf_size = 1000 + r.below(100000);
		size_t fds = sim::open_fds();
		bool was_fd = x.ep && !x.ep->app_closed && x.open && !x.closing;
		bool ok = x.s->connect(a, st);
		NOTE("connect " << x.id << " -> " << ok);
		gone(x);
		if (!ok) {
			EXPECT(!x.s->is_open(), "connect-failed-open", "connect returned false, is_open");
			EXPECT(sim::open_fds() == fds - (was_fd ? 1 : 0), "connect-leak", "failed connect left a descriptor");
			count("connect_failed");
			return;
		}
		fresh(x);
		bind_ep(x, a);
		EXPECT(x.s->is_open() && x.ep, "connect-not-open", "");
		if (x.ep) EXPECT(x.ep->remote == sa(a), "connect-address", x.ep->remote.str());
		count("connects");
	}
	void op(S *self) {
		if (socks.empty() || (socks.size() < 12 && r.chance(15))) {
			if (r.coin()) { connect(*make()); return; }
			add_peer(sim::peer_connect(sim::ip4("127.0.0.1", 9000), sim::ip4("10.7.7.7", uint16_t(1 + r.below(60000)))));
			count("peer_connects");
			return;
		}
		auto it = socks.begin();
		std::advance(it, r.below(socks.size()));
		S &x = (self && r.coin() && socks.count(self->id)) ? *self : *it->second;
		switch (r.below(24)) {
		case 0: close(x, false); break;
		case 1: close(x, true); break;
		case 2: {
			u64 id = x.id;
			NOTE("destroy " << id);
			if (&x == cur) cur = nullptr;
			auto o = std::move(socks[id]);
			socks.erase(id);
			o.reset();
			count("destroyed");
			break;
		}
		case 3:
		case 4: if (!x.open || r.chance(10)) connect(x); break;
		case 5:
			if (x.open && !x.closing && !x.wshut && x.ep && x.ep->st == sim::Endpoint::EST && x.ep->err == 0) {
				NOTE("write_shutdown " << x.id);
				x.s->write_shutdown();
				x.wshut = true;
				x.wblocked = false;
				lib_tx[x.ep->id].second = true;
				count("write_shutdowns");
			}
			break;
		case 6: case 7: case 8: case 9: case 10: case 11: read(x, 1 + r.len(5000)); break;
		case 12: drain(x); break;
		default: if (!x.wshut) write(x, 1 + r.len(r.coin() ? 200 : vol(30000))); break;
		}
	}
	void ops(unsigned max) {
		if (settling) return;
		for (u64 n = r.below(max + 1); n && ops_left > 0; --n, --ops_left) { S *c = cur; op(c); }
	}
	void callback(u64 id) {
		auto it = socks.find(id);
		if (it == socks.end()) { VIOL("callback-destroyed", "socket " << id); return; }
		S &x = *it->second;
		x.called = true;
		progress = sim::now(); count("callbacks");
		ev(id * 16 + 3);
		if (!x.s->is_open()) {
			NOTE("socket " << id << " closed");
			EXPECT(x.open, "closed-twice", "socket " << id << " reports closing, it was reported or closed already");
			EXPECT(x.closing, "closed-unknown", "socket " << id << " reports closing out of the blue");
			bool reason = x.user_closed || x.injected || x.accept_failed || (x.ep && (x.ep->fin || x.ep->st == sim::Endpoint::DEAD || x.ep->rst));
			EXPECT(reason, "closed-alive", "socket " << id << " reports closing, its connection is alive");
			if (x.ep && x.ep->fin && !x.ep->rst && !x.injected && !x.user_closed)
				EXPECT(x.rx == x.ep->arrived, "eof-before-data", "end of stream reported after " << x.rx << " bytes, " << x.ep->arrived << " arrived");
			if (x.ep) EXPECT(x.ep->app_closed, "closed-holds-fd", "");
			count("closes_reported");
			gone(x);
			read(x, 1 + r.below(100));
			write(x, 1 + r.below(100));
			cur = &x;
			ops(2);
			cur = nullptr;
			return;
		}
		EXPECT(x.open, "callback-after-close", "socket " << id << " called back after it was closed");
		EXPECT(!x.closing, "callback-open-closing", "socket " << id << " is open after it had closed itself");
		x.hungry = x.wblocked = false;
		cur = &x;
		if (settling) { drain(x); if (!x.closing && !x.wshut && x.style == 4 && tail_writes && tail_writes--) write(x, 1 + r.below(10)); }
		else switch (x.style) {
			case 0: drain(x); break;
			case 1: drain(x); if (!x.wshut) while (ops_left > 0 && x.open && !x.closing && --ops_left) if (!write(x, 1 + r.len(vol(3000)))) break; break;
			case 2: read(x, 1 + r.below(100)); break;
			case 3: if (!x.wshut && ops_left > 0) { --ops_left; write(x, 1 + r.len(vol(20000))); } drain(x); break;
			default: break;
			}
		ops(3);
		cur = nullptr;
	}
	void block() {  // nothing is ready, nothing is pending: whoever waits for what is already there was forgotten
		count("sleeps_checked");
		for (auto &kv : socks) {
			S &x = *kv.second;
			if (!x.open || x.closing || !x.ep || x.ep->app_closed) { if (x.closing) VIOL("close-late", "the loop sleeps while closing of socket " << x.id << " is not reported"); continue; }
			if (x.hungry) EXPECT(x.ep->unread() == 0 && !x.ep->fin && x.ep->st != sim::Endpoint::DEAD, "read-stalled", "the loop sleeps, socket " << x.id << " was not told about " << x.ep->unread() << " bytes, end " << x.ep->fin);
			if (x.wblocked && x.ep->st == sim::Endpoint::EST) EXPECT(x.ep->nospace, "write-stalled", "the loop sleeps, socket " << x.id << " was not told that it can write");
			if (!x.called && x.ep->st != sim::Endpoint::CONNECTING) VIOL("connect-late", "the loop sleeps, outcome of connection " << x.id << " was not reported");
		}
	}
	void tick() {
		for (auto &kv : socks) {
			S &x = *kv.second;
			EXPECT(x.s->is_open() == x.open, "is_open", "socket " << x.id << " is_open " << x.s->is_open() << ", model " << x.open);
		}
	}
	void settle() {
		settling  = true;
		faults.on = false;
		for (auto &p : peers) { p->p->read_quota = size_t(-1); p->p->set_reading(true); }
		std::vector<S *> v;
		for (auto &kv : socks) v.push_back(kv.second.get());
		for (S *x : v) if (x->open && !x->closing && !x->hungry) drain(*x);  // the hungry ones must be woken up
	}
	void final_checks() {
		size_t open = 0;
		for (auto &kv : socks) {
			S &x = *kv.second;
			EXPECT(!x.closing, "close-lost", "closing of socket " << x.id << " was never reported");
			if (!x.open || x.closing) continue;
			open++;
			EXPECT(x.called, "connect-lost", "outcome of connecting socket " << x.id << " was never reported");
			if (!x.ep || x.ep->app_closed) { VIOL("open-nothing", "open socket " << x.id << " holds no connection"); continue; }
			EXPECT(x.ep->unread() == 0, "read-stalled", "socket " << x.id << " waits, it was not told about " << x.ep->unread() << " bytes");
			EXPECT(!x.ep->fin, "eof-lost", "socket " << x.id << " waits, it was not told about the end of stream");
			EXPECT(x.ep->st != sim::Endpoint::DEAD, "error-lost", "socket " << x.id << " waits, it was not told about the failure");
			if (x.wblocked && x.other && !x.other->app_closed && x.ep->st == sim::Endpoint::EST)
				EXPECT(x.other->flight + x.other->unread() >= x.other->cap, "write-stalled", "socket " << x.id << " waits for space, was not told about it");
		}
		size_t fds = 0;
		sim::for_each_library_endpoint([&](const EP &) { fds++; });
		EXPECT(fds == open, "fd-count", fds << " connections held, " << open << " sockets open");
		for (auto &p : peers) {
			sim::Peer &q = *p->p;
			EP o = q.ep->peer.lock();
			if (!o || !lib_tx.count(o->id) || q.ep->flight || q.ep->unread()) continue;  // still on the way
			auto &t = lib_tx[o->id];
			if (!q.closed && !q.reset)
				EXPECT(p->got == t.first, "peer-missing", "peer received " << p->got << " of " << t.first << " accepted bytes");
			if (t.second && !q.closed && !q.reset)
				EXPECT(q.eof, "shutdown-lost", "peer did not see the end of stream after write_shutdown");
			if (q.eof) EXPECT(t.second || o->app_closed, "eof-unasked", "peer saw the end of stream, nobody shut down or closed");
		}
	}
	void run() {
		next_ext();
		ops(6);
		Settling<TcpCase>::run(*this, loop, 40 * SEC);
		final_checks();
		ctx().nontrivial = true;
		std::ostringstream os;
		os << next_id << " sockets, " << peers.size() << " raw peers, faults " << faulty << ", " << ctx().events << " events";
		ctx().desc = os.str();
		std::vector<u64> ids;
		for (auto &kv : socks) ids.push_back(kv.first);
		r.shuffle(ids);
		for (u64 i : ids) { auto o = std::move(socks[i]); socks.erase(i); o.reset(); }
	}
};
}  // namespace
static void tcp_body(bool faulty) {
	sim::Config c;
	random_net(c, ctx().rng);
	sim::begin(c, ctx().rng.next());
	{
		TcpCase t(faulty);
		t.run();
	}
	EXPECT(sim::open_fds() == 0, "fd-leak", sim::open_fd_list());
	sim::end();
}

// ================================================================= N03
namespace {
struct AccCase {
	struct C { u64 id; std::unique_ptr<crab::TCPSocket> s; EP ep; bool dead = false; };
	Rng &r;
	crab::RunLoop loop;
	std::unique_ptr<crab::TCPAcceptor> acc;
	std::unique_ptr<crab::Timer> retry;
	std::map<u64, C> held;
	std::vector<sim::PeerP> peers;
	std::set<u64> handed;  // endpoint ids
	sim::Addr at;
	u64 progress = 0;  // when the last event was seen
	int ops_left;
	bool stop = false, settling = false, errors;
	u64 next_id = 0, cbs = 0, shortage_since = 0, shortage_cbs = 0, last_free = 0;
	u64 arrivals = 0;

	explicit AccCase(bool f) : r(ctx().rng), ops_left(int(10 + ctx().rng.below(60))), errors(f) {
		static const char *ips[] = {"127.0.0.1", "0.0.0.0", "::1", "::"};
		crab::Address a(ips[r.below(4)], uint16_t(1 + r.below(65535)));
		at = sa(a);
		crab::TCPAcceptor::Settings st;
		st.reuse_addr = r.coin();
		st.reuse_port = r.coin();
		st.tcp_delay = r.coin();
		if (r.coin()) st.sndbuf_size = st.rcvbuf_size = 10000;
		acc.reset(new crab::TCPAcceptor(a, [this] { cbs++; shortage_cbs++; progress = sim::now(); count("acceptor_callbacks"); some(); }, st));
		retry.reset(new crab::Timer([this] { some(); }));
		// a second acceptor cannot have the same address
		size_t fds = sim::open_fds();
		bool thrown = false;
		try { crab::TCPAcceptor second(a, [] {}); } catch (const std::exception &) { thrown = true; }
		EXPECT(thrown, "bind-no-throw", "second acceptor on " << at.str());
		EXPECT(sim::open_fds() == fds, "bind-leak", "failed acceptor left a descriptor");
		thrown = false;
		try { crab::TCPAcceptor third(crab::Address(), [] {}); } catch (const std::exception &) { thrown = true; }
		EXPECT(thrown && sim::open_fds() == fds, "family-no-throw", "acceptor on unspecified address");
	}
	sim::Addr target() {
		sim::Addr t = at;
		if (at.any()) t.ip = at.family == AF_INET ? std::string("\x7f\0\0\1", 4) : std::string(15, '\0') + '\1';
		return t;
	}
	void arrive() {
		sim::Addr from = at;
		from.ip = r.bstr(from.ip.size());
		from.port = uint16_t(1 + r.below(65535));
		auto p = sim::peer_connect(target(), from);
		peers.push_back(p);
		arrivals++;
		if (r.chance(15)) sim::at(r.below(5 * MS), [w = std::weak_ptr<sim::Peer>(p)] { if (auto p = w.lock()) p->close(); });
	}
	void some() {
		u64 max = settling ? 100000 : r.coin() ? 100000 : r.below(4);
		u64 n = 0;
		while (n < max && acc->can_accept()) {
			EXPECT(acc->can_accept(), "can_accept-changes", "second can_accept() without accept is false");
			C c;
			c.id = ++next_id;
			c.s.reset(new crab::TCPSocket([this, id = c.id] { auto s = this; u64 i = id; s->sock_cb(i); }));
			crab::Address from;
			c.s->accept(*acc, &from);
			sim::Addr f = sa(from);
			c.ep = find_ep(sa(c.s->local_address()), f);
			if (!c.ep) { EXPECT(errors, "accept-nothing", ""); }
			else {
				EXPECT(f == c.ep->remote, "accept-address", f.str() << " instead of " << c.ep->remote.str());
				EXPECT(handed.insert(c.ep->id).second, "accepted-twice", "connection handed over twice");
				bool mine = false;
				for (auto &p : peers) mine = mine || p->ep == c.ep->peer.lock();
				EXPECT(mine, "accept-foreign", "");
			}
			held[c.id] = std::move(c);
			n++;
			count("accepted");
			ev(5);
		}
		if (n >= max) retry->once(0.001 * double(r.below(300)));  // leaves the rest for later
		bool bad = false;
		try { crab::TCPSocket s([] {}); if (n < max) s.accept(*acc); else bad = true; } catch (const std::logic_error &) { bad = true; }
		EXPECT(bad, "accept-no-throw", "accept() without can_accept()");
		if (!settling && r.coin()) op();
	}
	void sock_cb(u64 id) {
		auto it = held.find(id);
		if (it == held.end()) return;
		uint8_t b[64];
		while (it->second.s->read_some(b, sizeof b)) {}
		if (!it->second.s->is_open()) drop(id);
	}
	void drop(u64 id) {
		auto o = std::move(held[id]);
		held.erase(id);
		last_free = sim::now();
		count("released");
	}
	void op() {
		if (ops_left <= 0) return;
		--ops_left;
		switch (r.below(6)) {
		case 0: for (u64 n = r.below(20); n; --n) arrive(); break;
		case 1: if (!held.empty()) { auto it = held.begin(); std::advance(it, r.below(held.size())); drop(it->first); } break;
		case 2: sim::cfg().fd_limit = r.coin() ? 100000 : sim::open_fds() + r.below(4); last_free = sim::now(); break;
		case 3: { auto l = sim::fd_of_listener(target()); (void)l; sim::at(0, [] {}); break; }
		default: arrive();
		}
	}
	void tick() {
		bool shortage = sim::open_fds() >= sim::cfg().fd_limit;
		if (!shortage) { shortage_since = 0; return; }
		if (!shortage_since) { shortage_since = sim::now(); shortage_cbs = 0; arr0 = arrivals; }
		u64 secs = (sim::now() - shortage_since) / SEC;
		EXPECT(shortage_cbs <= secs + 3 + 4 * (arrivals - arr0 + 12), "shortage-spin", shortage_cbs << " handler calls in " << secs << " s of descriptor shortage");
		count("shortage_waits");
	}
	u64 arr0 = 0;
	void settle() {
		settling = true;
		faults.on = false;
		sim::cfg().fd_limit = 100000;
		last_free = sim::now();
		retry->once(0.0);
	}
	void check_backlog(const char *when) {
		for (auto &p : peers) {
			EP o = p->ep->peer.lock();
			if (p->connected && !p->refused && o) EXPECT(handed.count(o->id) || lost_ok, "never-accepted", when << ": a completed connection was never handed over");
		}
	}
	bool lost_ok = false;
	Faults faults;
	void run() {
		if (errors) {
			faults.on = true;
			faults.rate[sim::S_ACCEPT] = unsigned(r.below(6000));
			faults.rate[sim::S_EPOLL_CTL] = r.coin() ? unsigned(r.below(3000)) : 0;
			if (faults.rate[sim::S_EPOLL_CTL]) lost_ok = true;  // such a connection is closed at once
			sim::fault = [this](sim::Sys s, int) { return faults(s); };
		}
		next();
		for (u64 n = r.below(10); n; --n) arrive();
		// resume check: 1.2 s after descriptors became available everything waiting must be accepted if the user accepts
		Settling<AccCase>::run(*this, loop, 1200 * MS);
		check_backlog("1.2 s after descriptors became available");
		sim::fault = nullptr;
		ctx().nontrivial = true;
		std::ostringstream os;
		os << at.str() << ", " << peers.size() << " arrivals, " << next_id << " accepted, errors " << errors;
		ctx().desc = os.str();
	}
	void next() { sim::at(r.below(r.coin() ? 20 * MS : 900 * MS), [this] { if (stop) return; op(); if (ops_left > 0) next(); }); }
};
}  // namespace
static void acc_body(bool faulty) {
	sim::Config c;
	random_net(c, ctx().rng);
	sim::begin(c, ctx().rng.next());
	{
		AccCase t(faulty);
		t.run();
	}
	EXPECT(sim::open_fds() == 0, "fd-leak", sim::open_fd_list());
	sim::end();
}

// ================================================================= N04
namespace {
struct UdpCase {
	struct U {
		u64 id;
		bool rcv;
		std::unique_ptr<crab::UDPReceiver> r;
		std::unique_ptr<crab::UDPTransmitter> t;
		sim::Addr local, remote;
		int fd = -1;
		bool hungry = false, wblocked = false;
		bool called = false;
		u64 cbs = 0;
		std::deque<std::pair<std::string, sim::Addr>> expect;  // delivered by the kernel, not yet read
	};
	Rng &r;
	crab::RunLoop loop;
	std::map<u64, U> us;
	std::unique_ptr<crab::Watcher> ext;
	Faults faults;
	u64 next_id = 0, uniq = 0, out_errors = 0;
	u64 progress = 0;  // when the last event was seen
	int ops_left;
	bool stop = false, settling = false, faulty;
	std::map<std::pair<std::string, std::string>, int> sent;  // (destination, data) -> reported sent minus seen
	u64 nsent = 0, nseen = 0;
	bool full_ok;

	explicit UdpCase(bool f) : r(ctx().rng), ops_left(int(30 + ctx().rng.below(150))), faulty(f) {
		ext.reset(new crab::Watcher([this] { ops(5); if (ops_left > 0) next(); }));
		for (int i = 0; i != 3; ++i) sim::udp_peer(sim::ip4("10.1.1.1", uint16_t(100 + i)), [this](const sim::Datagram &, const sim::Addr &) { count("peer_datagrams"); });
		sim::udp_peer(sim::from_sockaddr(crab::Address("2001:db8::5", 100).impl_get_sockaddr(), sizeof(sockaddr_in6)), [this](const sim::Datagram &, const sim::Addr &) { count("peer_datagrams"); });
		sim::on_block = [this] {
			count("sleeps_checked");
			for (auto &kv : us) if (kv.second.hungry) EXPECT(kv.second.expect.empty(), "receive-stalled", "the loop sleeps, socket was not told about " << kv.second.expect.size() << " datagrams");
		};
		sim::on_udp_sent = [this](int, const sim::Datagram &d, const sim::Addr &to) { seen(to, d.data); };
		sim::on_udp_delivered = [this](int fd, const sim::Datagram &d) {
			for (auto &kv : us)
				if (kv.second.fd == fd) {
					kv.second.expect.push_back({d.data, d.from});
				}
		};
		if (faulty) {
			faults.on = true;
			faults.rate[sim::S_SENDTO]   = unsigned(r.below(1500));
			faults.rate[sim::S_RECVFROM] = 0;
			sim::fault = [this](sim::Sys s, int) { int e = faults(s); if (e) out_errors++; return e; };
		}
	}
	~UdpCase() { sim::fault = nullptr; sim::on_udp_delivered = nullptr; }
	void next() { sim::at(r.below(20 * MS), [this] { if (!stop) ext->call(); }); }
	void seen(const sim::Addr &to, const std::string &d) {
		nseen++;
		auto it = sent.find({to.str(), d});
		if (it == sent.end()) { VIOL("datagram-unsent", "a datagram of " << d.size() << " bytes arrived at " << to.str() << " that nobody sent there"); return; }
		if (--it->second < 0) VIOL("datagram-twice", "a datagram of " << d.size() << " bytes reached " << to.str() << " more often than sent");
	}
	void make() {
		U u;
		u.id  = ++next_id;
		u.rcv = r.coin();
		bool v6 = r.chance(15);
		u64 id = u.id;
		auto h = [this, id] { auto s = this; u64 i = id; s->callback(i); };
		size_t before = sim::open_fds();
		try {
			if (u.rcv) {
				crab::Address a(v6 ? "::1" : "127.0.0.1", uint16_t(7000 + u.id));
				u.local = sa(a);
				crab::UDPReceiver::Settings st;
				if (r.coin()) st.sndbuf_size = st.rcvbuf_size = 20000;
				u.r.reset(new crab::UDPReceiver(a, h, st));
			} else {
				sim::Addr to = pick_target();
				u.remote = to;
				u.t.reset(new crab::UDPTransmitter(ca(to), h));
			}
		} catch (const std::exception &) {
			EXPECT(faulty && sim::open_fds() == before, "udp-create", "");
			return;
		}
		u.fd = sim::dgram_fd(u.rcv ? u.local : sim::Addr{}, !u.rcv);
		if (!u.rcv) u.local = sim::dgram_local(u.fd);
		count("udp_sockets");
		us[u.id] = std::move(u);
	}
	sim::Addr pick_target() {
		if (r.chance(60))
			for (auto &kv : us) if (kv.second.rcv && r.coin()) return kv.second.local;
		if (r.chance(10)) return sa(crab::Address("2001:db8::5", 100));
		return sim::ip4("10.1.1.1", uint16_t(100 + r.below(3)));
	}
	std::string data() {
		size_t n;
		switch (r.below(6)) {
		case 0: n = 0; break;
		case 1: n = r.below(5); break;
		case 2: n = 65507 - r.below(3); break;
		case 3: n = r.below(65508); break;
		default: n = r.below(1500);
		}
		std::string d = pats(++uniq + 1000000, 0, n);
		for (size_t i = 0; i < 8 && i < n; ++i) d[i] = char(uniq >> (8 * i));
		return d;
	}
	void write(U &u) {
		std::string d = data();
		sim::Addr to = u.rcv ? pick_target() : u.remote;
		if (to.family != u.local.family) return;
		std::unique_ptr<uint8_t[]> h(new uint8_t[d.size()]);
		std::copy(d.begin(), d.end(), h.get());
		u64 e0 = out_errors;
		auto key = std::make_pair(to.str(), d);
		bool derr = sim::dgram_error_pending(u.fd);
		sent[key]++;
		bool ok = u.rcv ? u.r->write_datagram(h.get(), d.size(), ca(to)) : u.t->write_datagram(h.get(), d.size());
		ev(d.size() * 4 + ok);
		if (!ok) { sent[key]--; u.wblocked = true; count("sends_refused"); if (sent[key] < 0) VIOL("refused-sent", "write_datagram returned false, the datagram was sent"); return; }
		if (out_errors != e0 || derr) { sent[key]--; count("sends_failed"); return; }  // the network reported an error instead
		nsent++;
		count("sends");
	}
	bool read(U &u) {
		size_t cap = r.chance(30) ? r.below(100) : r.chance(10) ? 0 : 65507;
		std::unique_ptr<uint8_t[]> h(new uint8_t[cap]);
		crab::Address from;
		static std::unique_ptr<crab::UDPReceiver::DatagramBuffer> db(new crab::UDPReceiver::DatagramBuffer);
		size_t n = 0;
		bool got;
		const uint8_t *ptr = h.get();
		bool with_from = true;
		if (u.rcv && r.chance(20)) {
			if (u.r->read_datagrams(db.get(), 0) != 0) VIOL("read-none", "read_datagrams into no buffers");
			got = u.r->read_datagrams(db.get(), 1) == 1;
			if (got) { n = db->count; from = db->peer_addr; ptr = db->data; cap = 65507; }
		} else {
			with_from = r.coin();
			crab::optional<size_t> res = u.rcv ? u.r->read_datagram(h.get(), cap, with_from ? &from : nullptr) : u.t->read_datagram(h.get(), cap, with_from ? &from : nullptr);
			got = bool(res);
			if (got) n = *res;
		}
		ev(got ? n * 4 + 3 : 2);
		if (!got) { u.hungry = true; return false; }
		count("receives");
		if (u.expect.empty()) { VIOL("datagram-invented", n << " bytes read, the kernel had delivered nothing"); return true; }
		auto e = u.expect.front();
		u.expect.pop_front();
		size_t want = std::min(cap, e.first.size());
		EXPECT(n == want, "datagram-size", "read " << n << " bytes of a datagram of " << e.first.size() << " into " << cap);
		EXPECT(n == want && std::equal(ptr, ptr + n, reinterpret_cast<const uint8_t *>(e.first.data())), "datagram-bytes", "datagram of " << e.first.size() << " bytes altered");
		if (with_from) EXPECT(sa(from) == e.second, "datagram-sender", sa(from).str() << " instead of " << e.second.str());
		return true;
	}
	void op() {
		if (us.empty() || (us.size() < 8 && r.chance(15))) { make(); return; }
		auto it = us.begin();
		std::advance(it, r.below(us.size()));
		U &u = it->second;
		switch (r.below(12)) {
		case 0:
			if (in_cb == u.id || !r.chance(20)) break;
			us.erase(it);
			count("udp_destroyed");
			break;
		case 1: case 2: case 3: {  // from outside
			sim::Addr from = u.local;
			if (!u.rcv) { if (u.remote.ip.size() != 4) break; from = u.remote; if (from.ip[0] == 127) break; }
			else { from.ip = u.local.ip.size() == 4 ? std::string("\x0a\2\2\2", 4) : u.local.ip; from.port = uint16_t(1 + r.below(60000)); }
			std::string d = data();
			sim::udp_send(from, u.local, d, 0);
			break;
		}
		case 4:
			if (faulty) { sim::udp_error_fd(u.fd, r.coin() ? ECONNREFUSED : EHOSTUNREACH); count("udp_errors"); }
			break;
		case 5: case 6: read(u); break;
		default: write(u);
		}
	}
	u64 in_cb = 0;
	void ops(unsigned max) {
		if (settling) return;
		for (u64 n = r.below(max + 1); n && ops_left > 0; --n, --ops_left) op();
	}
	void callback(u64 id) {
		auto it = us.find(id);
		if (it == us.end()) { VIOL("callback-destroyed", "udp " << id); return; }
		U &u = it->second;
		u.hungry = u.wblocked = false;
		u.called = true;
		progress = sim::now(); count("callbacks");
		in_cb = id;
		while (read(u)) {}
		ops(3);
		in_cb = 0;
	}
	void tick() {}
	void settle() {
		settling = true;
		faults.on = false;
		for (auto &kv : us) if (!kv.second.hungry) while (read(kv.second)) {}  // the hungry ones must be woken up
	}
	void run() {
		ops(5);
		next();
		Settling<UdpCase>::run(*this, loop, 5 * SEC);
		for (auto &kv : us) {
			U &u = kv.second;
			EXPECT(u.expect.empty(), "receive-stalled", "socket waits, it was not told about " << u.expect.size() << " datagrams");
			EXPECT(!u.wblocked, "send-stalled", "a refused socket was never told that it may write again");
		}
		if (faulty || true)
			for (auto &kv : sent) EXPECT(kv.second <= 0, "datagram-lost", kv.second << " datagrams of " << kv.first.second.size() << " bytes reported as sent to " << kv.first.first << " never left");
		ctx().nontrivial = true;
		std::ostringstream os;
		os << next_id << " sockets, " << nsent << " sent, " << nseen << " seen, faults " << faulty;
		ctx().desc = os.str();
	}
};
}  // namespace
static void udp_body(bool faulty) {
	sim::Config c;
	Rng &r = ctx().rng;
	random_net(c, r);
	c.udp_full  = unsigned(r.below(40));
	c.udp_queue = 1000000;
	sim::begin(c, r.next());
	{
		UdpCase t(faulty);
		t.run();
	}
	EXPECT(sim::open_fds() == 0, "fd-leak", sim::open_fd_list());
	sim::end();
}

// ================================================================= N08
namespace {
struct BufCase {
	struct S {
		u64 id;
		std::unique_ptr<crab::BufferedTCPSocket> s;
		bool open = false, closing = false, shut = false, injected = false, called = false;
		u64 wrote = 0, rx = 0;       // accepted from the user
		u64 drained_at = 0, shut_at = 0;
		bool lazy = false;
		EP ep, other;
		PeerSt *peer = nullptr;
	};
	Rng &r;
	crab::RunLoop loop;
	bool faulty;
	Faults faults;
	std::map<u64, std::unique_ptr<S>> socks;
	std::map<u64, std::pair<u64, bool>> lib_tx;
	std::set<u64> cut;  // connections the user or a fault ended
	std::vector<std::shared_ptr<PeerSt>> peers;
	std::map<u64, std::shared_ptr<PeerSt>> peer_of;  // by library endpoint id
	std::unique_ptr<crab::TCPAcceptor> acc;
	std::unique_ptr<crab::Watcher> ext;
	sim::ListenerP lst;
	u64 next_id = 0;
	u64 progress = 0;  // when the last event was seen
	int ops_left;
	bool stop = false, settling = false;
	u64 running = 0;

	explicit BufCase(bool f) : r(ctx().rng), faulty(f), ops_left(int(40 + ctx().rng.below(150))) {
		ext.reset(new crab::Watcher([this] { ops(4); if (ops_left > 0) next(); }));
		acc.reset(new crab::TCPAcceptor(crab::Address("127.0.0.1", 9000), [this] {
			while (acc->can_accept()) {
				S &x = *make();
				x.s->accept(*acc);
				fresh(x);
				if (!x.ep) x.closing = true;
			}
		}));
		lst = sim::peer_listen(sim::ip4("10.0.0.1", 80), [this](sim::PeerP p) { add_peer(p); });
		if (faulty) faults.arm(r, false);
		sim::on_block = [this] { block(); };
		sim::fault = [this](sim::Sys s, int fd) {
			int e = faults(s);
			if (e && (s == sim::S_RECV || s == sim::S_SEND))
				for (auto &kv : socks) if (kv.second->ep && kv.second->ep->fd == fd) { kv.second->injected = true; cut.insert(kv.second->ep->id); }
			return e;
		};
		sim::connect_fate = [](const sim::Addr &) {
			u64 x = sim::rng().below(30);
			return x == 0 ? sim::REFUSED_SYNC : x == 1 ? sim::REFUSED_ASYNC : sim::ACCEPTED;
		};
	}
	~BufCase() { sim::fault = nullptr; for (auto &p : peers) p->p->on_event = nullptr; }
	void next() { sim::at(r.below(r.coin() ? 3 * MS : 60 * MS), [this] { if (!stop) ext->call(); }); }
	void add_peer(const sim::PeerP &p) {
		auto st = std::make_shared<PeerSt>();
		st->p   = p;
		st->budget = sim::rng().len(vol(10000));
		peers.push_back(st);
		st->slow = sim::rng().chance(40);
		if (settling) st->slow = false;
		if (st->slow) p->read_quota = sim::rng().below(100);
		p->on_event = [this, st] { peer_event(st); };
		for (u64 n = 1 + sim::rng().below(5); n; --n) sim::at(sim::rng().below(80 * MS), [this, st] { if (!stop) peer_act(*st); });
	}
	void peer_event(const std::shared_ptr<PeerSt> &st) {
		sim::Peer &p = *st->p;
		if (!p.in.empty()) {
			EP o = p.ep->peer.lock();
			auto d = diff(o->id, st->got, reinterpret_cast<const uint8_t *>(p.in.data()), p.in.size());
			EXPECT(d.empty(), "peer-bytes", "peer received wrong bytes: " << d);
			st->got += p.in.size();
			auto it = lib_tx.find(o->id);
			EXPECT(it != lib_tx.end() && st->got <= it->second.first, "peer-excess", st->got << " bytes received, " << (it == lib_tx.end() ? 0 : it->second.first) << " written");
			progress = sim::now(); count("peer_bytes", p.in.size());
			p.in.clear();
		}
		if (p.eof && st->wrote != u64(-1) && !p.closed && sim::rng().chance(70)) { st->wrote = u64(-1); std::weak_ptr<sim::Peer> w = st->p; sim::at(sim::rng().below(2 * SEC), [w] { if (auto p = w.lock()) p->close(); }); }
		if (st->slow && p.read_quota == 0 && !settling && !st->went) {
			st->went = true;
			sim::at(sim::rng().below(30 * MS), [this, st] { if (!stop) { st->went = false; st->p->read_quota = settling ? size_t(-1) : 1 + sim::rng().below(6000); st->p->poll(); } });
		}
	}
	void peer_act(PeerSt &st) {
		Rng &g = sim::rng();
		sim::Peer &p = *st.p;
		if (p.closed || p.shut_after_flush || p.close_after_flush || st.wrote == u64(-1)) return;
		size_t n = std::min<u64>(st.budget, 1 + g.len(vol(6000)));
		if (n) { st.budget -= n; p.write(pats(p.ep->id, st.wrote, n)); st.wrote += n; }
		u64 k = g.below(20);
		if (k == 0) { st.wrote = u64(-1); p.shutdown(); } else if (k == 1) { st.wrote = u64(-1); p.close(); } else if (k == 2) { st.wrote = u64(-1); p.abort(); }
	}
	S *make() {
		std::unique_ptr<S> x(new S);
		x->id = ++next_id;
		x->s.reset(new crab::BufferedTCPSocket([this, id = x->id] { auto s = this; u64 i = id; s->callback(i); }));
		S *p = x.get();
		socks[x->id] = std::move(x);
		return p;
	}
	void fresh(S &x) {
		x.open = true;
		x.closing = x.shut = x.injected = x.called = x.lazy = false;
		x.wrote = x.rx = x.drained_at = x.shut_at = 0;
		x.ep = newest_ep();
		x.other.reset();
		if (x.ep) { x.other = x.ep->peer.lock(); lib_tx[x.ep->id]; }
	}
	EP newest_ep() {  // the library endpoint no other socket owns
		EP res;
		sim::for_each_library_endpoint([&](const EP &e) {
			bool taken = false;
			for (auto &kv : socks) taken = taken || (kv.second->ep == e);
			if (!taken) res = e;
		});
		return res;
	}
	void gone(S &x) { x.open = x.closing = x.shut = false; x.drained_at = 0; }
	void after(S &x, bool user_call) {
		if (!x.open) { EXPECT(x.s->get_total_buffer_size() == 0, "closed-buffer", "closed socket reports " << x.s->get_total_buffer_size() << " bytes pending"); return; }
		if (!x.closing && x.ep && x.ep->app_closed && user_call) x.closing = true;
		if (x.closing || !x.ep || x.ep->app_closed) return;
		u64 pending = x.wrote - x.ep->sent;
		if (x.ep->wr_shut) EXPECT(x.shut && pending == 0, "shutdown-early", "stream of socket " << x.id << " ended with " << pending << " bytes pending, shutdown asked " << x.shut);
		EXPECT(x.s->get_total_buffer_size() == pending, "pending-count", "socket " << x.id << " reports " << x.s->get_total_buffer_size() << " bytes pending, " << x.wrote << " written minus " << x.ep->sent << " sent is " << pending);
		if (x.shut && pending == 0 && x.ep->st == sim::Endpoint::EST && !x.drained_at) {
			x.drained_at = sim::now();
		}
	}
	bool accepts(S &x) { return x.open && !x.closing && !x.shut; }
	void write(S &x) {
		size_t n = r.chance(8) ? 0 : 1 + r.len(r.coin() ? vol(1500) : vol(60000));
		u64 sid = x.ep ? x.ep->id : 0;
		std::string d = pats(sid, x.wrote, n);
		bool acc = accepts(x);
		crab::BufferOptions bo = r.chance(30) ? crab::BUFFER_ONLY : crab::WRITE;
		u64 sent0 = x.ep ? x.ep->sent : 0;
		bool direct = false;
		size_t got = n;
		if (acc) { x.wrote += n; lib_tx[sid].first += n; }
		u64 kind = r.below(6);
		switch (kind) {
		case 0: x.s->write(std::move(d), bo); break;
		case 1: { std::unique_ptr<uint8_t[]> h(new uint8_t[n]); std::copy(d.begin(), d.end(), h.get()); x.s->write(h.get(), n, bo); break; }
		case 2: x.s->write(d.data(), d.size(), bo); break;
		case 3: x.s->buffer(std::move(d)); break;
		case 4: x.s->buffer(d.data(), d.size()); break;
		default:
			if (n == 0) break;
			direct = true;
			got = x.s->write_some(d.data(), n);
			EXPECT(got <= n, "write_some-count", "");
			EXPECT(acc || got == 0, "write_some-closed", got << " bytes written to a closed or shut socket");
			if (acc) { x.wrote -= n - got; lib_tx[sid].first -= n - got; }
		}
		NOTE("write " << x.id << " n=" << n << " accepted " << acc);
		if (direct && x.ep) EXPECT(x.ep->sent - sent0 == got || x.ep->app_closed, "write_some-order", "");
		ev(n * 8 + 1);
		count("writes");
		if (kind < 3 && bo == crab::WRITE) x.lazy = false;
		else if (kind < 5 && n) x.lazy = true;
		after(x, true);
	}
	void read(S &x) {
		bool live = x.open && !x.closing;
		size_t n = 1 + r.len(3000);
		std::unique_ptr<uint8_t[]> h(new uint8_t[n]);
		size_t got = x.s->read_some(h.get(), n);
		EXPECT(got <= n, "read-count", "");
		EXPECT((live && !x.shut) || got == 0, "read-closed", "read from closed or shut socket");
		if (live && got && x.other) {
			auto e = diff(x.other->id, x.rx, h.get(), got);
			EXPECT(e.empty(), "read-bytes", e);
			x.rx += got;
		}
		after(x, true);
		if (got && x.open && !x.closing && !x.shut) read(x);
	}
	void op() {
		if (socks.empty() || (socks.size() < 8 && r.chance(12))) {
			if (r.coin()) { connect(*make()); return; }
			add_peer(sim::peer_connect(sim::ip4("127.0.0.1", 9000), sim::ip4("10.7.7.7", uint16_t(1 + r.below(60000)))));
			return;
		}
		auto it = socks.begin();
		std::advance(it, r.below(socks.size()));
		S &x = *it->second;
		switch (r.below(22)) {
		case 0: NOTE("close " << x.id); if (x.ep) cut.insert(x.ep->id); x.s->close(); gone(x); EXPECT(!x.s->is_open(), "close-open", ""); after(x, true); break;
		case 1: {
			bool was = x.s->is_open();
			NOTE("close(true) " << x.id);
			if (x.ep) cut.insert(x.ep->id);
			x.s->close(true);
			if (was) { x.closing = true; x.injected = true; x.shut = false; }
			break;
		}
		case 2: {
			if (x.ep) cut.insert(x.ep->id);
			auto o = std::move(it->second);
			socks.erase(it);
			o.reset();
			count("destroyed");
			break;
		}
		case 3: if (!x.open || r.chance(10)) connect(x); break;
		case 4:
		case 5:
			if (x.ep && x.ep->st == sim::Endpoint::CONNECTING) break;
			NOTE("write_shutdown " << x.id);
			x.s->write_shutdown();
			x.lazy = false;
			if (accepts(x)) { x.shut = true; x.shut_at = sim::now(); if (x.ep) lib_tx[x.ep->id].second = true; count("write_shutdowns"); }
			after(x, true);
			break;
		case 6: case 7: read(x); break;
		default: write(x);
		}
	}
	void connect(S &x) {
		if (x.ep) cut.insert(x.ep->id);
		bool ok = x.s->connect(crab::Address("10.0.0.1", 80));
		NOTE("connect " << x.id << " -> " << ok);
		gone(x);
		x.ep.reset();
		if (ok) fresh(x);
		else EXPECT(!x.s->is_open(), "connect-failed-open", "");
		after(x, true);
	}
	void ops(unsigned max) {
		if (settling) return;
		for (u64 n = r.below(max + 1); n && ops_left > 0; --n, --ops_left) op();
	}
	void callback(u64 id) {
		auto it = socks.find(id);
		if (it == socks.end()) { VIOL("callback-destroyed", "socket " << id); return; }
		S &x = *it->second;
		x.called = true;
		progress = sim::now(); count("callbacks");
		ev(id * 8 + 2);
		if (!x.s->is_open()) {
			NOTE("closed " << id);
			EXPECT(x.open, "closed-twice", "socket " << id);
			if (x.shut && x.drained_at && x.ep && !x.ep->fin && x.ep->st != sim::Endpoint::DEAD && !x.injected) {
				EXPECT(sim::now() >= x.drained_at + 14 * SEC, "shutdown-early", "socket closed " << (sim::now() - x.drained_at) / MS << " ms after shutdown, the peer did not finish");
				count("shutdown_timeouts");
			} else if (x.open && x.ep) {
				bool reason = x.closing || x.injected || x.ep->fin || x.ep->rst || x.ep->st == sim::Endpoint::DEAD;
				EXPECT(reason, "closed-alive", "socket " << id << " closed for no reason, shut " << x.shut);
			}
			if (x.ep && x.ep->fin && !x.ep->rst && !x.injected && !x.shut && !x.closing)
				EXPECT(x.rx == x.ep->arrived, "eof-before-data", "");
			count("closes_reported");
			gone(x);
			after(x, false);
			EXPECT(x.s->read_some(reinterpret_cast<uint8_t *>(&id), 1) == 0, "read-closed", "");
		} else {
			EXPECT(x.open && !x.closing, "callback-after-close", "socket " << id);
			x.lazy = false;
			after(x, false);
			if (!x.shut) read(x);
			after(x, false);
		}
		ops(3);
	}
	void block() {
		count("sleeps_checked");
		for (auto &kv : socks) {
			S &x = *kv.second;
			if (x.closing) VIOL("close-late", "the loop sleeps while closing of socket " << x.id << " is not reported");
			if (!x.open || x.closing || !x.ep || x.ep->app_closed || x.ep->st != sim::Endpoint::EST) continue;
			if (x.wrote != x.ep->sent && !x.lazy) EXPECT(x.ep->nospace, "write-stalled", "the loop sleeps, socket " << x.id << " can write " << x.wrote - x.ep->sent << " pending bytes");
			if (x.shut && x.wrote == x.ep->sent) EXPECT(x.ep->wr_shut, "shutdown-stalled", "the loop sleeps, stream of socket " << x.id << " was not ended");
			if (x.called) EXPECT(x.ep->unread() == 0 && !x.ep->fin || x.shut, "read-stalled", "the loop sleeps, socket " << x.id << " was not told about data or end");
		}
	}
	void tick() {
		for (auto &kv : socks) {
			S &x = *kv.second;
			EXPECT(x.s->is_open() == x.open, "is_open", "socket " << x.id << " is_open " << x.s->is_open() << ", model " << x.open);
			after(x, false);
			if (x.open && !x.closing && x.shut && x.drained_at) EXPECT(sim::now() <= x.drained_at + 16 * SEC, "shutdown-timeout", "socket still open " << (sim::now() - x.drained_at) / MS << " ms after its stream ended");
		}
	}
	void settle() {
		settling  = true;
		faults.on = false;
		for (auto &p : peers) { p->p->read_quota = size_t(-1); p->p->set_reading(true); }
		std::vector<S *> v;
		for (auto &kv : socks) v.push_back(kv.second.get());
		for (S *x : v) if (accepts(*x)) { x->s->write("", 0); x->s->write(std::string()); after(*x, true); }  // flushes what was only buffered
	}
	void run() {
		next();
		ops(5);
		Settling<BufCase>::run(*this, loop, 40 * SEC);
		for (auto &kv : socks) {
			S &x = *kv.second;
			EXPECT(!x.closing, "close-lost", "closing of " << x.id << " never reported");
			if (!x.open || x.closing || !x.ep) continue;
			EXPECT(!x.shut, "shutdown-hangs", "socket " << x.id << " was shut down, it is still open");
			EXPECT(x.s->get_total_buffer_size() == 0, "not-drained", x.s->get_total_buffer_size() << " bytes never sent to a reading peer");
			EXPECT(x.ep->unread() == 0 && !x.ep->fin && x.ep->st != sim::Endpoint::DEAD, "event-lost", "socket was not told about data or end of stream");
		}
		for (auto &p : peers) {
			sim::Peer &q = *p->p;
			EP o = q.ep->peer.lock();
			if (!o || !lib_tx.count(o->id) || q.ep->flight || q.ep->unread()) continue;  // still on the way
			auto &t = lib_tx[o->id];
			if (!q.closed && !q.reset) {
				EXPECT(p->got == o->sent, "peer-missing", "peer received " << p->got << " of " << o->sent << " bytes sent");
				if (t.second && !o->app_closed) VIOL("shutdown-open", "");
			}
			if (t.second && q.eof && !q.closed && !q.reset && !cut.count(o->id)) { EXPECT(p->got == t.first, "shutdown-truncated", "stream ended after " << p->got << " of " << t.first << " bytes written before shutdown"); count("orderly_shutdowns"); }
		}
		ctx().nontrivial = true;
		std::ostringstream os;
		os << next_id << " sockets, " << peers.size() << " peers, faults " << faulty << ", " << ctx().events << " events";
		ctx().desc = os.str();
		std::vector<u64> ids;
		for (auto &kv : socks) ids.push_back(kv.first);
		r.shuffle(ids);
		for (u64 i : ids) { auto o = std::move(socks[i]); socks.erase(i); o.reset(); }
	}
};
}  // namespace
static void buf_body(bool faulty) {
	sim::Config c;
	random_net(c, ctx().rng);
	if (c.cap_max > 3000 && ctx().rng.coin()) c.cap_max = 3000;
	sim::begin(c, ctx().rng.next());
	{
		BufCase t(faulty);
		t.run();
	}
	EXPECT(sim::open_fds() == 0, "fd-leak", sim::open_fd_list());
	sim::end();
}

// ================================================================= M03
// Everything may fail, including construction; afterwards nothing may remain.
namespace {
void wreck_body() {
	sim::Config c;
	Rng &r = ctx().rng;
	random_net(c, r);
	c.udp_queue = 1000;
	sim::begin(c, r.next());
	Faults faults;
	faults.arm(r, true);
	sim::fault = [&](sim::Sys s, int) { return faults(s); };
	size_t created = 0, echoes = 300;
	try {
		crab::RunLoop loop;
		std::list<std::unique_ptr<crab::TCPSocket>> tcp;
		std::list<std::unique_ptr<crab::BufferedTCPSocket>> buf;
		std::list<std::unique_ptr<crab::TCPAcceptor>> acc;
		std::list<std::unique_ptr<crab::UDPReceiver>> ur;
		std::list<std::unique_ptr<crab::UDPTransmitter>> ut;
		std::vector<sim::PeerP> peers;
		auto lst = sim::peer_listen(sim::ip4("10.0.0.1", 80), [&](sim::PeerP p) { peers.push_back(p); p->write(sim::rng().bstr(sim::rng().below(3000))); if (sim::rng().chance(30)) p->close(); });
		int steps = int(20 + r.below(60));
		crab::Timer stopper([&] { loop.cancel(); });
		crab::Timer t([&] {});
		std::function<void()> step = [&] {
			size_t fds = sim::open_fds();
			try {
				switch (r.below(12)) {
				case 0: {
					auto *raw = new std::unique_ptr<crab::TCPAcceptor>;
					std::unique_ptr<std::unique_ptr<crab::TCPAcceptor>> hold(raw);
					acc.emplace_back(new crab::TCPAcceptor(crab::Address("127.0.0.1", uint16_t(100 + r.below(5))), [] {}));
					auto *a = acc.back().get();
					a->set_handler([&, a] {
						while (a->can_accept()) {
							if (r.coin()) { tcp.emplace_back(new crab::TCPSocket([] {})); tcp.back()->accept(*a); }
							else { buf.emplace_back(new crab::BufferedTCPSocket([] {})); buf.back()->accept(*a); }
						}
					});
					created++;
					break;
				}
				case 1: ur.emplace_back(new crab::UDPReceiver(crab::Address(r.chance(20) ? "224.0.0.1" : "127.0.0.1", uint16_t(200 + r.below(5))), [] {})); created++; break;
				case 2: ut.emplace_back(new crab::UDPTransmitter(crab::Address(r.chance(20) ? "224.0.0.1" : "127.0.0.1", uint16_t(200 + r.below(5))), [] {})); created++; break;
				case 3:
				case 4: {
					tcp.emplace_back(new crab::TCPSocket([] {}));
					auto *s = tcp.back().get();
					s->set_handler([s, &echoes] { uint8_t b[100]; while (s->read_some(b, sizeof b)) {} if (s->is_open() && echoes && echoes--) s->write_some(b, sizeof b); });
					s->connect(crab::Address(r.coin() ? "10.0.0.1" : "127.0.0.1", r.coin() ? 80 : 100));
					created++;
					break;
				}
				case 5: {
					buf.emplace_back(new crab::BufferedTCPSocket([] {}));
					auto *s = buf.back().get();
					s->set_handler([s, &echoes] { uint8_t b[100]; while (s->read_some(b, sizeof b)) {} if (s->is_open() && echoes && echoes--) s->write(b, sizeof b); });
					s->connect(crab::Address(r.coin() ? "10.0.0.1" : "127.0.0.1", r.coin() ? 80 : 100));
					s->write(r.bstr(r.below(5000)));
					created++;
					break;
				}
				case 6: if (!tcp.empty()) tcp.pop_front(); break;
				case 7: if (!buf.empty()) { if (r.coin()) buf.front()->write_shutdown(); else buf.pop_front(); } break;
				case 8: if (!acc.empty() && r.chance(30)) acc.pop_front(); break;
				case 9: if (!ur.empty()) { uint8_t b[9] = {}; ur.front()->write_datagram(b, 9, crab::Address("127.0.0.1", 201)); if (r.coin()) ur.pop_front(); } break;
				case 10: if (!ut.empty()) { uint8_t b[9] = {}; ut.front()->write_datagram(b, 9); if (r.coin()) ut.pop_front(); } break;
				default: peers.push_back(sim::peer_connect(sim::ip4("127.0.0.1", uint16_t(100 + r.below(5))), sim::ip4("10.3.3.3", uint16_t(1 + r.below(60000))))); break;
				}
			} catch (const std::exception &ex) {
				NOTE("failed: " << ex.what());
				count("constructions_failed");
				EXPECT(sim::open_fds() <= fds, "throw-leak", "failed operation left a descriptor: " << ex.what());
			}
			if (--steps > 0) t.once(0.001 * double(r.below(40)));
			else stopper.once(0.5);
		};
		t.set_handler([&] { auto *s = &step; (*s)(); });
		t.once(0);
		loop.run();
	} catch (const std::exception &ex) {
		NOTE("loop failed: " << ex.what());
		count("loops_failed");
	}
	sim::fault = nullptr;
	std::ostringstream os;
	os << created << " objects created under faults, " << ctx().events << " events";
	ctx().desc = os.str();
	ctx().nontrivial = true;
	EXPECT(sim::open_fds() == 0, "fd-leak", sim::open_fd_list());
	sim::end();
}
void case_release() {
	Rng start = ctx().rng;
	u64 kind  = start.below(6);
	repeat_release("kind " + std::to_string(kind), [kind] {
		switch (kind) {
		case 0: tcp_body(true); break;
		case 1: acc_body(true); break;
		case 2: udp_body(true); break;
		case 3: buf_body(true); break;
		default: wreck_body();
		}
	});
}
// ------------------------------------------------------------------ statistics
struct StatsMonitor {
	size_t seen = 0;  // records looked at
	crab::steady_clock::time_point last{};
	const crab::PerformanceRecord *first = nullptr;
	void check() {
		using sim::calls;
		crab::RunLoop *loop = crab::RunLoop::current();
		if (!loop) return;
		auto &s = loop->stats;
		EXPECT(s.RECV_count <= calls.recv && s.RECV_count + calls.recv_failed >= calls.recv && s.RECV_size == calls.recv_bytes, "stats-recv",
		    "receives counted " << s.RECV_count << " of " << s.RECV_size << " bytes, done " << calls.recv << " (failed " << calls.recv_failed << ") of " << calls.recv_bytes << " bytes");
		EXPECT(s.SEND_count <= calls.send && s.SEND_count + calls.send_failed >= calls.send && s.SEND_size == calls.send_bytes, "stats-send",
		    "sends counted " << s.SEND_count << " of " << s.SEND_size << " bytes, done " << calls.send << " (failed " << calls.send_failed << ") of " << calls.send_bytes << " bytes");
		EXPECT(s.UDP_RECV_count <= calls.get && s.UDP_RECV_count + calls.get_failed >= calls.get && s.UDP_RECV_size <= calls.get_bytes && s.UDP_RECV_size + calls.get_ones >= calls.get_bytes,
		    "stats-udp-recv", "datagrams read counted " << s.UDP_RECV_count << " of " << s.UDP_RECV_size << " bytes, done " << calls.get << " (failed " << calls.get_failed << ") of " << calls.get_bytes << " bytes");
		EXPECT(s.UDP_SEND_count <= calls.put && s.UDP_SEND_count + calls.put_failed >= calls.put && s.UDP_SEND_size == calls.put_bytes, "stats-udp-send",
		    "datagrams sent counted " << s.UDP_SEND_count << " of " << s.UDP_SEND_size << " bytes, done " << calls.put << " (failed " << calls.put_failed << ") of " << calls.put_bytes << " bytes");
		EXPECT(s.EPOLL_count == calls.polls && s.EPOLL_size == calls.events, "stats-polls", "polls counted " << s.EPOLL_count << " with " << s.EPOLL_size << " events, done " << calls.polls << " with " << calls.events);
		auto &rec = s.get_records();
		EXPECT(rec.size() >= seen && rec.size() <= crab::PerformanceStats::MAX_PERFORMANCE_RECORDS, "stats-records", rec.size() << " records after " << seen);
		for (; seen < rec.size(); ++seen) {
			EXPECT(rec[seen].tm >= last && rec[seen].event_type, "stats-records", "record " << seen << " is older than the one before");
			last = rec[seen].tm;
			count("stats_records");
		}
		Rng &r = sim::rng();
		if (r.chance(2)) {
			s.clear_records();
			EXPECT(rec.empty(), "stats-records", rec.size() << " records left after clear_records()");
			seen = 0;
			count("stats_cleared");
		}
		count("stats_compared");
	}
};
void case_stats() {
	ctx().only = "stats-";
	Rng &r     = ctx().rng;
	// The record list on its own, against a list of what was pushed
	{
		static const char *names[] = {"recv", "R(recv)", "user event", "x"};
		crab::PerformanceStats s;
		struct Want { const char *name; int fd, n; };
		std::vector<Want> want;
		size_t total = r.chance(4) ? crab::PerformanceStats::MAX_PERFORMANCE_RECORDS - 5 + r.below(12) : r.below(40);
		auto compare = [&] {
			auto &rec = s.get_records();
			EXPECT(rec.size() == want.size(), "stats-records", rec.size() << " records of " << want.size() << " pushed");
			for (size_t i = 0; i < rec.size() && i < want.size(); ++i)
				if (rec[i].event_type != want[i].name || rec[i].fd != want[i].fd || rec[i].count != want[i].n || (i && rec[i].tm < rec[i - 1].tm)) { VIOL("stats-records", "record " << i << " of " << rec.size() << " differs"); break; }
		};
		for (size_t i = 0; i != total; ++i) {
			Want w{names[r.below(4)], int(r.below(100)), int(r.next())};
			s.push_record(w.name, w.fd, w.n);
			if (want.size() < crab::PerformanceStats::MAX_PERFORMANCE_RECORDS) want.push_back(w); else count("stats_dropped");
			if (r.chance(2) && want.size() < 100) { s.clear_records(); want.clear(); }
		}
		compare();
		if (r.chance(60)) {
			std::vector<crab::PerformanceRecord> rec = s.get_records();
			std::ostringstream os;
			s.print_records(os);
			std::istringstream is(os.str());
			std::string line;
			size_t i = 0;
			while (std::getline(is, line) && line.compare(0, 2, "* ") == 0 && i < rec.size()) {
				auto us = std::chrono::duration_cast<std::chrono::microseconds>(rec[i].tm.time_since_epoch()).count();
				char w[100];
				std::snprintf(w, sizeof w, "* %lld.%06lld %s %d", (long long)us / 1000000, (long long)us % 1000000, rec[i].event_type, rec[i].count);
				EXPECT(line == w, "stats-print", "record printed as '" << line << "', expected '" << w << "'");
				++i;
			}
			EXPECT(i == rec.size() && line.find(std::to_string(rec.size())) != std::string::npos, "stats-print", i << " of " << rec.size() << " records printed, last line '" << line << "'");
			EXPECT(s.get_records().empty(), "stats-print", "records left after print_records()");
			count("stats_printed");
			want.clear();
			s.push_record("x", 1, 2);
			want.push_back({s.get_records().empty() ? nullptr : s.get_records()[0].event_type, 1, 2});
			compare();
		}
	}
	StatsMonitor m;
	sim::on_poll = [&m] { m.check(); };
	switch (r.below(4)) {
	case 0: tcp_body(r.chance(40)); break;
	case 1: acc_body(r.chance(40)); break;
	case 2: udp_body(r.chance(50)); break;
	default: buf_body(r.chance(30));
	}
	sim::on_poll  = nullptr;
}
}  // namespace

int main(int argc, char **argv) {
	return harness_main(argc, argv, {{"tcp", [] { tcp_body(ctx().rng.chance(40)); }}, {"acceptor", [] { acc_body(ctx().rng.chance(40)); }},
	    {"udp", [] { udp_body(ctx().rng.chance(50)); }}, {"buffered", [] { buf_body(ctx().rng.chance(30)); }}, {"release", case_release}, {"stats", case_stats}});
}
