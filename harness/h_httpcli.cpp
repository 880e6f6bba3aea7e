// H14 simple client requests, H09 WebSocket clients: real clients on the simulated kernel against raw peers.
#include <crab/crab.hpp>
#include "netcase.hpp"
#include "ref.hpp"

namespace http = crab::http;
namespace {

std::string utf8_text(Rng &r, size_t n) {
	static const std::vector<std::string> u = {"a", "Z", "0", " ", "\n", "\x7f", "\xc2\x80", "\xdf\xbf", "\xe0\xa0\x80", "\xed\x9f\xbf", "\xee\x80\x80", "\xef\xbf\xbf", "\xf0\x90\x80\x80", "\xf4\x8f\xbf\xbf"};
	std::string s;
	while (s.size() < n) s += r.pick(u);
	return s;
}
// A destination: one name and port, what happens to connects there.
struct Target {
	u64 n = 0;
	std::string host;
	uint16_t port = 0;
	bool by_addr = false, dns_fail = false, resolved = false, tried = false;
	sim::ConnectFate fate = sim::ACCEPTED;
	std::vector<sim::Addr> addrs;
	std::vector<sim::ListenerP> ls;
	std::string key() const { return host + ":" + std::to_string(port); }
	bool at(const sim::Addr &a) const { return std::find(addrs.begin(), addrs.end(), a) != addrs.end(); }
};
struct Sender {  // paced writing of a raw peer
	sim::PeerP p;
	std::string q;
	u64 appended = 0;
	int mode = 0;
	bool busy = false;
	std::shared_ptr<bool> stop;
	std::function<void()> then;
	void put(const std::string &s) { q += s; appended += s.size(); }
	void go(bool all = false) {
		if (q.empty()) { if (then) { auto f = std::move(then); then = nullptr; f(); } return; }
		if (busy && !all) return;
		if (p->closed) { q.clear(); return; }
		size_t n = mode == 0 || all ? q.size() : std::min<size_t>(q.size(), 1 + sim::rng().len(vol(mode == 1 ? 3000 : 40)));
		std::string part = q.substr(0, n);
		q.erase(0, n);
		if (!q.empty()) {
			busy = true;
			auto st = stop;
			sim::at(sim::rng().below(mode == 1 ? 20 * MS : 2 * MS), [this, st] { if (*st) return; busy = false; go(); });
		}
		p->write(part);  // may come back here
		if (q.empty() && !busy) go();
	}
};
struct CliBase {
	Rng &r;
	crab::RunLoop loop;
	std::vector<std::unique_ptr<Target>> targets;
	std::map<sim::Addr, Target *> by_place;
	std::list<crab::Timer> timers;
	std::unique_ptr<crab::Watcher> ext;
	Faults faults;
	u64 progress = 0;
	int ops_left = 0;
	bool stop = false, settling = false;
	std::shared_ptr<bool> dead = std::make_shared<bool>(false);
	CliBase() : r(ctx().rng) {
		DnsGate::get().begin();
		sim::connect_fate = [this](const sim::Addr &a) {
			auto it = by_place.find(a);
			if (it == by_place.end()) { VIOL("connect-strange", "connect to " << a.str()); return sim::REFUSED_SYNC; }
			Target &t = *it->second;
			EXPECT(t.by_addr || t.resolved, "connect-unresolved", t.host);
			t.tried = true;
			return t.fate;
		};
		ext.reset(new crab::Watcher([this] { if (stop) return; own_op(); if (ops_left > 0) next_ext(); }));
	}
	virtual ~CliBase() {
		*dead = true;
		sim::fault = nullptr;
		DnsGate::get().end();
	}
	virtual void own_op() = 0;
	void next_ext() { sim::at(r.chance(4) ? r.below(12 * SEC) : r.below(20 * MS), [this] { if (!stop) ext->call(); }); }
	void after(u64 ns, std::function<void()> fn) {  // in a loop callback
		timers.emplace_back([this, fn] { if (!stop) fn(); });
		auto *t = &timers.back();
		t->once(std::chrono::duration_cast<std::chrono::steady_clock::duration>(std::chrono::nanoseconds(ns)));
	}
	u64 delay() { return r.coin() ? r.below(2 * MS) : r.below(60 * MS); }
	Target &new_target(bool may_fail, bool by_addr, std::function<void(Target &, sim::PeerP)> on_accept, Target *like = nullptr) {
		targets.emplace_back(new Target);
		Target &t = *targets.back();
		t.n       = targets.size();
		t.host    = "h" + std::to_string(t.n) + ".test";
		t.port    = uint16_t(2000 + t.n);
		t.by_addr = by_addr;
		std::string net = "10." + std::to_string(t.n / 256) + "." + std::to_string(t.n % 256) + ".";
		if (r.chance(15)) t.port = 80;
		if (by_addr) t.host = net + "1";
		else if (t.n > 1 && r.chance(40)) {  // differs from an earlier one by name or port only
			Target &o = like && r.chance(70) ? *like : *targets[r.below(t.n - 1)];
			if (!o.by_addr) { if (r.coin()) t.host = o.host; else t.port = o.port; count("twin_targets"); }
			for (auto &x : targets) if (x.get() != &t && x->key() == t.key()) t.port = uint16_t(2000 + t.n);  // a name and port lead to one place
		}
		size_t k = by_addr ? 1 : 1 + r.below(3);
		for (size_t i = 0; i != k; ++i) {
			t.addrs.push_back(sim::ip4((net + std::to_string(1 + i)).c_str(), t.port));
			by_place[t.addrs.back()] = &t;
		}
		if (may_fail && r.chance(15)) {
			static const std::vector<sim::ConnectFate> f = {sim::REFUSED_SYNC, sim::REFUSED_ASYNC, sim::REFUSED_ASYNC, sim::TIMEOUT_ASYNC, sim::UNREACH_SYNC};
			t.fate = r.pick(f);
			count("connects_refused");
		} else if (may_fail && !by_addr && r.chance(8)) {
			t.dns_fail = true;
			count("dns_failures");
		}
		if (t.fate == sim::ACCEPTED) for (auto &a : t.addrs) t.ls.push_back(sim::peer_listen(a, [&t, on_accept](sim::PeerP p) { on_accept(t, p); }));
		return t;
	}
	void before_resolve(Target &t) {
		sim::Gai g;
		if (t.dns_fail) { if (r.coin()) g.rc = EAI_NONAME; } else g.addrs = t.addrs;
		DnsGate::get().ask(t.key(), g);
		t.resolved = false;
		release_later(t, r.coin() ? r.below(MS) : r.below(30 * MS));
	}
	void release_later(Target &t, u64 d) {
		auto st = dead;
		sim::at(d, [this, st, &t] {
			if (*st) return;
			auto &g = DnsGate::get();
			if (!g.pending(t.key())) return;
			t.resolved = true;
			if (!g.try_release(t.key())) { t.resolved = false; release_later(t, MS); }
		});
	}
	void dns_cancelled(Target &t) {
		if (!DnsGate::get().pending(t.key())) return;
		DnsGate::get().cancelled(t.key());
		t.host = "h" + std::to_string(t.n) + "x" + std::to_string(++alias) + ".test";  // the worker could still be busy with the old name
		count("dns_cancels");
	}
	u64 alias = 0;
	static EP lib_ep(const sim::PeerP &p) { return p && p->ep ? p->ep->peer.lock() : EP(); }
};

// ================================================================ simple requests (H14)
enum Fate { OK_LEN, OK_CHUNKED, OK_CLOSE, EARLY, PARTIAL, MALFORMED, JUST_CLOSE, JUST_RESET, NEVER, F_COUNT };
const char *fname[] = {"ok-length", "ok-chunked", "ok-close", "early", "partial", "malformed", "close", "reset", "never"};
struct PConn;
struct Ex {
	u64 id = 0;
	size_t slot = 0;
	Target *t = nullptr;
	int fate = 0, status = 200;
	std::string host, method, path, query, body, auth, resp, want, reason;
	bool chunked_resp = false, resp_keep = true, http10 = false;
	bool seen = false, answering = false, failed = false, excused = false, cancelled = false, responded = false, errored = false;
	PConn *conn = nullptr, *reuse = nullptr;
	u64 resp_end = 0, bad_end = 0, bad_at = 0;
};
struct PConn {
	u64 id = 0;
	Target *t = nullptr;
	sim::PeerP p;
	Sender s;
	ref::MsgReader rd{false};
	std::vector<Ex *> ex;
	Ex *owner = nullptr;
	bool leaving = false, linger = false, eof_seen = false, slow = false, went = false, excused = false;
};
struct ClientCase : CliBase {
	struct Slot {
		std::unique_ptr<http::ClientRequestSimple> c;
		Ex *cur = nullptr;
		PConn *conn = nullptr;  // kept alive after the last response
		u64 idle_since = 0;
		u64 gen = 0;
		std::vector<Target *> good;  // targets that were used before
	};
	std::vector<Slot> slots;
	std::vector<std::unique_ptr<Ex>> exs;
	std::vector<std::unique_ptr<PConn>> conns;
	explicit ClientCase() {
		ops_left = int(10 + r.below(60));
		slots.resize(1 + r.below(5));
		for (size_t i = 0; i != slots.size(); ++i) make(i);
		if (r.chance(25)) {
			faults.arm(r, false);
			for (int s = 0; s != sim::S_COUNT; ++s)
				if (s != sim::S_RECV && s != sim::S_SEND && s != sim::S_CONNECT && s != sim::S_SOCKET && s != sim::S_EPOLL_CTL) faults.rate[s] = 0;
		}
		sim::fault = [this](sim::Sys s, int fd) {
			int e = faults(s);
			if (!e) return 0;
			EP ep = (s == sim::S_RECV || s == sim::S_SEND) ? sim::endpoint_of(fd) : EP();
			for (auto &sl : slots) if (sl.cur && (!ep || sl.cur->t->at(ep->remote))) sl.cur->excused = true;
			if (ep) for (auto &c : conns) if (lib_ep(c->p) == ep) c->excused = true;
			return e;
		};
		sim::on_block = [this] { block(); };
	}
	~ClientCase() {
		for (auto &c : conns) if (c->p) c->p->on_event = nullptr;
		slots.clear();
	}
	void make(size_t i) {
		Slot &s = slots[i];
		s.gen++;
		s.cur  = nullptr;
		s.conn = nullptr;
		u64 gen = s.gen;
		std::string canary(40, 'c');
		http::ClientRequestSimple::R_handler rh = [this, i, gen, canary](http::Response &&rs) { auto *self = this; std::string c = canary; self->on_response(i, gen, std::move(rs)); };
		http::ClientRequestSimple::E_handler eh = [this, i, gen, canary](std::string &&e) { auto *self = this; std::string c = canary; self->on_error(i, gen, std::move(e)); };
		if (r.chance(70)) s.c.reset(new http::ClientRequestSimple(std::move(rh), std::move(eh)));
		else {
			if (r.coin()) s.c.reset(new http::ClientRequestSimple);
			else s.c.reset(new http::ClientRequestSimple([](http::Response &&) { VIOL("replaced-handler", "response"); }, [](std::string &&) { VIOL("replaced-handler", "error"); }));
			s.c->set_handlers(std::move(rh), std::move(eh));
			count("set_handlers");
		}
	}
	// ------------------------------------------------------------ user
	void send(size_t i) {
		Slot &s = slots[i];
		EP last = s.conn ? lib_ep(s.conn->p) : EP();
		if (s.conn && s.conn->ex.back()->resp_keep && (!last || last->app_closed)) {  // the client may or may not have been told yet that its idle connection ended
			s.conn = nullptr;
			u64 gen = s.gen;
			count("sends_deferred");
			after(MS, [this, i, gen] { if (ops_left > 0 && !settling && !slots[i].cur && gen == slots[i].gen) send(i); });
			return;
		}
		exs.emplace_back(new Ex);
		Ex &e  = *exs.back();
		e.id   = exs.size();
		e.slot = i;
		if (!s.good.empty() && r.chance(60)) e.t = (s.conn && r.chance(70)) ? s.conn->t : r.pick(s.good);
		else {
			e.t = &new_target(true, false, [this](Target &t, sim::PeerP p) { accepted(t, p); }, s.conn ? s.conn->t : nullptr);
			if (s.conn && !e.t->by_addr && (e.t->host == s.conn->t->host || e.t->port == s.conn->t->port)) count("twins_of_kept");
			if (e.t->fate == sim::ACCEPTED && !e.t->dns_fail) s.good.push_back(e.t);
		}
		static const std::vector<int> plan = {OK_LEN, OK_LEN, OK_LEN, OK_LEN, OK_LEN, OK_LEN, OK_CHUNKED, OK_CHUNKED, OK_CHUNKED, OK_CHUNKED, OK_CLOSE, EARLY, EARLY, PARTIAL, MALFORMED, JUST_CLOSE, JUST_RESET, NEVER};
		e.fate = r.pick(plan);
		static const std::vector<std::string> methods = {"GET", "POST", "PUT", "DELETE", "PATCH", "OPTIONS"};
		e.method = r.pick(methods);
		e.path   = "/e" + std::to_string(e.id);
		if (r.chance(40)) e.query = "k=" + std::to_string(r.below(1000)) + "&z";
		if (r.coin()) e.body = pats(e.id * 2 + 1, 0, r.len(vol(r.coin() ? 300 : 20000)));
		make_response(e);
		EP ep = s.conn ? lib_ep(s.conn->p) : EP();
		if (s.conn && ep && !ep->app_closed && ep->fd >= 0 && s.conn->t == e.t && s.conn->ex.back()->resp_keep) e.reuse = s.conn;
		http::Request rq;
		rq.header.path = e.path;
		rq.header.query_string = e.query;
		rq.header.headers.push_back({"X-Id", std::to_string(e.id)});
		if (!e.body.empty() && r.chance(40)) { rq.body = e.body; count("unannounced_bodies"); }
		else if (!e.body.empty() || r.coin()) rq.set_body(std::string(e.body));
		bool dns = !e.reuse;
		e.host = e.t->host;
		if (dns) before_resolve(*e.t);
		NOTE("slot " << i << " sends exchange " << e.id << " (" << fname[e.fate] << ") to " << e.t->host << (e.reuse ? " again" : "") << (e.t->dns_fail ? " unresolvable" : "") << " fate " << e.t->fate);
		s.cur  = &e;
		s.conn = nullptr;
		std::string uri = "http://" + std::string(r.chance(10) ? (e.auth = "u:p", "u:p@") : "") + e.t->host + (e.t->port == 80 && r.coin() ? "" : ":" + std::to_string(e.t->port)) + e.path + (e.query.empty() ? "" : "?" + e.query);
		count("sends");
		if (e.reuse) count("reuses");
		ev(u64(e.fate) * 16 + 1 + (e.reuse ? 8 : 0));
		unsigned form = unsigned(e.auth.empty() ? r.below(3) : 1 + r.below(2));
		if (form && r.coin()) { rq.header.host = "wrong.test"; rq.header.path = "/wrong"; rq.header.query_string = "wrong"; rq.header.method = "WRONG"; }  // all taken from the arguments
		switch (form) {
		case 0:
			rq.header.method = e.method;
			rq.header.host   = e.t->host;
			rq.header.path   = e.path;
			s.c->send(std::move(rq), e.t->port, "http");
			break;
		case 1:
			rq.header.method = e.method;
			s.c->send(uri, std::move(rq));
			break;
		default:
			e.method = "GET";
			s.c->get(uri, std::move(rq));
		}
		EXPECT(s.c->is_open(), "open-after-send", "");
	}
	void bad_send(size_t i) {  // refused at once: no handler is called, the object remains usable
		Slot &s = slots[i];
		static const std::vector<std::string> uris = {"https://h.test/", "ftp://h.test:21/", "ftp://h.test/", "http://h.test:99999/", "http://h.test:port/", "http://h.test:-1/", "nothing", "", "http//h.test/"};
		std::string uri = r.pick(uris);
		bool threw = false;
		try { if (r.coin()) s.c->get(uri); else { http::Request rq; rq.header.method = "POST"; s.c->send(uri, std::move(rq)); } } catch (const std::exception &) { threw = true; }
		count("refused_uris");
		NOTE("slot " << i << " is refused " << uri);
		EXPECT(threw, "bad-uri-accepted", quote(uri));
		EXPECT(!s.c->is_open(), "bad-uri-open", quote(uri));
		EP ep = s.conn ? lib_ep(s.conn->p) : EP();
		if (!ep || ep->app_closed) s.conn = nullptr;
	}
	void make_response(Ex &e) {
		static const std::vector<int> sts = {200, 200, 200, 201, 404, 500, 299, 403};
		e.status = r.pick(sts);
		e.reason = r.chance(20) ? "" : "Some text";
		e.http10 = r.chance(10) && e.fate != OK_CHUNKED;
		e.chunked_resp = e.fate == OK_CHUNKED || ((e.fate == EARLY || e.fate == PARTIAL || e.fate == OK_CLOSE) && !e.http10 && r.coin());
		e.resp_keep = e.fate != OK_CLOSE && !(r.chance(15));
		e.want = pats(e.id * 2, 0, r.len(vol(r.coin() ? 300 : 30000)));
		std::ostringstream os;
		std::string nl = "\r\n";
		os << "HTTP/1." << (e.http10 ? 0 : 1) << " " << e.status << (e.reason.empty() ? (r.coin() ? " " : "") : " " + e.reason) << nl;
		if (r.coin()) os << "Server: raw" << nl;
		os << "X-Id: " << e.id << nl;
		if (e.http10 && e.resp_keep) os << "Connection: keep-alive" << nl;
		if (!e.http10 && !e.resp_keep) os << "Connection: close" << nl;
		if (!e.http10 && e.resp_keep && r.chance(30)) os << (r.coin() ? "connection: Keep-Alive" : "CONNECTION: keep-alive") << nl;
		if (e.chunked_resp) {
			os << "Transfer-Encoding: chunked" << nl << nl;
			size_t pos = 0;
			while (pos < e.want.size()) {
				size_t k = std::min<size_t>(e.want.size() - pos, 1 + r.below(r.coin() ? 30 : 5000));
				os << std::hex << k << std::dec << (r.chance(10) ? ";ext=1" : "") << nl << e.want.substr(pos, k) << nl;
				pos += k;
			}
			os << "0" << nl << nl;
		} else
			os << "Content-Length: " << e.want.size() << nl << nl << e.want;
		e.resp = os.str();
		if (e.fate == PARTIAL) e.resp.resize(r.coin() ? r.below(e.resp.size()) : e.resp.size() - 1 - r.below(std::min<size_t>(e.resp.size(), 4)));
		if (e.fate == MALFORMED) {
			static const std::vector<std::string> bad = {"HTTP/2.0 200 OK\r\n\r\n", "HTTX/1.1 200 OK\r\n\r\n", "HTTP/1.1 2x0 OK\r\n\r\n", "HTTP/1.1 200 OK\r\nContent-Length: x\r\n\r\n", "HTTP/1.1 200 OK\r\nContent-Length: 5\r\nContent-Length: 6\r\n\r\nabcdef",
			    "HTTP/1.1 200 OK\r\nTransfer-Encoding: chunked\r\n\r\nZZ\r\n", "HTTP/1.1 200 OK\r\nTransfer-Encoding: chunked\r\n\r\n3\r\nabcd\r\n0\r\n\r\n", "HTTP/1.1 200 OK\r\nBad Header: 1\r\n\r\n", "GET / HTTP/1.1\r\n\r\n",
			    "HTTP/1.1 101 Switching\r\nConnection: upgrade\r\nUpgrade: websocket\r\nSec-WebSocket-Accept: s3pPLMBiTxaQ9kYGzzhZRbK+xOo=\r\n\r\n", "HTTP/1.1 200 OK\r\n: novalue\r\n\r\n"};
			e.resp = r.pick(bad);
		}
	}
	void cancel(size_t i) {
		Slot &s = slots[i];
		Ex *e   = s.cur;
		PConn *c = s.conn;
		if (e) { e->cancelled = true; count("cancels"); }
		NOTE("slot " << i << " cancels " << (e ? e->id : 0));
		s.cur = nullptr;
		bool was = s.c->is_open();
		s.c->cancel();
		EXPECT(was == !!e && !s.c->is_open(), "cancel-open", "");
		if (e) {
			dns_cancelled(*e->t);
			PConn *k = e->conn ? e->conn : e->reuse;
			EP ep = k ? lib_ep(k->p) : EP();
			EXPECT(!ep || ep->app_closed, "cancel-connected", "connection of a cancelled request is still open");
			s.conn = nullptr;
		} else
			s.conn = c;
	}
	void destroy(size_t i) {
		Slot &s = slots[i];
		Ex *e   = s.cur;
		PConn *k = e ? (e->conn ? e->conn : e->reuse) : s.conn;
		if (e) { e->cancelled = true; count("destroyed_requesting"); }
		NOTE("slot " << i << " is destroyed" << (e ? " while requesting" : ""));
		s.cur = nullptr;
		s.gen++;
		s.c.reset();
		if (e) dns_cancelled(*e->t);
		EP ep = k ? lib_ep(k->p) : EP();
		EXPECT(!ep || ep->app_closed, "destroyed-connected", "connection of a destroyed client is still open");
		make(i);
	}
	void user_act(size_t i, bool in_handler) {
		if (ops_left <= 0 || settling) return;
		Slot &s = slots[i];
		switch (r.below(in_handler ? 6 : 10)) {
		case 0: destroy(i); if (r.coin()) send(i); break;
		case 1: case 2: if (!s.cur) send(i); break;
		case 3: { size_t k = r.below(slots.size()); if (!slots[k].cur) send(k); break; }
		case 4: { size_t k = r.below(slots.size()); if (slots[k].cur && r.chance(40)) { cancel(k); if (r.coin()) send(k); } break; }
		case 5: if (in_handler) { size_t k = r.below(slots.size()); if (r.chance(30)) destroy(k); } else if (!s.cur) send(i); break;
		default: if (!s.cur) send(i); break;
		}
	}
	void own_op() override {
		--ops_left;
		size_t i = r.below(slots.size());
		if (!slots[i].cur && r.chance(5)) { bad_send(i); return; }
		if (!slots[i].cur && r.chance(5)) { cancel(i); return; }
		if (slots[i].cur && r.chance(85)) return;
		if (slots[i].cur) { if (r.coin()) cancel(i); else destroy(i); return; }
		user_act(i, false);
	}
	bool check_current(size_t i, u64 gen, const char *what) {
		Slot &s = slots[i];
		progress = std::max(progress, sim::now());
		if (gen != s.gen) { VIOL("outcome-after-destroy", what); return false; }
		if (!s.cur) { VIOL("outcome-excess", what << " handler called while no request is outstanding"); return false; }
		EXPECT(!s.c->is_open(), "open-in-handler", "request still open in its " << what << " handler");
		return true;
	}
	void on_response(size_t i, u64 gen, http::Response &&rs) {
		if (!check_current(i, gen, "response")) return;
		Slot &s = slots[i];
		Ex &e   = *s.cur;
		s.cur   = nullptr;
		count("responses");
		ev(u64(rs.header.status) * 8 + 3);
		NOTE("slot " << i << " response to exchange " << e.id);
		e.responded = true;
		std::string xid;
		for (auto &h : rs.header.headers) if (h.name == "x-id") xid = h.value;
		EXPECT(xid == std::to_string(e.id), "response-mixed", "exchange " << e.id << " got response " << quote(xid));
		EXPECT(e.conn && e.resp_end, "response-invented", "exchange " << e.id << " (" << fname[e.fate] << ") got a response nobody completed");
		if (e.conn && e.resp_end) {
			EP ep = lib_ep(e.conn->p);
			EXPECT(!ep || ep->taken >= e.resp_end, "response-early", "");
		}
		EXPECT(rs.header.status == e.status && rs.header.status_text == e.reason, "response-status", "exchange " << e.id << ": " << rs.header.status << " " << quote(rs.header.status_text) << " instead of " << e.status << " " << e.reason);
		EXPECT(rs.body == e.want, "response-body", "exchange " << e.id << " body of " << rs.body.size() << " bytes instead of " << e.want.size() << ": " << quote(rs.body, 60));
		EXPECT(rs.header.keep_alive == e.resp_keep, "response-keepalive", "");
		s.conn = e.conn;
		s.idle_since = sim::now();
		user_act(i, true);
	}
	bool error_allowed(Ex &e) {
		if (e.excused || e.failed) return true;
		if (e.t->dns_fail) return e.t->resolved;
		if (e.t->fate != sim::ACCEPTED) return e.t->tried;
		if (!e.seen && e.reuse && e.reuse->leaving) return true;
		return false;
	}
	void on_error(size_t i, u64 gen, std::string &&msg) {
		if (!check_current(i, gen, "error")) return;
		Slot &s = slots[i];
		Ex &e   = *s.cur;
		s.cur   = nullptr;
		count("errors");
		ev(u64(e.fate) * 8 + 4);
		NOTE("slot " << i << " error of exchange " << e.id << " " << msg);
		e.errored = true;
		s.conn = nullptr;
		EXPECT(error_allowed(e), "error-undeserved", "exchange " << e.id << " (" << fname[e.fate] << ", " << (e.reuse ? "reused" : "new") << " connection) failed with " << quote(msg) << "; seen by server " << e.seen);
		EXPECT(!msg.empty(), "error-text", "");
		user_act(i, true);
	}
	// ------------------------------------------------------------ peers
	void accepted(Target &t, sim::PeerP p) {
		conns.emplace_back(new PConn);
		PConn &c = *conns.back();
		c.id = conns.size();
		c.t = &t;
		c.p = p;
		c.s.p = p;
		c.s.mode = int(r.below(3));
		c.s.stop = dead;
		c.linger = r.chance(20);
		c.slow   = r.chance(20) && !settling;
		if (c.slow) p->read_quota = r.below(200);
		PConn *cp = &c;
		NOTE("connection " << c.id << " to " << t.host);
		count("connections");
		p->on_event = [this, cp] { peer_event(*cp); };
	}
	void leave(PConn &c, int kind) {
		if (c.p->closed) return;
		c.leaving = true;
		for (Ex *e : c.ex) if (!e->responded && (!e->resp_end || !c.s.q.empty())) e->failed = true;
		c.s.q.clear();
		NOTE("peer of connection " << c.id << " leaves, kind " << kind);
		if (kind == 0) c.p->abort(); else if (kind == 1) c.p->close(); else c.p->shutdown();
	}
	void leave_later(PConn &c, int kind, u64 d) {
		PConn *cp = &c;
		auto st = dead;
		sim::at(d, [this, cp, kind, st] { if (!*st) leave(*cp, kind); });
	}
	void peer_event(PConn &c) {
		sim::Peer &p = *c.p;
		progress = std::max(progress, sim::now());
		if (!p.in.empty()) {
			ev(p.in.size() * 8 + 2);
			c.rd.feed(p.in);
			p.in.clear();
			ref::Msg m;
			while (c.rd.next(m)) got_request(c, m);
			EXPECT(c.rd.error.empty(), "request-wire", "connection " << c.id << ": " << c.rd.error);
			if (c.rd.in_body && c.rd.error.empty()) {
				Ex *e = ex_of(c.rd.cur.target);
				if (e && e->fate == EARLY && !e->answering) { e->conn = &c; c.ex.push_back(e); answer(c, *e); }
			}
		}
		if (c.slow && p.read_quota == 0 && !settling && !c.went) {
			c.went = true;
			PConn *cp = &c;
			auto st = dead;
			sim::at(sim::rng().below(30 * MS), [this, cp, st] { if (*st) return; cp->went = false; cp->p->read_quota = settling ? size_t(-1) : 1 + sim::rng().below(3000); cp->p->poll(); });
		}
		if ((p.eof || p.reset) && !c.eof_seen) {
			c.eof_seen = true;
			if (!c.linger || settling) leave_later(c, 1, sim::rng().below(20 * MS));
		}
	}
	Ex *ex_of(const std::string &target) {
		if (target.compare(0, 2, "/e") != 0) return nullptr;
		size_t id = size_t(std::atoi(target.c_str() + 2));
		return id && id <= exs.size() ? exs[id - 1].get() : nullptr;
	}
	void got_request(PConn &c, const ref::Msg &m) {
		Ex *ep = ex_of(m.target);
		if (!ep) { VIOL("request-invented", quote(m.target)); return; }
		Ex &e = *ep;
		count("requests");
		NOTE("connection " << c.id << " request of exchange " << e.id);
		EXPECT(!e.seen, "request-twice", "exchange " << e.id << " sent twice");
		e.seen = true;
		EXPECT(c.t == e.t, "request-target", "exchange " << e.id << " arrived at another server");
		EXPECT(m.method == e.method && m.target == e.path + (e.query.empty() ? "" : "?" + e.query), "request-line", m.method << " " << quote(m.target));
		EXPECT(m.body == e.body, "request-body", "exchange " << e.id << " body of " << m.body.size() << " bytes instead of " << e.body.size());
		EXPECT(m.one("host") == e.host, "request-host", quote(m.one("host")) << " instead of " << e.host);
		EXPECT(m.one("x-id") == std::to_string(e.id), "request-header", quote(m.one("x-id")));
		std::string au = m.one("authorization");
		EXPECT(e.auth.empty() ? au.empty() : ref::lower(au.substr(0, 6)) == "basic " && au.substr(6) == ref::b64(e.auth), "request-auth", quote(m.one("authorization")));
		if (e.reuse) EXPECT(e.reuse == &c, "not-reused", "exchange " << e.id << " opened a new connection although the old one was kept alive");
		else for (Ex *o : c.ex) EXPECT(o == &e, "reused", "exchange " << e.id << " sent over the connection of exchange " << o->id);
		if (!c.ex.empty() && c.ex.back() != &e) EXPECT(c.ex.back()->resp_keep && c.ex.back()->resp_end, "reused-unfinished", "exchange " << e.id << " sent after exchange " << c.ex.back()->id << " which was not finished or ended the connection");
		if (!e.answering) {
			e.conn = &c;
			c.ex.push_back(&e);
			answer(c, e);
		}
	}
	void answer(PConn &c, Ex &e) {
		e.answering = true;
		PConn *cp = &c;
		Ex *ep = &e;
		auto st = dead;
		u64 d = sim::rng().coin() ? 0 : sim::rng().below(40 * MS);
		if (sim::rng().chance(6)) { d = sim::rng().below(16 * SEC); count("slow_answers"); if (e.reuse && d > 10 * SEC) count("slow_answers_reused"); }  // longer than idle connections are kept
		sim::at(d, [this, cp, ep, st] {
			if (*st) return;
			PConn &c = *cp;
			Ex &e = *ep;
			progress = std::max(progress, sim::now());
			if (c.p->closed || c.p->reset) return;
			bool fin = sim::rng().coin();
			switch (e.fate) {
			case OK_LEN: case OK_CHUNKED: case EARLY: case OK_CLOSE:
				c.s.put(e.resp);
				e.resp_end = c.s.appended;  // complete from here on (the rest of it is only paced)
				if (e.fate == OK_CLOSE || (e.fate != EARLY && !e.resp_keep)) c.s.then = [this, cp, fin] { leave_later(*cp, fin ? 2 : 1, sim::rng().coin() ? 0 : sim::rng().below(10 * MS)); };
				else if (sim::rng().chance(10) && e.fate != EARLY) c.s.then = [this, cp] { leave_later(*cp, sim::rng().coin() ? 2 : 1, sim::rng().below(12 * SEC)); };
				c.s.go();
				break;
			case PARTIAL:
				c.s.put(e.resp);
				c.s.then = [this, cp] { leave_later(*cp, int(sim::rng().below(3)), sim::rng().below(10 * MS)); };
				c.s.go();
				break;
			case MALFORMED:
				c.s.put(e.resp);
				e.bad_end = c.s.appended;
				e.failed = true;
				count("malformed");
				c.s.go();
				break;
			case JUST_CLOSE: leave(c, fin ? 1 : 2); break;
			case JUST_RESET: leave(c, 0); break;
			case NEVER: break;
			}
		});
	}
	PConn *conn_of(Ex &e) {
		if (e.conn) return e.conn;
		if (e.reuse) return e.reuse;
		return nullptr;
	}
	void block() {
		if (stop) return;
		count("sleeps_checked");
		for (auto &s : slots) {
			if (!s.cur && s.conn && s.conn->ex.back()->resp_keep && !s.conn->leaving && !s.conn->excused && sim::now() < s.idle_since + 9 * SEC) {
				EP ep = lib_ep(s.conn->p);
				if (ep && !ep->fin && !ep->rst && !ep->err) {
					count("kept_checked");
					EXPECT(!ep->app_closed && ep->fd >= 0, "not-kept", "connection " << s.conn->id << " was closed " << (sim::now() - s.idle_since) / MS << " ms after a response that keeps it alive");
				}
			}
			if (!s.cur) continue;
			Ex &e = *s.cur;
			PConn *c = conn_of(e);
			if (!c) continue;
			EP ep = lib_ep(c->p);
			if (!ep) continue;
			if (ep->app_closed || ep->fd < 0) { VIOL("stall-outcome", "exchange " << e.id << " (" << fname[e.fate] << "): its connection is closed, no handler was called, the loop sleeps"); e.excused = true; continue; }
			if (ep->nospace) continue;
			if (e.bad_end && (ep->arrived >= e.bad_end || ep->fin)) {  // what comes after the violation is discarded
				if (!e.bad_at) e.bad_at = sim::now();
				EXPECT(sim::now() <= e.bad_at + 15500 * MS, "stall-malformed", "exchange " << e.id << ": malformed response not reported after 15 seconds");
				continue;
			}
			if (ep->rst || ep->err) { VIOL("stall-reset", "exchange " << e.id << ": connection was reset, the loop sleeps"); continue; }
			if (e.resp_end && ep->arrived >= e.resp_end) VIOL("stall-response", "exchange " << e.id << ": the response arrived completely, the loop sleeps");
			else if (ep->fin) VIOL("stall-close", "exchange " << e.id << ": connection was closed by the server, the loop sleeps");
		}
	}
	void settle() {
		settling = true;
		progress = sim::now();
		for (auto &c : conns) {
			c->slow = false;
			if (c->p->closed) continue;
			c->p->read_quota = size_t(-1);
			c->p->poll();
			c->s.mode = 0;
			c->s.go(true);
		}
		auto st = dead;
		sim::at(5 * SEC, [this, st] {  // whoever still keeps a request unanswered leaves
			if (*st || stop) return;
			for (auto &e : exs) if (e->conn && e->fate == NEVER && !e->cancelled && !e->errored) leave(*e->conn, int(r.below(2)));
			for (auto &c : conns) if (c->linger && c->eof_seen) leave(*c, 1);
		});
	}
	void tick() {}
	void run() {
		sim::on_misuse = [](const std::string &m) { VIOL("fd-misuse", m); };
		next_ext();
		Settling<ClientCase>::run(*this, loop, 28 * SEC);
		for (auto &up : exs) {
			Ex &e = *up;
			EXPECT(e.responded + e.errored + e.cancelled == 1, "no-outcome", "exchange " << e.id << " (" << fname[e.fate] << ") to " << e.t->host << ": response " << e.responded << " error " << e.errored << " cancelled " << e.cancelled << "; seen " << e.seen << " fate " << e.t->fate << " dns_fail " << e.t->dns_fail);
		}
		for (auto &c : conns) {
			EP ep = lib_ep(c->p);
			if (ep && ep->fd >= 0 && !ep->app_closed) VIOL("not-released", "connection " << c->id << " is still open long after it was used");
		}
		std::ostringstream os;
		os << slots.size() << " clients, " << exs.size() << " exchanges, " << conns.size() << " connections, " << ctx().events << " events, " << sim::now() / MS << " ms";
		ctx().desc = os.str();
		ctx().nontrivial = !exs.empty();
		stop = true;
		for (auto &s : slots) { s.gen++; s.c.reset(); }
		ext.reset();
		timers.clear();
	}
};

// ================================================================ WebSocket clients (H09)
enum Hs { H_GOOD, H_ODD, H_BAD_ACCEPT, H_NO_ACCEPT, H_OTHER_KEY, H_200, H_404, H_NO_UPGRADE, H_NO_CONN, H_LENGTH, H_CHUNKED, H_GARBAGE, H_CLOSE, H_PARTIAL, H_RESET, H_NEVER, H_COUNT };
const char *hname[] = {"good", "good-odd", "bad-accept", "no-accept", "other-accept", "200", "404", "no-upgrade", "no-connection", "length", "chunked", "garbage", "close", "partial", "reset", "never"};
struct WsItem { int op; std::string body; int code; u64 end; };
struct Plain { std::string path, body, want; int status = 200; u64 end = 0; bool sent = false, seen = false, got = false; };
struct Att {  // one connection of one client
	u64 id = 0;
	size_t slot = 0;
	u64 gen = 0;
	Target *t = nullptr;
	std::string host, path, key;
	int hs = 0;
	bool current = true, told = false, left = false, asked = false, asked_seen = false, answered = false, good = false, up_seen = false;
	u64 hs_end = 0, bad_at = 0;
	std::vector<Plain> plain;
	size_t plain_next = 0;  // next to write
	unsigned notices = 0;
	// peer
	sim::PeerP p;
	Sender s;
	ref::MsgReader rd{false};
	ref::WsReader wr;
	bool ws = false, lossy = false, done = false, linger = false, slow = false, went = false, eof_seen = false, early = false, excused = false, gone_by_peer = false, cut = false;
	size_t out_due = 0, pongs_due = 0;  // when the peer left
	std::vector<WsItem> sent;
	size_t delivered = 0;
	std::vector<std::pair<std::string, u64>> pings;
	size_t pongs = 0;
	unsigned items_left = 0, closes = 0;
	bool ended = false, violated = false, utf_bad = false, peer_close = false, close_got = false, usr_close = false;
	std::vector<std::pair<int, std::string>> out;
	size_t out_got = 0;
	std::vector<std::string> usr_pings;
	size_t usr_pings_got = 0;
	std::string close_body, frag;
	int frag_op = 0, same_keys = 0;
	uint32_t last_key = 0;
	bool reading_later = false;
};
struct WsClientCase : CliBase {
	struct Slot { std::unique_ptr<http::ClientConnection> c; Att *cur = nullptr; u64 gen = 0; };
	std::vector<Slot> slots;
	std::vector<std::unique_ptr<Att>> atts;
	std::set<std::string> keys;
	typedef http::ClientConnection CC;
	WsClientCase() {
		ops_left = int(15 + r.below(70));
		slots.resize(1 + r.below(4));
		for (size_t i = 0; i != slots.size(); ++i) make(i);
		if (r.chance(25)) {
			faults.arm(r, false);
			for (int s = 0; s != sim::S_COUNT; ++s)
				if (s != sim::S_RECV && s != sim::S_SEND && s != sim::S_CONNECT && s != sim::S_SOCKET && s != sim::S_EPOLL_CTL) faults.rate[s] = 0;
		}
		sim::fault = [this](sim::Sys s, int fd) {
			int e = faults(s);
			if (!e) return 0;
			EP ep = (s == sim::S_RECV || s == sim::S_SEND) ? sim::endpoint_of(fd) : EP();
			for (auto &a : atts) if (!a->told && (!ep || a->t->at(ep->remote))) a->excused = a->lossy = true;
			return e;
		};
		sim::on_block = [this] { block(); };
	}
	~WsClientCase() {
		for (auto &a : atts) if (a->p) a->p->on_event = nullptr;
		slots.clear();
	}
	void make(size_t i) {
		Slot &s = slots[i];
		u64 gen = ++s.gen;
		s.cur = nullptr;
		std::string canary(40, 'c');
		s.c.reset(new CC([this, i, gen, canary] { auto *self = this; std::string c = canary; self->handler(i, gen); }));
	}
	// ------------------------------------------------------------ user
	void drop(size_t i) {  // the user lets the connection go: nothing may be reported about it any more
		Slot &s = slots[i];
		if (!s.cur) return;
		s.cur->current = false;
		s.cur->left = true;
		s.cur->lossy = true;
		s.cur = nullptr;
		count("dropped");
	}
	void check_dropped(Att *a) {
		if (!a) return;
		dns_cancelled(*a->t);
		EP ep = lib_ep(a->p);
		EXPECT(!ep || ep->app_closed, "dropped-open", "connection " << a->id << " is still open");
	}
	void connect(size_t i) {
		Slot &s = slots[i];
		Att *old = s.cur;
		drop(i);
		atts.emplace_back(new Att);
		Att &a = *atts.back();
		a.id = atts.size();
		a.slot = i;
		a.gen = s.gen;
		bool by_addr = r.chance(40);
		a.t = &new_target(true, by_addr, [this](Target &t, sim::PeerP p) { accepted(t, p); });
		a.host = a.t->host;
		static const std::vector<int> plan = {H_BAD_ACCEPT, H_NO_ACCEPT, H_OTHER_KEY, H_200, H_404, H_NO_UPGRADE, H_NO_CONN, H_LENGTH, H_CHUNKED, H_GARBAGE, H_CLOSE, H_PARTIAL, H_RESET, H_NEVER};
		a.hs = r.chance(65) ? (r.coin() ? H_GOOD : H_ODD) : r.pick(plan);
		a.path = "/ws" + std::to_string(a.id);
		a.items_left = unsigned(r.below(14));
		a.early = r.chance(35);
		if (r.chance(40)) a.plain.resize(1 + r.below(2));
		for (auto &p : a.plain) {
			p.path = "/p" + std::to_string(&p - &a.plain[0]);
			if (r.coin()) p.body = r.bstr(r.len(vol(2000)));
			p.want = r.bstr(r.len(vol(2000)));
			p.status = r.coin() ? 200 : 404;
		}
		s.cur = &a;
		NOTE("slot " << i << " connects " << a.id << " to " << a.host << (by_addr ? " by address" : "") << " fate " << a.t->fate << (a.t->dns_fail ? " unresolvable" : "") << ", handshake " << hname[a.hs] << ", " << a.plain.size() << " plain");
		count("connects");
		ev(u64(a.hs) * 32 + a.plain.size() * 4 + u64(by_addr));
		if (by_addr) {
			if (!s.c->connect(ca(a.t->addrs[0]))) {
				EXPECT(a.t->fate == sim::REFUSED_SYNC || a.t->fate == sim::UNREACH_SYNC || a.excused, "connect-failed", "");
				EXPECT(!s.c->is_open(), "connect-failed-open", "");
				a.told = true;
				a.current = false;
				s.cur = nullptr;
				check_dropped(old);
				count("connects_failed_at_once");
				return;
			}
			a.t->resolved = true;
		} else {
			before_resolve(*a.t);
			s.c->connect(a.host, a.t->port);
			EXPECT(s.c->get_state() == CC::RESOLVING_HOST, "state-resolving", "");
		}
		check_dropped(old);
		EXPECT(s.c->is_open(), "connect-open", "");
		if (r.chance(70)) proceed(i); else { u64 gen = s.gen; Att *ap = &a; after(delay(), [this, i, gen, ap] { if (slots[i].gen == gen && slots[i].cur == ap) proceed(i); }); }
	}
	void proceed(size_t i) {  // writes the next request, if one is due and none is outstanding
		Slot &s = slots[i];
		Att &a = *s.cur;
		if (a.asked) return;
		auto st = s.c->get_state();
		if (st != CC::RESOLVING_HOST && st != CC::WAITING_WRITE_REQUEST) return;
		if (a.plain_next && a.plain[a.plain_next - 1].sent && !a.plain[a.plain_next - 1].got) return;
		if (a.plain_next < a.plain.size()) {
			Plain &p = a.plain[a.plain_next++];
			p.sent = true;
			http::Request rq("ignored", p.body.empty() ? "GET" : "POST", p.path);
			if (r.chance(15)) {  // announcing another length is refused, nothing is sent
				http::Request bad("ignored", "POST", p.path);
				bad.body = p.body;
				bad.header.content_length = r.coin() ? p.body.size() + 1 + r.below(20) : p.body.size() / 2;
				if (*bad.header.content_length != p.body.size()) {
					bool thrown = false;
					try { s.c->write(std::move(bad)); } catch (const std::logic_error &) { thrown = true; }
					EXPECT(thrown, "misannounced", "request with a body of " << p.body.size() << " bytes and another content-length was accepted");
					count("misannounced_bodies");
				}
			}
			if (!p.body.empty() && r.coin()) { rq.body = p.body; count("unannounced_bodies"); }
			else if (!p.body.empty()) rq.set_body(std::string(p.body));
			if (!rq.body.empty() && r.chance(20)) rq.header.content_length = rq.body.size();
			s.c->write(std::move(rq));
			count("plain_requests");
			return;
		}
		a.asked = true;
		http::RequestHeader rh;
		rh.path = a.path;
		rh.headers.push_back({"X-Att", std::to_string(a.id)});
		s.c->web_socket_upgrade(rh);
		count("upgrades_asked");
	}
	void handler(size_t i, u64 gen) {
		Slot &s = slots[i];
		progress = std::max(progress, sim::now());
		if (gen != s.gen || !s.c) { VIOL("event-after-destroy", ""); return; }
		if (!s.cur) { VIOL("event-after-close", "handler called after the connection ended or was closed"); return; }
		Att &a = *s.cur;
		if (!s.c->is_open()) { notice(i); return; }
		check_state(a);
		if (a.told) VIOL("event-after-notice", "");
		if (r.chance(10) && !settling) {
			if (!a.reading_later) {
				a.reading_later = true;
				Att *ap = &a;
				after(delay(), [this, i, gen, ap] { ap->reading_later = false; if (slots[i].gen == gen && slots[i].cur == ap) read(i); });
			}
			return;
		}
		read(i);
	}
	void notice(size_t i) {
		Slot &s = slots[i];
		Att &a = *s.cur;
		a.notices++;
		a.told = true;
		a.current = false;
		s.cur = nullptr;
		count("closed_notices");
		ev(77);
		NOTE("slot " << i << " is told that connection " << a.id << " ended");
		bool why = a.excused || a.gone_by_peer || a.usr_close || a.violated || a.utf_bad || (a.answered && !a.good);
		if (a.t->dns_fail) why = why || a.t->resolved;
		if (a.t->fate != sim::ACCEPTED) why = why || a.t->tried;
		EXPECT(why, "closed-unasked", "connection " << a.id << " (" << hname[a.hs] << ") reported closed although nobody closed it");
		EP ep = lib_ep(a.p);
		EXPECT(!ep || ep->app_closed, "closed-open", "");
		after_end(i);
	}
	void after_end(size_t i) {
		if (ops_left <= 0 || settling) return;
		u64 gen = slots[i].gen;
		switch (r.below(4)) {
		case 0: connect(i); break;
		case 1: make(i); count("destroyed_in_handler"); break;  // destroys the client inside its handler
		default: after(delay(), [this, i, gen] { if (slots[i].gen == gen && !slots[i].cur && ops_left > 0 && !settling) connect(i); });
		}
	}
	void check_state(Att &a) {
		Slot &s = slots[a.slot];
		if (!s.c->is_open()) return;
		if (s.c->get_state() >= CC::WEB_MESSAGE_HEADER) {
			EP ep = lib_ep(a.p);
			EXPECT(a.good && ep && ep->taken >= a.hs_end, "upgrade-undeserved", "connection " << a.id << " (" << hname[a.hs] << ") is reported upgraded");
			if (!a.up_seen) { a.up_seen = true; count("upgrades"); }
		}
	}
	void read(size_t i) {
		Slot &s = slots[i];
		Att *a = s.cur;
		u64 gen = s.gen;
		http::Response rs;
		while (s.gen == gen && s.cur == a && s.c->read_next(rs)) {
			size_t k = a->plain_next;
			count("plain_responses");
			if (!k || a->plain[k - 1].got || !a->plain[k - 1].end || a->asked) { VIOL("response-invented", "status " << rs.header.status << (a->asked ? " to an upgrade" : "")); return; }
			Plain &p = a->plain[k - 1];
			p.got = true;
			EXPECT(rs.header.status == p.status && rs.body == p.want, "response-content", "status " << rs.header.status << " body of " << rs.body.size());
			proceed(i);
		}
		http::WebMessage m;
		while (s.gen == gen && s.cur == a && s.c->read_next(m)) { check_state(*a); message(i, m); }
	}
	void message(size_t i, http::WebMessage &m) {
		Slot &s = slots[i];
		Att &a = *s.cur;
		count("ws_messages");
		ev(u64(m.opcode) * 64 + a.id);
		EXPECT(a.good, "message-before-upgrade", "");
		EXPECT(!a.closes, "message-after-close", "");
		if (a.delivered >= a.sent.size()) { VIOL("ws-invented", "message nobody sent: opcode " << int(m.opcode) << " " << quote(m.body, 60)); return; }
		WsItem &w = a.sent[a.delivered++];
		EXPECT(w.op == int(m.opcode) && w.body == m.body, "ws-message", "message " << a.delivered << ": opcode " << int(m.opcode) << " of " << m.body.size() << " bytes instead of " << w.op << " of " << w.body.size());
		if (w.op == 8) { a.closes++; EXPECT(w.code == m.close_code, "ws-close-code", m.close_code << " instead of " << w.code); count("ws_closes_read"); }
		user(i, &m);
	}
	void user(size_t i, http::WebMessage *m) {
		Slot &s = slots[i];
		if (!s.cur) return;
		Att &a = *s.cur;
		if (!s.c->is_open()) return;  // about to be told
		bool writable = s.c->get_state() >= CC::WEB_UPGRADE_RESPONSE_HEADER && !a.usr_close;
		size_t big = vol(r.chance(80) ? 300 : 70000);
		bool ending = !settling && ops_left > 0;
		switch (r.below(16)) {
		case 0: case 1: case 2: if (m && writable && !m->is_close()) send(i, int(m->opcode), m->body); break;
		case 3: case 4: if (writable) { send(i, 1, utf8_text(r, r.len(big))); send(i, 2, r.bstr(r.len(big))); } break;
		case 5: case 6: if (writable) {
			std::string b = "p" + r.bstr(r.below(140));
			s.c->write(http::WebMessage(http::WebMessageOpcode::PING, b));
			if (b.size() > 125) b.resize(125);
			a.usr_pings.push_back(b);
			}
			break;
		case 7: if (writable && ending && r.chance(30)) send_close(i); break;
		case 8: if (ending && r.chance(20)) {
			Att *ap = &a;
			NOTE("slot " << i << " closes " << a.id);
			drop(i);
			s.c->close();
			EXPECT(!s.c->is_open(), "close-open", "");
			check_dropped(ap);
			if (r.coin()) connect(i);
			else { u64 gen = s.gen; after(delay(), [this, i, gen] { if (slots[i].gen == gen && !slots[i].cur && ops_left > 0 && !settling) connect(i); }); }
			}
			break;
		case 9: if (ending && r.chance(15)) { NOTE("slot " << i << " connects over"); count("connects_over"); connect(i); } break;
		case 10: if (ending && r.chance(15)) { Att *ap = &a; NOTE("slot " << i << " is destroyed"); drop(i); make(i); check_dropped(ap); count("destroyed"); } break;
		default: break;
		}
	}
	void send(size_t i, int op, const std::string &b) {
		Att &a = *slots[i].cur;
		a.out.emplace_back(op, b);
		slots[i].c->write(http::WebMessage(http::WebMessageOpcode(op), b));
	}
	void send_close(size_t i) {
		Att &a = *slots[i].cur;
		int code = r.chance(20) ? 1005 : r.chance(20) ? 5 : int(1000 + r.below(3000));
		std::string reason = r.coin() ? "" : utf8_text(r, r.below(200)), b;
		if (!(reason.empty() && code == 1005)) {
			int k = code < 1000 ? 1000 : code;
			b += char(k >> 8);
			b += char(k);
			b += reason;
			if (b.size() > 125) b.resize(125);
		}
		a.close_body = b;
		a.usr_close = true;
		count("ws_closes_written");
		NOTE("slot " << i << " sends CLOSE on " << a.id);
		slots[i].c->write(http::WebMessage(http::WebMessageOpcode::CLOSE, reason, uint16_t(code)));
	}
	void own_op() override {
		--ops_left;
		size_t i = r.below(slots.size());
		Slot &s = slots[i];
		if (!s.cur) { connect(i); return; }
		user(i, nullptr);
		if (s.cur && r.chance(20) && s.c->is_open()) read(i);
	}
	// ------------------------------------------------------------ peers
	void accepted(Target &t, sim::PeerP p) {
		Att *ap = nullptr;
		for (auto &u : atts) if (u->t == &t) ap = u.get();
		if (!ap || ap->p) { VIOL("connect-twice", "second connection to " << t.host); return; }
		Att &a = *ap;
		a.p = p;
		a.s.p = p;
		a.s.mode = int(r.below(3));
		a.s.stop = dead;
		a.linger = r.chance(25);
		a.slow   = r.chance(20) && !settling;
		if (a.slow) p->read_quota = r.below(200);
		NOTE("connection " << a.id << " established");
		p->on_event = [this, ap] { peer_event(*ap); };
	}
	void leave(Att &a, int kind) {
		if (a.p->closed) return;
		NOTE("peer of " << a.id << " leaves, kind " << kind);
		if (!a.gone_by_peer) { a.out_due = a.out.size(); a.pongs_due = a.pings.size(); }
		if (a.out_got < a.out_due || a.pongs < a.pongs_due) a.cut = true;  // the client stops sending at the end of the stream
		a.gone_by_peer = a.done = true;
		if (!a.s.q.empty()) a.lossy = true;
		a.s.q.clear();
		if (kind == 0) { a.lossy = true; a.p->abort(); }
		else if (kind == 1) { if (a.good && (a.delivered < a.sent.size())) a.lossy = true; a.p->close(); }
		else a.p->shutdown();
	}
	void later(u64 d, std::function<void()> fn) {
		auto st = dead;
		sim::at(d, [st, fn] { if (!*st) fn(); });
	}
	void peer_event(Att &a) {
		sim::Peer &p = *a.p;
		Att *ap = &a;
		progress = std::max(progress, sim::now());
		if (!p.in.empty()) {
			ev(p.in.size() * 8 + 5);
			if (a.asked_seen) a.wr.feed(p.in); else a.rd.feed(p.in);
			p.in.clear();
			ref::Msg m;
			while (!a.asked_seen && a.rd.next(m)) got_request(a, m);
			if (!a.asked_seen) EXPECT(a.rd.error.empty(), "request-wire", "connection " << a.id << ": " << a.rd.error);
			if (a.asked_seen) ws_receive(a);
		}
		if (a.slow && p.read_quota == 0 && !settling && !a.went) {
			a.went = true;
			later(sim::rng().below(30 * MS), [this, ap] { ap->went = false; ap->p->read_quota = settling ? size_t(-1) : 1 + sim::rng().below(3000); ap->p->poll(); });
		}
		if ((p.eof || p.reset) && !a.eof_seen) {
			a.eof_seen = true;
			NOTE("peer of " << a.id << " sees " << (p.eof ? "eof" : "reset"));
			bool why = a.left || a.done || a.excused || a.usr_close || a.violated || a.utf_bad || (a.answered && !a.good);
			EXPECT(why, "client-left", "client of connection " << a.id << " (" << hname[a.hs] << ") ended it without a reason");
			a.lossy = true;
			if (!a.linger || settling) later(sim::rng().below(20 * MS), [this, ap] { leave(*ap, 1); });
		}
	}
	void got_request(Att &a, const ref::Msg &m) {
		count("requests");
		Att *ap = &a;
		EXPECT(m.one("host") == a.host, "request-host", quote(m.one("host")) << " instead of " << a.host);
		EXPECT(m.minor == 1, "request-version", "");
		for (auto &p : a.plain) if (!p.seen) {
			p.seen = true;
			EXPECT(p.sent && m.target == p.path && m.body == p.body && m.method == (p.body.empty() ? "GET" : "POST"), "request-content", m.method << " " << quote(m.target) << " body of " << m.body.size());
			Plain *pp = &p;
			later(sim::rng().coin() ? 0 : sim::rng().below(30 * MS), [this, ap, pp] {
				if (ap->p->closed || ap->done) return;
				std::ostringstream os;
				os << "HTTP/1.1 " << pp->status << " T\r\nContent-Length: " << pp->want.size() << "\r\n\r\n" << pp->want;
				ap->s.put(os.str());
				pp->end = ap->s.appended;
				ap->s.go();
			});
			return;
		}
		if (!a.asked || a.asked_seen) { VIOL("request-invented", quote(m.target)); return; }
		a.asked_seen = true;
		a.key = m.one("sec-websocket-key");
		EXPECT(m.method == "GET" && m.target == a.path && !m.has_length && !m.chunked, "upgrade-request", m.method << " " << quote(m.target));
		EXPECT(ref::lower(m.one("upgrade")) == "websocket" && ref::lower(m.one("connection")).find("upgrade") != std::string::npos && m.one("sec-websocket-version") == "13", "upgrade-headers", quote(m.one("upgrade")) << " " << quote(m.one("connection")));
		EXPECT(ref::b64_len(a.key) == 16, "upgrade-key", quote(a.key));
		EXPECT(keys.insert(a.key).second, "upgrade-key-repeated", quote(a.key));
		EXPECT(m.one("x-att") == std::to_string(a.id), "upgrade-header", quote(m.one("x-att")));
		a.wr.feed(a.rd.buf);
		a.rd.buf.clear();
		count("upgrade_requests");
		later(sim::rng().coin() ? 0 : sim::rng().below(40 * MS), [this, ap] { if (!ap->p->closed && !ap->done && !ap->p->reset) shake(*ap); });
	}
	void shake(Att &a) {
		Rng &g = sim::rng();
		Att *ap = &a;
		std::string acc = ref::ws_accept(a.key), nl = "\r\n", up = "Upgrade: websocket\r\n", co = "Connection: Upgrade\r\n", st = "HTTP/1.1 101 Switching Protocols\r\n", rest, tail;
		a.answered = true;
		std::string text;
		switch (a.hs) {
		case H_GOOD: text = st + up + co + "Sec-WebSocket-Accept: " + acc + nl + nl; break;
		case H_ODD: {
			std::vector<std::string> h = {g.coin() ? "UPGRADE: WebSocket\r\n" : "upgrade:websocket\r\n", g.coin() ? "connection: upgrade\r\n" : "Connection:  keep-alive, Upgrade\r\n", "SEC-WEBSOCKET-ACCEPT:" + std::string(g.below(3), ' ') + acc + nl, "Server: x\r\n", "X-Extra: a, b; c=\"d\"\r\n"};
			g.shuffle(h);
			text = g.coin() ? st : "HTTP/1.1 101\r\n";
			if (text == "HTTP/1.1 101\r\n") text = "HTTP/1.1 101 \r\n";
			for (auto &x : h) text += x;
			text += nl;
			break;
		}
		case H_BAD_ACCEPT: { std::string b = acc; size_t k = g.below(27); b[k] = b[k] == 'A' ? 'B' : 'A'; if (g.chance(20)) b.pop_back(); text = st + up + co + "Sec-WebSocket-Accept: " + b + nl + nl; break; }
		case H_NO_ACCEPT: text = st + up + co + nl; break;
		case H_OTHER_KEY: { std::string k = a.key; for (auto &u : atts) if (u.get() != &a && !u->key.empty()) k = u->key; if (k == a.key) k = ref::b64(std::string(16, 'q')); text = st + up + co + "Sec-WebSocket-Accept: " + ref::ws_accept(k) + nl + nl; break; }
		case H_200: text = "HTTP/1.1 200 OK\r\n" + up + co + "Sec-WebSocket-Accept: " + acc + nl + (g.coin() ? "" : "Content-Length: 0\r\n") + nl; break;
		case H_404: text = "HTTP/1.1 404 Not Found\r\nContent-Length: 5\r\n\r\nhello"; break;
		case H_NO_UPGRADE: text = st + co + "Sec-WebSocket-Accept: " + acc + nl + nl; break;
		case H_NO_CONN: text = st + up + "Sec-WebSocket-Accept: " + acc + nl + nl; break;
		case H_LENGTH: text = st + up + co + "Sec-WebSocket-Accept: " + acc + nl + "Content-Length: 5" + nl + nl + "hello"; break;
		case H_CHUNKED: text = st + up + co + "Sec-WebSocket-Accept: " + acc + nl + "Transfer-Encoding: chunked" + nl + nl + "0\r\n\r\n"; break;
		case H_GARBAGE: text = g.coin() ? "HTTP/1.1 1x1 Q\r\n\r\n" : "\x81\x05hello\x00\x01\r\n\r\n\r\n"; break;
		case H_CLOSE: leave(a, g.coin() ? 1 : 2); return;
		case H_RESET: leave(a, 0); return;
		case H_NEVER: a.answered = false; return;
		case H_PARTIAL: {
			text = st + up + co + "Sec-WebSocket-Accept: " + acc + nl + nl;
			text.resize(text.size() - 1 - g.below(text.size() - 1));
			a.s.put(text);
			a.s.then = [this, ap] { Att *q = ap; later(sim::rng().below(5 * MS), [this, q] { leave(*q, int(sim::rng().below(3))); }); };
			a.s.go();
			return;
		}
		}
		a.s.put(text);
		count("handshakes_answered");
		if (a.hs == H_GOOD || a.hs == H_ODD) {
			a.good = true;
			a.hs_end = a.s.appended;
			if (a.early && a.items_left) { --a.items_left; ws_act(a); }
			a.s.go();
			ws_next(a);
			return;
		}
		count("handshakes_wrong");
		a.hs_end = a.s.appended;
		if (g.coin()) a.s.put(ref::ws_frame(1, true, "must not be seen", false));
		a.s.go();
		if (g.chance(20)) later(g.below(30 * MS), [this, ap] { leave(*ap, int(sim::rng().below(3))); });
	}
	void ws_next(Att &a) {
		if (a.ended || a.p->closed) return;
		Att *ap = &a;
		later(sim::rng().coin() ? sim::rng().below(MS) : sim::rng().below(50 * MS), [this, ap] {
			Att &x = *ap;
			if (x.ended || x.p->closed || x.done) return;
			if (x.close_got || x.p->eof) return;
			if (x.items_left) { --x.items_left; ws_act(x); x.s.go(); ws_next(x); }
			else ws_end(x);
		});
	}
	void ws_ctl(Att &a) {
		Rng &g = sim::rng();
		std::string b = g.bstr(g.len(125));
		int op = g.chance(70) ? 9 : 10;
		a.s.put(ref::ws_frame(op, true, b, false));
		if (op == 9) a.pings.emplace_back(b, a.s.appended);
	}
	void ws_act(Att &a) {
		Rng &g = sim::rng();
		if (g.chance(25)) { ws_ctl(a); return; }
		int op = g.coin() ? 1 : 2;
		size_t n = g.len(vol(g.chance(70) ? 400 : 70000));
		std::string b = op == 1 ? utf8_text(g, n) : g.bstr(n);
		bool bad = op == 1 && g.chance(4);
		if (bad) b.insert(b.begin() + long(g.below(2) ? 0 : b.size()), '\xff');
		size_t pos = 0, parts = g.coin() ? 1 : 1 + g.below(5);
		for (size_t i = 0; i != parts; ++i) {
			size_t k = i + 1 == parts ? b.size() - pos : g.below(b.size() - pos + 1);
			a.s.put(ref::ws_frame(i ? 0 : op, i + 1 == parts, b.substr(pos, k), false, 0, int(g.below(12) == 0 ? 2 : g.below(12) == 1 ? 1 : 0)));
			pos += k;
			if (i + 1 != parts) while (g.chance(30)) ws_ctl(a);
		}
		if (bad) { a.utf_bad = a.ended = true; count("ws_bad_texts"); return; }
		a.sent.push_back({op, b, 0, a.s.appended});
	}
	void ws_end(Att &a) {
		Rng &g = sim::rng();
		a.ended = true;
		Att *ap = &a;
		switch (g.below(6)) {
		case 0: case 1: {
			int code = g.chance(20) ? 0 : int(1000 + g.below(4000));
			std::string reason = code ? utf8_text(g, g.below(100)) : "", b;
			if (code) { b += char(code >> 8); b += char(code); b += reason; }
			if (code && g.chance(15)) { b.insert(2 + g.below(reason.size() + 1), "\xff"); reason.clear(); count("ws_close_bad_reasons"); }
			a.s.put(ref::ws_frame(8, true, b, false));
			a.sent.push_back({8, reason, code ? code : 1005, a.s.appended});
			a.peer_close = true;
			break;
		}
		case 2: {
			a.violated = true;
			std::string f;
			switch (g.below(5)) {
			case 0: f = ref::ws_frame(1 | 0x40, true, "x", false); break;
			case 1: f = ref::ws_frame(3, true, "x", false); break;
			case 2: f = ref::ws_frame(0, true, "x", false); break;
			case 3: f = ref::ws_frame(1, false, "x", false) + ref::ws_frame(2, true, "y", false); break;
			default: f = ref::ws_frame(9, false, "x", false); break;
			}
			a.s.put(f);
			count("ws_violations");
			break;
		}
		case 3: later(g.below(40 * MS), [this, ap] { leave(*ap, 0); }); a.lossy = true; break;
		case 4: break;
		default: a.s.put(ref::ws_frame(1, false, "unfinished", false)); break;
		}
		a.s.go();
		if (a.violated) return;
		a.s.then = [this, ap] { Att *q = ap; later(sim::rng().below(40 * MS), [this, q] {
			if (q->p->closed || q->done) return;
			if (q->linger && q->peer_close && !settling) return;
			if (q->out_got < q->out.size() || q->pongs < q->pings.size()) q->lossy = true;  // half-close stops what the client still has to send
			leave(*q, 2);
		}); };
		a.s.go();
	}
	void ws_receive(Att &a) {
		ref::WsFrame f;
		while (a.wr.next(f)) {
			count("ws_frames");
			ev(u64(f.op) * 16 + 6);
			EXPECT(f.masked, "ws-unmasked", "client sent an unmasked frame");
			EXPECT(!a.close_got, "ws-after-close", "frame with opcode " << f.op << " after CLOSE");
			a.same_keys = f.key == a.last_key ? a.same_keys + 1 : 0;
			a.last_key = f.key;
			EXPECT(a.same_keys < 3, "ws-same-mask", "masking key does not change");
			if (f.op == 9) {
				if (a.usr_pings_got < a.usr_pings.size()) EXPECT(f.body == a.usr_pings[a.usr_pings_got], "ws-ping-body", quote(f.body, 60));
				else VIOL("ws-ping-excess", quote(f.body, 60));
				a.usr_pings_got++;
			} else if (f.op == 10) {
				if (a.pongs < a.pings.size()) EXPECT(f.body == a.pings[a.pongs].first, "ws-pong-body", "pong " << a.pongs << " has body " << quote(f.body, 60));
				else VIOL("ws-pong-excess", "pong without a ping");
				a.pongs++;
				count("ws_pongs");
			} else if (f.op == 8) {
				a.close_got = true;
				count("ws_closes");
				if (a.usr_close) EXPECT(f.body == a.close_body || (a.utf_bad && f.body == "\x03\xef"), "ws-close-body", quote(f.body, 60) << " instead of " << quote(a.close_body, 60));
				else EXPECT(a.utf_bad && f.body == "\x03\xef", "ws-close-unasked", "client sent CLOSE " << quote(f.body, 60));
			} else {
				bool cont = f.op == 0;
				if (cont != (a.frag_op != 0)) { VIOL("ws-fragments", "opcode " << f.op << " while a message is " << (a.frag_op ? "unfinished" : "not started")); continue; }
				if (!cont) { a.frag_op = f.op; a.frag.clear(); }
				a.frag += f.body;
				if (f.fin) {
					if (a.out_got < a.out.size())
						EXPECT(a.out[a.out_got].first == a.frag_op && a.out[a.out_got].second == a.frag, "ws-out", "message " << a.out_got << " of " << a.frag.size() << " bytes, opcode " << a.frag_op << "; written " << a.out[a.out_got].second.size() << " bytes, opcode " << a.out[a.out_got].first);
					else VIOL("ws-out-excess", "message nobody wrote: " << quote(a.frag, 60));
					a.out_got++;
					a.frag_op = 0;
					count("ws_out");
				}
			}
		}
		EXPECT(a.wr.error.empty(), "ws-wire", "connection " << a.id << ": " << a.wr.error);
	}
	// ------------------------------------------------------------ monitors at quiet moments
	void block() {
		if (stop) return;
		count("sleeps_checked");
		for (auto &s : slots) {
			if (!s.cur) continue;
			Att &a = *s.cur;
			if (!s.c->is_open()) { VIOL("stall-notice", "connection " << a.id << " ended, the handler was not called, the loop sleeps"); continue; }
			check_state(a);
			EP ep = lib_ep(a.p);
			if (!ep) continue;
			if (ep->app_closed || ep->fd < 0) { VIOL("stall-notice", "connection " << a.id << " is closed, the handler was not called, the loop sleeps"); continue; }
			if (ep->nospace) continue;
			bool shutting = ep->wr_shut;
			if (shutting) {  // ends by itself within the shutdown timeout
				if (!a.bad_at) a.bad_at = sim::now();
				EXPECT(sim::now() <= a.bad_at + 15500 * MS, "stall-shutdown", "connection " << a.id << " is still open 15 seconds after its end");
				continue;
			}
			bool unread = a.reading_later;  // the library does not read before the user does, nor can it see a reset
			if ((ep->rst || ep->err) && unread) continue;
			if (ep->rst || ep->err) { VIOL("stall-reset", "connection " << a.id << ": was reset, the loop sleeps"); continue; }
			if (!unread && a.good && ep->arrived >= a.hs_end) EXPECT(s.c->get_state() >= CC::WEB_MESSAGE_HEADER, "stall-upgrade", "connection " << a.id << ": correct handshake answer arrived, the loop sleeps");
			if (!unread && a.good && a.delivered < a.sent.size() && ep->arrived >= a.sent[a.delivered].end) VIOL("stall-message", "connection " << a.id << ": message " << a.delivered << " arrived completely, the loop sleeps");
			if (!unread && a.answered && !a.good && a.hs_end && ep->arrived >= a.hs_end) VIOL("stall-reject", "connection " << a.id << " (" << hname[a.hs] << "): wrong handshake answer arrived, the loop sleeps and the connection goes on");
			for (auto &p : a.plain) if (!unread && p.end && !p.got && ep->arrived >= p.end) VIOL("stall-response", "connection " << a.id);
			if (!unread && ep->fin) VIOL("stall-close", "connection " << a.id << " was closed by the server, the loop sleeps");
			EP pe = a.p->ep;
			if (pe && !pe->flight && !pe->unread() && !a.p->closed && a.good && !a.utf_bad) {
				EXPECT(a.out_got >= a.out.size() || a.lossy, "stall-out", "connection " << a.id << ": " << a.out.size() << " messages written, " << a.out_got << " sent, the loop sleeps");
				EXPECT(a.usr_pings_got >= a.usr_pings.size() || a.lossy, "stall-out-ping", "connection " << a.id);
				if (!unread && !a.lossy && !a.closes) {
					size_t due = 0;
					while (due < a.pings.size() && a.pings[due].second <= ep->arrived) due++;
					EXPECT(a.pongs >= due, "stall-pong", "connection " << a.id << ": " << due << " pings arrived, " << a.pongs << " pongs sent, the loop sleeps");
				}
			}
		}
	}
	void settle() {
		settling = true;
		progress = sim::now();
		for (auto &u : atts) {
			Att *ap = u.get();
			if (!ap->p || ap->p->closed) continue;
			ap->slow = false;
			ap->p->read_quota = size_t(-1);
			ap->p->poll();
			ap->s.mode = 0;
			ap->s.go(true);
		}
		for (size_t i = 0; i != slots.size(); ++i) if (slots[i].cur && slots[i].c->is_open()) { proceed(i); if (slots[i].cur) read(i); }
		later(5 * SEC, [this] {
			for (auto &u : atts) if (u->p && !u->p->closed && (!u->good || u->eof_seen || u->done || u->close_got || (u->ended && u->linger))) leave(*u, int(sim::rng().below(3)));
		});
	}
	void tick() {}
	void run() {
		sim::on_misuse = [](const std::string &m) { VIOL("fd-misuse", m); };
		next_ext();
		Settling<WsClientCase>::run(*this, loop, 28 * SEC);
		for (auto &u : atts) {
			Att &a = *u;
			if (!a.left) EXPECT(a.told, "not-told", "connection " << a.id << " (" << hname[a.hs] << ") never ended; fate " << a.t->fate << " dns_fail " << a.t->dns_fail << " established " << !!a.p << " lossy " << a.lossy << " done " << a.done << " asked " << a.asked << " ended " << a.ended << " eof " << a.eof_seen << " items " << a.items_left);
			if (a.good && !a.left && !a.excused && !a.usr_close && !a.lossy) {
				EXPECT(a.delivered == a.sent.size(), "ws-lost", "connection " << a.id << " delivered " << a.delivered << " of " << a.sent.size());
				EXPECT(a.pongs >= (a.gone_by_peer ? a.pongs_due : a.pings.size()) || a.cut || a.peer_close || a.utf_bad || a.violated, "ws-pongs", a.pongs << " pongs to " << a.pings.size() << " pings");
				EXPECT(a.out_got >= (a.gone_by_peer ? a.out_due : a.out.size()) || a.cut || a.utf_bad || a.violated, "ws-out-lost", a.out_got << " of " << a.out.size() << " messages arrived");
			}
		}
		std::ostringstream os;
		os << slots.size() << " clients, " << atts.size() << " connections, " << ctx().events << " events, " << sim::now() / MS << " ms";
		ctx().desc = os.str();
		ctx().nontrivial = !atts.empty();
		stop = true;
		for (auto &s : slots) { s.gen++; s.c.reset(); }
		ext.reset();
		timers.clear();
	}
};

template<class T>
void body() {
	sim::Config c;
	random_net(c, ctx().rng);
	sim::begin(c, ctx().rng.next());
	{
		T t;
		t.run();
	}
	EXPECT(sim::open_fds() == 0, "fd-leak", sim::open_fd_list());
	sim::end();
}
}  // namespace

int main(int argc, char **argv) {
	return harness_main(argc, argv, {{"client", [] { body<ClientCase>(); }}, {"wsclient", [] { body<WsClientCase>(); }},
	    {"release", [] { if (Rng(ctx().caseseed).coin()) repeat_release("client", body<ClientCase>); else repeat_release("wsclient", body<WsClientCase>); }}});
}
