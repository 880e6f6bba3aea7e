// H08 WebSocket server, H10 request/response pairing, H11 failures and disconnects, H12 connection limit, H13 streamed bodies.
// A real http::Server on the simulated kernel against raw peers which write and read the wire formats with reference codecs.
#include <crab/crab.hpp>
#include "netcase.hpp"
#include "ref.hpp"

namespace http = crab::http;
namespace {

struct Ex {  // one exchange of a connection
	u64 id = 0;
	std::string bytes, method, path, query, body;
	bool keep = true, malformed = false, upgrade = false;
	int minor = 1;
	int behave = 0;
	int status = 200;
	std::vector<size_t> pieces;
	bool chunked = false, xid = true;
	std::string want_body, text, realm, date, server;
	std::vector<size_t> want_chunks;
	bool handled = false, started = false, finished = false, aborted = false;
};
enum Behave { NOW, POSTPONE, STREAM, POSTPONE_STREAM, THROW, POSTPONE_THROW, AUTH, NOW_THROW, OVERSHOOT, STREAM_THROW, NO_FRAMING, NOT_UPGRADABLE, UPGRADE, POSTPONE_UPGRADE, B_COUNT };
const char *bname[] = {"now", "postpone", "stream", "postpone-stream", "throw", "postpone-throw", "auth", "now-throw", "overshoot", "stream-throw", "no-framing", "not-upgradable", "upgrade", "postpone-upgrade"};

struct WsItem { int op; std::string body; int code; u64 end; };
struct Conn;
struct Stream {
	Conn *c = nullptr;
	Ex *ex = nullptr;  // null for a WebSocket message
	http::Client *who = nullptr;
	std::vector<size_t> pieces;
	size_t next = 0;
	u64 pos = 0, id = 0, zero = 0, sleep_until = 0;
	unsigned lazy = 0;
	bool over = false, running = false, overshoot = false, chunked = false;
	int op = 0;
	std::string text;  // WebSocket body
	std::unique_ptr<crab::Timer> t;
};
struct Conn {
	u64 port = 0;
	sim::PeerP p;
	std::vector<Ex> ex;
	std::vector<u64> ends;  // position in the stream where each request ends
	size_t queued = 0, next_handle = 0, next_recv = 0;
	std::string sendq;
	u64 wrote = 0, appended = 0;
	int send_mode = 0;
	bool lossy = false, done = false, slow = false, went = false, linger = false, eof_seen = false;
	ref::MsgReader rd{true};
	// server side
	http::Client *who = nullptr;
	size_t active = size_t(-1);
	bool gone = false, server_closing = false, postponed = false;
	Stream *stream = nullptr;
	unsigned notices = 0;
	// WebSocket
	std::string ws_key;
	bool ws = false, ws_srv = false, ws_early = false;
	ref::WsReader wr;
	std::vector<WsItem> sent;
	size_t delivered = 0;
	std::vector<std::pair<std::string, u64>> pings;
	size_t pongs = 0;
	unsigned items_left = 0, close_reports = 0;
	bool ended = false, violated = false, srv_close = false, peer_close = false, close_got = false, utf_bad = false;
	std::vector<std::pair<int, std::string>> out;
	size_t out_got = 0;
	std::vector<std::string> srv_pings;
	size_t srv_pings_got = 0, probes = 0;
	std::string close_body;
	std::string frag;
	int frag_op = 0;
	u64 last_frame = 0;
	std::deque<std::pair<u64, bool>> wlog;  // user's frames which the peer did not see yet: when written, whether sent at once
	u64 spoke = 0;                          // when the user wrote the last frame which arrived
	size_t handled() const { return next_handle; }
};
std::string utf8_text(Rng &r, size_t n) {
	static const std::vector<std::string> u = {"a", "Z", "0", " ", "\n", "\x7f", "\xc2\x80", "\xdf\xbf", "\xe0\xa0\x80", "\xed\x9f\xbf", "\xee\x80\x80", "\xef\xbf\xbf", "\xf0\x90\x80\x80", "\xf4\x8f\xbf\xbf"};
	std::string s;
	while (s.size() < n) s += r.pick(u);
	return s;
}
bool current_date(const std::string &d) {
	if (d.size() != 29 || d.substr(25) != " GMT") return false;
	time_t now = time(nullptr);
	for (int k = -1; k <= 1; ++k) {  // written within the last hour
		time_t t = now + k * 3600;
		struct tm tm {};
		gmtime_r(&t, &tm);
		char buf[64];
		strftime(buf, sizeof(buf), "%a, %d %b %Y %H:", &tm);
		if (d.compare(0, 20, buf, 20) == 0) {
			int m = -1, s = -1, n = 0;
			if (sscanf(d.c_str() + 20, "%2d:%2d GMT%n", &m, &s, &n) != 2 || n != 9 || m < 0 || m > 59 || s < 0 || s > 60) return false;
			struct tm x = tm;
			x.tm_min = m; x.tm_sec = s;
			time_t v = timegm(&x);
			return v <= now + 5 && v + 1800 > now;
		}
	}
	return false;
}
std::vector<size_t> split_pieces(Rng &r, size_t n) {
	std::vector<size_t> v;
	while (n) {
		if (r.chance(8)) v.push_back(0);
		size_t k = r.coin() ? 1 + r.below(n) : std::min<size_t>(n, 1 + r.below(300));
		if (v.size() > 25) k = n;
		v.push_back(k);
		n -= k;
	}
	if (v.empty() || r.chance(5)) v.push_back(0);
	return v;
}

struct ServerCase {
	Rng &r;
	unsigned ws_share;
	crab::RunLoop loop;
	http::Server::Settings st;
	std::unique_ptr<http::Server> server;
	std::map<u64, std::unique_ptr<Conn>> conns;
	std::list<Stream> streams;
	std::list<crab::Timer> timers;
	std::unique_ptr<crab::Watcher> ext;
	Faults faults;
	u64 next_port = 1000, next_id = 1;
	u64 progress = 0, accept_fault = 0;
	int ops_left;
	bool stop = false, settling = false, idle_phase = false, early_destroy = false;
	size_t max_conns;

	explicit ServerCase(unsigned ws) : r(ctx().rng), ws_share(ws) {
		ops_left = int(10 + r.below(60));
		max_conns = r.coin() ? 1 + r.below(4) : 100;
		st.max_connections = max_conns;
		idle_phase = ws_share && max_conns == 100 && r.chance(30);
		server.reset(new http::Server(crab::Address("127.0.0.1", 8080), st));
		server->r_handler = [this](http::Client *who, http::Request &&rq) { on_request(who, std::move(rq)); };
		ext.reset(new crab::Watcher([this] { if (stop) return; own_op(); if (ops_left > 0) next_ext(); }));
		early_destroy = r.chance(8);
		if (r.chance(30)) {
			faults.arm(r, false);
			for (int s = 0; s != sim::S_COUNT; ++s)
				if (s != sim::S_RECV && s != sim::S_SEND && s != sim::S_ACCEPT) faults.rate[s] = 0;
		}
		sim::fault = [this](sim::Sys s, int fd) {
			int e = faults(s);
			if (e && s == sim::S_ACCEPT) accept_fault = sim::now() + 1500 * MS;  // the library may wait a second before it tries again
			if (e && (s == sim::S_RECV || s == sim::S_SEND)) {
				EP ep = sim::endpoint_of(fd);
				if (ep) { auto it = conns.find(ep->remote.port); if (it != conns.end()) it->second->lossy = true; }
			}
			return e;
		};
		sim::on_block = [this] { block(); };
	}
	~ServerCase() {
		sim::fault = nullptr;
		for (auto &c : conns) if (c.second->p) c.second->p->on_event = nullptr;
	}
	void next_ext() { sim::at(r.below(20 * MS), [this] { if (!stop) ext->call(); }); }
	void after(u64 ns, std::function<void()> fn) {  // in a loop callback
		timers.emplace_back([this, fn] { if (!stop && server) fn(); });
		auto *t = &timers.back();
		t->once(std::chrono::duration_cast<std::chrono::steady_clock::duration>(std::chrono::nanoseconds(ns)));
	}
	u64 delay() { return r.coin() ? r.below(2 * MS) : r.below(60 * MS); }

	// ------------------------------------------------------------ peers
	void make_request(Conn &c, Ex &e, bool last) {
		e.id = next_id++;
		e.minor = r.chance(12) ? 0 : 1;
		e.keep = true;
		bool say_close = r.chance(last ? 30 : 5);
		bool say_keep  = false;
		if (e.minor == 0) { if (last && r.coin()) e.keep = false; else say_keep = true; }
		if (say_close) { e.keep = false; say_keep = false; }
		static const std::vector<std::string> methods = {"GET", "POST", "PUT", "DELETE", "PATCH", "OPTIONS", "M-SEARCH"};
		e.method = r.pick(methods);
		e.path   = "/c" + std::to_string(c.port) + "/e" + std::to_string(e.id);
		if (r.chance(40)) e.query = "k=" + std::to_string(r.below(1000)) + "&z";
		bool has_body = r.chance(50);
		bool chunked  = has_body && e.minor == 1 && r.chance(40);
		if (has_body) e.body = pats(e.id * 2 + 1, 0, r.len(vol(r.coin() ? 300 : 20000)));
		std::string nl = "\r\n";
		std::ostringstream os;
		os << e.method << " " << e.path << (e.query.empty() ? "" : "?" + e.query) << " HTTP/1." << e.minor << nl;
		os << "Host: h" << c.port << nl << "X-Id: " << e.id << nl;
		for (u64 n = r.below(4); n; --n) os << "X-Pad-" << n << ": " << r.str(r.below(60), "abc def") << nl;
		if (say_close) os << "Connection: close" << nl;
		if (say_keep) os << "Connection: keep-alive" << nl;
		if (chunked) {
			os << "Transfer-Encoding: chunked" << nl << nl;
			size_t pos = 0;
			while (pos < e.body.size()) {
				size_t k = std::min<size_t>(e.body.size() - pos, 1 + r.below(r.coin() ? 30 : 5000));
				os << std::hex << k << std::dec << (r.chance(10) ? ";ext=1" : "") << nl << e.body.substr(pos, k) << nl;
				pos += k;
			}
			os << "0" << nl << (r.chance(10) ? "Trailer: x\r\n" : "") << nl;
		} else {
			if (has_body || r.coin()) os << "Content-Length: " << e.body.size() << nl; 
			os << nl << e.body;
		}
		e.bytes = os.str();
		// response plan
		static const std::vector<int> plan = {NOW, NOW, NOW, NOW, POSTPONE, POSTPONE, STREAM, STREAM, POSTPONE_STREAM, THROW, POSTPONE_THROW, AUTH, NOW_THROW, OVERSHOOT, STREAM_THROW, NO_FRAMING, NOT_UPGRADABLE};
		e.behave  = r.pick(plan);
		static const std::vector<int> sts = {200, 200, 200, 201, 404, 500, 299, 422};
		e.status  = r.pick(sts);
		e.chunked = e.minor == 1 && r.coin() && e.behave != OVERSHOOT;
		size_t n  = r.len(vol(r.coin() ? 300 : 30000));
		e.want_body = pats(e.id * 2, 0, n);
		if (e.behave == NOW || e.behave == POSTPONE || e.behave == STREAM || e.behave == POSTPONE_STREAM) {
			if (r.chance(15)) { e.date = "Sun, 06 Nov 1994 08:49:3" + std::to_string(r.below(10)) + " GMT"; count("own_dates"); }
			if (r.chance(15)) e.server = "mine/" + std::to_string(r.below(100));
		}
		switch (e.behave) {
		case THROW: case POSTPONE_THROW:
			e.status = 422; e.chunked = false; e.xid = false;
			e.text = "oops " + std::to_string(e.id) + r.str(r.below(40), "xyz <>");
			e.want_body = e.text;
			break;
		case NO_FRAMING: case NOT_UPGRADABLE: e.status = 422; e.chunked = false; e.xid = false; e.want_body.clear(); break;
		case AUTH: e.status = 401; e.chunked = false; e.xid = false; e.want_body.clear(); e.realm = "realm" + std::to_string(e.id); break;
		case STREAM: case POSTPONE_STREAM: case OVERSHOOT: case STREAM_THROW: 
			e.pieces = split_pieces(r, n);
			if (!e.chunked) {  // the body ends with its last byte
				if (!n) e.pieces.assign(1, 0);
				while (n && !e.pieces.back()) e.pieces.pop_back();
			}
			break;
		default: e.pieces = {n};
		}
		if (e.chunked) for (auto k : e.pieces) if (k) e.want_chunks.push_back(k);
	}
	void make_upgrade(Conn &c, Ex &e) {
		e.id = next_id++;
		e.upgrade = true;
		e.method = "GET";
		e.path   = "/c" + std::to_string(c.port) + "/ws" + std::to_string(e.id);
		c.ws_key = ref::b64(r.bstr(16));
		std::ostringstream os;
		os << "GET " << e.path << " HTTP/1.1\r\nHost: h\r\nX-Id: " << e.id << "\r\n";
		os << (r.coin() ? "Connection: Upgrade\r\n" : "Connection: keep-alive, Upgrade\r\n") << (r.coin() ? "Upgrade: websocket\r\n" : "upgrade: WebSocket\r\n");
		os << "Sec-WebSocket-Key: " << c.ws_key << "\r\nSec-WebSocket-Version: 13\r\n\r\n";
		e.bytes  = os.str();
		e.behave = r.coin() ? UPGRADE : POSTPONE_UPGRADE;
		e.status = 101;
		e.xid    = false;
	}
	void make_malformed(Conn &, Ex &e) {
		static const std::vector<std::string> bad = {"G@T / HTTP/1.1\r\n\r\n", "GET / HTTP/2.0\r\n\r\n", "GET / HTTP/1.1\r\nContent-Length: x\r\n\r\n", "GET / HTTP/1.1\r\nContent-Length: 5\r\nContent-Length: 6\r\n\r\n",
		    "POST / HTTP/1.1\r\nTransfer-Encoding: chunked\r\n\r\nZZ\r\n", "GET / HTTP/1.1\r\nBad Header: 1\r\n\r\n", " / HTTP/1.1\r\n\r\n", "GET / HTTPS/1.1\r\n\r\n", "GET /\x01 HTTP/1.1\r\n: novalue\r\n\r\n"};
		e.malformed = true;
		e.bytes = r.pick(bad) + (r.coin() ? std::string() : std::string("GET /after HTTP/1.1\r\nHost: q\r\n\r\n"));
	}
	void connect_peer(u64 not_before = 0) {
		auto u = std::unique_ptr<Conn>(new Conn);
		Conn &c = *u;
		c.port = next_port++;
		conns[c.port] = std::move(u);
		size_t n = 1 + r.below(6);
		bool ws  = r.chance(ws_share);
		bool bad = !ws && r.chance(15);
		if (ws && r.coin()) n = 0;
		c.ex.resize(n + ((ws || bad) ? 1 : 0));
		for (size_t i = 0; i != n; ++i) make_request(c, c.ex[i], i + 1 == n && !ws && !bad);
		if (ws) { make_upgrade(c, c.ex[n]); c.items_left = unsigned(r.below(12)); c.ws_early = r.chance(30); }
		if (bad) make_malformed(c, c.ex[n]);
		c.send_mode = int(r.below(3));
		c.slow   = r.chance(20);
		c.linger = r.chance(25);
		c.p = sim::peer_connect(sim::ip4("127.0.0.1", 8080), sim::ip4("10.1.1.1", uint16_t(c.port)), not_before);
		if (c.slow) c.p->read_quota = r.below(200);
		u64 port = c.port;
		c.p->on_event = [this, port] { peer_event(*conns[port]); };
		NOTE("peer " << port << " connects: " << n << " requests" << (ws ? " + websocket" : bad ? " + malformed" : "") << " mode " << c.send_mode);
		if (c.send_mode == 2) queue_next(c); else while (c.queued < c.ex.size()) queue_next(c);
		if (!bad && r.chance(ws ? 5 : 15)) {  // leaves in the middle
			u64 kind = r.below(3);
			sim::at(r.below(200 * MS), [this, port, kind] {
				Conn &x = *conns[port];
				if (stop || x.done || x.p->closed) return;
				x.lossy = x.done = true;
				NOTE("peer " << port << " leaves, kind " << kind);
				count("peers_left");
				if (kind == 0) x.p->abort(); else if (kind == 1) x.p->close(); else { x.sendq.clear(); x.p->shutdown(); }
			});
		}
		count("peers");
	}
	void queue_next(Conn &c) {
		if (c.queued >= c.ex.size()) return;
		Ex &e = c.ex[c.queued++];
		c.sendq += e.bytes;
		c.appended += e.bytes.size();
		c.ends.push_back(c.appended);
		if (e.upgrade && c.ws_early && c.items_left) { --c.items_left; ws_act(c); }
		send_some(c);
	}
	void send_some(Conn &c) {
		if (c.sendq.empty() || c.p->closed) return;
		bool all = c.send_mode != 1 || settling;
		size_t n = all ? c.sendq.size() : std::min<size_t>(c.sendq.size(), 1 + sim::rng().len(vol(3000)));
		std::string part = c.sendq.substr(0, n);
		c.wrote += n;
		c.sendq.erase(0, n);
		c.p->write(part);  // may come back here
		if (!c.sendq.empty()) { u64 port = c.port; sim::at(sim::rng().below(20 * MS), [this, port] { if (!stop) send_some(*conns[port]); }); }
	}
	void finish_peer(Conn &c, bool now) {  // everything was exchanged: leave
		if (c.done && !now) return;
		c.done = true;
		if (c.p->closed) return;
		u64 port = c.port;
		sim::at(sim::rng().below(20 * MS), [this, port] { Conn &x = *conns[port]; if (!stop && !x.p->closed) { if (x.delivered < x.sent.size()) x.lossy = true; x.p->close(); } });
	}
	void peer_event(Conn &c) {
		sim::Peer &p = *c.p;
		progress = std::max(progress, sim::now());
		if (!p.in.empty()) {
			ev(p.in.size() * 8 + 1);
			if (c.ws) c.wr.feed(p.in); else c.rd.feed(p.in);
			p.in.clear();
			while (!c.ws) {
				ref::Msg m;
				if (!c.rd.next(m)) break;
				got_response(c, m);
			}
			EXPECT(c.rd.error.empty(), "response-wire", "conn " << c.port << ": " << c.rd.error);
			if (c.ws) ws_receive(c);
		}
		if (c.slow && p.read_quota == 0 && !settling && !c.went) {
			c.went = true;
			u64 port = c.port;
			sim::at(sim::rng().below(30 * MS), [this, port] { Conn &x = *conns[port]; if (!stop) { x.went = false; x.p->read_quota = settling ? size_t(-1) : 1 + sim::rng().below(3000); x.p->poll(); } });
		}
		if ((p.eof || p.reset) && !c.eof_seen) {
			c.eof_seen = true;
			NOTE("peer " << c.port << " sees " << (p.eof ? "eof" : "reset"));
			bool all = c.next_recv == c.ex.size() || (c.next_recv < c.ex.size() && c.ex[c.next_recv].malformed) || (c.next_recv && !c.ex[c.next_recv - 1].keep);
			if (!c.lossy && !c.done && server) {
				EXPECT(all, "closed-early", "connection " << c.port << " closed by the server after " << c.next_recv << " of " << c.ex.size() << " responses");
				if (all && !c.ws) {
					bool why = c.next_recv < c.ex.size() && (c.ex[c.next_recv].malformed || c.next_recv == 0) ? true : !c.ex[c.next_recv - 1].keep;
					EXPECT(why, "closed-keepalive", "connection " << c.port << " closed although keep-alive was promised");
				}
				if (c.ws) EXPECT(c.close_got || c.violated || c.peer_close, "ws-closed", "WebSocket " << c.port << " closed without a reason");
			}
			if (!c.linger || settling) finish_peer(c, true);
		}
	}
	void got_response(Conn &c, const ref::Msg &m) {
		count("responses");
		if (c.next_recv >= c.ex.size()) { VIOL("response-excess", "connection " << c.port << " got " << c.next_recv + 1 << " responses to " << c.ex.size() << " requests"); return; }
		Ex &e = c.ex[c.next_recv++];
		ev(u64(m.status) * 8 + 2);
		NOTE("peer " << c.port << " got response " << m.status << " to exchange " << e.id);
		if (e.malformed) { VIOL("response-to-malformed", "status " << m.status); return; }
		EXPECT(e.handled && e.started, "response-unasked", "response to exchange " << e.id << " before the handler answered");
		if (c.next_recv > 1) EXPECT(c.ex[c.next_recv - 2].keep, "response-after-close", "");
		EXPECT(m.status == e.status, "response-status", "exchange " << e.id << " (" << bname[e.behave] << ") status " << m.status << ", expected " << e.status);
		if (e.upgrade) {
			EXPECT(m.one("sec-websocket-accept") == ref::ws_accept(c.ws_key) && ref::lower(m.one("upgrade")) == "websocket" && ref::lower(m.one("connection")) == "upgrade", "upgrade-response", "");
			EXPECT(!m.has_length && !m.chunked, "upgrade-body", "");
			c.ws = true;
			c.last_frame = sim::now();
			c.wr.feed(c.rd.buf);
			c.rd.buf.clear();
			count("upgrades");
			ws_next(c);
			return;
		}
		EXPECT(m.minor == e.minor, "response-version", "HTTP/1." << m.minor << " to a request with HTTP/1." << e.minor);
		EXPECT(m.keep_alive() == e.keep, "response-keepalive", "exchange " << e.id << " keep-alive " << m.keep_alive() << ", request asked " << e.keep);
		if (e.xid) EXPECT(m.one("x-id") == std::to_string(e.id), "response-mixed", "exchange " << e.id << " answered by response with id " << quote(m.one("x-id")));
		if (e.behave == NO_FRAMING || e.behave == NOT_UPGRADABLE) EXPECT(!m.has("x-id"), "response-mixed", "");
		else {
			EXPECT(m.body == e.want_body, "response-body", "exchange " << e.id << " (" << bname[e.behave] << ") body of " << m.body.size() << " bytes, expected " << e.want_body.size() << (m.body.size() == e.want_body.size() ? " (content differs)" : "") << " " << quote(m.body, 60));
		}
		EXPECT(m.chunked == e.chunked && m.has_length == !e.chunked, "response-framing", "exchange " << e.id << " chunked " << m.chunked << " length " << m.has_length);
		if (e.chunked) EXPECT(m.chunks == e.want_chunks, "response-chunks", "exchange " << e.id << ": " << m.chunks.size() << " chunks, " << e.want_chunks.size() << " pieces written");
		if (e.behave == AUTH) EXPECT(m.one("www-authenticate") == "Basic realm=\"" + e.realm + "\", charset=\"UTF-8\"", "response-auth", quote(m.one("www-authenticate")));
		else EXPECT(!m.has("www-authenticate"), "response-auth", "");
		EXPECT(m.one("server") == (e.server.empty() ? "crab" : e.server), "response-server", quote(m.one("server")));
		if (!e.date.empty()) EXPECT(m.one("date") == e.date, "response-date", quote(m.one("date")) << " instead of " << quote(e.date));
		else EXPECT(current_date(m.one("date")), "response-date", quote(m.one("date")) << " is not the current time");
		EXPECT(e.finished || e.chunked == false, "response-before-end", "response complete before the handler finished it");
		if (!e.keep || c.next_recv == c.ex.size()) {
			if (c.next_recv != c.ex.size()) count("closes_before_the_end");
			if (e.keep || !c.linger) finish_peer(c, false);
		} else if (c.send_mode == 2) {
			u64 port = c.port;
			sim::at(sim::rng().coin() ? 0 : sim::rng().below(30 * MS), [this, port] { if (!stop) queue_next(*conns[port]); });
		}
	}
	// ------------------------------------------------------------ WebSocket peer
	void ws_next(Conn &c) {
		u64 port = c.port;
		if (c.ended || c.p->closed) return;
		sim::at(sim::rng().coin() ? sim::rng().below(MS) : sim::rng().below(50 * MS), [this, port] {
			Conn &x = *conns[port];
			if (stop || x.ended || x.p->closed || x.done) return;
			if (x.close_got) { finish_peer(x, true); return; }
			if (x.items_left) { --x.items_left; ws_act(x); send_some(x); ws_next(x); }
			else if (!idle_phase) ws_end(x);
		});
	}
	void ws_put(Conn &c, const std::string &f) { c.sendq += f; c.appended += f.size(); }
	void ws_ctl(Conn &c) {
		Rng &g = sim::rng();
		std::string b = g.bstr(g.len(125));
		int op = g.chance(70) ? 9 : 10;
		ws_put(c, ref::ws_frame(op, true, b, true, uint32_t(g.next())));
		if (op == 9) c.pings.emplace_back(b, c.appended);
	}
	void ws_act(Conn &c) {
		Rng &g = sim::rng();
		if (g.chance(25)) { ws_ctl(c); return; }
		int op = g.coin() ? 1 : 2;
		size_t n = g.len(vol(g.chance(70) ? 400 : 70000));
		std::string b = op == 1 ? utf8_text(g, n) : g.bstr(n);
		bool bad = op == 1 && g.chance(4);
		if (bad) b.insert(g.below(b.size() + 1) / 1, g.coin() ? "\xff" : "\xc0\x80"), bad = true;
		ws_msg(c, op, b);
		if (bad) { c.utf_bad = c.ended = c.violated = true; return; }
		c.sent.push_back({op, b, 0, c.appended});
	}
	void ws_msg(Conn &c, int op, const std::string &b) {
		Rng &g = sim::rng();
		size_t pos = 0, parts = g.coin() ? 1 : 1 + g.below(5);
		for (size_t i = 0; i != parts; ++i) {
			size_t k = i + 1 == parts ? b.size() - pos : g.below(b.size() - pos + 1);
			ws_put(c, ref::ws_frame(i ? 0 : op, i + 1 == parts, b.substr(pos, k), true, g.chance(5) ? 0 : uint32_t(g.next()), int(g.below(12) == 0 ? 2 : g.below(12) == 1 ? 1 : 0)));
			pos += k;
			if (i + 1 != parts) while (g.chance(30)) ws_ctl(c);
		}
	}
	void ws_end(Conn &c) {
		Rng &g = sim::rng();
		c.ended = true;
		u64 port = c.port;
		switch (g.below(6)) {
		case 0: case 1: {  // CLOSE frame
			int code = g.chance(20) ? 0 : int(1000 + g.below(4000));
			std::string reason = code ? utf8_text(g, g.below(100)) : "";
			std::string b;
			if (code) { b += char(code >> 8); b += char(code); b += reason; }
			if (code && g.chance(15)) { b.insert(2 + g.below(reason.size() + 1), "\xff"); reason.clear(); count("ws_close_bad_reasons"); }
			ws_put(c, ref::ws_frame(8, true, b, true, uint32_t(g.next())));
			c.sent.push_back({8, reason, code ? code : 1005, c.appended});
			c.peer_close = true;
			break;
		}
		case 2: {  // violation
			c.violated = true;
			std::string f;
			switch (g.below(5)) {
			case 0: f = ref::ws_frame(1 | 0x40, true, "x", true, 1); break;
			case 1: f = ref::ws_frame(3, true, "x", true, 1); break;
			case 2: f = ref::ws_frame(0, true, "x", true, 1); break;  // continuation of nothing
			case 3: f = ref::ws_frame(1, false, "x", true, 1) + ref::ws_frame(2, true, "y", true, 7); break;
			default: f = ref::ws_frame(9, false, "x", true, 1); break;
			}
			ws_put(c, f);
			count("ws_violations");
			break;
		}
		case 3: c.lossy = true; break;
		case 4: break;
		default: if (g.coin()) ws_put(c, ref::ws_frame(1, false, "unfinished", true, 5)); break;
		}
		send_some(c);
		if (c.violated) return;
		bool peer_close = c.peer_close, lossy = c.lossy;
		sim::at(g.below(40 * MS), [this, port, peer_close, lossy] {
			Conn &x = *conns[port];
			if (stop || x.p->closed || (!peer_close && !lossy && !x.sendq.empty())) { if (!stop && !x.p->closed) { x.lossy = x.done = true; x.p->close(); } return; }
			if (lossy) { x.done = true; x.p->abort(); return; }
			if (x.linger && peer_close && x.sendq.empty() && !settling) return;  // settle closes it
			if (!x.sendq.empty()) x.lossy = true;
			if (x.out_got < x.out.size() || x.pongs < x.pings.size() || x.stream) x.lossy = true;  // half-close stops what the server still has to send
			x.done = true;
			NOTE("peer " << port << " ends");
			x.p->shutdown();
		});
	}
	static void spoken(Conn &c) {
		if (c.wlog.empty()) return;
		if (c.wlog.front().second) c.spoke = c.wlog.front().first;
		c.wlog.pop_front();
	}
	static void speaks(Conn &c, bool at_once) { c.wlog.emplace_back(sim::now(), at_once); }
	void ws_receive(Conn &c) {
		ref::WsFrame f;
		while (c.wr.next(f)) {
			count("ws_frames");
			ev(u64(f.op) * 16 + 3);
			EXPECT(!f.masked, "ws-masked", "server masked a frame");
			EXPECT(!c.close_got, "ws-after-close", "frame with opcode " << f.op << " after CLOSE");
			u64 gap = sim::now() - c.last_frame;
			if (!c.slow) EXPECT(gap < 47 * SEC || c.lossy, "ws-silent", "WebSocket " << c.port << " was silent for " << gap / MS << " ms");
			if (f.op == 9) {
				if (f.body.empty()) {
					c.probes++;  // pieces that were only buffered leave together with the probe
					count("ws_probes");
					if (!c.slow && !c.frag_op) EXPECT(gap >= 30 * SEC, "ws-probe-early", "probe after " << gap / MS << " ms");
					if (c.spoke) { EXPECT(sim::now() >= c.spoke + 44 * SEC, "ws-probe-unneeded", "WebSocket " << c.port << " probed " << (sim::now() - c.spoke) / MS << " ms after a frame was written"); count("ws_probes_timed"); }
				} else {
					spoken(c);
					if (c.srv_pings_got < c.srv_pings.size()) EXPECT(f.body == c.srv_pings[c.srv_pings_got], "ws-ping-body", quote(f.body, 60));
					else VIOL("ws-ping-excess", quote(f.body, 60));
					c.srv_pings_got++;
				}
			} else if (f.op == 10) {
				if (c.pongs < c.pings.size()) EXPECT(f.body == c.pings[c.pongs].first, "ws-pong-body", "pong " << c.pongs << " has body " << quote(f.body, 60));
				else VIOL("ws-pong-excess", "pong without a ping");
				c.pongs++;
				count("ws_pongs");
			} else if (f.op == 8) {
				c.close_got = true;
				count("ws_closes");
				if (c.srv_close) EXPECT(f.body == c.close_body || (c.utf_bad && f.body == "\x03\xef"), "ws-close-body", quote(f.body, 60) << " instead of " << quote(c.close_body, 60));
				else {
					EXPECT(c.utf_bad, "ws-close-unasked", "server sent CLOSE " << quote(f.body, 60));
					EXPECT(f.body.size() >= 2 && f.body[0] == char(1007 >> 8) && f.body[1] == char(1007 & 255), "ws-close-utf8", quote(f.body, 60));
				}
				u64 port = c.port;
				if (!c.linger) sim::at(sim::rng().below(20 * MS), [this, port] { Conn &x = *conns[port]; if (!stop && !x.p->closed) { x.done = true; x.p->close(); } });
			} else {
				bool cont = f.op == 0;
				spoken(c);
				if (cont != (c.frag_op != 0)) { VIOL("ws-fragments", "opcode " << f.op << " while a message is " << (c.frag_op ? "unfinished" : "not started")); continue; }
				if (!cont) { c.frag_op = f.op; c.frag.clear(); }
				c.frag += f.body;
				if (f.fin) {
					if (c.out_got < c.out.size())
						EXPECT(c.out[c.out_got].first == c.frag_op && c.out[c.out_got].second == c.frag, "ws-out", "message " << c.out_got << " of " << c.frag.size() << " bytes, opcode " << c.frag_op << "; written " << c.out[c.out_got].second.size() << " bytes, opcode " << c.out[c.out_got].first);
					else VIOL("ws-out-excess", "message nobody wrote: " << quote(c.frag, 60));
					c.out_got++;
					c.frag_op = 0;
					count("ws_out");
				}
			}
			c.last_frame = sim::now();
		}
		EXPECT(c.wr.error.empty(), "ws-wire", "conn " << c.port << ": " << c.wr.error);
	}
	// ------------------------------------------------------------ server side
	Conn *conn_of(http::Client *who) {
		auto it = conns.find(who->get_peer_address().get_port());
		if (it == conns.end()) { VIOL("unknown-peer", "request from " << who->get_peer_address().to_string()); return nullptr; }
		return it->second.get();
	}
	EP lib_ep(Conn &c) { return c.p->ep ? c.p->ep->peer.lock() : EP(); }
	void begin_response(Conn &, Ex &e) { e.started = true; }
	void end_response(Conn &c, Ex &e) {
		e.finished = true;
		c.active = size_t(-1);
		c.postponed = false;
		c.stream = nullptr;
		if (!e.keep) c.server_closing = true;
		count("answered");
	}
	http::Response make_response(Ex &e) {
		http::Response resp;
		resp.header.status = e.status;
		resp.header.headers.push_back({"X-Id", std::to_string(e.id)});
		resp.header.date = e.date;
		resp.header.server = e.server;
		if (e.chunked) { resp.header.transfer_encoding_chunked = true; resp.body = e.want_body; if (r.chance(30)) resp.header.content_length = e.want_body.size(); }
		else resp.set_body(std::string(e.want_body));
		return resp;
	}
	void answer(Conn &c, Ex &e) {
		begin_response(c, e);
		auto resp = make_response(e);
		NOTE("answer exchange " << e.id << " conn " << c.port);
		c.who->write(std::move(resp));
		end_response(c, e);
	}
	void start_stream(Conn &c, Ex &e) {
		streams.emplace_back();
		Stream &s = streams.back();
		s.c = &c; s.ex = &e; s.who = c.who; s.pieces = e.pieces; s.id = e.id * 2; s.chunked = e.chunked;
		s.overshoot = e.behave == OVERSHOOT;
		c.stream = &s;
		begin_response(c, e);
		http::ResponseHeader h;
		h.status = e.status;
		h.headers.push_back({"X-Id", std::to_string(e.id)});
		h.date = e.date;
		h.server = e.server;
		if (e.chunked) { h.transfer_encoding_chunked = true; if (r.chance(30)) h.content_length = e.want_body.size(); }
		else h.content_length = e.want_body.size();
		NOTE("stream exchange " << e.id << " conn " << c.port << " pieces " << s.pieces.size() << " chunked " << e.chunked);
		c.who->start_write_stream(h, stream_handler(s));
		count("streams");
	}
	std::function<void()> stream_handler(Stream &s) {
		std::string canary = "canary " + std::to_string(s.id) + std::string(40, 'c');
		Stream *ps = &s;
		return [this, ps, canary] {
			pump(*ps);
			EXPECT(canary.size() > 40 && canary[0] == 'c' && canary.back() == 'c', "handler-destroyed", "captured state of the running handler is gone");
		};
	}
	void pump(Stream &s) {
		Conn &c = *s.c;
		if (s.over) { VIOL("stream-after-end", "stream handler called after the stream ended"); return; }
		if (s.running) return;
		progress = std::max(progress, sim::now());
		if (!s.who->is_open()) {
			s.over = true;
			if (s.t) s.t->cancel();
			disconnected(c, s.ex ? "stream" : "ws-stream");
			return;
		}
		s.running = true;
		count("pumps");
		while (s.next < s.pieces.size()) {
			if (!s.who->can_write()) { s.running = false; count("stream_backpressure"); return; }
			if (sim::now() < s.sleep_until) { s.running = false; return; }
			if (s.lazy && s.next) {
				--s.lazy;
				u64 ms = 1000 + r.below(39000);
				s.sleep_until = sim::now() + ms * MS;
				progress = std::max(progress, s.sleep_until + 5 * SEC);
				if (!s.t) { Stream *ps = &s; s.t.reset(new crab::Timer([this, ps] { if (!stop && server && !ps->over) pump(*ps); })); }
				s.t->once(std::chrono::microseconds(ms * 1000 + 1));
				s.running = false;
				count("ws_lazy_naps");
				return;
			}
			if (r.chance(settling ? 2 : 15)) {
				bool nap = idle_phase && !settling && !s.ex && !s.sleep_until && r.coin();
				if (nap) { s.sleep_until = sim::now() + 95 * SEC; count("ws_stream_naps"); NOTE("ws " << c.port << " stream pauses long"); }
				if (!s.t) { Stream *ps = &s; s.t.reset(new crab::Timer([this, ps] { if (!stop && server && !ps->over) pump(*ps); })); }
				s.t->once(std::chrono::microseconds((nap ? 95000000 : 0) + r.below(20000)));
				s.running = false;
				return;
			}
			size_t k = s.pieces[s.next];
			bool last = s.next + 1 == s.pieces.size();
			bool len  = s.ex && !s.chunked;
			crab::BufferOptions bo = (!last || !len) && r.chance(30) ? crab::BUFFER_ONLY : crab::WRITE;
			if (s.overshoot && r.chance(40)) {
				size_t left = 0;
				for (size_t i = s.next; i != s.pieces.size(); ++i) left += s.pieces[i];
				bool threw = false;
				std::string big(left + 1 + r.below(10), 'o');
				try { if (r.coin()) s.who->write(big.data(), big.size()); else s.who->write(std::move(big)); } catch (const std::logic_error &) { threw = true; }
				EXPECT(threw, "overshoot", "writing " << left + 1 << " of " << left << " remaining bytes did not throw");
				count("overshoots");
			}
			std::string d = s.ex ? pats(s.id, s.pos, k) : s.text.substr(s.pos, k);
			s.next++;
			s.pos += k;
			bool fin = last && len;
			if (!fin && !last && s.zero < 3 && len) {}
			if (fin) { s.over = true; end_response(c, *s.ex); }
			if (!s.ex && k) speaks(c, bo == crab::WRITE);
			switch (r.below(3)) {
			case 0: s.who->write(std::move(d), bo); break;
			case 1: s.who->write(d.data(), d.size(), bo); break;
			default: s.who->write(reinterpret_cast<const uint8_t *>(d.data()), d.size(), bo);
			}
			if (fin) { finish_stream(s); return; }
			EXPECT(s.who->get_body_position() == s.pos, "body-position", "get_body_position " << s.who->get_body_position() << " after " << s.pos << " bytes written");
		}
		s.over = true;
		if (s.ex) end_response(c, *s.ex);
		else { c.stream = nullptr; speaks(c, true); if (!c.srv_close) c.out.emplace_back(s.op, s.text); }
		s.who->write_last_chunk();
		finish_stream(s);
	}
	void finish_stream(Stream &s) {
		s.running = false;
		if (s.t) s.t->cancel();
		count("streams_finished");
	}
	void disconnected(Conn &c, const char *how) {
		NOTE("disconnect notice conn " << c.port << " via " << how);
		c.notices++;
		count("disconnect_notices");
		EXPECT(!c.gone || how == std::string("ws-stream"), "notice-twice", "connection " << c.port << " reported disconnected again via " << how);
		EP ep = lib_ep(c);
		if (c.done && how == std::string("ws-stream")) c.lossy = true;  // peer left, the stream stopped reading of what it sent before
		c.gone = true;
		c.stream = nullptr;
		if (c.active != size_t(-1)) { c.ex[c.active].aborted = true; c.active = size_t(-1); }
		c.postponed = false;
		c.who = nullptr;
	}
	std::function<void()> notice(Conn &c, Ex &e) {
		Conn *pc = &c;
		Ex *pe   = &e;
		std::string canary(50, 'd');
		return [this, pc, pe, canary] {
			EXPECT(pc->active != size_t(-1) && &pc->ex[pc->active] == pe && pc->postponed, "notice-spurious", "disconnect notice of exchange " << pe->id << " which is not postponed any more");
			http::Client *who = pc->who;
			disconnected(*pc, "postpone");
			if (who && r.chance(20)) { who->write(http::Response::simple_text(200)); EXPECT(canary == std::string(50, 'd'), "handler-destroyed", "captured state of the running handler is gone"); count("late_writes"); }
		};
	}
	void on_request(http::Client *who, http::Request &&rq) {
		progress = std::max(progress, sim::now());
		count("requests");
		Conn *pc = conn_of(who);
		if (!pc) { who->write(http::Response::simple_text(500)); return; }
		Conn &c = *pc;
		ev(c.port * 16 + 4);
		EXPECT(!c.gone, "request-after-disconnect", "connection " << c.port);
		EXPECT(c.active == size_t(-1), "request-overlap", "connection " << c.port << " handed over a request while exchange " << (c.active == size_t(-1) ? 0 : c.ex[c.active].id) << " is not answered");
		EXPECT(!c.server_closing, "request-after-close", "connection " << c.port << " handed over a request after the last response");
		EXPECT(!c.ws_srv, "request-after-upgrade", "");
		if (c.next_handle >= c.ex.size() || c.ex[c.next_handle].malformed) {
			VIOL("request-invented", "connection " << c.port << " handed over request " << c.next_handle << ": " << rq.header.method << " " << quote(rq.header.path, 80));
			who->write(http::Response::simple_text(500));
			return;
		}
		size_t idx = c.next_handle++;
		Ex &e = c.ex[idx];
		std::string xid;
		size_t nx = 0;
		for (auto &h : rq.header.headers) if (h.name == "x-id") { xid = h.value; nx++; }
		EXPECT(xid == std::to_string(e.id) && nx == 1, "request-order", "connection " << c.port << " handed over request " << quote(xid) << " instead of " << e.id);
		EXPECT(rq.header.method == e.method && rq.header.path == e.path && rq.header.query_string == e.query, "request-line", rq.header.method << " " << quote(rq.header.path) << "?" << quote(rq.header.query_string) << " instead of " << e.method << " " << e.path << "?" << e.query);
		EXPECT(rq.body == e.body, "request-body", "exchange " << e.id << " body of " << rq.body.size() << " bytes instead of " << e.body.size() << ": " << quote(rq.body, 60) << " instead of " << quote(e.body, 60) << " sent as " << quote(e.bytes, 900));
		EXPECT(rq.header.keep_alive == e.keep, "request-keepalive", "");
		size_t served = 0;
		for (auto &kv : conns) {
			Conn &o = *kv.second;
			EP oe = lib_ep(o);
			if (oe && !oe->app_closed && (&o == &c || (o.next_handle && !o.gone))) served++;
		}
		EXPECT(served <= max_conns, "limit", served << " connections served, limit " << max_conns);
		if (served == max_conns) count("limit_reached");
		e.handled = true;
		c.active = idx;
		c.who = who;
		NOTE("handle exchange " << e.id << " conn " << c.port << " " << bname[e.behave]);
		Conn *cp = &c;
		Ex *ep = &e;
		switch (e.behave) {
		case NOW: answer(c, e); break;
		case NOW_THROW: answer(c, e); throw std::runtime_error("after the response");
		case NO_FRAMING: {
			http::Response resp;
			resp.header.status = 200;
			resp.header.headers.push_back({"X-Id", "never"});
			resp.body = "x";
			begin_response(c, e);
			end_response(c, e);
			who->write(std::move(resp));
			VIOL("no-framing", "response without length or chunked encoding accepted");
			break;
		}
		case NOT_UPGRADABLE:
			begin_response(c, e);
			end_response(c, e);
			who->web_socket_upgrade([](http::WebMessage &&) {});
			VIOL("upgrade-plain", "upgraded a plain request");
			break;
		case THROW: begin_response(c, e); end_response(c, e); throw std::runtime_error(e.text);
		case AUTH: begin_response(c, e); end_response(c, e); throw http::ErrorAuthorization(e.realm);
		case POSTPONE_THROW:
			begin_response(c, e);
			end_response(c, e);
			who->postpone_response([this, cp] { VIOL("notice-spurious", "disconnect notice of an exchange which was answered"); });
			throw std::runtime_error(e.text);
		case STREAM: case OVERSHOOT: start_stream(c, e); break;
		case STREAM_THROW: start_stream(c, e); throw std::runtime_error("after the stream started");
		case POSTPONE: case POSTPONE_STREAM: case POSTPONE_UPGRADE:
			c.postponed = true;
			who->postpone_response(notice(c, e));
			count("postponed");
			after(delay(), [this, cp, ep] {
				if (cp->gone || cp->active == size_t(-1) || &cp->ex[cp->active] != ep) return;
				cp->postponed = false;
				if (ep->behave == POSTPONE) answer(*cp, *ep);
				else if (ep->behave == POSTPONE_STREAM) start_stream(*cp, *ep);
				else upgrade(*cp, *ep);
			});
			break;
		case UPGRADE: upgrade(c, e); break;
		}
	}
	// ------------------------------------------------------------ WebSocket server side
	void upgrade(Conn &c, Ex &e) {
		begin_response(c, e);
		Conn *cp = &c;
		c.ws_srv = true;
		end_response(c, e);
		std::string canary(50, 'w');
		c.who->web_socket_upgrade([this, cp, canary](http::WebMessage &&m) { on_message(*cp, std::move(m)); EXPECT(canary == std::string(50, 'w'), "handler-destroyed", ""); });
	}
	void on_message(Conn &c, http::WebMessage &&m) {
		progress = std::max(progress, sim::now());
		count("ws_messages");
		ev(u64(m.opcode) * 64 + c.port);
		EXPECT(!c.stream, "ws-while-streaming", "message delivered while a message is being streamed");
		if (m.is_close()) {
			c.close_reports++;
			EXPECT(c.close_reports == 1, "ws-close-twice", "CLOSE reported " << c.close_reports << " times on connection " << c.port);
			EP ep = lib_ep(c);
			bool framed = c.delivered < c.sent.size() && c.sent[c.delivered].op == 8 && m.close_code == c.sent[c.delivered].code && m.body == c.sent[c.delivered].body;
			if (ep && ep->app_closed && !framed) {
				EXPECT(m.close_code == (c.srv_close ? http::WebMessage::CLOSE_STATUS_NORMAL : http::WebMessage::CLOSE_STATUS_DISCONNECT), "ws-close-code", "disconnect reported with code " << m.close_code << ", CLOSE sent " << c.srv_close);
				if (c.gone == false) { c.gone = true; c.who = nullptr; }
				count("ws_disconnects");
			} else {
				EXPECT(framed, "ws-close-frame", "CLOSE " << m.close_code << " " << quote(m.body, 60) << " was not sent by the peer");
				if (framed) c.delivered++;
				c.who = c.gone ? nullptr : c.who;
				if (c.who && !c.srv_close && r.coin()) send_close(c, 1000, "bye");
			}
			return;
		}
		EXPECT(!c.close_reports, "ws-after-report", "message delivered after CLOSE");
		if (c.delivered >= c.sent.size()) VIOL("ws-invented", "message nobody sent: " << quote(m.body, 60));
		else {
			WsItem &w = c.sent[c.delivered];
			EXPECT(w.op == int(m.opcode) && w.body == m.body, "ws-message", "message " << c.delivered << ": opcode " << int(m.opcode) << " of " << m.body.size() << " bytes instead of " << w.op << " of " << w.body.size());
		}
		c.delivered++; NOTE("ws " << c.port << " message " << c.delivered);
		if (!c.who || c.gone) { VIOL("ws-after-disconnect", "message delivered after disconnect"); return; }
		user_ws(c, &m);
	}
	void send(Conn &c, int op, const std::string &b) {
		if (!c.srv_close) c.out.emplace_back(op, b);
		speaks(c, true);
		c.who->write(http::WebMessage(http::WebMessageOpcode(op), b));
	}
	void send_close(Conn &c, int code, const std::string &reason) {
		std::string b;
		if (!(reason.empty() && code == 1005)) {
			int k = code < 1000 ? 1000 : code;
			b += char(k >> 8);
			b += char(k);
			b += reason;
			if (b.size() > 125) b.resize(125);
		}
		c.close_body = b;
		c.srv_close = true;
		NOTE("server closes websocket " << c.port);
		c.who->write(http::WebMessage(http::WebMessageOpcode::CLOSE, reason, uint16_t(code)));
	}
	void user_ws(Conn &c, http::WebMessage *m) {
		if (c.srv_close || c.stream || !c.who) return;
		size_t big = vol(r.chance(80) ? 300 : 70000);
		switch (r.below(12)) {
		case 0: case 1: case 2: if (m) send(c, int(m->opcode), m->body); break;
		case 3: send(c, 1, utf8_text(r, r.len(big))); send(c, 2, r.bstr(r.len(big))); break;
		case 4: {
			std::string b = "p" + r.bstr(r.below(140));
			speaks(c, true);
			c.who->write(http::WebMessage(http::WebMessageOpcode::PING, b));
			if (b.size() > 125) b.resize(125);
			c.srv_pings.push_back(b);
			break;
		}
		case 5: case 6: {
			streams.emplace_back();
			Stream &s = streams.back();
			s.c = &c; s.who = c.who; s.id = next_id++;
			s.op = r.coin() ? 1 : 2;
			s.text = s.op == 1 ? utf8_text(r, r.len(big)) : r.bstr(r.len(big));
			s.pieces = split_pieces(r, s.text.size());
			c.stream = &s;
			speaks(c, false);
			c.who->start_write_stream(http::WebMessageOpcode(s.op), stream_handler(s));
			count("ws_streams"); NOTE("ws " << c.port << " starts stream");
			break;
		}
		case 7:
			if (!m || !r.chance(25)) break;
			{
				std::string what = "handler failed " + r.str(r.below(150), "abc");
				std::string b    = std::string(1, char(1011 >> 8)) + char(1011 & 255) + what;
				if (b.size() > 125) b.resize(125);
				c.close_body = b;
				c.srv_close = true;
				count("ws_throws");
				throw std::runtime_error(what);
			}
		case 8: if (r.chance(25)) send_close(c, r.chance(20) ? 1005 : r.chance(20) ? 5 : int(1000 + r.below(3000)), r.coin() ? "" : utf8_text(r, r.below(200))); break;
		default: break;
		}
	}
	void own_op() {
		--ops_left;
		if (early_destroy && ops_left < 5 && server) {
			NOTE("server destroyed");
			server.reset();
			for (auto &kv : conns) { Conn &c = *kv.second; c.who = nullptr; c.gone = true; c.lossy = true; c.stream = nullptr; c.active = size_t(-1); }
			for (auto &s : streams) { s.over = true; if (s.t) s.t->cancel(); }
			count("servers_destroyed");
			for (auto &kv : conns) { EP ep = lib_ep(*kv.second); EXPECT(!ep || ep->fd < 0 || ep->app_closed, "destroyed-open", "connection " << kv.first << " survives its server"); }
			ops_left = 0;
			return;
		}
		if (conns.size() < 14 && r.chance(conns.empty() ? 100 : 25)) {
			u64 burst = r.chance(20) ? sim::now() + 1 + r.below(5 * MS) : 0;  // several peers arrive at the same moment
			for (u64 n = burst ? 2 + r.below(4) : 1; n--;) connect_peer(burst);
			if (burst) count("connect_bursts");
		}
		else {
			auto it = conns.begin();
			std::advance(it, r.below(conns.size()));
			Conn &c = *it->second;
			if (c.ws_srv && c.who && !c.gone && !c.close_reports) { try { user_ws(c, nullptr); } catch (const std::runtime_error &) {} }
		}
	}
	// ------------------------------------------------------------ monitors at quiet moments
	void block() {
		if (!server || stop) return;
		count("sleeps_checked");
		size_t open = 0;
		for (auto &kv : conns) { EP ep = lib_ep(*kv.second); if (ep && ep->fd >= 0 && !ep->app_closed) open++; }
		EXPECT(open <= max_conns + 1, "limit-open", open << " connections open, limit " << max_conns);
		size_t waiting = 0;
		for (auto &kv : conns) { EP ep = lib_ep(*kv.second); if (ep && ep->fd < 0 && !ep->app_closed && kv.second->p->connected) waiting++; }
		if (waiting) count(open < max_conns ? "room_while_accepts_fail" : "waiting_at_limit");
		if (waiting && open < max_conns && sim::now() > accept_fault) VIOL("stall-accept", waiting << " peers wait for a place, " << open << " connections open, limit " << max_conns << ", the loop sleeps");
		for (auto &kv : conns) {
			Conn &c = *kv.second;
			EP ep = lib_ep(c);
			if (!ep) continue;
			if (ep->app_closed || ep->fd < 0) {
				if (ep->app_closed && !c.gone) {
					EXPECT(!c.postponed, "notice-missing", "connection " << c.port << " is closed, its postponed request was not told");
					EXPECT(!c.stream, "notice-missing-stream", "connection " << c.port << " is closed, its stream handler was not told");
					EXPECT(!c.ws_srv || c.close_reports, "notice-missing-ws", "connection " << c.port << " is closed, its WebSocket handler was not told");
					c.gone = true;
					c.who = nullptr;
				}
				continue;
			}
			if (!c.next_handle && open > max_conns) continue;  // waits for its turn
			if (c.ws_srv && c.ws && !c.slow && !c.lossy && !c.done && !c.srv_close && !c.close_reports && !c.close_got && c.p->connected && !ep->nospace && !ep->rst && !ep->err && !ep->fin)
				EXPECT(sim::now() < c.last_frame + 47 * SEC, "ws-never-probed", "WebSocket " << c.port << " is silent for " << (sim::now() - c.last_frame) / MS << " ms");
			if (ep->nospace || ep->wr_shut || c.server_closing) continue;
			if (c.active == size_t(-1) && !c.ws_srv) {
				if (c.next_handle < c.ends.size() && !c.ex[c.next_handle].malformed && ep->arrived >= c.ends[c.next_handle] && !ep->rst && !ep->err)
					VIOL("stall-request", "connection " << c.port << ": request " << c.ex[c.next_handle].id << " arrived completely, nothing is being answered, the loop sleeps");
			}
			if (c.ws_srv && !c.stream && !c.srv_close && !c.close_reports && !ep->rst && !ep->err) {
				if (c.delivered < c.sent.size() && ep->arrived >= c.sent[c.delivered].end) VIOL("stall-message", "WebSocket " << c.port << ": message " << c.delivered << " arrived completely, the loop sleeps");
			}
			EP pe = c.p->ep;  // everything the library let go has arrived and was read
			if (pe && !pe->flight && !pe->unread() && c.p->connected && !c.p->closed && !c.stream && !ep->rst && !ep->err && !ep->fin) {
				size_t done_ex = c.active == size_t(-1) ? c.next_handle : c.active;
				if (!c.ws && !c.server_closing) EXPECT(c.next_recv >= done_ex, "stall-response", "connection " << c.port << ": " << done_ex << " responses written, " << c.next_recv << " sent, the loop sleeps");
				if (c.ws && !c.srv_close && !c.violated) EXPECT(c.out_got >= c.out.size(), "stall-out", "WebSocket " << c.port << ": " << c.out.size() << " messages written, " << c.out_got << " sent, the loop sleeps");
				if (c.ws && !c.srv_close && !c.violated) EXPECT(c.srv_pings_got >= c.srv_pings.size(), "stall-out-ping", "WebSocket " << c.port);
				if (c.ws && c.ws_srv && !c.srv_close && !c.close_reports && !c.violated) {
					size_t due = 0;
					while (due < c.pings.size() && c.pings[due].second <= ep->arrived) due++;
					EXPECT(c.pongs >= due, "stall-pong", "WebSocket " << c.port << ": " << due << " pings arrived, " << c.pongs << " pongs sent, the loop sleeps");
				}
			}
			bool all_read = ep->arrived == c.wrote && c.sendq.empty();
			if ((ep->fin || ep->rst) && all_read && !c.stream && (c.ws_srv || (c.active != size_t(-1) && c.next_handle == c.queued && c.wrote == c.ends[c.active]) || c.active == size_t(-1))) {
				if (c.wrote != c.appended) continue;
				VIOL("stall-close", "connection " << c.port << " was closed by the peer, nothing is being written, the loop sleeps and the connection is open");
			}
		}
	}
	void settle() {
		settling = true;
		progress = sim::now();
		if (idle_phase) for (auto &kv : conns) {  // now and then something is said, the silence starts again
			Conn *cp = kv.second.get();
			for (u64 n = r.coin() ? 0 : 1 + r.below(5); n--;) {
				if (r.chance(30)) sim::at(r.below(125 * SEC), [this, cp] { if (!stop && !cp->p->closed && cp->ws && !cp->ended && !cp->close_got) { ws_ctl(*cp); send_some(*cp); } });
				else after(r.below(r.coin() ? 20 * SEC : 125 * SEC), [this, cp] {
					Conn &c = *cp;
					if (!c.ws_srv || !c.who || c.gone || c.close_reports || c.srv_close || c.stream) return;
					count("ws_idle_words");
					progress = std::max(progress, sim::now());
					int op = r.coin() ? 1 : 2;
					std::string b = utf8_text(r, r.len(300));
					u64 k = r.below(3);
					if (k == 0) { send(c, op, b); return; }
					if (k == 1) { b.resize(std::min<size_t>(b.size(), 100)); b = "p" + b; speaks(c, true); c.who->write(http::WebMessage(http::WebMessageOpcode::PING, b)); c.srv_pings.push_back(b); return; }
					streams.emplace_back();
					Stream &s = streams.back();
					s.c = &c; s.who = c.who; s.id = next_id++; s.op = op; s.text = b;
					s.pieces = split_pieces(r, b.size());
					c.stream = &s;
					if (r.coin()) s.lazy = 1 + unsigned(r.below(4));
					speaks(c, false);
					c.who->start_write_stream(http::WebMessageOpcode(op), stream_handler(s));
				});
			}
		}
		for (auto &kv : conns) {
			Conn &c = *kv.second;
			c.slow = false;
			if (c.p->closed) continue;
			c.p->read_quota = size_t(-1);
			c.p->poll();
			send_some(c);
			if (c.ws && c.ended && c.linger && c.peer_close) finish_peer(c, true);
		}
		if (idle_phase) {
			progress = sim::now() + 135 * SEC;
			sim::at(130 * SEC, [this] {
				for (auto &kv : conns) { Conn &c = *kv.second; if (!c.p->closed && c.ws && !c.ended && !c.close_got) ws_end(c); }
			});
			count("idle_phases");
		}
	}
	void tick() {}
	void run() {
		sim::on_misuse = [](const std::string &m) { VIOL("fd-misuse", m); };
		next_ext();
		Settling<ServerCase>::run(*this, loop, 22 * SEC);
		if (!server) { finish(); return; }
		for (auto &kv : conns) {
			Conn &c = *kv.second;
			if (c.lossy) continue;
			size_t need = 0;
			while (need < c.ex.size() && !c.ex[need].malformed) { need++; if (!c.ex[need - 1].keep) break; }
			EXPECT(c.next_recv == need, "unanswered", "connection " << c.port << " got " << c.next_recv << " of " << need << " responses; handled " << c.next_handle << ", " << c.rd.leftover() << " bytes of the next one" << (c.p->connected ? "" : ", not connected"));
			if (!c.ws) EXPECT(c.rd.leftover() == 0, "response-excess", "connection " << c.port << " has " << c.rd.leftover() << " bytes after the last response: " << quote(c.rd.buf, 60));
			if (c.ws) {
				if (!c.violated && !c.srv_close) {
					EXPECT(c.delivered == c.sent.size(), "ws-lost", "WebSocket " << c.port << " delivered " << c.delivered << " of " << c.sent.size() << " messages; done " << c.done << " ended " << c.ended << " peer_close " << c.peer_close << " reports " << c.close_reports << " wrote " << c.wrote << "/" << c.appended << " closed " << c.p->closed << " eof " << c.eof_seen << " stream " << !!c.stream << " got close " << c.close_got);
					EXPECT(c.pongs == c.pings.size() || c.peer_close, "ws-pongs", c.pongs << " pongs to " << c.pings.size() << " pings");
				}
				if (!c.violated) {
					EXPECT(c.close_got == c.srv_close || c.peer_close || c.done, "ws-close-lost", "");
				}
				EXPECT(c.close_reports == 1, "ws-close-reports", "WebSocket " << c.port << " CLOSE reported " << c.close_reports << " times");
			}
		}
		for (auto &kv : conns) {
			Conn &c = *kv.second;
			EP ep = lib_ep(c);
			if (ep && ep->fd >= 0 && !ep->app_closed) VIOL("not-released", "connection " << c.port << " is still open");
			EXPECT(c.active == size_t(-1), "not-notified", "exchange " << (c.active == size_t(-1) ? 0 : c.ex[c.active].id) << " never finished and was not told of the disconnect");
		}
		server.reset();
		finish();
	}
	void finish() {
		stop = true;
		std::ostringstream os;
		os << conns.size() << " peers, limit " << max_conns << ", " << ctx().events << " events, " << sim::now() / MS << " ms";
		ctx().desc = os.str();
		ctx().nontrivial = !conns.empty();
		ext.reset();
		for (auto &s : streams) s.t.reset();
		timers.clear();
	}
};

// ------------------------------------------------------------ http::ServerConnection used directly, objects reused for connection after connection
struct RawCase {
	struct Slot {
		std::unique_ptr<http::ServerConnection> c;
		Conn *cur = nullptr;
		Ex *held = nullptr;  // handed over, answered later
		std::vector<size_t> pieces;
		size_t next = 0;
		u64 pos = 0;
		bool streaming = false, chunked = false;
		unsigned used = 0;
	};
	Rng &r;
	crab::RunLoop loop;
	std::unique_ptr<crab::TCPAcceptor> acceptor;
	std::vector<Slot> slots;
	std::map<u64, std::unique_ptr<Conn>> conns;
	std::list<crab::Timer> timers;
	std::unique_ptr<crab::Watcher> ext;
	u64 next_port = 1000, next_id = 1, progress = 0;
	int ops_left;
	bool stop = false, settling = false;

	RawCase() : r(ctx().rng) {
		ops_left = int(5 + r.below(30));
		slots.resize(1 + r.below(3));
		for (size_t i = 0; i != slots.size(); ++i) slots[i].c.reset(new http::ServerConnection([this, i] { if (!stop) slot_event(i); }));
		acceptor.reset(new crab::TCPAcceptor(crab::Address("127.0.0.1", 8080), [this] { if (!stop) take(); }));
		ext.reset(new crab::Watcher([this] { if (stop) return; own_op(); if (ops_left > 0) next_ext(); }));
	}
	~RawCase() { for (auto &c : conns) if (c.second->p) c.second->p->on_event = nullptr; }
	void next_ext() { sim::at(r.below(30 * MS), [this] { if (!stop) ext->call(); }); }
	void after(u64 ns, std::function<void()> fn) {
		timers.emplace_back([this, fn] { if (!stop) fn(); });
		timers.back().once(std::chrono::duration_cast<std::chrono::steady_clock::duration>(std::chrono::nanoseconds(ns)));
	}
	// peers
	void arrive(u64 not_before = 0) {
		auto u = std::unique_ptr<Conn>(new Conn);
		Conn &c = *u;
		c.port = next_port++;
		conns[c.port] = std::move(u);
		size_t n = r.below(5);
		bool ws = n == 0 || r.chance(40);
		c.ex.resize(n + (ws ? 1 : 0));
		for (size_t i = 0; i != c.ex.size(); ++i) {
			Ex &e = c.ex[i];
			e.id = next_id++;
			e.upgrade = i == n;
			e.method = e.upgrade ? "GET" : r.coin() ? "POST" : "PUT";
			e.path = "/c" + std::to_string(c.port) + "/e" + std::to_string(e.id);
			e.keep = e.upgrade || !(i + 1 == c.ex.size() && r.chance(40));
			if (!e.upgrade) e.body = pats(e.id * 2 + 1, 0, r.len(vol(r.coin() ? 200 : 9000)));
			std::ostringstream os;
			os << e.method << " " << e.path << " HTTP/1.1\r\nHost: h\r\nX-Id: " << e.id << "\r\n";
			if (e.upgrade) {
				c.ws_key = ref::b64(r.bstr(16));
				os << "Connection: Upgrade\r\nUpgrade: websocket\r\nSec-WebSocket-Version: 13\r\nSec-WebSocket-Key: " << c.ws_key << "\r\n\r\n";
			} else {
				if (!e.keep) os << "Connection: close\r\n";
				if (r.chance(30)) {
					os << "Transfer-Encoding: chunked\r\n\r\n";
					for (size_t pos = 0; pos < e.body.size();) {
						size_t k = std::min<size_t>(e.body.size() - pos, 1 + r.below(4000));
						os << std::hex << k << std::dec << "\r\n" << e.body.substr(pos, k) << "\r\n";
						pos += k;
					}
					os << "0\r\n\r\n";
				} else os << "Content-Length: " << e.body.size() << "\r\n\r\n" << e.body;
				e.chunked = r.coin();
				e.want_body = pats(e.id * 2, 0, r.len(vol(r.coin() ? 300 : 20000)));
				e.pieces = split_pieces(r, e.want_body.size());
				if (!e.chunked) while (e.pieces.size() > 1 && !e.pieces.back()) e.pieces.pop_back();
				if (!e.chunked && e.want_body.empty()) e.pieces.assign(1, 0);
			}
			c.sendq += os.str();
		}
		if (ws) {
			for (u64 k = r.below(6); k--;) {
				int op = r.coin() ? 1 : 2;
				std::string b = op == 1 ? utf8_text(r, r.len(300)) : r.bstr(r.len(vol(3000)));
				size_t cut = r.coin() ? b.size() : r.below(b.size() + 1);
				if (cut < b.size() || r.coin()) c.sendq += ref::ws_frame(op, false, b.substr(0, cut), true, uint32_t(r.next())) + ref::ws_frame(0, true, b.substr(cut), true, uint32_t(r.next()));
				else c.sendq += ref::ws_frame(op, true, b, true, uint32_t(r.next()));
				c.sent.push_back({op, b, 0, 0});
			}
			if (r.chance(40)) { c.sendq += ref::ws_frame(r.coin() ? 1 : 2, false, "unfinished", true, 5); if (r.coin()) c.sendq += ref::ws_frame(0, true, "cut off", true, 9).substr(0, 3); count("raw_unfinished"); }
		} else if (r.chance(40)) {
			static const std::vector<std::string> junk = {"GET /never HTTP/1.1\r\nHost: h\r\nX-Id: 0\r\n", "POST /never HTTP/1.1\r\nContent-Length: 50\r\n\r\nabc", "POST /never HTTP/1.1\r\nTransfer-Encoding: chunked\r\n\r\n5\r\nab", "G"};
			if (c.ex.back().keep) { c.sendq += r.pick(junk); count("raw_unfinished"); }
		}
		c.appended = c.sendq.size();
		c.send_mode = int(r.below(2));
		c.p = sim::peer_connect(sim::ip4("127.0.0.1", 8080), sim::ip4("10.1.1.1", uint16_t(c.port)), not_before);
		u64 port = c.port;
		c.p->on_event = [this, port] { peer_event(*conns[port]); };
		NOTE("peer " << port << " connects: " << n << " requests" << (ws ? " + websocket" : ""));
		send_some(c);
		if (r.chance(20)) sim::at(r.below(150 * MS), [this, port] { Conn &x = *conns[port]; if (!stop && !x.done) leave(x, true); });
		count("peers");
	}
	void leave(Conn &c, bool lossy) {
		if (c.p->closed) return;
		c.done = true;
		if (lossy) c.lossy = true;
		NOTE("peer " << c.port << " leaves" << (lossy ? " early" : ""));
		if (lossy && sim::rng().coin()) c.p->abort(); else c.p->close();
	}
	void send_some(Conn &c) {
		if (c.sendq.empty() || c.p->closed) return;
		size_t n = c.send_mode == 0 || settling ? c.sendq.size() : std::min<size_t>(c.sendq.size(), 1 + sim::rng().len(1500));
		std::string part = c.sendq.substr(0, n);
		c.wrote += n;
		c.sendq.erase(0, n);
		c.p->write(part);
		if (!c.sendq.empty()) { u64 port = c.port; sim::at(sim::rng().below(20 * MS), [this, port] { if (!stop) send_some(*conns[port]); }); }
		else finish_if_complete(c);
	}
	bool complete(Conn &c) { return c.next_recv == c.ex.size() && c.out_got == c.sent.size() && c.sendq.empty(); }
	void peer_event(Conn &c) {
		sim::Peer &p = *c.p;
		progress = std::max(progress, sim::now());
		if (!p.in.empty()) {
			ev(p.in.size() * 8 + 1);
			if (c.ws) c.wr.feed(p.in); else c.rd.feed(p.in);
			p.in.clear();
			ref::Msg m;
			while (!c.ws && c.rd.next(m)) {
				count("responses");
				if (c.next_recv >= c.ex.size()) { VIOL("response-excess", "connection " << c.port); return; }
				Ex &e = c.ex[c.next_recv++];
				EXPECT(e.handled, "response-unasked", "connection " << c.port);
				if (e.upgrade) {
					EXPECT(m.status == 101 && m.one("sec-websocket-accept") == ref::ws_accept(c.ws_key), "upgrade-response", m.status);
					c.ws = true;
					c.wr.feed(c.rd.buf);
					c.rd.buf.clear();
					break;
				}
				EXPECT(m.status == 200 && m.one("x-id") == std::to_string(e.id), "response-mixed", "exchange " << e.id << " answered by " << m.status << " " << quote(m.one("x-id")));
				EXPECT(m.body == e.want_body && m.chunked == e.chunked, "response-body", "exchange " << e.id << ": " << m.body.size() << " bytes instead of " << e.want_body.size());
				EXPECT(m.keep_alive() == e.keep, "response-keepalive", "exchange " << e.id);
			}
			EXPECT(c.rd.error.empty(), "response-wire", "conn " << c.port << ": " << c.rd.error);
			ref::WsFrame f;
			while (c.ws && c.wr.next(f)) {
				if (f.op == 9) continue;
				if ((f.op == 0) != (c.frag_op != 0) || f.masked) { VIOL("ws-fragments", "WebSocket " << c.port << " frame " << f.op); break; }
				if (f.op) c.frag_op = f.op;
				c.frag += f.body;
				if (!f.fin) continue;
				if (c.out_got >= c.sent.size() || c.frag_op != c.sent[c.out_got].op || c.frag != c.sent[c.out_got].body) { VIOL("ws-out", "WebSocket " << c.port << " message " << c.frag_op << " " << quote(c.frag, 60) << " is not echo " << c.out_got); break; }
				c.frag_op = 0;
				c.frag.clear();
				c.out_got++;
				count("ws_out");
			}
			EXPECT(c.wr.error.empty(), "ws-wire", "conn " << c.port << ": " << c.wr.error);
		}
		if ((p.eof || p.reset) && !c.eof_seen) {
			c.eof_seen = true;
			bool why = c.lossy || c.done || c.server_closing || (c.next_recv && !c.ex[c.next_recv - 1].keep);
			EXPECT(why, "closed-early", "connection " << c.port << " closed by the library after " << c.next_recv << " of " << c.ex.size() << " responses");
			c.lossy = c.lossy || c.server_closing;
			leave(c, false);
			return;
		}
		finish_if_complete(c);
	}
	void finish_if_complete(Conn &c) {
		if (!complete(c) || c.done) return;
		c.done = true;
		u64 port = c.port;
		sim::at(sim::rng().below(30 * MS), [this, port] { if (!stop) leave(*conns[port], false); });
	}
	// library side
	void take() {
		for (auto &s : slots) {
			if (s.cur || s.c->is_open()) continue;
			if (!acceptor->can_accept()) return;
			s.c->accept(*acceptor);
			EXPECT(s.c->is_open() && s.c->get_state() == http::ServerConnection::REQUEST_HEADER && !s.c->is_writing_body() && s.c->get_total_buffer_size() == 0, "accept-state", "state " << int(s.c->get_state()) << " after accept");
			auto it = conns.find(s.c->get_peer_address().get_port());
			if (it == conns.end()) { VIOL("unknown-peer", s.c->get_peer_address().to_string()); s.c->close(); continue; }
			s.cur = it->second.get();
			EXPECT(!s.cur->ws_srv && !s.cur->next_handle, "accept-twice", "connection " << s.cur->port);
			s.held = nullptr;
			s.streaming = false;
			if (s.used++) count("raw_reused");
			NOTE("slot accepts " << s.cur->port);
		}
	}
	void drop(Slot &s) {
		NOTE("user closes " << s.cur->port);
		count("raw_user_closed");
		s.cur->server_closing = true;
		s.cur = nullptr;
		s.held = nullptr;
		s.streaming = false;
		s.c->close();
		EXPECT(!s.c->is_open() && !s.c->is_writing_body() && !s.c->get_total_buffer_size(), "close-state", "");
		if (r.coin()) s.c->write(http::Response::simple_text(200));  // nothing happens
		if (r.coin()) take(); else after(r.below(20 * MS), [this] { take(); });
	}
	void slot_event(size_t i) {
		Slot &s = slots[i];
		progress = std::max(progress, sim::now());
		if (!s.c->is_open()) {
			if (!s.cur) { VIOL("notice-spurious", "a closed connection reports"); return; }
			EXPECT(s.cur->done || s.cur->lossy || s.cur->p->closed, "closed-unasked", "connection " << s.cur->port << " closed although its peer stays");
			count("raw_disconnects");
			s.cur->gone = true;
			s.cur = nullptr;
			s.held = nullptr;
			s.streaming = false;
			take();
			return;
		}
		if (!s.cur) { VIOL("event-after-close", ""); return; }
		service(i);
	}
	void service(size_t i) {
		Slot &s = slots[i];
		while (s.cur && s.c->is_open()) {
			Conn &c = *s.cur;
			if (s.streaming) { pump(i); if (s.streaming) return; continue; }
			if (s.held) {
				http::Request no;
				EXPECT(!s.c->read_next(no), "request-overlap", "connection " << c.port << " handed over a request while another is not answered");
				return;
			}
			if (c.ws_srv) {
				http::WebMessage m;
				if (!s.c->read_next(m)) return;
				count("ws_messages");
				EXPECT(c.delivered < c.sent.size() && c.sent[c.delivered].op == int(m.opcode) && c.sent[c.delivered].body == m.body, "ws-message", "WebSocket " << c.port << " message " << c.delivered << ": " << int(m.opcode) << " " << quote(m.body, 60));
				c.delivered++;
				if (r.chance(4)) { drop(s); return; }
				if (r.coin()) { s.c->write(std::move(m)); continue; }
				s.c->write(m.opcode);  // echo in pieces
				count("ws_streams");
				std::string b = m.body;
				for (auto k : split_pieces(r, b.size())) {
					if (r.chance(3)) { drop(s); return; }
					EXPECT(s.c->is_writing_body(), "ws-writing", "");
					s.c->write(b.data(), k, r.coin() ? crab::BUFFER_ONLY : crab::WRITE);
					b.erase(0, k);
				}
				s.c->write_last_chunk();
				continue;
			}
			http::Request rq;
			if (!s.c->read_next(rq)) return;
			count("requests");
			if (c.next_handle >= c.ex.size()) { VIOL("request-invented", "connection " << c.port << ": " << rq.header.method << " " << quote(rq.header.path, 80)); drop(s); return; }
			Ex &e = c.ex[c.next_handle++];
			EXPECT(rq.header.method == e.method && rq.header.path == e.path && rq.body == e.body && rq.header.keep_alive == e.keep, "request-mixed", "connection " << c.port << " handed over " << rq.header.method << " " << quote(rq.header.path, 80) << " with " << rq.body.size() << " bytes instead of " << e.method << " " << e.path << " with " << e.body.size());
			EXPECT(s.c->get_state() == http::ServerConnection::RESPONSE_HEADER, "state", int(s.c->get_state()));
			e.handled = true;
			if (r.chance(6)) { drop(s); return; }
			s.held = &e;
			if (r.chance(40)) {
				Ex *pe = &e;
				count("postponed");
				after(r.below(40 * MS), [this, i, pe] { if (slots[i].held == pe) { answer(i); if (slots[i].cur) service(i); } });
				continue;
			}
			answer(i);
		}
	}
	void answer(size_t i) {
		Slot &s = slots[i];
		Ex &e = *s.held;
		Conn &c = *s.cur;
		s.held = nullptr;
		if (e.upgrade) { c.ws_srv = true; s.c->web_socket_upgrade(); count("upgrades"); return; }
		if (r.coin()) {
			http::Response resp;
			resp.header.status = 200;
			resp.header.headers.push_back({"X-Id", std::to_string(e.id)});
			if (e.chunked) { resp.header.transfer_encoding_chunked = true; resp.body = e.want_body; } else resp.set_body(std::string(e.want_body));
			s.c->write(std::move(resp));
			return;
		}
		http::ResponseHeader h;
		h.status = 200;
		h.headers.push_back({"X-Id", std::to_string(e.id)});
		if (e.chunked) h.transfer_encoding_chunked = true; else h.content_length = e.want_body.size();
		s.streaming = true;
		s.chunked = e.chunked;
		s.pieces = e.pieces;
		s.next = 0;
		s.pos = e.id * 2;
		s.c->write(h, r.coin() ? crab::WRITE : crab::BUFFER_ONLY);
		count("streams");
		s_off[i] = 0;
		pump(i);
	}
	std::map<size_t, u64> s_off;
	void pump(size_t i) {
		Slot &s = slots[i];
		while (s.next < s.pieces.size()) {
			if (r.chance(3)) { drop(s); return; }
			if (!s.c->can_write()) { count("stream_backpressure"); return; }
			size_t k = s.pieces[s.next++];
			std::string d = pats(s.pos, s_off[i], k);
			s_off[i] += k;
			bool last = s.next == s.pieces.size();
			auto bo = !last && r.chance(30) ? crab::BUFFER_ONLY : crab::WRITE;
			if (last && !s.chunked) s.streaming = false;
			if (r.coin()) s.c->write(std::move(d), bo); else s.c->write(d.data(), d.size(), bo);
		}
		if (s.streaming) { s.streaming = false; s.c->write_last_chunk(); }
	}
	void own_op() {
		--ops_left;
		if (conns.size() < 20 && r.chance(70)) {
			u64 burst = r.chance(20) ? sim::now() + 1 + r.below(5 * MS) : 0;
			for (u64 n = burst ? 2 + r.below(3) : 1; n--;) arrive(burst);
			return;
		}
		Slot &s = slots[r.below(slots.size())];
		if (s.cur && s.c->is_open() && r.chance(30)) drop(s);
		else take();
	}
	void settle() {
		settling = true;
		progress = sim::now();
		take();
		for (auto &kv : conns) { Conn &c = *kv.second; if (!c.p->closed) { c.p->poll(); send_some(c); } }
	}
	void tick() {}
	void run() {
		sim::on_misuse = [](const std::string &m) { VIOL("fd-misuse", m); };
		next_ext();
		Settling<RawCase>::run(*this, loop, 22 * SEC);
		for (auto &kv : conns) {
			Conn &c = *kv.second;
			if (c.lossy || c.server_closing) continue;
			EXPECT(c.next_recv == c.ex.size(), "unanswered", "connection " << c.port << " got " << c.next_recv << " of " << c.ex.size() << " responses, handled " << c.next_handle);
			EXPECT(c.delivered == c.sent.size() && c.out_got == c.sent.size(), "ws-lost", "WebSocket " << c.port << " delivered " << c.delivered << ", echoed " << c.out_got << " of " << c.sent.size());
		}
		for (auto &s : slots) EXPECT(!s.cur && !s.c->is_open(), "not-released", "connection " << (s.cur ? s.cur->port : 0) << " is still open: state " << int(s.c->get_state()) << " held " << !!s.held << " streaming " << s.streaming << " buffered " << s.c->get_total_buffer_size() << " done " << (s.cur ? s.cur->done : 0) << " handled " << (s.cur ? s.cur->next_handle : 0));
		stop = true;
		std::ostringstream os;
		os << conns.size() << " peers, " << slots.size() << " connection objects, " << ctx().events << " events";
		ctx().desc = os.str();
		ctx().nontrivial = !conns.empty();
		ext.reset();
		acceptor.reset();
		slots.clear();
		timers.clear();
	}
};
void raw_body() {
	sim::Config c;
	random_net(c, ctx().rng);
	sim::begin(c, ctx().rng.next());
	{
		RawCase t;
		t.run();
	}
	EXPECT(sim::open_fds() == 0, "fd-leak", sim::open_fd_list());
	sim::end();
}

void server_body(unsigned ws) {
	sim::Config c;
	random_net(c, ctx().rng);
	sim::begin(c, ctx().rng.next());
	{
		ServerCase t(ws);
		t.run();
	}
	EXPECT(sim::open_fds() == 0, "fd-leak", sim::open_fd_list());
	sim::end();
}
}  // namespace

int main(int argc, char **argv) {
	return harness_main(argc, argv, {{"server", [] { server_body(ctx().rng.chance(15) ? 40 : 0); }}, {"wsserver", [] { server_body(90); }}, {"rawserver", [] { raw_body(); }},
	    {"release", [] { repeat_release("server", [] { if (ctx().rng.chance(30)) raw_body(); else server_body(ctx().rng.coin() ? 60 : 0); }); }}});
}
