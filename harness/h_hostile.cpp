// M01: arbitrary bytes against servers and clients on the simulated kernel; sanitizers, isolation probes and a heap bound watch.
#include <crab/crab.hpp>
#include "netcase.hpp"
#include "ref.hpp"

namespace http = crab::http;
namespace {

// ---------------------------------------------------------------- byte streams
const std::vector<std::string> &dict() {
	static const std::vector<std::string> d = {"\r\n", "\n", "\r", "\r\n\r\n", ":", " ", "\t", "HTTP/1.1", "HTTP/1.0", "HTTP/", "GET ", "Content-Length: ", "Content-Length: 0\r\n", "Content-Length: 18446744073709551615\r\n",
	    "Content-Length: 18446744073709551616\r\n", "Content-Length: 9223372036854775808\r\n", "Content-Length: -1\r\n", "Transfer-Encoding: chunked\r\n", "Transfer-Encoding: gzip, chunked\r\n", "Transfer-Encoding: identity\r\n",
	    "Connection: upgrade\r\n", "Connection: close, keep-alive\r\n", "Upgrade: websocket\r\n", "Sec-WebSocket-Key: dGhlIHNhbXBsZSBub25jZQ==\r\n", "Sec-WebSocket-Version: 13\r\n", "Sec-WebSocket-Accept: s3pPLMBiTxaQ9kYGzzhZRbK+xOo=\r\n",
	    "Authorization: Basic ", "Authorization: Basic dTpw\r\n", "Cookie: a=b; c=\"d\r\n", "Host: \r\n", "ffffffffffffffff\r\n", "10000000000000000\r\n", "0\r\n\r\n", "0\r\n", "00000000000000000000000001\r\nx\r\n", "7fffffffffffffff\r\n", ";ext=\"", "\xff", std::string(1, '\0'),
	    "%", "%00", "%zz", "?", "#", "*", "//", "http://[::1", "\x81\xfe\xff\xff", "\x81\xff\x7f\xff\xff\xff\xff\xff\xff\xff", "\x81\xff\xff\xff\xff\xff\xff\xff\xff\xff", std::string("\x80\x80\0\0\0\0", 6), "\x88\x80", "\x89\xfe", " \r\n folded", "\xef\xbb\xbf", "\x16\x03\x01\x02"};
	return d;
}
std::string some_body(Rng &r) { return r.bstr(r.len(vol(r.coin() ? 200 : 9000))); }
std::string chunked_text(Rng &r) {
	std::ostringstream os;
	for (u64 n = r.below(5); n; --n) {
		std::string b = r.bstr(1 + r.len(vol(600)));
		os << std::hex << b.size() << (r.chance(15) ? ";a=\"b;c\"" : "") << "\r\n" << b << "\r\n";
	}
	os << "0\r\n" << (r.chance(20) ? "Trailer: x\r\n" : "") << "\r\n";
	return os.str();
}
std::string fields(Rng &r) {
	std::ostringstream os;
	for (u64 n = r.below(5); n; --n) {
		switch (r.below(9)) {
		case 0: os << "X-" << r.str(r.below(20), "abcXYZ-019") << ": " << r.str(r.below(80), "abc ,;=\"\t") << "\r\n"; break;
		case 1: os << "Connection: " << r.pick(std::vector<std::string>{"close", "keep-alive", "Upgrade", "upgrade, keep-alive", " , ,close", "foo"}) << "\r\n"; break;
		case 2: os << "Cookie: " << r.str(r.below(60), "ab=; \"") << "\r\n"; break;
		case 3: os << "Authorization: Basic " << r.str(r.below(40), "abcDEF019+/=") << "\r\n"; break;
		case 4: os << "Content-Type: application/x-www-form-urlencoded; charset=" << r.str(r.below(10), "utf-8\"") << "\r\n"; break;
		case 5: os << "Origin: " << r.str(r.below(30), "htp:/.a") << "\r\n"; break;
		case 6: os << "Date: " << r.str(r.below(30), "Mon,0123 GT:") << "\r\n"; break;
		case 7: os << "Server: x\r\n"; break;
		default: if (r.chance(25)) os << r.pick(dict());
		}
	}
	return os.str();
}
std::string one_request(Rng &r, bool upgrade) {
	std::ostringstream os;
	static const std::vector<std::string> m = {"GET", "POST", "HEAD", "CONNECT", "OPTIONS", "X"};
	os << (upgrade ? "GET" : r.pick(m)) << " " << r.pick(std::vector<std::string>{"/", "/a/b?c=d&e", "*", "http://h/x?y", "/%41%zz", "/x?%", "a"}) << " HTTP/1." << (r.chance(15) ? 0 : 1) << "\r\n";
	if (!upgrade || r.chance(35)) os << fields(r);
	if (upgrade) { os << "Connection: Upgrade\r\nUpgrade: websocket\r\nSec-WebSocket-Key: dGhlIHNhbXBsZSBub25jZQ==\r\nSec-WebSocket-Version: 13\r\n\r\n"; return os.str(); }
	switch (r.below(3)) {
	case 0: os << "\r\n"; break;
	case 1: { std::string b = some_body(r); os << "Content-Length: " << b.size() << "\r\n\r\n" << b; break; }
	default: os << "Transfer-Encoding: chunked\r\n\r\n" << chunked_text(r);
	}
	return os.str();
}
std::string one_response(Rng &r) {
	std::ostringstream os;
	os << "HTTP/1." << (r.chance(15) ? 0 : 1) << " " << r.pick(std::vector<std::string>{"200 OK", "404", "100 Continue", "999 ", "101 Switching Protocols", "204 No Content", "000 x", "20 x", "2000 x"}) << "\r\n" << fields(r);
	switch (r.below(3)) {
	case 0: os << "\r\n"; break;
	case 1: { std::string b = some_body(r); os << "Content-Length: " << b.size() << "\r\n\r\n" << b; break; }
	default: os << "Transfer-Encoding: chunked\r\n\r\n" << chunked_text(r);
	}
	return os.str();
}
std::string ws_garbage(Rng &r, bool mask) {
	std::string s;
	static const std::vector<int> good = {1, 1, 2, 9, 10}, ops = {0, 1, 1, 1, 2, 2, 8, 9, 9, 10, 3, 11, 15, 0x41, 0x72};
	bool frag = false, tidy = r.chance(75);
	for (u64 n = 1 + r.below(8); n; --n) {
		int op = r.pick(tidy ? good : ops);
		bool fin = op >= 8 || r.chance(70);
		if (tidy && op < 8) { if (frag) op = 0; frag = !fin; }
		if (r.chance(8)) { fin = !fin; op = r.pick(ops); }
		std::string b = r.chance(60) ? r.str(r.len(op >= 8 ? 125 : vol(300)), r.chance(70) ? "abc" : "abc\xc3\xa9\xf0\x9f") : r.bstr(r.len(op >= 8 && tidy ? 125 : vol(r.coin() ? 130 : 70000)));
		std::string f = ref::ws_frame(op & 15, fin, b, r.chance(95) ? mask : !mask, r.chance(10) ? 0 : uint32_t(r.next()), int(r.below(12) == 0 ? 2 : r.below(12) == 1 ? 1 : 0));
		f[0] = char(uint8_t(f[0]) | (op & 0x70));
		s += f;
		if (r.chance(8)) {  // a header announcing more than will ever come
			std::string h = ref::ws_frame(r.coin() ? 2 : 0, r.coin(), "", mask, 1, 2);
			u64 len = r.pick(std::vector<u64>{1, 0xffff, 0x10000, 0x7fffffff, 0xffffffffULL, 0x100000000ULL, 0x7fffffffffffffffULL, 0x8000000000000000ULL, ~u64(0), ~u64(0) - 13});
			for (int i = 0; i != 8; ++i) h[2 + i] = char(len >> (8 * (7 - i)));
			s += h + r.bstr(r.len(vol(500)));
		}
	}
	return s;
}
std::string mutate(Rng &r, std::string s, u64 k) {
	for (; k; --k) {
		size_t n = s.size(), p = r.below(n + 1), q = p + r.len(std::min<size_t>(n - p, 60));
		switch (r.below(8)) {
		case 0: if (n) s[r.below(n)] = char(s[r.below(n)] ^ (1 << r.below(8))); break;
		case 1: if (n) s[r.below(n)] = char(r.byte()); break;
		case 2: s.erase(p, q - p); break;
		case 3: s.insert(p, s.substr(p, q - p)); break;
		case 4: s.insert(p, r.pick(dict())); break;
		case 5: s.insert(p, std::string(r.len(vol(12000)), char(r.coin() ? r.byte() : "a 0\r\n"[r.below(5)]))); break;
		case 6: if (r.chance(30)) s.resize(p); break;
		default: if (n) s.replace(p, q - p, r.pick(dict())); break;
		}
	}
	return s;
}
std::string hostile_to_server(Rng &r) {
	std::string s;
	if (r.chance(8)) return r.bstr(r.len(vol(12000)));
	bool up = r.chance(45);
	for (u64 n = r.below(up ? 3 : 6); n; --n) s += one_request(r, false);
	if (up) {
		std::string head = one_request(r, true), w = ws_garbage(r, true);
		if (r.chance(20)) head = mutate(r, head, 1 + r.below(3));
		if (r.coin()) w = mutate(r, w, 1 + r.below(4));
		return s + head + w;
	}
	return r.chance(90) ? mutate(r, s, 1 + r.below(6)) : s;
}
std::string hostile_to_client(Rng &r, bool ws, const std::string &accept) {
	if (r.chance(8)) return r.bstr(r.len(vol(12000)));
	if (ws && r.chance(85)) {
		std::string head = "HTTP/1.1 101 Switching Protocols\r\nConnection: Upgrade\r\nUpgrade: websocket\r\nSec-WebSocket-Accept: " + accept + "\r\n" + (r.chance(10) ? fields(r) : "") + "\r\n";
		std::string w = ws_garbage(r, false);
		if (r.chance(20)) head = mutate(r, head, 1 + r.below(3));
		if (r.coin()) w = mutate(r, w, 1 + r.below(4));
		return head + w;
	}
	std::string s;
	for (u64 n = 1 + r.below(3); n; --n) s += one_response(r);
	return r.chance(90) ? mutate(r, s, 1 + r.below(6)) : s;
}
// streams which never complete a head, or complete many
struct Endless { std::string start, unit; bool response; const char *name; };
const std::vector<Endless> &endless() {
	static const std::vector<Endless> e = {
	    {"", "A", false, "method"}, {"GET /", "a", false, "path"}, {"GET /?", "a=b&", false, "query"}, {"GET / HTTP/1.1\r\n", "X", false, "name"}, {"GET / HTTP/1.1\r\nX: ", "y", false, "value"}, {"GET / HTTP/1.1\r\n", "X: y\r\n", false, "fields"},
	    {"GET / HTTP/1.1\r\nX:", " ", false, "spaces"}, {"GET / HTTP/1.1\r\nX: y\r\n", " z\r\n", false, "folds"}, {"GET / HTTP/1.1\r\nCookie: ", "a=b; ", false, "cookies"}, {"GET / HTTP/1.1\r\nConnection: ", "a,", false, "connection"}, {"GET / HTTP/1.1\r\nHost: ", "h", false, "host"},
	    {"GET / HTTP/1.1\r\nContent-Length: ", "0", false, "length"}, {"GET / HTTP/1.1\r\nTransfer-Encoding: ", "identity, ", false, "encodings"}, {"", "\r\n", false, "empty lines"}, {"GET ", " ", false, "blank"}, {"GET /", "%41", false, "escapes"},
	    {"POST / HTTP/1.1\r\nTransfer-Encoding: chunked\r\n\r\n1;", "e=f;", false, "extensions"}, {"POST / HTTP/1.1\r\nTransfer-Encoding: chunked\r\n\r\n", "0", false, "zeros"}, {"POST / HTTP/1.1\r\nTransfer-Encoding: chunked\r\n\r\n0\r\n", "T: u\r\n", false, "trailers"},
	    {"", "GET /pipelined HTTP/1.1\r\nHost: h\r\n\r\n", false, "pipeline"}, {"", "GET /postponed HTTP/1.1\r\nHost: h\r\n\r\n", false, "postponed pipeline"}, {"", "POST /big HTTP/1.1\r\nContent-Length: 3\r\n\r\nabc", false, "unread responses"},
	    {"HTTP/1.1 200 ", "s", true, "reason"}, {"HTTP/1.1 200 OK\r\n", "X", true, "name"}, {"HTTP/1.1 200 OK\r\nX: ", "y", true, "value"}, {"HTTP/1.1 200 OK\r\n", "X: y\r\n", true, "fields"}, {"HTTP/1.1 200 OK\r\nServer: ", "y", true, "server"}, {"HTTP/1.1 200 OK\r\nX:", " ", true, "spaces"},
	    {"HTTP/1.1 200 OK\r\nTransfer-Encoding: chunked\r\n\r\n1;", "e=f;", true, "extensions"}, {"HTTP/1.1 200 OK\r\nTransfer-Encoding: chunked\r\n\r\n0\r\n", "T: u\r\n", true, "trailers"}, {"", "\r\n", true, "empty lines"}, {"HTTP/1.1 ", "0", true, "status"},
	    {"HTTP/1.1 200 OK\r\nX: y\r\n", " z\r\n", true, "folds"}, {"HTTP/1.1 200 OK\r\nSec-WebSocket-Accept: ", "y", true, "accept"}};
	return e;
}

// ---------------------------------------------------------------- one world
struct World {
	struct P {
		u64 id = 0;
		sim::PeerP p;
		std::string q;       // still to write
		int mode = 0;        // pacing
		bool busy = false, honest = false, ws = false, done = false, at_once = false, accepted = false;
		u64 heap_kind = 0;
		u64 written = 0, total = 0;
		std::string want, got, first;
		ref::MsgReader rd{true};
		u64 asked = 0, answered = 0;
	};
	struct Cli {
		std::unique_ptr<http::ClientRequestSimple> simple;
		std::unique_ptr<http::ClientConnection> conn;
		bool busy = false, honest = false, ws = false;
		std::string want, asked;
	};
	Rng &r;
	crab::RunLoop loop;
	std::unique_ptr<http::Server> server;
	std::unique_ptr<crab::TCPAcceptor> acceptor;
	struct Buf { std::unique_ptr<crab::BufferedTCPSocket> s; bool shut = false; };
	std::list<Buf> bufs;
	std::vector<Cli> clis;
	std::vector<std::unique_ptr<P>> ps;
	std::list<crab::Timer> timers;
	std::set<http::Client *> waiting;
	std::unique_ptr<crab::Watcher> ext;
	Faults faults;
	u64 progress = 0, next_port = 1000, target_port = 3000;
	int ops_left;
	bool stop = false, settling = false;
	size_t base_heap = 0, heap_max = 0, heap_allow = 0;
	std::string heap_name;
	bool with_server, with_client, heap_case, with_buf;

	World() : r(ctx().rng) {
		heap_case   = r.chance(25) && sim::cfg().cap_min >= 200;
		with_server = r.coin();
		with_client = !with_server || r.chance(30);
		with_buf    = !heap_case && r.chance(15);
		ops_left    = heap_case ? 1 : int(5 + r.below(40));
		if (with_server || with_buf || !with_client) {
			server.reset(new http::Server(crab::Address("127.0.0.1", 8080)));
			server->r_handler = [this](http::Client *who, http::Request &&rq) { on_request(who, std::move(rq)); };
		}
		if (with_buf) acceptor.reset(new crab::TCPAcceptor(crab::Address("127.0.0.1", 8081), [this] { on_buffered(); }));
		clis.resize(with_client ? 1 + r.below(4) : 0);
		sim::connect_fate = [](const sim::Addr &) { return sim::ACCEPTED; };
		if (!heap_case && r.chance(20)) {
			faults.arm(r, false);
			for (int s = 0; s != sim::S_COUNT; ++s) if (s != sim::S_RECV && s != sim::S_SEND) faults.rate[s] = 0;
		}
		sim::fault = [this](sim::Sys s, int fd) {
			if (s == sim::S_RECV || s == sim::S_SEND) {  // honest exchanges are left alone
				EP ep = sim::endpoint_of(fd);
				if (ep) for (auto &p : ps) if (p->honest && p->p && p->p->ep && p->p->ep->peer.lock() == ep) return 0;
				if (ep) for (auto &c : clis) if (c.honest) return 0;
			}
			return faults(s);
		};
		sim::on_block = [this] { block(); };
		ext.reset(new crab::Watcher([this] { if (stop) return; op(); if (ops_left > 0) next_ext(); }));
	}
	~World() {
		sim::fault = nullptr;
		for (auto &p : ps) if (p->p) p->p->on_event = nullptr;
	}
	void next_ext() { sim::at(r.below(20 * MS), [this] { if (!stop) ext->call(); }); }
	void after(u64 ns, std::function<void()> fn) {
		timers.emplace_back([this, fn] { if (!stop) fn(); });
		timers.back().once(std::chrono::duration_cast<std::chrono::steady_clock::duration>(std::chrono::nanoseconds(ns)));
	}
	// ------------------------------------------------------------ server user
	static http::Response answer(const http::Request &rq) {
		http::Response rs;
		rs.header.status = 200;
		rs.header.headers.push_back({"X-Path", "p"});
		if (rq.header.path.compare(0, 7, "/honest") == 0) rs.set_body("h:" + rq.header.path + ":" + rq.body);
		else if (rq.header.path == "/big") rs.set_body(std::string(20000, 'b'));
		else rs.set_body(rq.body.substr(0, 2000) + rq.header.query_string.substr(0, 100));
		return rs;
	}
	void on_request(http::Client *who, http::Request &&rq) {
		progress = sim::now();
		count("requests_seen");
		ev(rq.body.size() * 4 + 1);
		// what a user would do with a request
		http::parse_query_string(rq.header.query_string);
		if (!rq.header.path.empty() && rq.header.path.compare(0, 7, "/honest") == 0) { who->write(answer(rq)); return; }
		if (rq.header.is_websocket_upgrade() && rq.header.method == "GET" && r.chance(90)) {
			count("upgrades");
			who->web_socket_upgrade([this, who](http::WebMessage &&m) { on_message(who, std::move(m)); });
			return;
		}
		if (rq.header.path == "/pipelined" || rq.header.path == "/big") { who->write(answer(rq)); return; }
		bool hold = rq.header.path == "/postponed" && heap_case;
		switch (hold ? 1 : r.below(5)) {
		case 0: throw std::runtime_error("user dislikes it");
		case 1: {
			waiting.insert(who);
			who->postpone_response([this, who] { waiting.erase(who); });
			if (hold) return;
			auto rs = std::make_shared<http::Response>(answer(rq));
			after(r.below(30 * MS), [this, who, rs] { if (waiting.erase(who)) who->write(std::move(*rs)); });
			return;
		}
		case 2: {
			http::ResponseHeader h;
			h.status = 200;
			bool chunked = rq.header.http_version_minor == 1 && r.coin();
			size_t n = r.len(vol(20000));
			if (chunked) h.transfer_encoding_chunked = true; else h.content_length = n;
			auto left = std::make_shared<size_t>(n);
			waiting.insert(who);
			who->start_write_stream(h, [this, who, left, chunked] {
				if (!who->is_open()) { waiting.erase(who); return; }
				if (!waiting.count(who)) return;
				while (*left && who->can_write()) {
					size_t k = std::min<size_t>(*left, 1 + r.below(3000));
					*left -= k;
					if (!*left && !chunked) waiting.erase(who);
					who->write(std::string(k, 's'));
				}
				if (!*left && chunked && waiting.erase(who)) who->write_last_chunk();
			});
			if (!n && !chunked) waiting.erase(who);
			return;
		}
		default: who->write(answer(rq));
		}
	}
	void on_message(http::Client *who, http::WebMessage &&m) {
		progress = sim::now();
		count("messages_seen");
		ev(m.body.size() * 4 + 2);
		if (m.opcode == http::WebMessageOpcode::TEXT) EXPECT(crab::is_valid_utf8(m.body), "text-not-utf8", quote(m.body, 60));
		if (m.opcode == http::WebMessageOpcode::CLOSE) return;
		if (r.chance(5)) throw std::runtime_error("user dislikes the message");
		if (r.coin()) who->write(http::WebMessage(m.opcode, std::move(m.body)));
		if (r.chance(4)) who->write(http::WebMessage(http::WebMessageOpcode::CLOSE, "bye"));
	}
	void on_buffered() {
		while (acceptor->can_accept()) {
			bufs.emplace_back();
			Buf *b = &bufs.back();
			b->s.reset(new crab::BufferedTCPSocket([this, b] { buffered(b); }));
			b->s->accept(*acceptor);
			count("buffered_accepted");
		}
	}
	void buffered(Buf *b) {  // echo with a frame-like length prefix
		if (!b->s->is_open() || b->s->get_total_buffer_size() > 5000) return;
		uint8_t d[300];
		for (int i = 0; i != 4; ++i) {
			size_t n = b->s->read_some(d, 1 + r.below(sizeof(d)));
			if (!n) return;
			ev(n * 4 + 3);
			b->s->write(d, n, r.coin() ? crab::WRITE : crab::BUFFER_ONLY);
			if (!b->shut && r.chance(3)) { b->shut = true; b->s->write_shutdown(); }
		}
	}
	// ------------------------------------------------------------ raw peers
	P &new_p() {
		ps.emplace_back(new P);
		ps.back()->id = ps.size();
		return *ps.back();
	}
	void pump(P &p, bool all = false) {
		if (p.q.empty() || p.p->closed) { p.q.clear(); if (!p.honest && !p.heap_kind && !p.done) { p.done = true; leave_later(p); } return; }
		if (p.busy && !all) return;
		size_t n = p.mode == 0 || all ? p.q.size() : std::min<size_t>(p.q.size(), 1 + sim::rng().len(vol(p.mode == 1 ? 3000 : 30)));
		std::string part = p.q.substr(0, n);
		p.q.erase(0, n);
		if (!p.busy) {
			p.busy = true;
			P *pp = &p;
			sim::at(sim::rng().below(p.mode == 1 ? 10 * MS : MS), [this, pp] { if (stop) return; pp->busy = false; pump(*pp); });
		}
		p.p->write(part);
	}
	void leave_later(P &p) {
		u64 kind = sim::rng().below(5);
		P *pp = &p;
		if (kind >= 3 && !settling) return;  // stays
		sim::at(sim::rng().below(60 * MS), [this, pp, kind] {
			if (stop || pp->p->closed) return;
			ev(kind * 4 + 4);
			if (kind == 0) pp->p->abort(); else if (kind == 1) pp->p->close(); else pp->p->shutdown();
		});
	}
	void peer_event(P &p) {
		if (!p.p->in.empty()) {
			ev(p.p->in.size() * 4 + 5);
			if (p.honest && !p.accepted) {
				p.rd.feed(p.p->in);
				ref::Msg m;
				while (p.rd.next(m)) {
					p.answered++;
					EXPECT(m.status == 200 && m.body == p.want, "honest-response", "status " << m.status << " body " << quote(m.body, 80) << " instead of " << quote(p.want, 80));
					count("honest_answered");
					p.done = true;
					if (sim::rng().coin()) p.p->close();
				}
				EXPECT(p.rd.error.empty(), "honest-wire", p.rd.error);
			}
			if (p.first.size() < 20000) p.first += p.p->in;
			p.p->in.clear();
			if (p.accepted && !p.total) speak(p);
		}
		if ((p.p->eof || p.p->reset) && !p.p->closed && !p.heap_kind) {
			if (p.honest && !p.accepted) EXPECT(p.answered, "honest-closed", "a well-formed request was not answered");
			P *pp = &p;
			sim::at(sim::rng().below(20 * MS), [this, pp] { if (!stop && !pp->p->closed) pp->p->close(); });
		}
	}
	void hostile_peer(uint16_t port) {
		P &p = new_p();
		p.mode = int(r.below(3));
		p.q = port == 8081 ? r.bstr(r.len(vol(20000))) : hostile_to_server(r);
		if (port == 8080 && r.chance(10)) p.q += hostile_to_server(r);
		p.total = p.q.size();
		p.p = sim::peer_connect(sim::ip4("127.0.0.1", port), sim::ip4("10.1.1.1", uint16_t(next_port++)));
		if (r.chance(15)) p.p->read_quota = r.below(300);
		P *pp = &p;
		p.p->on_event = [this, pp] { peer_event(*pp); };
		count("hostile_streams");
		count("hostile_bytes", p.q.size());
		ev(hash_str(p.q));
		NOTE("hostile peer " << p.id << " to " << port << ": " << quote(p.q, 300));
		pump(p);
	}
	void honest_peer() {
		P &p = new_p();
		p.honest = true;
		p.mode = int(r.below(2));
		std::string body = r.str(r.len(vol(500)), "abcdef"), path = "/honest" + std::to_string(p.id);
		p.want = "h:" + path + ":" + body;
		p.q = "POST " + path + " HTTP/1.1\r\nHost: h\r\nContent-Length: " + std::to_string(body.size()) + "\r\n\r\n" + body;
		p.p = sim::peer_connect(sim::ip4("127.0.0.1", 8080), sim::ip4("10.1.1.1", uint16_t(next_port++)));
		P *pp = &p;
		p.p->on_event = [this, pp] { peer_event(*pp); };
		count("honest_peers");
		pump(p);
	}
	// ------------------------------------------------------------ clients
	void client_op(bool honest, u64 heap_kind = 0) {
		size_t i = r.below(clis.size());
		Cli &c = clis[i];
		if (c.busy && (c.honest || honest)) return;
		c.honest = honest;
		uint16_t port = uint16_t(target_port++);
		bool simple = r.coin() && !heap_kind;
		bool ws = !simple && !honest && r.coin();
		std::string host = simple ? "h" + std::to_string(port) + ".test" : "10.0.0.1", before = c.asked;
		c.asked.clear();
		c.ws = ws;
		c.want = "answer " + std::to_string(port);
		std::string want = c.want;
		sim::peer_listen(sim::ip4("10.0.0.1", port), [this, honest, ws, want, heap_kind](sim::PeerP q) {
			P &p = new_p();
			p.accepted = true;
			p.honest = honest;
			p.ws = ws;
			p.want = want;
			p.heap_kind = heap_kind;
			p.mode = heap_kind ? 0 : int(sim::rng().below(3));
			p.p = q;
			p.at_once = !honest && !ws && sim::rng().chance(15);
			P *pp = &p;
			q->on_event = [this, pp] { peer_event(*pp); };
			if (p.at_once || (heap_kind && sim::rng().coin())) speak(p);
		});
		count(honest ? "honest_requests" : ws ? "hostile_ws" : "hostile_requests");
		NOTE("client " << i << " asks " << host << ":" << port << (honest ? " honest" : "") << (simple ? " simple" : ws ? " ws" : " plain") << " before " << before);
		ev(u64(honest) * 16 + u64(simple) * 8 + u64(ws) + 6);
		c.busy = true;
		if (simple) {
			c.conn.reset();
			if (!c.simple || r.coin())
				make_simple(i);
			http::Request rq;
			rq.header.method = "POST";
			rq.header.path = "/x";
			rq.header.host = host;
			rq.set_body(std::string("body"));
			DnsGate::get().ask(host, gai(port));
			c.asked = host;
			release_later(host);
			c.simple->send("http://" + host + ":" + std::to_string(port) + "/x", std::move(rq));
		} else {
			c.simple.reset();
			if (!c.conn || r.coin()) c.conn.reset(new http::ClientConnection([this, i] { on_conn(i); }));
			if (!c.conn->connect(crab::Address("10.0.0.1", port))) { c.busy = false; if (!before.empty()) DnsGate::get().cancelled(before); return; }
			if (ws) {
				http::RequestHeader rh;
				rh.path = "/ws";
				c.conn->web_socket_upgrade(rh);
				if (r.chance(20)) c.conn->write(http::WebMessage("early"));
			} else {
				http::Request rq("h", "GET", "/y");
				c.conn->write(std::move(rq));
			}
		}
		if (!before.empty()) DnsGate::get().cancelled(before);
	}
	void release_later(const std::string &host) {
		sim::at(sim::rng().below(5 * MS), [this, host] {
			if (stop || !DnsGate::get().pending(host)) return;
			if (!DnsGate::get().try_release(host)) release_later(host);
		});
	}
	static sim::Gai gai(uint16_t port) { sim::Gai g; g.addrs.push_back(sim::ip4("10.0.0.1", port)); return g; }
	void make_simple(size_t i) {
		clis[i].simple.reset(new http::ClientRequestSimple(
		    [this, i](http::Response &&rs) {
			    Cli &c = clis[i];
			    progress = sim::now();
			    ev(rs.body.size() * 4 + 7);
			    count("client_responses");
			    EXPECT(c.busy, "response-unasked", "");
			    if (c.honest) { EXPECT(rs.body == c.want, "honest-client-response", quote(rs.body, 60)); count("honest_client_answered"); }
			    c.busy = false;
		    },
		    [this, i](std::string &&er) { NOTE("client " << i << " error " << er);
			    Cli &c = clis[i];
			    progress = sim::now();
			    ev(8);
			    count("client_errors");
			    EXPECT(c.busy, "error-unasked", "");
			    EXPECT(!c.honest, "honest-client-error", "a well-formed answer was not accepted");
			    c.busy = false;
		    }));
	}
	void on_conn(size_t i) {
		Cli &c = clis[i];
		progress = sim::now();
		if (!c.conn->is_open()) {
			count("client_closed");
			EXPECT(!c.honest || !c.busy, "honest-client-closed", "a well-formed answer was not accepted");
			c.busy = false;
			return;
		}
		http::Response rs;
		while (c.conn->read_next(rs)) {
			count("client_responses");
			ev(rs.body.size() * 4 + 9);
			if (c.honest) { EXPECT(rs.body == c.want, "honest-client-response", quote(rs.body, 60)); count("honest_client_answered"); }
			c.busy = false;
			if (c.conn->is_open() && c.conn->get_state() == http::ClientConnection::WAITING_WRITE_REQUEST && r.chance(40) && !c.honest) { http::Request rq("h", "GET", "/again"); c.conn->write(std::move(rq)); c.busy = true; }
		}
		http::WebMessage m;
		while (c.conn->read_next(m)) {
			count("client_messages");
			ev(m.body.size() * 4 + 10);
			if (m.opcode == http::WebMessageOpcode::TEXT) EXPECT(crab::is_valid_utf8(m.body), "text-not-utf8", quote(m.body, 60));
			if (r.chance(30) && m.opcode != http::WebMessageOpcode::CLOSE) c.conn->write(http::WebMessage(m.opcode, std::move(m.body)));
			if (r.chance(10)) { c.conn->close(); c.busy = false; break; }
		}
	}
	void speak(P &p) {  // the raw server's answer
		if (p.heap_kind) {
			const Endless &e = endless()[p.heap_kind - 1];
			p.q = e.start;
			p.total = 1;
			feed_endless(p);
			return;
		}
		Rng &g = sim::rng();
		if (p.honest) p.q = "HTTP/1.1 200 OK\r\nContent-Length: " + std::to_string(p.want.size()) + "\r\n\r\n" + p.want;
		else {
			std::string accept;
			size_t k = ref::lower(p.first).find("sec-websocket-key:");
			if (k != std::string::npos) {
				size_t e = p.first.find("\r\n", k);
				std::string key = p.first.substr(k + 18, e - k - 18);
				while (!key.empty() && key[0] == ' ') key.erase(0, 1);
				accept = ref::ws_accept(key);
			}
			p.q = hostile_to_client(g, p.ws, accept);
			count("hostile_streams");
			count("hostile_bytes", p.q.size());
		}
		p.total = p.q.size() + 1;
		ev(hash_str(p.q));
		pump(p);
	}
	// ------------------------------------------------------------ heads without an end
	void feed_endless(P &p) {
		const Endless &e = endless()[p.heap_kind - 1];
		if (p.p->closed || p.p->eof || p.p->reset || p.written > p.total) return;
		bool room = p.p->outq.size() < 4000;
		if (room) {
			std::string s = std::move(p.q);
			p.q.clear();
			while (s.size() < 4000) s += e.unit;
			p.written += s.size();
			count("endless_bytes", s.size());
			p.p->write(s);
		}
		P *pp = &p;
		sim::at(room ? sim::rng().below(MS / 4) : 5 * MS + sim::rng().below(20 * MS), [this, pp] { if (!stop) feed_endless(*pp); });
	}
	void start_heap() {
		size_t k;
		std::vector<size_t> ok;
		for (k = 0; k != endless().size(); ++k) if (endless()[k].response ? with_client : !!server) ok.push_back(k);
		k = r.pick(ok);
		const Endless &e = endless()[k];
		heap_name = std::string(e.response ? "response " : "request ") + e.name;
		NOTE("endless " << heap_name);
		size_t n = 1 + r.below(4);
		if (e.response) n = std::min(n, clis.size());
		u64 total = 250000 + r.below(r.chance(20) ? 1000000 : 100000);
		base_heap  = live_heap();
		heap_allow = n * (std::string(e.name) == "fields" ? 260000 : 70000) + 40000;  // 8192 bytes of heads hold up to 1400 fields
		if (std::string(e.name) == "unread responses") heap_allow += n * 40000;
		for (size_t i = 0; i != n; ++i) {
			if (e.response) { client_op(false, k + 1); continue; }
			P &p = new_p();
			p.heap_kind = k + 1;
			p.q = e.start;
			p.total = total;
			p.p = sim::peer_connect(sim::ip4("127.0.0.1", 8080), sim::ip4("10.1.1.1", uint16_t(next_port++)));
			if (std::string(e.name) == "unread responses") p.p->read_quota = 0;
			P *pp = &p;
			p.p->on_event = [this, pp] { peer_event(*pp); };
			feed_endless(p);
		}
		for (auto &p : ps) p->total = total;
		heap_total = total;
		count("heap_cases");
		ev(k * 8 + n);
	}
	u64 heap_total = 0, blocks = 0;
	void block() {
		if (stop) return;
		if (base_heap && (++blocks % 16 == 0 || settling)) {
			size_t h = live_heap(), extra = h > base_heap ? h - base_heap : 0;
			for (auto &p : ps) {
				if (p->heap_kind && p->total == 1) p->total = heap_total;
				if (p->p && p->p->ep) {
					size_t own = p->p->outq.capacity() + p->p->in.capacity() + p->p->ep->rq.capacity() + p->first.capacity();
					if (auto q = p->p->ep->peer.lock()) own += q->rq.capacity() + q->flight * 2;
					extra = extra > own ? extra - own : 0;
				}
			}
			heap_max = std::max(heap_max, extra);
			count("heap_samples");
			EXPECT(extra <= heap_allow, "heap-bound", heap_name << ": " << extra << " bytes are held after peers sent " << sent() << " bytes of heads, expected at most " << heap_allow);
		}
	}
	u64 sent() { u64 s = 0; for (auto &p : ps) s += p->written; return s; }
	void op() {
		--ops_left;
		if (heap_case) { start_heap(); return; }
		u64 k = r.below(10);
		if (with_client && (k < 5 || !server)) { client_op(r.chance(15)); return; }
		if (!server) return;
		if (k == 9) honest_peer();
		else hostile_peer(acceptor && r.coin() ? 8081 : 8080);
	}
	void settle() {
		settling = true;
		progress = sim::now();
		for (auto &u : ps) {
			P &p = *u;
			if (!p.p || p.p->closed) continue;
			if (!p.heap_kind) { p.p->read_quota = size_t(-1); p.p->poll(); }
			if (!p.heap_kind) pump(p, true);
		}
		if (heap_case) return;
		P *all = nullptr; (void)all;
		sim::at(3 * SEC, [this] { if (stop) return; for (auto &u : ps) if (u->p && !u->p->closed && !u->honest) { if (sim::rng().coin()) u->p->close(); else u->p->abort(); } });
		if (server) honest_peer();
		for (size_t i = 0; i != clis.size(); ++i) if (!clis[i].busy || !clis[i].honest) client_op(true);
	}
	void tick() {}
	void run() {
		sim::on_misuse = [](const std::string &m) { VIOL("fd-misuse", m); };
		next_ext();
		Settling<World>::run(*this, loop, 25 * SEC);
		for (auto &p : ps) if (p->honest && !p->accepted) EXPECT(p->answered == 1, "honest-unanswered", "honest peer " << p->id << " got " << p->answered << " answers");
		for (auto &c : clis) if (c.honest) EXPECT(!c.busy, "honest-client-unanswered", "");
		std::ostringstream os;
		os << (heap_case ? "endless " + heap_name + ", heap grew by at most " + std::to_string(heap_max) + "; " : "") << (server ? "server, " : "") << clis.size() << " clients, " << ps.size() << " peers, " << ctx().events << " events, " << sim::now() / MS << " ms";
		ctx().desc = os.str();
		ctx().nontrivial = !ps.empty();
		stop = true;
		clis.clear();
		bufs.clear();
		acceptor.reset();
		server.reset();
		ext.reset();
		timers.clear();
	}
};

void body() {
	sim::Config c;
	random_net(c, ctx().rng);
	if (c.cap_max > 20000) c.cap_max = 20000;
	c.cap_min = std::max<size_t>(c.cap_min, 8);
	sim::begin(c, ctx().rng.next());
	DnsGate::get().begin();
	{
		World t;
		t.run();
	}
	DnsGate::get().end();
	EXPECT(sim::open_fds() == 0, "fd-leak", sim::open_fd_list());
	sim::end();
}
}  // namespace

int main(int argc, char **argv) {
	return harness_main(argc, argv, {{"hostile", body}, {"release", [] { repeat_release("hostile", body); }}});
}
