// Monitors for request/response head parsing (H01, H02) and serialization (H04):
// an independent line-based reference parser judges every head, in every split into reads.
#include <set>
#include <crab/crab.hpp>
#include "common.hpp"
using namespace vh;
namespace http = crab::http;

// ------------------------------------------------------------------ reference parser
struct Ref {
	enum Kind { GOOD, ERR, INCOMPLETE, UNKNOWN } kind = INCOMPLETE;
	size_t consumed = 0;
	std::string why;
	// fields
	std::string method, path, query, status_text, date, server, accept, host, origin, auth, key, ver, mime, suffix;
	int major = 0, minor = 0, status = 0;
	bool keep = false, chunked = false, cupgrade = false, uws = false, has_len = false;
	u64 len = 0;
	std::vector<std::string> te;
	std::vector<std::pair<std::string, std::string>> headers;
	std::string dump() const {
		std::ostringstream o;
		o << "m=" << quote(method, 9000) << "|p=" << quote(path, 9000) << "|q=" << quote(query, 9000) << "|st=" << status << " " << quote(status_text, 9000) << "|d=" << quote(date, 9000) << "|srv=" << quote(server, 9000)
		  << "|acc=" << quote(accept, 9000) << "|host=" << quote(host, 9000) << "|o=" << quote(origin, 9000) << "|auth=" << quote(auth, 9000) << "|key=" << quote(key, 9000) << "|ver=" << quote(ver, 9000) << "|ct=" << quote(mime, 9000)
		  << ";" << quote(suffix, 9000) << "|v=" << major << "." << minor << "|ka=" << keep << "|ch=" << chunked << "|up=" << cupgrade << uws << "|len=" << has_len << ":" << len << "|te=";
		for (auto &t : te) o << quote(t, 9000) << ",";
		for (auto &h : headers) o << "|h:" << quote(h.first, 9000) << "=" << quote(h.second, 9000);
		return o.str();
	}
};
static bool sp(unsigned char c) { return c == ' ' || c == '\t'; }
static bool ctl(unsigned char c) { return c < 32 || c == 127; }
static bool tok(unsigned char c) {
	if (c >= 128 || ctl(c)) return false;
	return std::strchr("()<>@,;:\\\"/[]?={} \t", c) == nullptr;
}
static std::string lower(std::string s) {
	for (auto &c : s) if (c >= 'A' && c <= 'Z') c = char(c + 32);
	return s;
}
static std::string trim(const std::string &s) {
	size_t a = 0, b = s.size();
	while (a < b && sp(s[a])) ++a;
	while (b > a && sp(s[b - 1])) --b;
	return s.substr(a, b - a);
}
static int hexv(unsigned char c) {
	if (c >= '0' && c <= '9') return c - '0';
	if (c >= 'a' && c <= 'f') return c - 'a' + 10;
	if (c >= 'A' && c <= 'F') return c - 'A' + 10;
	return -1;
}
static bool dig(unsigned char c) { return c >= '0' && c <= '9'; }

struct RefParser {
	bool request;
	Ref r;
	bool err(const char *w) { r.kind = Ref::ERR; r.why = w; return false; }
	bool version(const std::string &s, size_t &i, bool end_sp) {
		if (s.compare(i, 5, "HTTP/") != 0) return err("HTTP/");
		i += 5;
		size_t a = i;
		long v = 0;
		while (i < s.size() && dig(s[i])) { v = std::min<long>(v * 10 + (s[i] - '0'), 1000); ++i; }
		if (i == a || v > 1 || i >= s.size() || s[i] != '.') return err("major");
		r.major = int(v);
		a = ++i;
		v = 0;
		while (i < s.size() && dig(s[i])) { v = std::min<long>(v * 10 + (s[i] - '0'), 1000); ++i; }
		if (i == a || v > 99) return err("minor");
		r.minor = int(v);
		if (i < s.size() ? !sp(s[i]) : end_sp) return err("after version");
		while (i < s.size() && sp(s[i])) ++i;
		return true;
	}
	bool request_line(const std::string &s) {
		size_t i = 0;
		while (i < s.size() && tok(s[i])) ++i;
		if (i == 0 || i >= s.size() || !sp(s[i])) return err("method");
		r.method = s.substr(0, i);
		while (i < s.size() && sp(s[i])) ++i;
		size_t a = i;
		while (i < s.size() && !sp(s[i])) { if (ctl(s[i])) return err("ctl in target"); ++i; }
		if (i == a || i >= s.size()) return err("no version");
		std::string t = s.substr(a, i - a);
		if (t[0] == '#' || t[0] == '?') return err("target start");
		t = t.substr(0, t.find('#'));
		size_t q = t.find('?');
		if (q != std::string::npos) { r.query = t.substr(q + 1); t = t.substr(0, q); }
		for (size_t k = 0; k < t.size(); ++k) {
			if (t[k] != '%') { r.path += t[k]; continue; }
			// the parser sees the rest of the line here, so "%4?" and "%4#" are invalid too
			if (k + 2 >= t.size() || hexv(t[k + 1]) < 0 || hexv(t[k + 2]) < 0) return err("percent");
			r.path += char(hexv(t[k + 1]) * 16 + hexv(t[k + 2]));
			k += 2;
		}
		while (i < s.size() && sp(s[i])) ++i;
		if (!version(s, i, false)) return false;
		if (i != s.size()) return err("after version");
		return true;
	}
	bool status_line(const std::string &s) {
		size_t i = 0;
		if (!version(s, i, true)) return false;
		if (i + 3 > s.size() || !dig(s[i]) || !dig(s[i + 1]) || !dig(s[i + 2])) return err("status");
		r.status = (s[i] - '0') * 100 + (s[i + 1] - '0') * 10 + (s[i + 2] - '0');
		i += 3;
		if (i < s.size() && !sp(s[i])) return err("after status");
		for (size_t k = i; k < s.size(); ++k) if (ctl(s[k]) && !sp(s[k])) return err("ctl in text");
		r.status_text = trim(s.substr(i));
		return true;
	}
	bool header(const std::string &name, const std::string &joined) {
		std::string v = trim(joined);
		if (name == "connection" || name == "transfer-encoding") {
			size_t p = 0;
			while (true) {
				size_t c       = v.find(',', p);
				std::string it = lower(trim(v.substr(p, c == std::string::npos ? c : c - p)));
				if (!it.empty()) {
					if (name == "connection") {
						if (it == "close") r.keep = false;
						else if (it == "keep-alive") r.keep = true;
						else if (it == "upgrade") r.cupgrade = true;
						else return err("connection value");
					} else if (it == "chunked") {
						r.chunked = true;
					} else if (it != "identity") {
						if (r.chunked) return err("chunked must be last");
						r.te.push_back(it);
					}
				}
				if (c == std::string::npos) return true;
				p = c + 1;
			}
		}
		if (name == "content-length") {
			if (r.has_len) return err("two lengths");
			bool digits = !v.empty(), odd = false, bad = false;
			for (unsigned char c : v) {
				if (!dig(c)) digits = false;
				if (c == '+' || c == '-' || sp(c)) odd = true;
				else if (!dig(c)) bad = true;
			}
			if (v.empty() || bad) return err("length not a number");
			if ((!digits && odd) || (v.size() > 1 && v[0] == '0')) { r.kind = Ref::UNKNOWN; return false; }
			unsigned __int128 x = 0;
			for (unsigned char c : v) { x = x * 10 + (c - '0'); if (x > ~u64(0)) return err("length too big"); }
			r.len = u64(x);
			r.has_len = true;
			return true;
		}
		if (name == "upgrade") {
			if (lower(v) != "websocket") return err("upgrade value");
			r.uws = true;
			return true;
		}
		if (name == "content-type") {
			size_t p = v.find_first_of("; \t");
			r.mime   = lower(v.substr(0, p));
			std::string rest = p == std::string::npos ? "" : v.substr(p);
			size_t i = 0;
			while (i < rest.size() && sp(rest[i])) ++i;
			if (i < rest.size() && rest[i] == ';') ++i;
			while (i < rest.size() && sp(rest[i])) ++i;
			r.suffix = rest.substr(i);
			return true;
		}
		if (request) {
			if (name == "host") { r.host = v; return true; }
			if (name == "origin") { r.origin = v; return true; }
			if (name == "sec-websocket-key") { r.key = v; return true; }
			if (name == "sec-websocket-version") { r.ver = v; return true; }
			if (name == "authorization") {
				if (v.size() >= 6 && lower(v.substr(0, 5)) == "basic" && sp(v[5])) r.auth = trim(v.substr(6));
				return true;
			}
		} else {
			if (name == "date") { r.date = v; return true; }
			if (name == "server") { r.server = v; return true; }
			if (name == "sec-websocket-accept") { r.accept = v; return true; }
		}
		r.headers.emplace_back(name, v);
		return true;
	}
	void run(const std::string &s, size_t limit) {
		size_t pos = 0;
		bool first = true, have = false;
		std::string name, value;
		while (true) {
			size_t nl = s.find('\n', pos);
			if (nl == std::string::npos) {
				r.kind = s.size() > limit ? Ref::ERR : Ref::UNKNOWN;
				return;
			}
			std::string line = s.substr(pos, nl - pos);
			if (!line.empty() && line.back() == '\r') line.pop_back();
			pos = nl + 1;
			if (line.find('\r') != std::string::npos) { err("bare CR"); return; }
			if (first) {
				if (request && line.empty()) { if (pos > limit) { err("long"); return; } continue; }
				if (!(request ? request_line(line) : status_line(line))) return;
				r.keep = r.major == 1 && r.minor >= 1;
				first  = false;
				continue;
			}
			if (!line.empty() && sp(line[0])) {
				if (!have) { err("continuation of nothing"); return; }
				for (unsigned char c : line) if (ctl(c) && !sp(c)) { err("ctl in value"); return; }
				value += line;
				continue;
			}
			if (have && !header(name, value)) return;
			if (line.empty()) break;
			size_t i = 0;
			while (i < line.size() && tok(line[i])) ++i;
			size_t e = i;
			while (i < line.size() && sp(line[i])) ++i;
			if (e == 0 || i >= line.size() || line[i] != ':') { err("header name"); return; }
			name  = lower(line.substr(0, e));
			value = line.substr(i + 1);
			for (unsigned char c : value) if (ctl(c) && !sp(c)) { err("ctl in value"); return; }
			have = true;
		}
		if (pos > limit) { err("too long"); return; }
		r.kind     = Ref::GOOD;
		r.consumed = pos;
	}
};

// ------------------------------------------------------------------ library under test, any split
template<class H> static void common_fields(const H &q, Ref &o) {
	o.major = q.http_version_major; o.minor = q.http_version_minor; o.keep = q.keep_alive; o.chunked = q.transfer_encoding_chunked; o.te = q.transfer_encodings;
	o.has_len = bool(q.content_length); o.len = q.content_length ? *q.content_length : 0; o.cupgrade = q.connection_upgrade; o.uws = q.upgrade_websocket;
	o.mime = q.content_type_mime; o.suffix = q.content_type_suffix;
	for (auto &h : q.headers) o.headers.emplace_back(h.name, h.value);
}
static void fields(const http::RequestHeader &q, Ref &o) {
	common_fields(q, o);
	o.method = q.method; o.path = q.path; o.query = q.query_string; o.host = q.host; o.origin = q.origin; o.auth = q.basic_authorization; o.key = q.sec_websocket_key; o.ver = q.sec_websocket_version;
}
static void fields(const http::ResponseHeader &q, Ref &o) {
	common_fields(q, o);
	o.status = q.status; o.status_text = q.status_text; o.date = q.date; o.server = q.server; o.accept = q.sec_websocket_accept;
}
// what the accessors documented on the header types say, from its fields
static void check_upgrade(const http::RequestHeader &q) {
	bool want = q.method == "GET" && q.http_version_major == 1 && q.http_version_minor == 1 && q.connection_upgrade && q.upgrade_websocket && !q.sec_websocket_key.empty() && q.sec_websocket_version == "13" && q.keep_alive;
	if (want) count("upgrades");
	EXPECT(q.is_websocket_upgrade() == want, "websocket-upgrade", "request considered " << (want ? "no " : "") << "WebSocket upgrade: " << quote(q.to_string(), 2000));
}
static void check_upgrade(const http::ResponseHeader &q) {
	bool want = q.status == 101 && q.connection_upgrade && q.upgrade_websocket && !q.sec_websocket_accept.empty();
	if (want) count("upgrades");
	EXPECT(q.is_websocket_upgrade() == want, "websocket-upgrade", "response considered " << (want ? "no " : "") << "WebSocket upgrade: " << quote(q.to_string(), 2000));
}
// split: 0 whole, 1 bytes, 2 random pieces, 3 through circular Buffer
template<class P> static Ref run_lib(const std::string &s, int split, Rng &r, size_t limit) {
	Ref o;
	P p;
	p.max_total_length = limit;
	size_t pos = 0;
	try {
		if (split == 3) {
			crab::Buffer buf(1 + r.below(40));
			while (!p.is_good() && (pos < s.size() || !buf.empty())) {
				size_t before = buf.size();
				while (pos < s.size() && buf.write_count() && r.below(8)) {
					size_t n = std::min<size_t>(buf.write_count(), s.size() - pos);
					n        = 1 + r.below(n);
					std::memcpy(buf.write_ptr(), s.data() + pos, n);
					buf.did_write(n);
					pos += n;
				}
				p.parse(buf);
				(void)before;
			}
			o.consumed = pos - buf.size();
		} else {
			while (pos < s.size() && !p.is_good()) {
				size_t n = split == 0 ? s.size() : split == 1 ? 1 : 1 + r.below(20);
				n        = std::min(n, s.size() - pos);
				std::unique_ptr<char[]> piece(new char[n]);  // exact-size, so that reads past the piece are seen by ASan
				std::memcpy(piece.get(), s.data() + pos, n);
				size_t got = size_t(p.parse(piece.get(), piece.get() + n) - piece.get());
				if (got > n) { VIOL("consumed-more", "parser returned position past the end"); break; }
				if (got < n && !p.is_good()) { VIOL("stopped-early", "parser stopped at " << pos + got << " without finishing"); break; }
				pos += got;
			}
			o.consumed = pos;
		}
		o.kind = p.is_good() ? Ref::GOOD : Ref::INCOMPLETE;
		if (p.is_good()) {
			fields(p.req, o);
			check_upgrade(p.req);
		}
	} catch (const std::exception &e) {
		o.kind = Ref::ERR;
		o.why  = e.what();
	}
	ev(u64(o.kind) * 100003 + o.consumed);
	return o;
}
static const char *kinds[] = {"accepted", "rejected", "incomplete", "unspecified"};

static std::string nl(Rng &r, int style) { return style == 0 ? "\r\n" : style == 1 ? "\n" : r.coin() ? "\r\n" : "\n"; }
static std::string ws(Rng &r, size_t min = 0) {
	std::string s;
	size_t n = min + (r.chance(70) ? 0 : r.below(3));
	if (min == 0 && n == 0 && r.coin()) n = 1;
	while (s.size() < n) s += r.chance(80) ? ' ' : '\t';
	return s;
}
static const char TOKCH[] = "abcXYZ019-_.!#$%&'*+^`|~";
static std::string token(Rng &r, size_t max = 12) { return r.str(1 + r.below(max), TOKCH); }
static std::string value(Rng &r, size_t max = 40) {
	std::string s = r.bstr(r.below(max));
	for (auto &c : s) if (ctl(uint8_t(c))) c = r.chance(20) ? '\t' : r.coin() ? ' ' : 'v';
	if (r.coin()) s = r.str(r.below(max), "abc ,;:=\"()/<>@ \t?%");
	return s;
}
static std::string fold(Rng &r, const std::string &v, int style) {
	if (!r.chance(15)) return v;
	size_t p = r.below(v.size() + 1);
	return v.substr(0, p) + nl(r, style) + (r.coin() ? " " : "\t") + v.substr(p);
}
static std::string rcase(Rng &r, std::string s) {
	for (auto &c : s) if (c >= 'a' && c <= 'z' && r.chance(30)) c = char(c - 32);
	return s;
}
static std::string gen_headers(Rng &r, bool request, int style) {
	std::string s;
	size_t n = r.below(8);
	bool had_len = false;
	for (size_t i = 0; i != n; ++i) {
		std::string name, val;
		switch (r.below(16)) {
		case 0: name = "connection"; { std::vector<std::string> o{"close", "keep-alive", "upgrade", ""}; size_t k = 1 + r.below(3); for (size_t j = 0; j != k; ++j) val += (j ? ws(r) + "," + ws(r) : "") + rcase(r, r.pick(o)); } break;
		case 1: name = "transfer-encoding"; { std::vector<std::string> o{"chunked", "identity", "gzip", "", "deflate"}; size_t k = 1 + r.below(3); for (size_t j = 0; j != k; ++j) val += (j ? ws(r) + "," + ws(r) : "") + rcase(r, r.pick(o)); } break;
		case 2: if (had_len && !r.chance(5)) continue; had_len = true; name = "content-length"; val = r.coin() ? std::to_string(r.below(1000)) : std::to_string(r.next() >> r.below(64)); if (r.chance(10)) val = r.pick(std::vector<std::string>{"", "x", "1x", "0x10", "18446744073709551616", "99999999999999999999999", "18446744073709551615", "1,1", "00012", "1e3"}); break;
		case 3: name = "content-type"; val = rcase(r, r.pick(std::vector<std::string>{"text/html", "application/json", "TEXT/plain", ""})) + r.pick(std::vector<std::string>{"", ";charset=utf-8", " ; charset=UTF-8", "; a=b; c=d", " x", ";"}); break;
		case 4: name = "upgrade"; val = rcase(r, r.chance(95) ? "websocket" : "h2c"); break;
		case 5: name = request ? "host" : "date"; val = value(r); break;
		case 6: name = request ? "origin" : "server"; val = value(r); break;
		case 7: name = request ? "sec-websocket-key" : "sec-websocket-accept"; val = value(r); break;
		case 8: name = request ? "sec-websocket-version" : "set-cookie"; val = r.coin() ? "13" : value(r); break;
		case 9: name = "authorization"; val = r.pick(std::vector<std::string>{"Basic abc=", "basic  \t x y", "BASIC\tq", "Basic", "Bearer zzz", "Basicabc", "basic "}); break;
		default: name = token(r, 18); val = value(r, r.chance(3) ? 3000 : 40);
		}
		s += rcase(r, name) + (r.chance(5) ? ws(r, 1) : "") + ":" + ws(r) + fold(r, val, style) + ws(r) + nl(r, style);
	}
	return s;
}
static std::string gen_target(Rng &r) {
	std::string t = r.chance(90) ? "/" : r.pick(std::vector<std::string>{"*", "http://h/", "a", "%41", "host:1"});
	size_t n = r.below(12);
	for (size_t i = 0; i != n; ++i) switch (r.below(8)) {
		case 0: { char b[8]; std::snprintf(b, sizeof b, r.coin() ? "%%%02x" : "%%%02X", unsigned(r.below(256))); t += b; break; }
		case 1: t += char(0x80 + r.below(128)); break;
		case 2: t += r.pick(std::vector<std::string>{"/", "..", "/../", "//", ";", ":", "@", "+", "=", "&"}); break;
		case 3: if (r.chance(4)) t += r.pick(std::vector<std::string>{"%", "%4", "%g1", "%4g"}); break;
		default: t += r.str(1 + r.below(4), "abcABC019._~-");
		}
	if (r.coin()) { t += "?"; t += r.str(r.below(30), "abc=&%/?+;:@12\x80\xff"); }
	if (r.chance(10)) { t += "#"; t += r.str(r.below(10), "abc?#/%"); }
	return t;
}
static std::string gen_head(Rng &r, bool request, int style) {
	std::string s;
	if (r.chance(10)) {  // a (nearly) complete WebSocket upgrade
		s = request ? r.pick(std::vector<std::string>{"GET", "GET", "GET", "POST", "get"}) + " " + gen_target(r) + " HTTP/" + (r.chance(85) ? "1.1" : "1.0") : "HTTP/1.1 " + std::string(r.chance(85) ? "101" : r.coin() ? "200" : "102") + " OK";
		s += nl(r, style);
		if (r.chance(93)) s += "Connection:" + ws(r) + r.pick(std::vector<std::string>{"Upgrade", "upgrade", "keep-alive, Upgrade", "close, upgrade", "Upgrade"}) + nl(r, style);
		if (r.chance(93)) s += "Upgrade:" + ws(r) + (r.chance(85) ? "WebSocket" : "h2c") + nl(r, style);
		if (request && r.chance(93)) s += "Sec-WebSocket-Key:" + ws(r) + r.str(r.chance(90) ? 1 + r.below(24) : 0, "abcXYZ019+/=") + nl(r, style);
		if (request && r.chance(93)) s += "Sec-WebSocket-Version:" + ws(r) + (r.chance(85) ? "13" : r.coin() ? "8" : "1 3") + nl(r, style);
		if (!request && r.chance(93)) s += "Sec-WebSocket-Accept:" + ws(r) + r.str(r.chance(90) ? 1 + r.below(24) : 0, "abcXYZ019+/=") + nl(r, style);
		return s + (r.coin() ? gen_headers(r, request, style) : "") + nl(r, style);
	}
	std::string ver = r.chance(85) ? (r.chance(70) ? "1.1" : "1.0") : r.pick(std::vector<std::string>{"1.2", "0.9", "1.99", "01.1", "1.01", "1.100", "2.0", "9.1", "10.0", "1.", ".1", "1", "1.1x"});
	if (request) {
		while (r.chance(8)) s += nl(r, style);
		s += (r.chance(80) ? r.pick(std::vector<std::string>{"GET", "POST", "HEAD", "M-SEARCH", "get"}) : token(r)) + ws(r, 1) + gen_target(r) + ws(r, 1) + "HTTP/" + ver + (r.chance(8) ? ws(r, 1) : "") + nl(r, style);
	} else {
		char st[8];
		std::snprintf(st, sizeof st, "%03u", unsigned(r.below(1000)));
		s += "HTTP/" + ver + ws(r, 1) + st + (r.chance(85) ? ws(r, 1) + value(r, 20) : "") + nl(r, style);
	}
	return s + gen_headers(r, request, style) + nl(r, style);
}
static void mutate(Rng &r, std::string &s) {
	size_t k = 1 + r.below(3);
	while (k-- && !s.empty()) {
		size_t p = r.below(s.size());
		switch (r.below(7)) {
		case 0: s[p] = char(r.byte()); break;
		case 1: s.insert(p, 1, char(r.byte())); break;
		case 2: s.erase(p, 1 + r.below(3)); break;
		case 3: s.insert(p, r.pick(std::vector<std::string>{"\r", "\n", " ", "\t", ":", ",", "\r\n", "\r\n ", "%", "\x7f", std::string(1, '\0')})); break;
		case 4: s[p] = r.pick(std::vector<char>{'\r', '\n', ' ', '\t', ':', '%', '/', '\0', '\x1f', '\x7f', '\x80'}); break;
		case 5: { size_t q = r.below(s.size()), n = std::min<size_t>(1 + r.below(30), s.size() - q); s.insert(p, s.substr(q, n)); break; }
		default: if (r.chance(30)) s.resize(p); break;
		}
	}
}
template<class P> static void case_head(bool request) {
	Rng &r = ctx().rng;
	std::string first;
	for (int rep = 0; rep != 6; ++rep) {
		int style     = int(r.below(3));
		std::string s = gen_head(r, request, style);
		bool mutated  = r.chance(40);
		if (mutated) mutate(r, s);
		size_t limit = 8192;
		if (r.chance(6)) limit = s.size() > 4 ? s.size() - 2 + r.below(5) : 8192;
		if (r.chance(2)) { s.insert(s.find('\n') == std::string::npos ? 0 : s.find('\n') + 1, "x-long: " + std::string(7800 + r.below(800), 'y') + "\r\n"); }
		std::string tail = r.coin() ? r.bstr(r.below(20)) : "";  // following bytes must be left alone
		RefParser rp{request, Ref{}};
		rp.run(s + tail, limit);
		if (rep == 0) first = s;
		Ref base = run_lib<P>(s + tail, 0, r, limit);
		if (base.kind == Ref::ERR && base.why.find("Invalid re") == 0 && base.why.find("parser state") != std::string::npos) VIOL("parser-state", base.why);
		std::string bd = base.dump();
		for (int split = 1; split != 4; ++split) {
			Ref o = run_lib<P>(s + tail, split, r, limit);
			EXPECT(o.kind == base.kind && (o.kind != Ref::GOOD || (o.consumed == base.consumed && o.dump() == bd)), "split-dependent",
			    "head " << quote(s, 2000) << " whole: " << kinds[base.kind] << " " << base.why << " " << bd << " split " << split << ": " << kinds[o.kind] << " " << o.why << " " << o.dump());
		}
		const Ref &e = rp.r;
		if (e.kind == Ref::GOOD) {
			count("heads_valid");
			EXPECT(base.kind == Ref::GOOD, "valid-rejected", "head " << quote(s, 2000) << " is valid but " << kinds[base.kind] << ": " << base.why);
			if (base.kind == Ref::GOOD) {
				EXPECT(base.consumed == e.consumed, "wrong-end", "head " << quote(s, 2000) << " ends at " << e.consumed << " but parser stopped at " << base.consumed);
				EXPECT(bd == e.dump(), "wrong-fields", "head " << quote(s, 2000) << " parsed as " << bd << " expected " << e.dump());
			}
		} else if (e.kind == Ref::ERR) {
			count("heads_invalid");
			EXPECT(base.kind == Ref::ERR, "invalid-accepted", "head " << quote(s, 2000) << " is invalid (" << e.why << ") but " << kinds[base.kind] << " as " << bd);
		} else
			count("heads_unspecified");
		if (ctx().failed) return;
	}
	ctx().nontrivial = true;
	ctx().desc       = quote(first, 160);
}

// ------------------------------------------------------------------ H04
static std::string clean_value(Rng &r, size_t max = 30) { return trim(value(r, max)); }
template<class H> static void gen_common(Rng &r, H &h, bool request) {
	h.http_version_major = 1;
	h.http_version_minor = r.chance(75) ? 1 : 0;
	h.keep_alive         = r.coin();
	if (r.coin()) h.content_length = r.coin() ? r.below(100) : r.next();
	h.transfer_encoding_chunked = r.chance(30);
	while (r.chance(20)) h.transfer_encodings.push_back(r.pick(std::vector<std::string>{"gzip", "deflate", "br", "x-y"}));
	if (h.http_version_minor == 1 && h.keep_alive && r.chance(30)) h.connection_upgrade = h.upgrade_websocket = true;
	else if (r.chance(10)) (r.coin() ? h.connection_upgrade : h.upgrade_websocket) = true;  // half set: nothing to announce
	if (r.coin()) {
		if (r.coin()) h.set_content_type(r.pick(std::vector<std::string>{"text/html", "application/json"}), r.coin() ? "" : r.pick(std::vector<std::string>{"charset=utf-8", "a=b; c=d", "x y"}));
		else h.set_content_type(r.pick(std::vector<std::string>{"Text/HTML; charset=x", "text/plain", "application/x-www-form-urlencoded ; q"}));
	}
	size_t n = r.below(5);
	static const std::set<std::string> special{"connection", "transfer-encoding", "content-length", "upgrade", "content-type", "host", "origin", "sec-websocket-key", "sec-websocket-version", "authorization", "date", "server", "sec-websocket-accept"};
	for (size_t i = 0; i != n; ++i) {
		std::string nm = lower(token(r));
		if (special.count(nm)) continue;
		h.headers.push_back(http::Header{nm, clean_value(r)});
	}
	(void)request;
}
// names of the lines present, independently of any parser
static std::multiset<std::string> line_names(const std::string &t) {
	std::multiset<std::string> o;
	size_t p = t.find("\r\n");
	while (p != std::string::npos && p + 2 < t.size()) {
		size_t e = t.find("\r\n", p + 2), c = t.find(':', p + 2);
		if (e == std::string::npos || e == p + 2) break;
		o.insert(lower(t.substr(p + 2, std::min(c, e) - p - 2)));
		p = e;
	}
	return o;
}
template<class H> static std::multiset<std::string> want_names(const H &h) {
	std::multiset<std::string> o;
	for (auto &x : h.headers) o.insert(x.name);
	if (!h.content_type_mime.empty()) o.insert("content-type");
	if (h.content_length) o.insert("content-length");
	if (h.transfer_encoding_chunked || !h.transfer_encodings.empty()) o.insert("transfer-encoding");
	return o;
}
static void check_names(const std::string &t, std::multiset<std::string> want, bool upgrade, bool connection_line) {
	std::multiset<std::string> got = line_names(t);
	if (upgrade) { want.insert("connection"); want.insert("upgrade"); }
	else if (connection_line) want.insert("connection");
	else got.erase("connection");  // the default may be spelled out
	std::string g, w;
	for (auto &x : got) g += x + " ";
	for (auto &x : want) w += x + " ";
	EXPECT(got == want, "header-lines", quote(t, 2000) << " has " << g << " instead of " << w);
}
template<class H> static void check_names(const std::string &t, const H &h, std::multiset<std::string> want) {
	bool up = h.connection_upgrade && h.upgrade_websocket;
	for (auto &x : want_names(h)) want.insert(x);
	check_names(t, want, up, h.keep_alive != (h.http_version_minor == 1));
}
// exactly one head: starts with a line, no empty line but the last, every line "name: value"
static void check_text(const std::string &t) {
	EXPECT(t.size() >= 4 && t.compare(t.size() - 4, 4, "\r\n\r\n") == 0, "no-empty-line", quote(t));
	EXPECT(t.find("\r\n\r\n") == t.size() - 4, "early-empty-line", quote(t));
}
static void check_simple(Rng &r) {
	static const std::vector<std::pair<int, const char *>> reasons{{101, "switching protocols"}, {200, "ok"}, {400, "bad request"}, {401, "unauthorized"}, {403, "forbidden"}, {404, "not found"}, {422, "unprocessable entity"}, {500, ""}, {501, "not implemented"}, {502, ""}, {503, ""}};
	auto &rs = r.pick(reasons);
	EXPECT(*rs.second ? lower(http::status_to_string(rs.first)) == rs.second : !http::status_to_string(rs.first).empty(), "reason-phrase", rs.first << " " << quote(http::status_to_string(rs.first)));
	EXPECT(!http::status_to_string(int(r.below(1000))).empty(), "reason-phrase", "empty");
	std::string text = r.bstr(r.below(60));
	bool html = r.coin(), own = r.coin();
	int st = r.coin() ? rs.first : int(r.range(100, 999));
	auto a = html ? (own ? http::Response::simple_html(st, std::string(text)) : http::Response::simple_html(st)) : own ? http::Response::simple_text(st, std::string(text)) : http::Response::simple_text(st);
	count("simple_responses");
	EXPECT(a.header.status == st && a.header.content_length && *a.header.content_length == a.body.size(), "simple-response", st << " " << quote(a.header.to_string()) << " body " << quote(a.body));
	EXPECT(a.header.content_type_mime == (html ? "text/html" : "text/plain") && lower(a.header.content_type_suffix) == "charset=utf-8", "simple-response-type", quote(a.header.to_string()));
	if (own && !html) EXPECT(a.body == text, "simple-response-body", quote(a.body) << " instead of " << quote(text));
	if (own && html) EXPECT(a.body.find(text) != std::string::npos, "simple-response-body", quote(a.body) << " does not hold " << quote(text));
	if (!own) EXPECT(a.body.find(std::to_string(st)) != std::string::npos && a.body.find(http::status_to_string(st)) != std::string::npos, "simple-response-body", quote(a.body) << " does not state " << st);
	http::Request rq("h.test", "PUT", "/p%20q?x=1");
	rq.set_body(std::string(text));
	EXPECT(rq.body == text && rq.header.content_length && *rq.header.content_length == text.size() && rq.header.host == "h.test" && rq.header.path == "/p q" && rq.header.query_string == "x=1", "simple-request", quote(rq.header.to_string()));
}
static void case_serialize() {
	Rng &r = ctx().rng;
	std::string shown;
	check_simple(r);
	for (int rep = 0; rep != 5; ++rep) {
		Ref want, got;
		std::string text;
		bool request = r.coin();
		if (request) {
			http::RequestHeader h;
			gen_common(r, h, true);
			h.method = r.chance(70) ? r.pick(std::vector<std::string>{"GET", "POST", "PUT"}) : token(r);
			h.path   = "/";
			size_t n = r.below(20);
			bool wild = r.coin();
			for (size_t i = 0; i != n; ++i) h.path += wild ? char(r.byte()) : r.str(1, "abc/._-~%? #+&=:@")[0];
			if (r.chance(5)) h.path = "*";
			if (r.coin()) h.query_string = r.str(1 + r.below(20), "abc=&%/?+;:@12\x80\xff");
			if (r.coin()) h.host = clean_value(r);
			if (r.coin()) h.origin = clean_value(r);
			if (r.coin()) h.basic_authorization = r.str(1 + r.below(20), "abcXYZ019+/=");
			if (r.chance(30)) h.sec_websocket_key = clean_value(r);
			if (r.chance(30)) h.sec_websocket_version = "13";
			fields(h, want);
			text = h.to_string();
			std::multiset<std::string> nm;
			if (!h.host.empty()) nm.insert("host");
			if (!h.origin.empty()) nm.insert("origin");
			if (!h.basic_authorization.empty()) nm.insert("authorization");
			if (!h.sec_websocket_key.empty()) nm.insert("sec-websocket-key");
			if (!h.sec_websocket_version.empty()) nm.insert("sec-websocket-version");
			check_names(text, h, nm);
			if (!(h.connection_upgrade && h.upgrade_websocket)) want.cupgrade = want.uws = false;
			check_upgrade(h);
			EXPECT(h.path == "*" ? text.compare(h.method.size(), 2, " *") == 0 : true, "asterisk", quote(text));
			// set_uri/get_uri agree with what is sent
			http::RequestHeader h2;
			if (r.coin()) h2.set_uri("/old?stale=1");
			h2.set_uri(h.get_uri());
			EXPECT(h2.path == h.path && h2.query_string == h.query_string, "uri-roundtrip", quote(h.path) << "?" << quote(h.query_string) << " -> " << quote(h.get_uri()) << " -> " << quote(h2.path) << "?" << quote(h2.query_string));
		} else {
			http::ResponseHeader h;
			gen_common(r, h, false);
			h.status = int(r.range(100, 999));
			if (r.coin()) h.status = r.pick(std::vector<int>{101, 200, 400, 401, 403, 404, 422, 500, 501, 502, 503});
			if (r.coin()) h.status_text = clean_value(r);
			if (r.coin()) h.date = clean_value(r);
			if (r.coin()) h.server = clean_value(r);
			if (r.chance(30)) h.sec_websocket_accept = clean_value(r);
			fields(h, want);
			if (h.status_text.empty()) want.status_text = http::status_to_string(h.status);
			text = h.to_string();
			std::multiset<std::string> nm;
			if (!h.date.empty()) nm.insert("date");
			if (!h.server.empty()) nm.insert("server");
			if (!h.sec_websocket_accept.empty()) nm.insert("sec-websocket-accept");
			check_names(text, h, nm);
			if (!(h.connection_upgrade && h.upgrade_websocket)) want.cupgrade = want.uws = false;
			check_upgrade(h);
		}
		check_text(text);
		if (text.size() > 8192) continue;
		std::string all = text + "tail";
		got = request ? run_lib<http::RequestParser>(all, int(r.below(4)), r, 8192) : run_lib<http::ResponseParser>(all, int(r.below(4)), r, 8192);
		count(request ? "requests_serialized" : "responses_serialized");
		EXPECT(got.kind == Ref::GOOD && got.consumed == text.size(), "serialized-rejected", quote(text, 2000) << " -> " << kinds[got.kind] << " " << got.why << " at " << got.consumed);
		if (got.kind == Ref::GOOD) EXPECT(got.dump() == want.dump(), "serialized-differs", quote(text, 2000) << " parsed " << got.dump() << " want " << want.dump());
		// and the independent parser must agree that it is a good head with these fields
		RefParser rp{request, Ref{}};
		rp.run(all, 8192);
		EXPECT(rp.r.kind == Ref::GOOD && rp.r.dump() == want.dump(), "serialized-malformed", quote(text, 2000) << " reference: " << kinds[rp.r.kind] << " " << rp.r.why << " " << rp.r.dump() << " want " << want.dump());
		if (rep == 0) shown = text;
		if (ctx().failed) return;
	}
	ctx().nontrivial = true;
	ctx().desc       = quote(shown, 160);
}

int main(int argc, char **argv) {
	return harness_main(argc, argv, {{"request", [] { case_head<http::RequestParser>(true); }}, {"response", [] { case_head<http::ResponseParser>(false); }}, {"serialize", case_serialize}});
}
