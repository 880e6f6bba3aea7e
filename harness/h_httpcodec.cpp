// Monitors for body framing (H03), queries and cookies (H05), URIs (H06), WebSocket frames (H07) and addresses (N07).
#include <crab/crab.hpp>
#include <arpa/inet.h>
#include "common.hpp"
using namespace vh;
namespace http = crab::http;

static bool sp(unsigned char c) { return c == ' ' || c == '\t'; }
static int hexv(unsigned char c) {
	if (c >= '0' && c <= '9') return c - '0';
	if (c >= 'a' && c <= 'f') return c - 'a' + 10;
	if (c >= 'A' && c <= 'F') return c - 'A' + 10;
	return -1;
}
// Feeds bytes to a parser in exact-size heap pieces; returns consumed bytes or -1 on exception.
template<class P> static long feed(P &p, const std::string &s, int split, Rng &r, std::string &why) {
	size_t pos = 0;
	try {
		if (split == 3) {
			crab::Buffer buf(1 + r.below(60));
			while (!p.is_good() && (pos < s.size() || !buf.empty())) {
				while (pos < s.size() && buf.write_count() && r.below(8)) {
					size_t n = 1 + r.below(std::min<size_t>(buf.write_count(), s.size() - pos));
					std::memcpy(buf.write_ptr(), s.data() + pos, n);
					buf.did_write(n);
					pos += n;
				}
				p.parse(buf);
			}
			return long(pos - buf.size());
		}
		while (pos < s.size() && !p.is_good()) {
			size_t n = split == 0 ? s.size() : split == 1 ? 1 : 1 + r.below(r.coin() ? 8 : 300);
			n        = std::min(n, s.size() - pos);
			std::unique_ptr<uint8_t[]> piece(new uint8_t[n]);
			std::memcpy(piece.get(), s.data() + pos, n);
			const uint8_t *b = piece.get();
			size_t got       = size_t(p.parse(b, b + n) - b);
			if (got > n) { VIOL("consumed-more", "parser returned position past the end"); return -1; }
			if (got < n && !p.is_good()) { VIOL("stopped-early", "parser stopped at " << pos + got << " without finishing"); return -1; }
			pos += got;
		}
		return long(pos);
	} catch (const std::exception &e) {
		why = e.what();
		return -1;
	}
}

// ------------------------------------------------------------------ H03
struct BodyRef { int kind = 2; size_t consumed = 0; std::string body, why; };  // 0 good 1 error 2 incomplete/unspecified
// line-based reference decoder of chunked bodies
static BodyRef ref_chunked(const std::string &s) {
	BodyRef o;
	size_t pos = 0;
	auto fail = [&](const char *w) { o.kind = 1; o.why = w; return o; };
	while (true) {
		size_t hdr_start = pos;
		while (pos < s.size() && sp(s[pos])) ++pos;
		if (pos - hdr_start > 257) return fail("chunk header too long");
		if (pos >= s.size()) return o;
		if (hexv(s[pos]) < 0) return fail("size digit");
		unsigned __int128 n = 0;
		while (pos < s.size() && hexv(s[pos]) >= 0) {
			n = n * 16 + unsigned(hexv(s[pos]));
			if (n > ~u64(0)) return fail("overflow");
			++pos;
			if (pos - hdr_start > 220) return o;  // limits checked separately
		}
		if (pos >= s.size()) return o;
		if (!(sp(s[pos]) || s[pos] == ';' || s[pos] == '\r' || s[pos] == '\n')) return fail("size not hex");
		size_t e = s.find('\n', pos);
		if (s[pos] == '\r') { if (pos + 1 >= s.size()) return o; if (s[pos + 1] != '\n') return fail("CR"); }
		else {
			size_t cr = s.find('\r', pos);
			if (cr != std::string::npos && (e == std::string::npos || cr < e)) {
				if (cr - hdr_start > 220) return o;
				if (cr + 1 >= s.size()) return o;
				if (s[cr + 1] != '\n') return fail("bare CR in extension");
			}
		}
		if (e == std::string::npos || e - hdr_start > 220) return o;
		pos = e + 1;
		if (n == 0) break;
		if (n > s.size() - pos) return o;
		o.body.append(s, pos, size_t(n));
		pos += size_t(n);
		size_t t = pos;
		while (pos < s.size() && sp(s[pos])) ++pos;
		if (pos - t > 20) return o;
		if (pos >= s.size()) return o;
		if (s[pos] == '\r') { ++pos; if (pos >= s.size()) return o; }
		if (s[pos] != '\n') return fail("chunk end");
		++pos;
	}
	size_t t0 = pos;
	while (true) {
		if (pos - t0 > 4000) return o;
		if (pos >= s.size()) return o;
		if (s[pos] == '\n') { ++pos; break; }
		if (s[pos] == '\r') { if (pos + 1 >= s.size()) return o; if (s[pos + 1] != '\n') return fail("final"); pos += 2; break; }
		unsigned char c = uint8_t(s[pos]);
		if (c >= 128 || c < 32 || c == 127 || std::strchr("()<>@,;:\\\"/[]?={} \t", c)) return fail("trailer start");
		size_t e = pos;
		while (e < s.size() && s[e] != '\r' && s[e] != '\n') ++e;
		if (e >= s.size()) return o;
		if (s[e] == '\r') { if (e + 1 >= s.size()) return o; if (s[e + 1] != '\n') return fail("trailer CR"); ++e; }
		pos = e + 1;
	}
	o.kind     = 0;
	o.consumed = pos;
	return o;
}
static std::string nl(Rng &r, int style) { return style == 0 ? "\r\n" : style == 1 ? "\n" : r.coin() ? "\r\n" : "\n"; }
static void case_body() {
	Rng &r = ctx().rng;
	std::string shown;
	for (int rep = 0; rep != 4; ++rep) {
		std::string payload = r.bstr(r.len(r.chance(15) ? 20000 : 300)), wire, tail = r.bstr(r.below(30)), why;
		bool chunked = r.chance(70);
		crab::optional<uint64_t> cl;
		int expect = 0;  // good
		size_t consumed = 0;
		std::string body = payload;
		if (!chunked) {
			bool none = r.chance(10);
			if (none) payload.clear(), body.clear();
			else cl = payload.size();
			wire     = payload;
			consumed = payload.size();
			if (r.chance(15) && !wire.empty()) { wire.resize(wire.size() - 1 - r.below(wire.size())); tail.clear(); expect = 2; }
			if (r.chance(5)) { cl = ~u64(0) - r.below(3); expect = 2; }  // never completes, must not wrap
			count("bodies_by_length");
		} else {
			if (r.chance(20)) cl = r.below(1000);  // chunked overrides announced length
			int style = int(r.below(3));
			size_t pos = 0;
			while (pos < payload.size()) {
				size_t n = std::min<size_t>(1 + r.len(r.coin() ? 20 : 5000), payload.size() - pos);
				char b[40];
				std::snprintf(b, sizeof b, r.coin() ? "%zx" : "%zX", n);
				std::string sz = b;
				if (r.chance(20)) sz = std::string(r.below(20), '0') + sz;
				if (r.chance(5)) sz = " \t" + sz;
				if (r.chance(20)) sz += r.pick(std::vector<std::string>{";ext", "; a=b;c=\"d\"", " ", "  ; x", ";\t", ";" + std::string(150, 'e')});
				wire += sz + nl(r, style) + payload.substr(pos, n) + (r.chance(4) ? " " : "") + nl(r, style);
				pos += n;
			}
			wire += std::string(1 + (r.chance(20) ? r.below(10) : 0), '0') + (r.chance(20) ? ";last" : "") + nl(r, style);
			size_t nt = r.chance(30) ? r.below(4) : 0;
			for (size_t i = 0; i != nt; ++i) wire += "X-T" + std::to_string(i) + ": " + r.str(r.below(30), "abc;:,\"= ") + nl(r, style);
			wire += nl(r, style);
			consumed = wire.size();
			if (r.chance(40)) {
				size_t k = 1 + r.below(2);
				while (k--) {
					size_t p = r.below(wire.size());
					switch (r.below(6)) {
					case 0: wire[p] = char(r.byte()); break;
					case 1: wire.erase(p, 1); if (wire.empty()) wire = "0"; break;
					case 2: wire.insert(p, 1, r.pick(std::vector<char>{'\r', '\n', 'f', 'g', '0', ' ', ';', '-', '+', 'x'})); break;
					case 3: wire.insert(0, r.pick(std::vector<std::string>{"fffffffffffffffff\r\n", "10000000000000000\r\n", "\r\n", "g\r\n", "-1\r\n", ";\r\n", "fffffffffffffff0\r\n", "00000000000000000000ff1\r\n"}));
						if (r.coin()) {  // any number around and above 64 bits
							std::string num = r.str(14 + r.below(8), r.coin() ? "0123456789abcdefABCDEF" : "0124f");
							wire = (r.chance(20) ? std::string(r.below(30), '0') : "") + num + (r.coin() ? "\r\n" : "\n") + wire;
							count("chunk_sizes_huge");
						}
						break;
					case 4: wire.insert(p, "\r\n"); break;
					default: wire.resize(p + 1); break;
					}
				}
				BodyRef ref = ref_chunked(wire + tail);
				expect   = ref.kind;
				body     = ref.body;
				consumed = ref.consumed;
				why      = ref.why;
				count(expect == 1 ? "chunked_invalid" : "chunked_mutated");
			} else {
				BodyRef ref = ref_chunked(wire + tail);
				if (ref.kind != 0 || ref.body != payload || ref.consumed != wire.size()) { std::fprintf(stderr, "reference decoder broken on %s\n", quote(wire, 5000).c_str()); finish_now(77); }
				count("bodies_chunked");
			}
		}
		bool long_hdr = chunked && r.chance(3), long_tr = chunked && !long_hdr && r.chance(3);
		if (long_hdr) {
			std::string fill = std::string(400 + r.below(r.coin() ? 300 : 100000), 'x');
			switch (r.below(4)) {
			case 0: wire = "1;" + fill + "\r\nA\r\n0\r\n\r\n"; break;
			case 1: std::fill(fill.begin(), fill.end(), r.coin() ? ' ' : '\t'); wire = fill + "1\r\nA\r\n0\r\n\r\n"; break;
			case 2: std::fill(fill.begin(), fill.end(), '0'); wire = fill + (r.coin() ? "1\r\nA\r\n0\r\n\r\n" : "\r\n\r\n"); break;
			default: std::fill(fill.begin(), fill.end(), ' '); wire = "1\r\nA" + fill + "\r\n0\r\n\r\n";
			}
			if (r.coin()) { wire = "3\r\nabc\r\n" + wire; }
			expect = 1; why = "long chunk header"; count("limits");
		}
		if (long_tr) { wire = "0\r\n"; size_t n = 5000 + r.below(100000); size_t line = r.coin() ? 200 : r.coin() ? 3 : 5000; while (wire.size() < n) wire += "T:" + std::string(r.below(line), 'x') + (r.coin() ? "\r\n" : "\n"); wire += "\r\n"; expect = 1; why = "long trailer"; count("limits"); }
		int first_kind = -1;
		long first_used = 0;
		std::string first_body;
		for (int split = 0; split != 4; ++split) {
			http::BodyParser p(cl, chunked);
			std::string lw;
			long used = p.is_good() ? 0 : feed(p, wire + tail, split, r, lw);
			int kind  = p.is_good() ? 0 : used < 0 ? 1 : 2;
			ev(u64(kind) * 1000003 + u64(used));
			if (split == 0) { first_kind = kind; first_used = used; first_body = p.body.get_buffer(); }
			else EXPECT(kind == first_kind && (kind != 0 || (used == first_used && p.body.get_buffer() == first_body)), "split-dependent", "body " << quote(wire, 3000) << " split " << split << ": " << kind << " vs " << first_kind);
			if (expect == 0) {
				EXPECT(kind == 0, "valid-rejected", (chunked ? "chunked " : "length ") << quote(wire, 3000) << " -> " << kind << " " << lw);
				EXPECT(kind != 0 || size_t(used) == consumed, "wrong-end", (chunked ? "chunked " : "length ") << quote(wire, 3000) << " consumed " << used << " expected " << consumed);
				EXPECT(kind != 0 || p.body.get_buffer() == body, "wrong-body", (chunked ? "chunked " : "length ") << quote(wire, 3000) << " decoded to " << quote(p.body.get_buffer(), 3000));
			} else if (expect == 1)
				EXPECT(kind == 1, "invalid-accepted", quote(wire, 3000) << " is invalid (" << why << ") but got " << kind);
			else if (!chunked)
				EXPECT(kind == 2 && p.body.get_buffer() == (wire + tail), "premature", "length " << *cl << " with " << (wire + tail).size() << " bytes: " << kind);
			if (kind == 0 && r.chance(30)) EXPECT(p.body.size() == first_body.size(), "body-size", p.body.size());
			if (ctx().failed) return;
		}
		if (rep == 0) shown = (chunked ? "chunked " : "length ") + quote(wire, 120);
	}
	ctx().nontrivial = true;
	ctx().desc       = shown;
}

// ------------------------------------------------------------------ H05
static std::string ref_qdecode(const std::string &s) {
	std::string o;
	for (size_t i = 0; i < s.size(); ++i) {
		if (s[i] == '+') o += ' ';
		else if (s[i] == '%' && i + 2 < s.size() && hexv(s[i + 1]) >= 0 && hexv(s[i + 2]) >= 0) { o += char(hexv(s[i + 1]) * 16 + hexv(s[i + 2])); i += 2; }
		else o += s[i];
	}
	return o;
}
typedef std::map<std::string, std::string> Pairs;
static Pairs ref_query(const std::string &s) {
	Pairs m;
	size_t p = 0;
	while (true) {
		size_t a = s.find('&', p);
		std::string it = s.substr(p, a == std::string::npos ? a : a - p);
		size_t e = it.find('=');
		if (e != std::string::npos) m[ref_qdecode(it.substr(0, e))] = ref_qdecode(it.substr(e + 1));
		else if (!it.empty()) m[ref_qdecode(it)] = "";
		if (a == std::string::npos) return m;
		p = a + 1;
	}
}
static std::string trim(const std::string &s) {
	size_t a = 0, b = s.size();
	while (a < b && sp(s[a])) ++a;
	while (b > a && sp(s[b - 1])) --b;
	return s.substr(a, b - a);
}
static Pairs ref_cookies(const std::string &s) {
	Pairs m;
	size_t p = 0;
	while (true) {
		size_t a = s.find(';', p);
		std::string it = trim(s.substr(p, a == std::string::npos ? a : a - p));
		if (!it.empty()) {
			size_t e = it.find('=');
			m[trim(it.substr(0, e))] = e == std::string::npos ? "" : trim(it.substr(e + 1));
		}
		if (a == std::string::npos) return m;
		p = a + 1;
	}
}
static Pairs ord(const std::unordered_map<std::string, std::string> &m) { return Pairs(m.begin(), m.end()); }
static std::string show(const Pairs &m) {
	std::string s = "{";
	for (auto &p : m) s += "\"" + quote(p.first) + "\":\"" + quote(p.second) + "\" ";
	return s + "}";
}
template<class P> static Pairs parse_split(const std::string &s, Rng &r) {
	P p;
	size_t pos = 0;
	while (pos < s.size()) {
		size_t n = std::min<size_t>(1 + r.below(6), s.size() - pos);
		std::unique_ptr<char[]> b(new char[n]);
		std::memcpy(b.get(), s.data() + pos, n);
		p.parse(b.get(), b.get() + n);
		pos += n;
	}
	p.parse_end();
	return ord(p.parsed);
}
static void case_query() {
	Rng &r = ctx().rng;
	std::string shown;
	for (int rep = 0; rep != 8; ++rep) {
		std::string text;
		Pairs want;
		if (r.coin()) {  // encode arbitrary pairs
			size_t n = r.below(5);
			for (size_t i = 0; i != n; ++i) {
				std::string k = r.coin() ? r.bstr(r.below(8)) : r.str(1 + r.below(2), "ab"), v = r.coin() ? r.bstr(r.below(12)) : r.str(r.below(8), "=&%+ ;/?#");
				if (i) text += '&';
				std::string ek = http::url_encode(k), evv = http::url_encode(v);
				if (r.coin()) { std::string t; for (char c : evv) { if (c == '%') t += c; else t += c; } std::string u; for (size_t j = 0; j < t.size();) { if (t.compare(j, 3, "%20") == 0) { u += '+'; j += 3; } else u += t[j++]; } evv = u; }
				text += ek + "=" + evv;
				want[k] = v;
			}
			count("queries_encoded");
			EXPECT(ref_query(text) == want, "encoding", "pairs " << show(want) << " encoded to " << quote(text));
		} else {
			text = r.coin() ? r.str(r.below(40), "ab=&%+41fFgz ") : r.bstr(r.below(40));
			if (r.coin()) for (int k = 0; k != 3; ++k) { size_t p = r.below(text.size() + 1); text.insert(p, r.pick(std::vector<std::string>{"%", "%4", "%41", "%%", "%+", "%&", "%4&", "%=", "%4=", "&&", "=", "&="})); }
			want = ref_query(text);
			count("queries_arbitrary");
		}
		if (rep == 0) shown = text;
		Pairs a = ord(http::parse_query_string(text)), b = parse_split<http::QueryParser>(text, r);
		ev(hash_str(show(a)));
		EXPECT(a == want, "query-pairs", quote(text) << " -> " << show(a) << " expected " << show(want));
		EXPECT(b == a, "query-split", quote(text) << " split -> " << show(b) << " whole " << show(a));
		http::Request rq;
		rq.header.query_string = text;
		rq.header.method       = r.coin() ? "GET" : "POST";
		std::string btext;
		if (r.coin()) btext = r.str(r.below(30), "ab=&%+41fF");
		bool form = r.coin();
		if (form) rq.header.set_content_type("application/x-www-form-urlencoded", r.coin() ? "" : "charset=utf-8");
		rq.body = btext;
		Pairs w2 = want;
		if (form && rq.header.method == "POST") for (auto &p : ref_query(btext)) w2[p.first] = p.second;
		EXPECT(ord(rq.parse_query_params()) == w2, "query-params", quote(text) << " body " << quote(btext) << " -> " << show(ord(rq.parse_query_params())) << " expected " << show(w2));
		// cookies
		std::string ck;
		if (r.coin()) {
			size_t n = r.below(5);
			for (size_t i = 0; i != n; ++i) ck += std::string(i ? ";" : "") + r.str(r.below(3), " \t") + r.str(r.below(4), "ab$") + r.str(r.below(2), " ") + (r.chance(85) ? "=" : "") + r.str(r.below(2), " \t") + r.str(r.below(6), "xy=, \"%") + r.str(r.below(2), " ");
		} else ck = r.coin() ? r.str(r.below(30), "ab=; \t") : r.bstr(r.below(30));
		Pairs cw = ref_cookies(ck);
		EXPECT(ord(http::parse_cookie_string(ck)) == cw, "cookies", quote(ck) << " -> " << show(ord(http::parse_cookie_string(ck))) << " expected " << show(cw));
		EXPECT(parse_split<http::CookieParser>(ck, r) == cw, "cookies-split", quote(ck));
		http::Request rc;
		std::string ck2 = r.str(r.below(20), "ab=; xy");
		rc.header.headers.push_back(http::Header{"cookie", ck});
		rc.header.headers.push_back(http::Header{"x-cookie", "no=1"});
		if (r.coin()) { rc.header.headers.push_back(http::Header{"cookie", ck2}); for (auto &p : ref_cookies(ck2)) cw[p.first] = p.second; }
		EXPECT(ord(rc.parse_cookies()) == cw, "request-cookies", quote(ck) << " and " << quote(ck2) << " -> " << show(ord(rc.parse_cookies())) << " expected " << show(cw));
		count("cookies");
		if (ctx().failed) return;
	}
	ctx().nontrivial = true;
	ctx().desc       = quote(shown, 160);
}

// ------------------------------------------------------------------ H06
static std::string ref_pdecode(const std::string &s) {
	std::string o;
	for (size_t i = 0; i < s.size(); ++i) {
		if (s[i] == '%' && i + 2 < s.size() && hexv(s[i + 1]) >= 0 && hexv(s[i + 2]) >= 0) { o += char(hexv(s[i + 1]) * 16 + hexv(s[i + 2])); i += 2; }
		else o += s[i];
	}
	return o;
}
// RFC 3986 5.2.4 on a decoded path starting with '/'
static std::string ref_dots(const std::string &path) {
	std::vector<std::string> seg, out;
	size_t p = 1;
	while (true) {
		size_t a = path.find('/', p);
		seg.push_back(path.substr(p, a == std::string::npos ? a : a - p));
		if (a == std::string::npos) break;
		p = a + 1;
	}
	for (size_t i = 0; i != seg.size(); ++i) {
		bool last = i + 1 == seg.size();
		if (seg[i] == "..") { if (!out.empty()) out.pop_back(); if (last) out.push_back(""); }
		else if (seg[i] == ".") { if (last) out.push_back(""); }
		else out.push_back(seg[i]);
	}
	std::string o;
	for (auto &s : out) o += "/" + s;
	return o;
}
static void case_uri() {
	Rng &r = ctx().rng;
	std::string shown;
	for (int rep = 0; rep != 8; ++rep) {
		std::string raw = r.coin() ? r.bstr(r.below(40)) : r.str(r.below(40), "ab%/?#+ &=:@.~41");
		for (int path = 0; path != 2; ++path) {
			std::string e = http::url_encode(raw, path);
			EXPECT(http::url_decode(e) == raw, "coding-roundtrip", quote(raw) << " -> " << quote(e) << " -> " << quote(http::url_decode(e)));
			for (size_t i = 0; i < e.size(); ++i) {
				unsigned char c = uint8_t(e[i]);
				bool reserved = c <= 32 || c >= 127 || std::strchr(path ? "#?[]" : "!#$&'()*+,/:;=?@[]", c);
				EXPECT(!reserved, "unencoded", quote(raw) << " -> " << quote(e));
				EXPECT(c != '%' || (i + 2 < e.size() && hexv(e[i + 1]) >= 0 && hexv(e[i + 2]) >= 0), "bad-percent", quote(e));
			}
			count("codings");
		}
		EXPECT(http::url_decode(raw) == ref_pdecode(raw), "decode", quote(raw) << " -> " << quote(http::url_decode(raw)) << " expected " << quote(ref_pdecode(raw)));
		// target setter / getter
		{
			http::RequestHeader h;
			if (r.coin()) h.set_uri(r.coin() ? "/stale?old=1" : "/stale");
			std::string t = "/" + r.str(r.below(20), "abc/.%41 ;:@&=+");
			std::string q = r.coin() ? r.str(r.below(12), "ab=&%41?/") : "";
			bool hasq = !q.empty() || r.chance(10);
			h.set_uri(t + (hasq ? "?" + q : ""));
			EXPECT(h.path == ref_pdecode(t) && h.query_string == q, "set-uri", quote(t) << "?" << quote(q) << " -> " << quote(h.path) << " ? " << quote(h.query_string));
			std::string g = h.get_uri();
			size_t qp = g.find('?');
			EXPECT(ref_pdecode(g.substr(0, qp)) == ref_pdecode(t) && (qp == std::string::npos ? "" : g.substr(qp + 1)) == q, "get-uri", quote(t) << "?" << quote(q) << " read back as " << quote(g));
			count("targets");
		}
		// absolute URIs
		http::URI want;
		want.scheme = r.pick(std::vector<std::string>{"http", "https", "ws", "x"});
		want.host   = r.str(1 + r.below(10), "abc019.-");
		if (r.coin()) want.port = std::to_string(r.below(65536));
		if (r.chance(40)) want.user_info = r.coin() ? r.bstr(1 + r.below(10)) : "user:p@ss/?#";
		std::string path;
		size_t n = r.below(7);
		for (size_t i = 0; i != n; ++i) {
			path += "/";
			size_t k = 1 + r.below(2);
			for (size_t j = 0; j != k; ++j) path += r.pick(std::vector<std::string>{"..", ".", "a", "bc", "", "%2e%2e", "%2E", "..%2f..", "%2F", "%", "%4", "%41", "%zz", "...", "\xc3\xa9", "%00", "a:b@c", "%3F", "%25", "%/"});
		}
		bool hasq = r.coin();
		if (hasq) want.query = r.str(r.below(15), "ab=&%41?/.@:#") ;
		want.path = ref_dots(path.empty() ? "/" : ref_pdecode(path));
		std::string user;
		for (char c : want.user_info) user += c == ':' && r.coin() ? std::string(1, c) : http::url_encode(std::string(1, c));  // colons may be literal
		std::string text = want.scheme + "://" + (want.user_info.empty() ? "" : user + "@") + want.host + (want.port.empty() ? "" : ":" + want.port) + path + (hasq ? "?" + want.query : "");
		if (rep == 0) shown = text;
		try {
			http::URI u = http::parse_uri(text);
			http::URIParser sp2;
			for (size_t p = 0; p < text.size();) { size_t k = std::min<size_t>(1 + r.below(4), text.size() - p); sp2.parse(text.data() + p, text.data() + p + k); p += k; }
			sp2.parse_end();
			for (int k = 0; k != 3; ++k) {
				http::URI x = k == 0 ? u : k == 1 ? sp2.uri : http::parse_uri(u.to_string());
				ev(hash_str(x.path));
				EXPECT(x.scheme == want.scheme && x.user_info == want.user_info && x.host == want.host && x.port == want.port && x.path == want.path && x.query == want.query, k == 2 ? "uri-reassemble" : k == 1 ? "uri-split" : "uri-components",
				    quote(text) << " -> scheme " << quote(x.scheme) << " user " << quote(x.user_info) << " host " << quote(x.host) << " port " << quote(x.port) << " path " << quote(x.path) << " query " << quote(x.query) << ", expected path " << quote(want.path) << " query " << quote(want.query) << (k == 2 ? " via " + quote(u.to_string()) : ""));
				// independent of the reference: nothing may climb
				std::string pp = x.path + "/";
				EXPECT(pp.find("/../") == std::string::npos, "climbs", quote(text) << " -> " << quote(x.path));
				EXPECT(!x.path.empty() && x.path[0] == '/', "not-absolute", quote(text) << " -> " << quote(x.path));
			}
			count("uris");
		} catch (const std::exception &e) {
			VIOL("uri-rejected", quote(text) << ": " << e.what());
		}
		for (std::string bad : {std::string("http"), std::string("http:"), std::string("http:/x"), std::string("http:x"), std::string("/just/path"), std::string(), "http://a@b@" + want.host}) {
			bool threw = false;
			try { http::parse_uri(bad); } catch (const std::exception &) { threw = true; }
			EXPECT(threw, "bad-uri-accepted", quote(bad));
		}
		if (ctx().failed) return;
	}
	ctx().nontrivial = true;
	ctx().desc       = quote(shown, 160);
}

// ------------------------------------------------------------------ H07
static std::string ref_frame(bool fin, int op, u64 len, bool masked, const uint8_t key[4]) {
	std::string s;
	s += char((fin ? 0x80 : 0) | op);
	int m = masked ? 0x80 : 0;
	if (len < 126) s += char(m | int(len));
	else if (len < 65536) { s += char(m | 126); s += char(len >> 8); s += char(len); }
	else { s += char(m | 127); for (int i = 7; i >= 0; --i) s += char(len >> (8 * i)); }
	if (masked) s.append(reinterpret_cast<const char *>(key), 4);
	return s;
}
static void case_frames() {
	Rng &r = ctx().rng;
	std::string wire;
	struct F { bool fin; int op; std::string body; bool masked; };
	std::vector<F> fs;
	size_t n = 1 + r.below(5);
	for (size_t i = 0; i != n; ++i) {
		F f;
		f.op     = r.pick(std::vector<int>{0, 1, 2, 8, 9, 10});
		f.fin    = (f.op & 8) ? true : r.coin();
		f.masked = r.coin();
		f.body   = r.bstr((f.op & 8) ? r.len(125) : r.chance(6) ? 65536 - 3 + r.below(8) : r.len(r.chance(30) ? 2000 : 200));
		if (r.chance(10) && !(f.op & 8)) f.body.resize(r.pick(std::vector<size_t>{0, 1, 125, 126, 127, 128, 255, 256}));
		crab::optional<uint32_t> key;
		uint8_t kb[4] = {r.byte(), r.byte(), r.byte(), r.byte()};
		if (r.chance(10)) kb[0] = kb[1] = kb[2] = kb[3] = 0;
		if (f.masked) key = uint32_t(kb[0]) << 24 | uint32_t(kb[1]) << 16 | uint32_t(kb[2]) << 8 | kb[3];
		http::WebMessageHeaderSaver sv(f.fin, f.op, f.body.size(), key);
		std::string got(reinterpret_cast<const char *>(sv.data()), sv.size()), want = ref_frame(f.fin, f.op, f.body.size(), f.masked, kb);
		EXPECT(got == want, "frame-encoding", "fin " << f.fin << " op " << f.op << " len " << f.body.size() << " masked " << f.masked << " -> " << quote(got) << " expected " << quote(want));
		wire += want;
		for (size_t k = 0; k != f.body.size(); ++k) wire += f.masked ? char(uint8_t(f.body[k]) ^ kb[k & 3]) : f.body[k];
		fs.push_back(f);
		// masking at any offset, alignment and length
		size_t shift = r.below(3) ? r.below(9) : r.next() >> r.below(40), sz = r.below(60), al = r.below(9);
		std::unique_ptr<char[]> mem(new char[al + sz]);
		Bytes plain = r.bytes(al + sz);
		std::memcpy(mem.get(), plain.data(), al + sz);
		uint32_t k32 = uint32_t(kb[0]) << 24 | uint32_t(kb[1]) << 16 | uint32_t(kb[2]) << 8 | kb[3];
		http::WebMessageHeaderParser::mask_data(shift, mem.get() + al, sz, k32);
		bool ok = std::memcmp(mem.get(), plain.data(), al) == 0;
		for (size_t k = 0; k != sz; ++k) ok = ok && uint8_t(mem[al + k]) == (plain[al + k] ^ kb[(shift + k) & 3]);
		EXPECT(ok, "mask-data", "shift " << shift << " size " << sz << " alignment " << al);
		count("masks");
	}
	for (int split = 0; split != 4 && !ctx().failed; ++split) {
		size_t pos = 0;
		for (size_t i = 0; i != fs.size(); ++i) {
			const F &f = fs[i];
			http::WebMessageHeaderParser hp;
			std::string why;
			long u = feed(hp, wire.substr(pos), split, r, why);
			EXPECT(hp.is_good(), "frame-rejected", "fin " << f.fin << " op " << f.op << " len " << f.body.size() << " masked " << f.masked << ": " << why);
			if (!hp.is_good()) break;
			pos += size_t(u);
			EXPECT(hp.fin == f.fin && hp.opcode == f.op && hp.payload_len == f.body.size() && bool(hp.masking_key) == f.masked, "frame-fields", "fin " << f.fin << " op " << f.op << " len " << f.body.size() << " masked " << f.masked << " read as fin " << hp.fin << " op " << hp.opcode << " len " << hp.payload_len);
			http::WebMessageBodyParser bp(hp.payload_len, hp.masking_key);
			long ub = bp.is_good() ? 0 : feed(bp, wire.substr(pos), split, r, why);
			EXPECT(bp.is_good() && size_t(ub) == f.body.size() && bp.body.get_buffer() == f.body, "frame-body", "frame len " << f.body.size() << " masked " << f.masked << " split " << split << " good " << bp.is_good() << " consumed " << ub);
			if (ctx().failed) return;
			pos += size_t(ub);
			count("frames");
			ev(u64(f.op) + f.body.size() * 16);
		}
		if (!ctx().failed) EXPECT(pos == wire.size(), "frame-end", pos << " of " << wire.size());
	}
	// arbitrary headers: accepted exactly as the grammar says
	for (int k = 0; k != 12; ++k) {
		std::string h = r.bstr(14);
		if (r.coin()) h[0] = char((r.chance(80) ? 0x80 : 0) | int(r.below(16)));
		if (r.coin()) h[1] = char((r.coin() ? 0x80 : 0) | int(r.pick(std::vector<int>{0, 1, 124, 125, 126, 127})));
		uint8_t b0 = uint8_t(h[0]), b1 = uint8_t(h[1]);
		int op = b0 & 15, l7 = b1 & 127;
		bool valid = !(b0 & 0x70) && (op <= 2 || (op >= 8 && op <= 10)) && !((op & 8) && (l7 > 125 || !(b0 & 0x80)));
		size_t hl = 2 + (l7 == 126 ? 2 : l7 == 127 ? 8 : 0) + ((b1 & 128) ? 4 : 0);
		u64 len = u64(l7);
		if (l7 == 126) len = u64(uint8_t(h[2])) << 8 | uint8_t(h[3]);
		if (l7 == 127) { len = 0; for (int i = 0; i != 8; ++i) len = len << 8 | uint8_t(h[size_t(2 + i)]); }
		if (valid && (l7 == 127 ? len < 65536 || (len >> 63) : l7 == 126 && len < 126)) { count("frames_unspecified"); continue; }  // non-minimal or absurd lengths
		http::WebMessageHeaderParser hp;
		std::string why;
		long u = feed(hp, h, int(r.below(4)), r, why);
		ev(u64(valid) * 77 + u64(u));
		if (valid) {
			uint32_t key = 0;
			for (size_t i = hl - 4; (b1 & 128) && i != hl; ++i) key = key << 8 | uint8_t(h[i]);
			EXPECT(hp.is_good() && size_t(u) == hl && hp.payload_len == len && hp.opcode == op && hp.fin == !!(b0 & 0x80) && bool(hp.masking_key) == !!(b1 & 128) && (!(b1 & 128) || *hp.masking_key == key), "header-fields", quote(h) << " " << why);
			count("headers_valid");
		} else {
			EXPECT(!hp.is_good() && u < 0, "header-accepted", quote(h));
			count("headers_invalid");
		}
	}
	ctx().nontrivial = true;
	ctx().desc       = quote(wire, 80);
}

// ------------------------------------------------------------------ N07
static std::string ref_ip4(const uint8_t b[4]) { return std::to_string(b[0]) + "." + std::to_string(b[1]) + "." + std::to_string(b[2]) + "." + std::to_string(b[3]); }
static std::string ref_ip6(const uint8_t b[16]) {  // RFC 5952 with the usual dotted tail for mapped/compatible addresses
	int g[8], bs = -1, bl = 0;
	for (int i = 0; i != 8; ++i) g[i] = b[2 * i] << 8 | b[2 * i + 1];
	for (int i = 0; i != 8;) {
		int j = i;
		while (j < 8 && g[j] == 0) ++j;
		if (j - i > bl && j - i >= 2) { bs = i; bl = j - i; }
		i = j > i ? j : i + 1;
	}
	bool dotted = bs == 0 && (bl == 6 || (bl == 7 && g[7] > 1 && false) || (bl == 5 && g[5] == 0xffff));
	std::string o;
	int lim = dotted ? 6 : 8;
	for (int i = 0; i < lim; ++i) {
		if (i == bs) { o += "::"; i += bl - 1; continue; }
		if (!o.empty() && o.back() != ':') o += ":";
		char t[8];
		std::snprintf(t, sizeof t, "%x", unsigned(g[i]));
		o += t;
	}
	if (dotted) { if (o.back() != ':') o += ":"; o += ref_ip4(b + 12); }
	return o;
}
static void case_address() {
	Rng &r = ctx().rng;
	std::string shown;
	for (int rep = 0; rep != 10; ++rep) {
		bool v6 = r.coin();
		uint8_t b[16];
		for (auto &x : b) x = r.chance(v6 ? 50 : 10) ? 0 : r.chance(20) ? 255 : r.byte();
		if (v6 && r.chance(10)) { std::memset(b, 0, 16); b[15] = uint8_t(r.below(3)); }
		if (v6 && r.chance(10)) { std::memset(b, 0, 12); if (r.coin()) b[10] = b[11] = 255; }
		if (r.chance(10)) b[0] = v6 ? 0xff : uint8_t(0xdf + r.below(0x12));
		if (!v6 && r.chance(10)) b[0] = uint8_t(126 + r.below(3));
		if (v6) { int z = 0; for (int i = 0; i != 12; ++i) z += b[i]; if (z == 0 && !(b[12] | b[13])) b[12] = b[13] = 0; }
		uint16_t port = r.coin() ? uint16_t(r.next()) : r.pick(std::vector<uint16_t>{0, 1, 80, 65535, 256, 255});
		std::string ip = v6 ? ref_ip6(b) : ref_ip4(b);
		char lib[64];
		inet_ntop(v6 ? AF_INET6 : AF_INET, b, lib, sizeof lib);
		bool canon = ip == lib;  // the C library decides between spellings of rare mapped forms
		crab::Address a;
		EXPECT(crab::Address::parse(a, ip, port), "parse-rejected", ip);
		EXPECT(a.get_port() == port, "port", ip << " " << port << " -> " << a.get_port());
		const sockaddr *sa = a.impl_get_sockaddr();
		if (v6) EXPECT(sa->sa_family == AF_INET6 && std::memcmp(&reinterpret_cast<const sockaddr_in6 *>(sa)->sin6_addr, b, 16) == 0, "bytes", ip);
		else EXPECT(sa->sa_family == AF_INET && std::memcmp(&reinterpret_cast<const sockaddr_in *>(sa)->sin_addr, b, 4) == 0, "bytes", ip);
		EXPECT(!canon || a.get_address() == ip, "print", ip << " printed " << a.get_address());
		EXPECT(size_t(a.impl_get_sockaddr_length()) == (v6 ? sizeof(sockaddr_in6) : sizeof(sockaddr_in)), "length", ip);
		uint32_t ip4 = 0;
		std::memcpy(&ip4, b, 4);
		EXPECT(a.get_ip4() == (v6 ? 0 : ip4), "ip4", ip);
		std::string full = a.to_string();
		std::ostringstream os;
		os << a;
		EXPECT(full == a.get_address() + ":" + std::to_string(port) && os.str() == full, "to-string", full << " vs " << os.str());
		auto same = [&](const crab::Address &x) { return std::memcmp(x.impl_get_sockaddr(), a.impl_get_sockaddr(), size_t(a.impl_get_sockaddr_length())) == 0 && x.impl_get_sockaddr_length() == a.impl_get_sockaddr_length(); };
		try {
			crab::Address c(full), d(a.get_address(), port), e;
			EXPECT(same(c), "roundtrip", full << " -> " << c.to_string());
			EXPECT(same(d), "roundtrip-parts", full << " -> " << d.to_string());
			EXPECT(crab::Address::parse(e, full) && same(e), "roundtrip-parse", full << " -> " << e.to_string());
		} catch (const std::exception &ex) {
			VIOL("roundtrip-throws", full << ": " << ex.what());
		}
		bool mc = v6 ? b[0] == 0xff : (b[0] >= 224 && b[0] <= 239);
		static const uint8_t loop6[16] = {0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 1};
		bool lo = v6 ? std::memcmp(b, loop6, 16) == 0 : b[0] == 127;
		EXPECT(a.is_multicast() == mc, "multicast", ip << " -> " << a.is_multicast());
		EXPECT(a.is_local() == lo, "local", ip << " -> " << a.is_local());
		count(v6 ? "addresses_v6" : "addresses_v4");
		ev(hash_str(full));
		// malformed
		std::string bad;
		switch (r.below(9)) {
		case 0: bad = "256.1.1.1:80"; break;
		case 1: bad = ref_ip4(b); break;
		case 2: bad = ref_ip4(b) + ":"; break;
		case 3: bad = ref_ip4(b) + ":" + std::to_string(65536 + r.below(1u << 20)); break;
		case 4: bad = ref_ip4(b) + ":80x"; break;
		case 5: bad = ref_ip4(b) + ".1:80"; break;
		case 6: bad = "host" + std::to_string(r.below(9)) + ":80"; break;
		case 7: bad = ref_ip4(b) + ":-" + std::to_string(1 + r.below(70000)); break;
		default: bad = r.pick(std::vector<std::string>{"", ":", ":80", "1.2.3:80", "1.2.3.4.5:6", "a.b.c.d:1", "1.2.3.4:99999999999999999999", "::g:1", "1.2.3.4:0x50", "1:2:3:80", "1.2.3.4 :80"});
		}
		crab::Address keep = a;
		bool res = false, threw = false, cthrew = false;
		try { res = crab::Address::parse(a, bad); } catch (const std::exception &) { threw = true; }
		try { crab::Address z(bad); } catch (const std::exception &) { cthrew = true; }
		EXPECT(!res, "bad-accepted", quote(bad) << " -> " << a.to_string());
		EXPECT(!threw, "bad-throws", "non-throwing parse of " << quote(bad));
		EXPECT(cthrew, "bad-constructed", quote(bad));
		EXPECT(same(keep), "clobbered", quote(bad));
		{  // text changed in a few places: accepted only if the standard parser takes all of it
			std::string t = r.coin() ? full : a.get_address();
			for (size_t k = 1 + r.below(3); k-- > 0;) {
				size_t p = r.below(t.size() + 1);
				static const char alpha[] = {'0', '1', '9', 'f', ':', '.', '%', ' ', 'x', '\0', '-', '/', ']'};
				char c = r.chance(80) ? alpha[r.below(sizeof alpha)] : char(r.byte());
				if (r.coin()) t.insert(p, 1, c);
				else if (p < t.size()) { if (r.coin()) t[p] = c; else t.erase(p, 1); }
			}
			if (r.chance(15)) t += std::string(1, '\0') + r.pick(std::vector<std::string>{"", "x", ".5", ":80", "80"});
			auto ref = [](const std::string &x, Bytes &out) {
				out.assign(16, 0);
				if (x.find('\0') != std::string::npos) return 0;
				if (inet_pton(AF_INET6, x.c_str(), out.data()) == 1) return 6;
				return inet_pton(AF_INET, x.c_str(), out.data()) == 1 ? 4 : 0;
			};
			auto equals = [](const crab::Address &x, int kind, const Bytes &want) {
				auto sa = x.impl_get_sockaddr();
				if (kind == 6) return sa->sa_family == AF_INET6 && std::memcmp(&reinterpret_cast<const sockaddr_in6 *>(sa)->sin6_addr, want.data(), 16) == 0;
				return sa->sa_family == AF_INET && std::memcmp(&reinterpret_cast<const sockaddr_in *>(sa)->sin_addr, want.data(), 4) == 0;
			};
			Bytes want;
			int kind = ref(t, want);
			crab::Address x = keep;
			bool ok = crab::Address::parse(x, t, port);
			EXPECT(ok == (kind != 0), "text-ip", quote(t) << (ok ? " accepted" : " rejected"));
			if (ok && kind) EXPECT(equals(x, kind, want) && x.get_port() == port, "text-ip-value", quote(t) << " -> " << x.to_string());
			if (!ok) EXPECT(same(keep) && std::memcmp(x.impl_get_sockaddr(), keep.impl_get_sockaddr(), sizeof(sockaddr_storage)) == 0, "clobbered", quote(t));
			size_t colon = t.rfind(':');
			int kind2    = colon == std::string::npos ? 0 : ref(t.substr(0, colon), want);
			std::string pt = colon == std::string::npos ? "" : t.substr(colon + 1);
			bool digits = !pt.empty() && pt.size() <= 5 && (pt == "0" || pt[0] != '0') && pt.find_first_not_of("0123456789") == std::string::npos && std::stoul(pt) <= 65535;
			bool never  = kind2 == 0 || pt.find('\0') != std::string::npos || pt.find_first_of("0123456789") == std::string::npos;
			ok = crab::Address::parse(x, t);
			if (kind2 && digits) EXPECT(ok && equals(x, kind2, want) && x.get_port() == std::stoul(pt), "text-ip-port", quote(t) << (ok ? " -> " + x.to_string() : " rejected"));
			if (never) EXPECT(!ok, "text-ip-port", quote(t) << " accepted as " << x.to_string());
			count(kind || (kind2 && digits) ? "address_texts_valid" : "address_texts_invalid");
		}
		std::string badip = r.pick(std::vector<std::string>{"", "1.2.3", "1.2.3.4.5", "256.0.0.1", "::g", "1::2::3", "localhost", "1.2.3.4:80", "12345::", "1.2.3.-4"});
		EXPECT(!crab::Address::parse(a, badip, port), "bad-ip-accepted", badip);
		cthrew = false;
		try { crab::Address z(badip, port); } catch (const std::exception &) { cthrew = true; }
		EXPECT(cthrew, "bad-ip-constructed", badip);
		count("addresses_bad");
		if (rep == 0) shown = full;
		if (ctx().failed) return;
	}
	crab::Address none;
	EXPECT(none.get_port() == 0 && !none.is_local() && !none.is_multicast() && none.get_ip4() == 0 && none.impl_get_sockaddr_length() == 0, "default", none.to_string());
	ctx().nontrivial = true;
	ctx().desc       = shown;
}

int main(int argc, char **argv) {
	return harness_main(argc, argv, {{"body", case_body}, {"query", case_query}, {"uri", case_uri}, {"frames", case_frames}, {"address", case_address}});
}
