// Reference codecs for the wire formats, written from the RFCs, independent of the library.
#pragma once
#include "common.hpp"

namespace ref {
using vh::u64;

inline std::string sha1(const std::string &in) {
	uint32_t h[5] = {0x67452301, 0xEFCDAB89, 0x98BADCFE, 0x10325476, 0xC3D2E1F0};
	std::string m = in + char(0x80);
	while (m.size() % 64 != 56) m += char(0);
	u64 bits = u64(in.size()) * 8;
	for (int i = 7; i >= 0; --i) m += char(bits >> (8 * i));
	auto rol = [](uint32_t x, int n) { return x << n | x >> (32 - n); };
	for (size_t o = 0; o != m.size(); o += 64) {
		uint32_t w[80];
		for (int i = 0; i != 16; ++i) {
			w[i] = 0;
			for (int k = 0; k != 4; ++k) w[i] = w[i] << 8 | uint8_t(m[o + size_t(i) * 4 + size_t(k)]);
		}
		for (int i = 16; i != 80; ++i) w[i] = rol(w[i - 3] ^ w[i - 8] ^ w[i - 14] ^ w[i - 16], 1);
		uint32_t a = h[0], b = h[1], c = h[2], d = h[3], e = h[4];
		for (int i = 0; i != 80; ++i) {
			uint32_t f = i < 20 ? (b & c) | (~b & d) : i < 40 ? b ^ c ^ d : i < 60 ? (b & c) | (b & d) | (c & d) : b ^ c ^ d;
			uint32_t k = i < 20 ? 0x5A827999 : i < 40 ? 0x6ED9EBA1 : i < 60 ? 0x8F1BBCDC : 0xCA62C1D6;
			uint32_t t = rol(a, 5) + f + e + k + w[i];
			e = d; d = c; c = rol(b, 30); b = a; a = t;
		}
		h[0] += a; h[1] += b; h[2] += c; h[3] += d; h[4] += e;
	}
	std::string r;
	for (auto x : h) for (int k = 3; k >= 0; --k) r += char(x >> (8 * k));
	return r;
}
inline std::string b64(const std::string &s) {
	static const char *T = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
	std::string r;
	for (size_t i = 0; i < s.size(); i += 3) {
		uint32_t v = uint8_t(s[i]) << 16 | (i + 1 < s.size() ? uint8_t(s[i + 1]) << 8 : 0) | (i + 2 < s.size() ? uint8_t(s[i + 2]) : 0);
		r += T[v >> 18];
		r += T[v >> 12 & 63];
		r += i + 1 < s.size() ? T[v >> 6 & 63] : '=';
		r += i + 2 < s.size() ? T[v & 63] : '=';
	}
	return r;
}
inline int b64_len(const std::string &s) {  // decoded length or -1
	if (s.size() % 4) return -1;
	size_t pad = 0;
	for (size_t i = 0; i != s.size(); ++i) {
		char c = s[i];
		bool al = (c >= 'A' && c <= 'Z') || (c >= 'a' && c <= 'z') || (c >= '0' && c <= '9') || c == '+' || c == '/';
		if (c == '=') { if (++pad > 2 || i + 2 < s.size()) return -1; }
		else if (!al || pad) return -1;
	}
	return int(s.size() / 4 * 3 - pad);
}
inline std::string ws_accept(const std::string &key) { return b64(sha1(key + "258EAFA5-E914-47DA-95CA-C5AB0DC85B11")); }

// ---------------------------------------------------------------- WebSocket frames
inline std::string ws_frame(int op, bool fin, const std::string &body, bool mask, uint32_t key = 0, int len_form = 0) {
	std::string r;
	r += char((fin ? 0x80 : 0) | op);
	size_t n = body.size();
	int m    = mask ? 0x80 : 0;
	if (len_form == 2 || n > 65535) {
		r += char(m | 127);
		for (int i = 7; i >= 0; --i) r += char(u64(n) >> (8 * i));
	} else if (len_form == 1 || n > 125) {
		r += char(m | 126);
		r += char(n >> 8);
		r += char(n);
	} else
		r += char(m | int(n));
	if (!mask) return r + body;
	char k[4] = {char(key >> 24), char(key >> 16), char(key >> 8), char(key)};
	r.append(k, 4);
	size_t o = r.size();
	r += body;
	for (size_t i = 0; i != n; ++i) r[o + i] = char(r[o + i] ^ k[i % 4]);
	return r;
}
struct WsFrame { int op = 0; bool fin = false, masked = false; uint32_t key = 0; std::string body; };
struct WsReader {
	std::string buf, error;
	size_t off = 0;
	void feed(const std::string &s) { buf += s; }
	size_t pending() const { return buf.size() - off; }
	bool next(WsFrame &f) {
		if (!error.empty() || buf.size() - off < 2) return false;
		auto at = [&](size_t i) { return uint8_t(buf[off + i]); };
		if (at(0) & 0x70) { error = "reserved bits set"; return false; }
		f.fin    = at(0) & 0x80;
		f.op     = at(0) & 15;
		f.masked = at(1) & 0x80;
		u64 n    = at(1) & 127;
		size_t h = 2;
		if (n == 126) {
			if (pending() < 4) return false;
			n = u64(at(2)) << 8 | at(3);
			h = 4;
			if (n < 126) { error = "length not in the shortest form"; return false; }
		} else if (n == 127) {
			if (pending() < 10) return false;
			n = 0;
			for (size_t i = 2; i != 10; ++i) n = n << 8 | at(i);
			h = 10;
			if (n < 65536) { error = "length not in the shortest form"; return false; }
		}
		if (f.op >= 8 && (n > 125 || !f.fin)) { error = "control frame too long or fragmented"; return false; }
		if (f.op != 0 && f.op != 1 && f.op != 2 && f.op != 8 && f.op != 9 && f.op != 10) { error = "unknown opcode"; return false; }
		f.key = 0;
		if (f.masked) {
			if (pending() < h + 4) return false;
			for (size_t i = 0; i != 4; ++i) f.key = f.key << 8 | at(h + i);
			h += 4;
		}
		if (n > (u64(1) << 40)) { error = "absurd length"; return false; }
		if (pending() < h + n) return false;
		f.body = buf.substr(off + h, n);
		if (f.masked) for (size_t i = 0; i != n; ++i) f.body[i] = char(uint8_t(f.body[i]) ^ uint8_t(f.key >> (8 * (3 - i % 4))));
		off += h + n;
		if (off > 65536) { buf.erase(0, off); off = 0; }
		return true;
	}
};

// ---------------------------------------------------------------- HTTP messages as this library writes them (strict)
inline std::string lower(std::string s) {
	for (auto &c : s) if (c >= 'A' && c <= 'Z') c = char(c + 32);
	return s;
}
struct Msg {
	bool response = false;
	int minor = 1, status = 0;
	std::string reason, method, target;
	std::vector<std::pair<std::string, std::string>> headers;
	bool has_length = false, chunked = false;
	u64 length = 0;
	std::string body;
	std::vector<size_t> chunks;
	u64 head_end = 0, end = 0;  // positions in the stream
	std::vector<std::string> all(const std::string &n) const {
		std::vector<std::string> r;
		for (auto &h : headers) if (h.first == n) r.push_back(h.second);
		return r;
	}
	std::string one(const std::string &n) const {
		auto a = all(n);
		return a.size() == 1 ? a[0] : a.empty() ? std::string() : "<" + std::to_string(a.size()) + " of them>";
	}
	bool has(const std::string &n) const { return !all(n).empty(); }
	bool keep_alive() const {
		std::string c = lower(one("connection"));
		return minor == 1 ? c != "close" : c == "keep-alive";
	}
};
struct MsgReader {
	bool response;
	explicit MsgReader(bool resp) : response(resp) {}
	std::string buf, error;
	u64 consumed = 0;  // before buf
	bool in_body = false;
	Msg cur;
	size_t body_pos = 0;
	void feed(const std::string &s) { buf += s; }
	bool fail(const std::string &e) { if (error.empty()) error = e; return false; }
	static bool num(const std::string &s, u64 &v, unsigned base) {
		if (s.empty() || s.size() > 16) return false;
		v = 0;
		for (char c : s) {
			unsigned d = c >= '0' && c <= '9' ? unsigned(c - '0') : c >= 'a' && c <= 'f' ? unsigned(c - 'a') + 10 : c >= 'A' && c <= 'F' ? unsigned(c - 'A') + 10 : 99;
			if (d >= base) return false;
			v = v * base + d;
		}
		return true;
	}
	bool head(const std::string &h) {
		cur = Msg{};
		cur.response = response;
		size_t p = 0;
		bool first = true;
		while (p < h.size()) {
			size_t e = h.find("\r\n", p);
			std::string l = h.substr(p, e - p);
			p = e + 2;
			if (l.find('\r') != std::string::npos || l.find('\n') != std::string::npos || l.find('\0') != std::string::npos) return fail("control character in head line " + vh::quote(l));
			if (first) {
				first = false;
				if (response) {
					if (l.compare(0, 7, "HTTP/1.") != 0 || l.size() < 12 || (l[7] != '0' && l[7] != '1') || l[8] != ' ') return fail("status line " + vh::quote(l));
					cur.minor = l[7] - '0';
					u64 st;
					if (!num(l.substr(9, 3), st, 10) || (l.size() > 12 && l[12] != ' ')) return fail("status line " + vh::quote(l));
					cur.status = int(st);
					if (l.size() > 13) cur.reason = l.substr(13);
				} else {
					size_t a = l.find(' '), b = l.rfind(' ');
					if (a == std::string::npos || a == b || l.find(' ', a + 1) != b) return fail("request line " + vh::quote(l));
					cur.method = l.substr(0, a);
					cur.target = l.substr(a + 1, b - a - 1);
					std::string v = l.substr(b + 1);
					if (v != "HTTP/1.0" && v != "HTTP/1.1") return fail("request line " + vh::quote(l));
					cur.minor = v[7] - '0';
				}
				continue;
			}
			size_t c = l.find(':');
			if (c == std::string::npos || c == 0) return fail("header line " + vh::quote(l));
			std::string n = lower(l.substr(0, c)), v = l.substr(c + 1);
			for (char q : n) if (q == ' ' || q == '\t') return fail("header name " + vh::quote(l));
			while (!v.empty() && (v[0] == ' ' || v[0] == '\t')) v.erase(0, 1);
			while (!v.empty() && (v.back() == ' ' || v.back() == '\t')) v.pop_back();
			cur.headers.emplace_back(n, v);
		}
		auto te = cur.all("transfer-encoding"), cl = cur.all("content-length");
		if (cl.size() > 1 || te.size() > 1) return fail("repeated framing header");
		if (!te.empty()) {
			if (lower(te[0]) != "chunked") return fail("transfer-encoding " + vh::quote(te[0]));
			cur.chunked = true;
		}
		if (!cl.empty()) {
			if (!num(cl[0], cur.length, 10)) return fail("content-length " + vh::quote(cl[0]));
			cur.has_length = true;
		}
		if (cur.chunked && cur.has_length) return fail("both content-length and transfer-encoding");
		return true;
	}
	bool next(Msg &m) {  // a complete message
		if (!error.empty()) return false;
		if (!in_body) {
			size_t e = buf.find("\r\n\r\n");
			if (e == std::string::npos) return false;
			if (!head(buf.substr(0, e + 2))) return false;
			cur.head_end = consumed + e + 4;
			body_pos = e + 4;
			in_body = true;
		}
		if (cur.chunked) {
			while (true) {
				size_t e = buf.find("\r\n", body_pos);
				if (e == std::string::npos) {
					if (buf.size() - body_pos > 40) return fail("endless chunk size line");
					return false;
				}
				u64 n;
				std::string l = buf.substr(body_pos, e - body_pos);
				if (!num(l, n, 16)) return fail("chunk size line " + vh::quote(l));
				if (n == 0) {
					if (buf.size() < e + 4) return false;
					if (buf.compare(e + 2, 2, "\r\n") != 0) return fail("no empty line after the last chunk");
					body_pos = e + 4;
					break;
				}
				if (n > (u64(1) << 30)) return fail("absurd chunk size");
				if (buf.size() < e + 2 + n + 2) return false;
				if (buf.compare(e + 2 + n, 2, "\r\n") != 0) return fail("chunk of " + std::to_string(n) + " bytes is not followed by a line end");
				cur.body.append(buf, e + 2, n);
				cur.chunks.push_back(n);
				body_pos = e + 2 + n + 2;
			}
		} else if (cur.has_length) {
			if (buf.size() - body_pos < cur.length) return false;
			cur.body = buf.substr(body_pos, cur.length);
			body_pos += cur.length;
		}
		cur.end = consumed + body_pos;
		consumed += body_pos;
		buf.erase(0, body_pos);
		in_body = false;
		m = cur;
		return true;
	}
	// body bytes of an unfinished message, for checks of what already arrived
	size_t leftover() const { return buf.size(); }
};
}  // namespace ref
