// Monitors for pure functions: base64/hex, digests, checksums, UTF-8, integer conversion, random generator.
// Oracles are independent reference implementations written here.
#include <crab/crab.hpp>
#include <sys/mman.h>
#include <sys/time.h>
#include <unistd.h>
#include <cmath>
#include "common.hpp"
using namespace vh;

// A heap buffer of exactly n bytes: any access beyond is seen by AddressSanitizer.
struct Exact {
	uint8_t *p;
	size_t n;
	explicit Exact(size_t n) : p(static_cast<uint8_t *>(std::malloc(n ? n : 1))), n(n) {
		if (n == 0) { std::free(p); p = static_cast<uint8_t *>(std::malloc(1)) ; }
	}
	explicit Exact(const Bytes &b) : Exact(b.size()) { if (n) std::memcpy(p, b.data(), n); }
	explicit Exact(const std::string &b) : Exact(b.size()) { if (n) std::memcpy(p, b.data(), n); }
	~Exact() { std::free(p); }
	// for n == 0 point at the end of the allocation
	uint8_t *ptr() { return n ? p : p + 1; }
	char *cptr() { return reinterpret_cast<char *>(ptr()); }
};

// ------------------------------------------------------------------ base64 / hex
static const char B64[] = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
static std::string ref_b64(const Bytes &in) {
	std::string r;
	for (size_t i = 0; i < in.size(); i += 3) {
		unsigned v = in[i] << 16, k = 1;
		if (i + 1 < in.size()) { v |= in[i + 1] << 8; k = 2; }
		if (i + 2 < in.size()) { v |= in[i + 2]; k = 3; }
		r += B64[v >> 18];
		r += B64[(v >> 12) & 63];
		r += k > 1 ? B64[(v >> 6) & 63] : '=';
		r += k > 2 ? B64[v & 63] : '=';
	}
	return r;
}
// Accepts concatenated padded groups and a final unpadded group of 2 or 3 symbols, as documented in base64.hpp.
static bool ref_unb64(const std::string &s, Bytes &out) {
	out.clear();
	auto val = [](char c) -> int { const char *p = c ? std::strchr(B64, c) : nullptr; return p ? int(p - B64) : -1; };
	for (size_t i = 0; i < s.size(); i += 4) {
		std::string g = s.substr(i, 4);
		if (g.size() == 4 && g[3] == '=') { g.resize(3); if (g[2] == '=') g.resize(2); }
		if (g.size() < 2) return false;
		unsigned v = 0;
		for (char c : g) { int x = val(c); if (x < 0) return false; v = v * 64 + unsigned(x); }
		if (g.size() == 2) out.push_back(uint8_t(v >> 4));
		else if (g.size() == 3) { out.push_back(uint8_t(v >> 10)); out.push_back(uint8_t(v >> 2)); }
		else { out.push_back(uint8_t(v >> 16)); out.push_back(uint8_t(v >> 8)); out.push_back(uint8_t(v)); }
	}
	return true;
}
static void m_base64() {
	Rng &r = ctx().rng;
	Bytes in = r.bytes(r.len(r.chance(5) ? 5000 : 70));
	if (r.chance(20)) for (auto &b : in) b = r.coin() ? 0xff : 0x00;
	ctx().nontrivial = true;
	ctx().desc = "base64/hex of " + quote(in, 60);
	ev(hash_bytes(in.data(), in.size()));
	{  // encode
		Exact src(in);
		std::string e = crab::base64::encode(src.ptr(), src.n);
		EXPECT(e == ref_b64(in), "base64-encode", "encode(" << quote(in) << ")=" << quote(e));
		EXPECT(crab::base64::encoded_size(in.size()) == e.size(), "base64-size", "encoded_size");
		Exact dst(e.size());
		crab::base64::encode(dst.cptr(), dst.n, src.ptr(), src.n);
		EXPECT(std::string(dst.cptr(), dst.n) == e, "base64-encode", "raw encode differs");
		crab::bdata back = {1, 2, 3};
		EXPECT(crab::base64::decode(&back, e) && back == in, "base64-roundtrip", "decode(encode(" << quote(in) << "))=" << quote(back));
		std::string un = e;  // unpadded form
		while (!un.empty() && un.back() == '=') un.pop_back();
		EXPECT(crab::base64::decode(&back, un) && back == in, "base64-roundtrip", "decode(unpadded)");
		count("base64_roundtrips");
		if (r.chance(30)) {  // wrong output size given: refuse, stay inside
			size_t wrong = r.len(e.size() + 4);
			Exact d2(wrong);
			bool threw = false;
			try { crab::base64::encode(d2.cptr(), d2.n, src.ptr(), src.n); } catch (const std::logic_error &) { threw = true; }
			EXPECT(threw == (wrong != e.size()), "base64-encode-size", "encode into " << wrong << " of " << e.size());
			count("base64_wrong_size");
		}
	}
	{  // decode of mutated or arbitrary text into buffers of arbitrary size
		std::string t;
		switch (r.below(4)) {
		case 0: t = r.bstr(r.len(40)); break;
		case 1: t = r.str(r.len(40), "ABCDwxyz0189+/="); break;
		case 2: { t = ref_b64(in); if (t.size()) t[r.below(t.size())] = char(r.byte()); break; }
		default: t = ref_b64(in) + ref_b64(r.bytes(r.len(9))); if (r.chance(30) && t.size()) t.resize(r.below(t.size())); break;
		}
		Bytes want;
		bool ok = ref_unb64(t, want);
		crab::bdata got = {9, 9};
		bool g = crab::base64::decode(&got, t);
		EXPECT(g == ok, "base64-accept", "decode(" << quote(t) << ") accepted=" << g << " reference=" << ok);
		if (g && ok) EXPECT(got == want, "base64-decode", "decode(" << quote(t) << ")=" << quote(got));
		if (!g) EXPECT(got == (crab::bdata{9, 9}), "base64-touch", "failed decode changed the result");
		count(ok ? "base64_valid_texts" : "base64_invalid_texts");
		size_t cap = r.coin() ? want.size() : r.len(want.size() + 3);
		if (r.chance(20)) cap = crab::base64::max_decoded_size(t.data(), t.size());
		Exact src(t), dst(cap);
		bool threw = false;
		size_t n = 0;
		try { n = crab::base64::decode(dst.ptr(), dst.n, src.cptr(), src.n); } catch (const std::logic_error &) { threw = true; }
		if (ok && cap >= want.size())
			EXPECT(!threw && n == want.size() && (n == 0 || std::memcmp(dst.ptr(), want.data(), n) == 0), "base64-decode-raw", "raw decode(" << quote(t) << ") into " << cap);
		else
			EXPECT(threw || n == std::string::npos, "base64-decode-raw", "raw decode(" << quote(t) << ") into " << cap << " returned " << n);
	}
	{  // hex
		Exact src(in);
		std::string h = crab::to_hex(src.ptr(), src.n), want;
		for (uint8_t b : in) { char x[3]; std::snprintf(x, 3, "%02x", b); want += x; }
		EXPECT(h == want, "hex-encode", "to_hex(" << quote(in) << ")=" << h);
		EXPECT(crab::to_hex(in) == want, "hex-encode", "to_hex(bdata)");
		std::string m = h;
		for (auto &c : m) if (r.coin()) c = char(std::toupper(c));
		crab::bdata back = {7};
		EXPECT(crab::from_hex(back, m) && back == in, "hex-roundtrip", "from_hex(" << m << ")");
		switch (r.below(3)) {
		case 0: m += char(r.byte()); break;
		case 1: m = r.bstr(r.len(20)); break;
		default: if (!m.empty()) m[r.below(m.size())] = char(r.byte());
		}
		bool ok = m.size() % 2 == 0;
		Bytes w;
		for (char c : m) if (!std::strchr("0123456789abcdefABCDEF", c) || !c) ok = false;
		if (ok) for (size_t i = 0; i < m.size(); i += 2) w.push_back(uint8_t(std::strtol(m.substr(i, 2).c_str(), nullptr, 16)));
		back = {7};
		bool g = crab::from_hex(back, m);
		EXPECT(g == ok, "hex-accept", "from_hex(" << quote(m) << ") accepted=" << g);
		EXPECT(back == (g ? crab::bdata(w) : crab::bdata{7}), "hex-decode", "from_hex(" << quote(m) << ")");
		count("hex_texts");
	}
}

// ------------------------------------------------------------------ digests
static uint32_t rl(uint32_t x, int n) { return n ? (x << n) | (x >> (32 - n)) : x; }
static Bytes pad64(const Bytes &m, bool big) {
	Bytes p = m;
	p.push_back(0x80);
	while (p.size() % 64 != 56) p.push_back(0);
	u64 bits = u64(m.size()) * 8;
	for (int i = 0; i < 8; ++i) p.push_back(uint8_t(bits >> (big ? 56 - 8 * i : 8 * i)));
	return p;
}
static Bytes ref_md5(const Bytes &m) {
	static const int S[4][4] = {{7, 12, 17, 22}, {5, 9, 14, 20}, {4, 11, 16, 23}, {6, 10, 15, 21}};
	static uint32_t K[64];
	if (!K[0]) for (int i = 0; i < 64; ++i) K[i] = uint32_t(std::floor(std::fabs(std::sin(double(i + 1))) * 4294967296.0));
	uint32_t h[4] = {0x67452301, 0xefcdab89, 0x98badcfe, 0x10325476};
	Bytes p = pad64(m, false);
	for (size_t o = 0; o < p.size(); o += 64) {
		uint32_t w[16];
		for (int i = 0; i < 16; ++i) w[i] = p[o + i * 4] | p[o + i * 4 + 1] << 8 | p[o + i * 4 + 2] << 16 | uint32_t(p[o + i * 4 + 3]) << 24;
		uint32_t a = h[0], b = h[1], c = h[2], d = h[3];
		for (int i = 0; i < 64; ++i) {
			uint32_t f; int g;
			if (i < 16) { f = (b & c) | (~b & d); g = i; }
			else if (i < 32) { f = (d & b) | (~d & c); g = (5 * i + 1) & 15; }
			else if (i < 48) { f = b ^ c ^ d; g = (3 * i + 5) & 15; }
			else { f = c ^ (b | ~d); g = (7 * i) & 15; }
			uint32_t t = d;
			d = c; c = b;
			b = b + rl(a + f + K[i] + w[g], S[i / 16][i % 4]);
			a = t;
		}
		h[0] += a; h[1] += b; h[2] += c; h[3] += d;
	}
	Bytes r;
	for (uint32_t x : h) for (int i = 0; i < 4; ++i) r.push_back(uint8_t(x >> (8 * i)));
	return r;
}
static Bytes ref_sha1(const Bytes &m) {
	uint32_t h[5] = {0x67452301, 0xEFCDAB89, 0x98BADCFE, 0x10325476, 0xC3D2E1F0};
	Bytes p = pad64(m, true);
	for (size_t o = 0; o < p.size(); o += 64) {
		uint32_t w[80];
		for (int i = 0; i < 16; ++i) w[i] = uint32_t(p[o + i * 4]) << 24 | p[o + i * 4 + 1] << 16 | p[o + i * 4 + 2] << 8 | p[o + i * 4 + 3];
		for (int i = 16; i < 80; ++i) w[i] = rl(w[i - 3] ^ w[i - 8] ^ w[i - 14] ^ w[i - 16], 1);
		uint32_t a = h[0], b = h[1], c = h[2], d = h[3], e = h[4];
		for (int i = 0; i < 80; ++i) {
			uint32_t f, k;
			if (i < 20) { f = (b & c) | (~b & d); k = 0x5A827999; }
			else if (i < 40) { f = b ^ c ^ d; k = 0x6ED9EBA1; }
			else if (i < 60) { f = (b & c) | (b & d) | (c & d); k = 0x8F1BBCDC; }
			else { f = b ^ c ^ d; k = 0xCA62C1D6; }
			uint32_t t = rl(a, 5) + f + e + k + w[i];
			e = d; d = c; c = rl(b, 30); b = a; a = t;
		}
		h[0] += a; h[1] += b; h[2] += c; h[3] += d; h[4] += e;
	}
	Bytes r;
	for (uint32_t x : h) for (int i = 3; i >= 0; --i) r.push_back(uint8_t(x >> (8 * i)));
	return r;
}
static uint32_t ref_crc(uint32_t crc, const Bytes &m, size_t from, size_t to, uint32_t poly) {
	crc = ~crc;
	for (size_t i = from; i < to; ++i) {
		crc ^= m[i];
		for (int k = 0; k < 8; ++k) crc = crc & 1 ? (crc >> 1) ^ poly : crc >> 1;
	}
	return ~crc;
}
template<class D, Bytes (*Ref)(const Bytes &)>
static void digest_case(const char *name, const Bytes &m, Rng &r, const std::vector<size_t> &cuts) {
	D d;
	size_t pos = 0;
	for (size_t c : cuts) {
		Exact part(Bytes(m.begin() + long(pos), m.begin() + long(c)));
		if (r.coin()) d.add(part.ptr(), part.n); else d.add(part.cptr(), part.n);
		pos = c;
	}
	Exact res{size_t(D::hash_size)};
	d.finalize(res.ptr());
	Bytes want = Ref(m);
	EXPECT(want.size() == res.n && std::memcmp(want.data(), res.ptr(), res.n) == 0, std::string(name),
	    name << " of " << m.size() << " bytes in " << cuts.size() << " pieces: " << crab::to_hex(res.ptr(), res.n) << " want " << crab::to_hex(want));
}
static void m_digest() {
	Rng &r = ctx().rng;
	Bytes m;
	switch (r.below(4)) {
	case 0: m = r.bytes(r.below(200)); break;
	case 1: m = r.bytes(64 * r.below(6) + 48 + r.below(32)); break;
	case 2: m = r.bytes(r.below(3000)); break;
	default: m = Bytes(r.below(260), r.byte());
	}
	std::vector<size_t> cuts;
	size_t pos = 0;
	size_t style = r.below(4);
	while (pos < m.size()) {
		size_t n = style == 0 ? m.size() : style == 1 ? r.below(4) : style == 2 ? 60 + r.below(9) : r.below(200);
		pos      = std::min(m.size(), pos + n);
		cuts.push_back(pos);
		if (cuts.size() > 4000) { cuts.push_back(m.size()); break; }
	}
	ctx().nontrivial = true;
	ctx().desc       = "digests of " + std::to_string(m.size()) + " bytes in " + std::to_string(cuts.size()) + " pieces";
	ev(hash_bytes(m.data(), m.size()));
	for (size_t c : cuts) ev(c);
	static bool self = false;
	if (!self) {  // the references themselves against published vectors
		self = true;
		Bytes abc = {'a', 'b', 'c'}, n9 = {'1', '2', '3', '4', '5', '6', '7', '8', '9'};
		if (crab::to_hex(ref_md5(abc)) != "900150983cd24fb0d6963f7d28e17f72" || crab::to_hex(ref_sha1(abc)) != "a9993e364706816aba3e25717850c26c9cd0d89d" ||
		    ref_crc(0, n9, 0, 9, 0xEDB88320u) != 0xCBF43926u || ref_crc(0, n9, 0, 9, 0x82F63B78u) != 0xE3069283u) {
			std::fprintf(stderr, "reference self-test failed\n");
			_exit(77);
		}
	}
	digest_case<crab::md5, ref_md5>("md5", m, r, cuts);
	digest_case<crab::sha1, ref_sha1>("sha1", m, r, cuts);
	uint32_t init = r.chance(30) ? uint32_t(r.next()) : 0;
	uint32_t a = init, b = init;
	pos        = 0;
	for (size_t c : cuts) {
		size_t shift = r.below(8);  // misaligned source
		Exact part(Bytes(shift + (c - pos)));
		if (c > pos) std::memcpy(part.ptr() + shift, m.data() + pos, c - pos);
		a   = crab::crc32(a, part.ptr() + shift, c - pos);
		b   = crab::crc32c(b, part.ptr() + shift, c - pos);
		pos = c;
	}
	EXPECT(a == ref_crc(init, m, 0, m.size(), 0xEDB88320u), "crc32", "crc32 of " << m.size() << " bytes");
	EXPECT(b == ref_crc(init, m, 0, m.size(), 0x82F63B78u), "crc32c", "crc32c of " << m.size() << " bytes");
	count("digests", 4);
	count("digest_pieces", cuts.size());
}

// lengths at which 32-bit counters of bytes or bits overflow; zeros mapped from the zero page, digests from other implementations
static void m_digestbig() {
	Rng &r = ctx().rng;
	static const char *md[2] = {"8b4a2365d46e1741670d69af8aeab34a", "11f745c55bb47196852f3866cf4b2b68"};
	static const char *sh[2] = {"bf99e7343a13f60d435aae067948102cf1b40b5b", "a644b28e33e7e9284431aed0ddb92d675e7905f3"};
	static const uint32_t c1[2] = {0x40207d46, 0x408b50ea}, c2[2] = {0xc1a1b8aa, 0xded1db63};
	const size_t len[2] = {(size_t(1) << 29) + 77, (size_t(1) << 32) + 77};
	struct itimerval tv = {};  // more CPU time than other cases are allowed
	tv.it_value.tv_sec  = 250;
	::setitimer(ITIMER_PROF, &tv, nullptr);
	void *mem = mmap(nullptr, len[1], PROT_READ, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
	if (mem == MAP_FAILED) {
		std::fprintf(stderr, "cannot map memory\n");
		_exit(77);
	}
	const uint8_t *z   = static_cast<const uint8_t *>(mem);
	const size_t what  = r.below(4);
	const size_t big   = what >= 2 || ctx().thorough ? 1 : 0;
	const size_t first = r.coin() ? 0 : r.below(200);
	ctx().nontrivial   = true;
	ctx().desc         = "digest " + std::to_string(what) + " of " + std::to_string(len[big]) + " bytes, " + std::to_string(first) + " first";
	ev(what); ev(big); ev(first);
	uint8_t res[32];
	if (what == 0) {
		crab::md5 d;
		d.add(z, first).add(z, len[big] - first).finalize(res);
		EXPECT(crab::to_hex(res, 16) == md[big], "md5-big", ctx().desc << " gives " << crab::to_hex(res, 16));
		count("big_digests");
	} else if (what == 1) {
		crab::sha1 d;
		d.add(z, first).add(z, len[big] - first).finalize(res);
		EXPECT(crab::to_hex(res, 20) == sh[big], "sha1-big", ctx().desc << " gives " << crab::to_hex(res, 20));
		count("big_digests");
	} else if (what == 2) {
		EXPECT(crab::crc32(crab::crc32(0, z, first), z, len[big] - first) == c1[big], "crc32-big", ctx().desc);
		count("big_digests");
	} else {
		EXPECT(crab::crc32c(crab::crc32c(0, z, first), z, len[big] - first) == c2[big], "crc32c-big", ctx().desc);
		count("big_digests");
	}
	munmap(mem, len[1]);
}

// ------------------------------------------------------------------ UTF-8
static bool ref_utf8(const Bytes &s) {
	size_t i = 0;
	while (i < s.size()) {
		uint32_t c = s[i], n, lo;
		if (c < 0x80) { ++i; continue; }
		if (c >= 0xC2 && c <= 0xDF) { n = 1; lo = 0x80; c &= 0x1f; }
		else if (c >= 0xE0 && c <= 0xEF) { n = 2; lo = 0x800; c &= 0x0f; }
		else if (c >= 0xF0 && c <= 0xF4) { n = 3; lo = 0x10000; c &= 0x07; }
		else return false;
		if (i + n >= s.size() + 0 && i + n > s.size() - 1) return false;
		for (uint32_t k = 1; k <= n; ++k) {
			if ((s[i + k] & 0xC0) != 0x80) return false;
			c = c << 6 | (s[i + k] & 0x3f);
		}
		if (c < lo || c > 0x10FFFF || (c >= 0xD800 && c <= 0xDFFF)) return false;
		i += n + 1;
	}
	return true;
}
static void put_cp(Bytes &b, uint32_t c, int force = 0) {
	int n = force ? force : c < 0x80 ? 1 : c < 0x800 ? 2 : c < 0x10000 ? 3 : 4;
	if (n == 1) b.push_back(uint8_t(c));
	else if (n == 2) { b.push_back(uint8_t(0xC0 | c >> 6)); b.push_back(uint8_t(0x80 | (c & 63))); }
	else if (n == 3) { b.push_back(uint8_t(0xE0 | c >> 12)); b.push_back(uint8_t(0x80 | (c >> 6 & 63))); b.push_back(uint8_t(0x80 | (c & 63))); }
	else { b.push_back(uint8_t(0xF0 | c >> 18)); b.push_back(uint8_t(0x80 | (c >> 12 & 63))); b.push_back(uint8_t(0x80 | (c >> 6 & 63))); b.push_back(uint8_t(0x80 | (c & 63))); }
}
static size_t run_len(Rng &r) {
	static const std::vector<size_t> near = {1, 2, 3, 4, 8, 16, 32, 64};
	size_t n = r.pick(near) * (r.chance(3) ? 16 : 1) + r.below(4);
	return n > 2 ? n - 2 : n;
}
static void m_utf8() {
	Rng &r = ctx().rng;
	for (int rep = 0; rep < 40; ++rep) {
		Bytes b;
		size_t n = r.below(r.chance(10) ? 60 : 8);
		static const std::vector<uint32_t> edge = {0, 0x7f, 0x80, 0x7ff, 0x800, 0xfff, 0x1000, 0xd7ff, 0xd800, 0xdbff, 0xdc00, 0xdfff, 0xe000, 0xfffd, 0xfffe, 0xffff, 0x10000, 0x3ffff, 0x40000, 0xfffff, 0x100000, 0x10ffff, 0x110000, 0x13ffff, 0x1fffff};
		for (size_t i = 0; i != n; ++i) {
			uint32_t c = r.coin() ? r.pick(edge) : uint32_t(r.below(0x110000));
			put_cp(b, c, r.chance(8) ? int(1 + r.below(4)) : 0);
		}
		if (r.chance(40) && !b.empty()) b[r.below(b.size())] = r.byte();
		if (r.chance(30) && !b.empty()) b.resize(r.below(b.size() + 1));
		if (r.chance(10)) b = r.bytes(r.below(6));
		if (rep % 2) {
			// Texts of uniform runs, whose lengths are near those of words, vectors and cache lines, then cut and pasted:
			// a run inside of a character, a lost or repeated piece, a defect at some place of a text otherwise valid
			b.clear();
			static const std::vector<uint32_t> bases = {'a', 'a', 'a', 0xa9, 0x436, 0x20ac, 0xac00, 0x1f600, 0x10fff0};
			for (size_t i = 1 + r.below(r.chance(5) ? 40 : 4); i-- > 0;) {
				uint32_t base = r.pick(bases);
				for (size_t k = run_len(r); k-- > 0;) put_cp(b, base + uint32_t(r.below(8)));
			}
			Bytes ins;
			uint32_t what = r.below(10);
			size_t at     = b.empty() ? 0 : r.below(b.size() + 1);
			if (what < 4) ins.assign(run_len(r), uint8_t('b'));
			else if (what < 5) ins.assign(1 + run_len(r) / 4, r.coin() ? 0x80 : 0xbf);
			else if (what < 6) { put_cp(ins, r.pick(edge)); ins.resize(r.below(ins.size() + 1)); }
			else if (what < 7 && !b.empty()) { size_t f = r.below(b.size()); ins.assign(b.begin() + long(f), b.begin() + long(std::min(b.size(), f + run_len(r)))); }
			else if (what < 8 && !b.empty()) b.erase(b.begin() + long(r.below(at + 1)), b.begin() + long(at));
			else if (what < 9 && !b.empty()) b[std::min(at, b.size() - 1)] = r.byte();
			b.insert(b.begin() + long(std::min(at, b.size())), ins.begin(), ins.end());
			count("utf8_runs");
			if (what < 4 && ins.size() >= 8 && !ref_utf8(b)) count("utf8_char_interrupted");
		}
		bool want = ref_utf8(b);
		Exact e(b);
		if (r.coin()) {  // no bytes of the text are at an aligned address
			Bytes pad(r.below(16));
			pad.insert(pad.end(), b.begin(), b.end());
			EXPECT(crab::is_valid_utf8(pad.data() + (pad.size() - b.size()), b.size()) == want, "utf8", "is_valid_utf8(" << quote(b) << ")=" << !want << " at offset " << pad.size() - b.size());
		}
		bool got = crab::is_valid_utf8(e.ptr(), e.n);
		EXPECT(got == want, "utf8", "is_valid_utf8(" << quote(b) << ")=" << got << " want " << want);
		EXPECT(crab::is_valid_utf8(std::string(b.begin(), b.end())) == want, "utf8", "string overload");
		count(want ? "utf8_valid" : "utf8_invalid");
		ev(hash_bytes(b.data(), b.size()));
		if (rep == 0) ctx().desc = "is_valid_utf8(" + quote(b, 80) + ")";
	}
	ctx().nontrivial = true;
}
// Every sequence of up to 4 bytes whose bytes come from one representative set per class boundary.
static void m_utf8x() {
	static const uint8_t cls[] = {0x00, 0x7f, 0x80, 0x8f, 0x90, 0x9f, 0xa0, 0xbf, 0xc0, 0xc1, 0xc2, 0xdf, 0xe0, 0xe1, 0xec, 0xed, 0xee, 0xef, 0xf0, 0xf1, 0xf3, 0xf4, 0xf5, 0xf8, 0xfe, 0xff};
	const size_t N = sizeof cls;
	Rng &r         = ctx().rng;
	uint8_t first  = cls[r.below(N)];
	for (size_t k = 0; k < N * N * N; ++k) {
		Bytes b = {first, cls[k % N], cls[k / N % N], cls[k / N / N]};
		for (size_t len = 1; len <= 4; ++len) {
			if (len < 4 && k >= (len == 1 ? 1 : len == 2 ? N : N * N)) continue;
			Bytes c(b.begin(), b.begin() + long(len));
			bool want = ref_utf8(c), got = crab::is_valid_utf8(c.data(), c.size());
			if (got != want) { VIOL("utf8", "is_valid_utf8(" << quote(c) << ")=" << got); return; }
			count("utf8_enumerated");
		}
	}
	ev(first);
	ctx().nontrivial = true;
	ctx().desc = "all 4-byte class sequences starting with byte " + std::to_string(first);
}

// ------------------------------------------------------------------ integers
typedef __int128 I;
static std::string i2s(I v) {
	if (v == 0) return "0";
	bool neg = v < 0;
	std::string s;
	while (v) { int d = int(v % 10); s.insert(s.begin(), char('0' + (d < 0 ? -d : d))); v /= 10; }
	return neg ? "-" + s : s;
}
template<class T> static T rnd_int(Rng &r) {
	const T mx = std::numeric_limits<T>::max(), mn = std::numeric_limits<T>::min();
	switch (r.below(5)) {
	case 0: return T(r.next());
	case 1: return T(u64(mx) - r.below(3));
	case 2: return T(u64(mn) + r.below(3));
	case 3: return T(r.below(20) - 10);
	default: { u64 p = (u64(1) << r.below(64)) + r.below(3) - 1; return T(r.coin() ? p : 0 - p); }
	}
}
template<> int64_t rnd_int<int64_t>(Rng &r) { u64 a = r.below(4); return a == 0 ? int64_t(r.next()) : a == 1 ? std::numeric_limits<int64_t>::max() - int64_t(r.below(3)) : a == 2 ? std::numeric_limits<int64_t>::min() + int64_t(r.below(3)) : int64_t((u64(1) << r.below(64)) + r.below(3) - 1); }
template<> int32_t rnd_int<int32_t>(Rng &r) { u64 a = r.below(4); return a == 0 ? int32_t(r.next()) : a == 1 ? std::numeric_limits<int32_t>::max() - int32_t(r.below(3)) : a == 2 ? std::numeric_limits<int32_t>::min() + int32_t(r.below(3)) : int32_t(uint32_t((u64(1) << r.below(32)) + r.below(3) - 1)); }

template<class T, class S> static void cast_pair(Rng &r, const char *tn) {
	S v       = rnd_int<S>(r);
	I x       = I(v);
	bool fits = x >= I(std::numeric_limits<T>::min()) && x <= I(std::numeric_limits<T>::max());
	bool threw = false;
	T got{};
	try { got = crab::integer_cast<T>(v); } catch (const std::out_of_range &) { threw = true; }
	EXPECT(threw == !fits && (threw || I(got) == x), std::string("cast-") + tn, "integer_cast<" << tn << ">(" << i2s(x) << ") threw=" << threw << " got " << i2s(I(got)));
	count(fits ? "casts_fit" : "casts_out_of_range");
	ev(u64(v));
}
template<class T> static void text_case(Rng &r, const char *tn) {
	std::string t;
	I v = 0;
	if (r.chance(70)) {
		v = r.coin() ? I(rnd_int<T>(r)) : I(std::numeric_limits<T>::max()) + I(r.below(5)) - 2;
		if (r.chance(30)) v = I(std::numeric_limits<T>::min()) + I(r.below(5)) - 2;
		if (r.chance(15)) v = v * 10 + I(r.below(10));
		if (r.chance(10)) v = (I(r.next()) << 40) ^ I(r.next());
		if (r.chance(5)) v = -v;
		t = i2s(v);
		if (v >= 0 && r.chance(15)) t = "+" + t;
		if (v == 0 && r.chance(20)) t = "-0";
		if (r.chance(20)) t = std::string(1 + r.below(2), " \t\n\r\v\f"[r.below(6)]) + t;
		if (r.chance(20)) t += std::string(1 + r.below(2), " \t\n\r\v\f"[r.below(6)]);
		if (r.chance(10)) t.insert(r.below(t.size() + 1), 1, char(r.byte()));
		if (r.chance(5)) t.insert(r.below(t.size() + 1), 1, '0');
	} else {
		t = r.str(r.below(25), "0123456789 +-\tx.");
	}
	// reference by the documented grammar: ws* sign? (0 | [1-9][0-9]*) ws*
	size_t a = 0, b = t.size();
	auto ws = [](char c) { return c == ' ' || (c >= 9 && c <= 13); };
	while (a < b && ws(t[a])) ++a;
	while (b > a && ws(t[b - 1])) --b;
	std::string core = t.substr(a, b - a);
	bool ok = true, neg = false;
	if (!core.empty() && (core[0] == '+' || core[0] == '-')) { neg = core[0] == '-'; core.erase(0, 1); }
	if (core.empty()) ok = false;
	for (char c : core) if (c < '0' || c > '9') ok = false;
	if (core.size() > 1 && core[0] == '0') ok = false;
	if (neg && std::is_unsigned<T>::value) ok = false;
	I val = 0;
	if (ok) {
		if (core.size() > 30) ok = false;
		else { for (char c : core) val = val * 10 + (c - '0'); if (neg) val = -val; }
		if (ok && (val > I(std::numeric_limits<T>::max()) || val < I(std::numeric_limits<T>::min()))) ok = false;
	}
	auto check = [&](const char *how, std::function<T()> f) {
		bool threw = false;
		T got{};
		try { got = f(); } catch (const std::out_of_range &) { threw = true; }
		EXPECT(threw == !ok && (threw || I(got) == val), std::string("parse-") + tn, how << "<" << tn << ">(" << quote(t) << ") threw=" << threw << " got " << i2s(I(got)) << " want " << (ok ? i2s(val) : "throw"));
	};
	check("integer_cast(string)", [&] { return crab::integer_cast<T>(t); });
	Exact e(t);
	check("integer_cast(ptr,size)", [&] { return crab::integer_cast<T>(static_cast<const char *>(e.cptr()), e.n); });
	if (t.find('\0') == std::string::npos) check("integer_cast(cstr)", [&] { return crab::integer_cast<T>(t.c_str()); });
	count(ok ? "texts_valid" : "texts_invalid");
	ev(hash_str(t));
	if (ctx().desc.empty()) ctx().desc = "integers incl. parse of " + quote(t);
}
template<class T> static void float_case(Rng &r, const char *tn) {
	double v;
	switch (r.below(6)) {
	case 0: v = std::ldexp(1.0, int(r.below(70))) * (r.coin() ? 1 : -1); break;
	case 1: v = std::nextafter(std::ldexp(1.0, int(r.below(70))), r.coin() ? 1e300 : 0) * (r.coin() ? 1 : -1); break;
	case 2: { static const double sp[] = {NAN, INFINITY, -INFINITY, 0.0, -0.0, 1e308, -1e308, 0.5, -0.5, 127.5, 255.5, -128.5}; v = sp[r.below(12)]; break; }
	case 3: v = double(rnd_int<T>(r)); break;
	case 4: v = double(int64_t(r.below(2000)) - 1000) / 4; break;
	default: { u64 b = r.next(); std::memcpy(&v, &b, 8); }
	}
	// exact comparison through long double (64 bit mantissa holds every 64-bit integer)
	long double lv = v;
	bool fits = !std::isnan(v) && lv >= (long double)std::numeric_limits<T>::min() && lv <= (long double)std::numeric_limits<T>::max();
	bool threw = false;
	T got{};
	try { got = crab::integer_cast<T>(v); } catch (const std::out_of_range &) { threw = true; }
	EXPECT(threw == !fits && (threw || (long double)got == std::trunc(lv)), std::string("fcast-") + tn, "integer_cast<" << tn << ">(" << v << ") threw=" << threw << " got " << i2s(I(got)));
	count(fits ? "fcasts_fit" : "fcasts_out_of_range");
}
template<class T> static void math_case(Rng &r, const char *tn) {
	T a = rnd_int<T>(r), b = rnd_int<T>(r);
	auto chk = [&](const char *op, I exact, crab::optional<T> o, std::function<T()> f) {
		bool fits = exact >= I(std::numeric_limits<T>::min()) && exact <= I(std::numeric_limits<T>::max());
		bool threw = false;
		T g{};
		try { g = f(); } catch (const std::out_of_range &) { threw = true; }
		EXPECT(bool(o) == fits && (!fits || I(*o) == exact), std::string("math-") + op + "-opt-" + tn, op << "_opt(" << i2s(a) << "," << i2s(b) << ")");
		EXPECT(threw == !fits && (threw || I(g) == exact), std::string("math-") + op + "-" + tn, op << "(" << i2s(a) << "," << i2s(b) << ") threw=" << threw << " got " << i2s(I(g)));
		count(fits ? "math_exact" : "math_overflow");
	};
	chk("add", I(a) + I(b), crab::safe_add_opt<T>(a, b), [&] { return crab::safe_add<T>(a, b); });
	chk("sub", I(a) - I(b), crab::safe_sub_opt<T>(a, b), [&] { return crab::safe_sub<T>(a, b); });
	EXPECT(I(crab::safe_abs(a)) == (I(a) < 0 ? -I(a) : I(a)), std::string("math-abs-") + tn, "safe_abs(" << i2s(a) << ")");
	crab::IntegerSaver<T> s(a);
	EXPECT(std::string(s.data(), s.size()) == i2s(a), std::string("saver-") + tn, "IntegerSaver(" << i2s(a) << ")=" << quote(std::string(s.data(), s.size())));
	ev(u64(a) * 31 + u64(b));
}
template<class T> static void all_for(Rng &r, const char *tn) {
	cast_pair<T, int8_t>(r, tn); cast_pair<T, uint8_t>(r, tn); cast_pair<T, int16_t>(r, tn); cast_pair<T, uint16_t>(r, tn);
	cast_pair<T, int32_t>(r, tn); cast_pair<T, uint32_t>(r, tn); cast_pair<T, int64_t>(r, tn); cast_pair<T, uint64_t>(r, tn);
	for (int i = 0; i < 6; ++i) text_case<T>(r, tn);
	for (int i = 0; i < 3; ++i) float_case<T>(r, tn);
	for (int i = 0; i < 4; ++i) math_case<T>(r, tn);
}
static void m_integer() {
	Rng &r = ctx().rng;
	ctx().nontrivial = true;
	all_for<int8_t>(r, "i8"); all_for<uint8_t>(r, "u8"); all_for<int16_t>(r, "i16"); all_for<uint16_t>(r, "u16");
	all_for<int32_t>(r, "i32"); all_for<uint32_t>(r, "u32"); all_for<int64_t>(r, "i64"); all_for<uint64_t>(r, "u64");
}

// ------------------------------------------------------------------ random
struct RefPcg {
	u64 state = 0, inc;
	explicit RefPcg(u64 seed) : inc(seed << 1 | 1) { next(); next(); }
	uint32_t next() {
		u64 o = state;
		state = o * 6364136223846793005ULL + inc;
		uint32_t x = uint32_t(((o >> 18) ^ o) >> 27), rot = uint32_t(o >> 59);
		return rot ? (x >> rot) | (x << (32 - rot)) : x;
	}
};
static void m_random() {
	Rng &r   = ctx().rng;
	u64 seed = r.coin() ? r.next() : r.below(5);
	crab::Random a(seed), b(seed);
	RefPcg ref(seed);
	ctx().nontrivial = true;
	ctx().desc = "Random(" + std::to_string(seed) + ")";
	auto ref_bytes = [&](size_t n) {
		Bytes w;
		while (w.size() < n) { uint32_t v = ref.next(); for (int k = 0; k < 4 && w.size() < n; ++k) { w.push_back(uint8_t(v)); v >>= 8; } }
		return w;
	};
	for (int step = 0; step < 20; ++step) {
		size_t n = r.len(40);
		switch (r.below(6)) {
		case 0: { uint32_t x = a(), y = b(), z = ref.next(); EXPECT(x == y && x == z, "pcg", "value " << x << " want " << z); break; }
		case 1: {
			Exact e(n);
			a.bytes(e.ptr(), e.n);
			crab::bdata y = b.data(n);
			Bytes w = ref_bytes(n);
			EXPECT(y == w && (n == 0 || std::memcmp(e.ptr(), w.data(), n) == 0), "random-bytes", "bytes(" << n << ")");
			break;
		}
		case 2: {
			std::string x = a.printable_string(n), y = b.printable_string(n), w;
			static const char al[] = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789";
			EXPECT(x == y && x.size() == n, "random-printable", "printable_string(" << n << ") " << quote(x) << " vs " << quote(y));
			for (char c : x) EXPECT(std::strchr(al, c) && c, "random-printable", "character " << int(c));
			seed = r.next();  // how many values a string takes is not specified: start again
			a = crab::Random(seed); b = crab::Random(seed); ref = RefPcg(seed);
			break;
		}
		case 3: {
			double x = a.double_value(), y = b.double_value();
			seed = r.next();
			a = crab::Random(seed); b = crab::Random(seed); ref = RefPcg(seed);
			EXPECT(x == y && x >= 0 && x < 1, "random-double", "double_value " << x);
			break;
		}
		case 4: { auto x = a.pod<u64>(), y = b.pod<u64>(); Bytes w = ref_bytes(8); EXPECT(x == y && std::memcmp(&x, w.data(), 8) == 0, "random-bytes", "pod<u64>"); break; }
		default: { auto x = a.pod<uint8_t>(), y = b.pod<uint8_t>(); Bytes w = ref_bytes(1); EXPECT(x == y && x == w[0], "random-bytes", "pod<u8>"); break; }
		}
		ev(n);
		count("random_requests");
	}
	if (r.chance(4)) {  // distribution of printable characters: 6 sigma bound per letter
		const size_t N = 62 * 2000;
		std::string s = a.printable_string(N);
		int h[256] = {};
		for (char c : s) h[uint8_t(c)]++;
		for (char c : std::string("ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789"))
			EXPECT(h[uint8_t(c)] > 1640 && h[uint8_t(c)] < 2360, "random-uniform", "letter " << c << " occurs " << h[uint8_t(c)] << " of expected 2000");
		count("random_distribution_checks");
		double mean = 0;
		bool lo = false, hi = false;
		for (int i = 0; i < 4000; ++i) { double d = a.double_value(); mean += d / 4000; lo |= d < 0.02; hi |= d > 0.98; }
		EXPECT(mean > 0.45 && mean < 0.55 && lo && hi, "random-uniform", "double mean " << mean);
	}
	if (r.chance(10)) {  // unseeded generators differ
		crab::Random x, y;
		EXPECT(x.data(16) != y.data(16), "random-unseeded", "two unseeded generators agree");
	}
}

// ------------------------------------------------------------------ C06: optional, string_view and small helpers
template<class T>
static void drive_optional(Rng &r, const std::function<T()> &make, const std::function<u64(const T &)> &id) {
	typedef crab::optional<T> O;
	struct Cell { O o; bool has = false; T val{}; };
	std::vector<Cell> v(1 + r.below(4));
	for (size_t k = 10 + r.below(60); k-- > 0 && !ctx().failed;) {
		auto &c = v[r.below(v.size())];
		auto &d = v[r.below(v.size())];
		T x     = make();
		unsigned op = unsigned(r.below(12));
		switch (op) {
		case 0: c.o = x; c.has = true; c.val = x; break;
		case 1: { T y = x; c.o = std::move(y); c.has = true; c.val = x; break; }
		case 2: c.o = d.o; c.has = d.has; c.val = d.val; break;  // self assignment included
		case 3: {
			if (&c == &d) break;
			c.o = std::move(d.o); c.has = d.has; c.val = d.val;
			EXPECT(d.o.has_value() == d.has, "optional-move", "a moved-from optional changed from " << d.has);
			d.o = x; d.has = true; d.val = x;
			break;
		}
		case 4: { O y(d.o); EXPECT(y.has_value() == d.has && (!d.has || id(*y) == id(d.val)), "optional-copy", "copy constructor"); c.o = y; c.has = d.has; c.val = d.val; break; }
		case 5: {
			O y(std::move(d.o));
			EXPECT(y.has_value() == d.has && (!d.has || id(*y) == id(d.val)), "optional-move", "move constructor");
			d.o.reset();
			d.has = false;
			break;
		}
		case 6: c.o.reset(); c.has = false; break;
		case 7: { T &ref = c.o.emplace(x); c.has = true; c.val = x; EXPECT(&ref == &*c.o, "optional-emplace", "emplace() returned another object"); break; }
		case 8: { O y(x); const O z(T{x}); EXPECT(y && z && id(*y) == id(x) && id(*z) == id(x), "optional-value", "constructed from a value"); break; }
		case 9: if (c.has) { *c.o = x; c.val = x; } break;
		case 10: { O y; EXPECT(!y && !y.has_value(), "optional-default", "default constructed optional has a value"); break; }
		default: {  // value()
			bool threw = false, threw2 = false;
			const O &k2 = c.o;
			try { EXPECT(id(c.o.value()) == id(c.val), "optional-value", "value() is another value"); } catch (const std::exception &) { threw = true; }
			try { EXPECT(id(k2.value()) == id(c.val), "optional-value", "value() const is another value"); } catch (const std::exception &) { threw2 = true; }
			EXPECT(threw == !c.has && threw2 == !c.has, "optional-value", "value() " << (threw ? "threw" : "did not throw") << ", value() const " << (threw2 ? "threw" : "did not throw") << ", has value " << c.has);
			if (threw) count("optional_throws");
			break;
		}
		}
		ev(op);
		for (auto &e : v) {
			const O &k2 = e.o;
			EXPECT(e.o.has_value() == e.has && bool(e.o) == e.has && bool(k2) == e.has, "optional-state", "after operation " << op << " has_value " << e.o.has_value() << ", expected " << e.has);
			if (e.has && e.o.has_value()) EXPECT(id(*e.o) == id(e.val) && id(*k2) == id(e.val) && e.o.operator->() == &*e.o && k2.operator->() == &*k2, "optional-content", "after operation " << op << " the value differs");
		}
		count("optional_ops");
	}
}
template<class T>
static void check_rol(Rng &r) {
	T x      = T(r.next());
	size_t n = r.below(200);
	T want   = x;
	for (size_t i = 0; i != n % (sizeof(T) * 8); ++i) want = T(T(want << 1) | T(want >> (sizeof(T) * 8 - 1)));
	EXPECT(crab::rol(x, n) == want, "rol", "rotation of " << sizeof(T) * 8 << " bits by " << n);
}
static void m_vocab() {
	Rng &r = ctx().rng;
	drive_optional<std::string>(r, [&] { return r.bstr(r.below(40)); }, [](const std::string &s) { return hash_str(s); });
	drive_optional<uint32_t>(r, [&] { return uint32_t(r.next()); }, [](const uint32_t &x) { return u64(x); });
	drive_optional<std::vector<std::string>>(r, [&] { std::vector<std::string> v(r.below(4)); for (auto &s : v) s = r.bstr(r.below(30)); return v; },
	    [](const std::vector<std::string> &v) { u64 h = v.size(); for (auto &s : v) h = mix64(h ^ hash_str(s)); return h; });
	for (int i = 0; i != 12 && !ctx().failed; ++i) {
		std::string text = r.chance(50) ? r.str(r.len(60), "ab") : r.bstr(r.len(60));
		Exact eb(text);
		const char *p = reinterpret_cast<const char *>(eb.ptr());
		crab::string_view sv(p, text.size());
		EXPECT(sv.size() == text.size() && sv.data() == p, "view-pointer-size", "view of " << text.size() << " characters has size " << sv.size());
		if (sv.size() != text.size()) return;
		std::string z(text.c_str());
		crab::string_view cz(z.c_str());
		EXPECT(cz.size() == z.size() && cz == z, "view-literal", "view of a C string of " << z.size() << " characters has size " << cz.size());
		for (int k = 0; k != 8 && !ctx().failed; ++k) {
			size_t pos = r.below(sv.size() + 3), n = r.chance(30) ? std::string::npos : r.below(sv.size() + 3);
			bool threw = false;
			std::string want;
			size_t off = size_t(sv.data() - p);
			std::string cur = text.substr(off, sv.size());
			try { want = cur.substr(pos, n); } catch (const std::out_of_range &) { threw = true; }
			try {
				auto sub = sv.substr(pos, n);
				EXPECT(!threw, "view-substr", "substr(" << pos << ") of " << sv.size() << " characters did not throw");
				EXPECT(sub.size() == want.size() && sub.data() == sv.data() + pos, "view-substr", "substr(" << pos << ", " << n << ") of " << sv.size() << " characters has size " << sub.size() << ", expected " << want.size());
				if (sub.size() == want.size()) EXPECT(sub == want && want == sub && !(sub != want), "view-substr", "substr content");
				if (r.chance(20) && sub.size() == want.size()) sv = sub;
			} catch (const std::out_of_range &) {
				EXPECT(threw, "view-substr", "substr(" << pos << ") of " << sv.size() << " characters threw");
				count("view_throws");
			}
			off = size_t(sv.data() - p);
			cur = text.substr(off, sv.size());
			if (r.chance(30)) { size_t c = r.below(cur.size() + 1); sv.remove_prefix(c); cur = cur.substr(c); }
			if (r.chance(30)) { size_t c = r.below(cur.size() + 1); sv.remove_suffix(c); cur.resize(cur.size() - c); }
			EXPECT(sv.size() == cur.size(), "view-trim", "after trimming size " << sv.size() << ", expected " << cur.size());
			if (sv.size() != cur.size()) return;
			// equality with itself, a changed, a longer and a shorter text
			std::string other = cur;
			if (!other.empty()) switch (r.below(5)) {
				case 0: other[r.below(other.size())] ^= char(1 + r.below(255)); break;
				case 1: other += char(r.byte()); break;
				case 2: other.pop_back(); break;
				case 3: other = r.bstr(other.size()); break;
				default: break;
				}
			else if (r.coin()) other = "x";
			bool eq = other == cur;
			EXPECT((sv == other) == eq && (other == sv) == eq && (sv != other) == !eq && (other != sv) == !eq, "view-equal", "view " << quote(cur) << " and text " << quote(other) << " compare wrongly");
			EXPECT((sv.compare(other) == 0) == eq, "view-equal", "compare() of " << quote(cur) << " and " << quote(other));
			count(eq ? "views_equal" : "views_different");
			ev(cur.size() * 64 + other.size());
		}
		crab::string_view none;
		EXPECT(none.size() == 0 && none == std::string() && none != std::string("a"), "view-default", "default constructed view");
		EXPECT(none.substr().size() == 0, "view-default", "substr of a default constructed view");
	}
	check_rol<uint8_t>(r); check_rol<uint16_t>(r); check_rol<uint32_t>(r); check_rol<uint64_t>(r);
	{
		Bytes b = r.bytes(1 + r.below(200));
		size_t from = r.below(b.size() + 1), n = r.below(b.size() - from + 1);
		Bytes w = b;
		for (size_t i = from; i != from + n; ++i) w[i] = 0;
		if (n || r.coin()) crab::memzero(b.data() + from, n);
		EXPECT(b == w, "memzero", "memzero of " << n << " bytes at " << from);
	}
	{
		int runs = 0, seen = -1;
		bool threw = false;
		try {
			crab::scope_exit e([&] { runs++; });
			seen = runs;
			if (r.coin()) throw std::runtime_error("x");
		} catch (const std::exception &) { threw = true; }
		EXPECT(seen == 0 && runs == 1, "scope-exit", "ran " << seen << " times before and " << runs << " times after the end of the scope" << (threw ? " left by an exception" : ""));
		count("scope_exits");
	}
	ctx().nontrivial = true;
}

int main(int argc, char **argv) {
	return harness_main(argc, argv, {{"base64", m_base64}, {"digest", m_digest}, {"digestbig", m_digestbig}, {"utf8", m_utf8}, {"utf8x", m_utf8x}, {"integer", m_integer}, {"random", m_random}, {"vocab", m_vocab}});
}
