// Monitors for streams, circular buffer, intrusive heap and list against executable models.
#include <crab/crab.hpp>
#include <list>
#include "common.hpp"
using namespace vh;

struct ExactBuf {
	uint8_t *base;
	size_t n;
	explicit ExactBuf(size_t n) : base(static_cast<uint8_t *>(std::malloc(n + 1))), n(n) { std::memset(base, 0xEE, n + 1); }
	~ExactBuf() { std::free(base); }
	uint8_t *ptr() { return base + 1; }  // ends exactly at the end of the allocation
};

// Sink accepting an arbitrary part of what is offered, sometimes nothing ("full").
struct PartialSink : crab::OStream {
	Rng *r;
	Bytes got;
	unsigned zero_pct, full_pct;
	size_t calls = 0, limit = std::numeric_limits<size_t>::max();
	PartialSink(Rng *r, unsigned z, unsigned f) : r(r), zero_pct(z), full_pct(f) {}
	size_t write_some(const uint8_t *v, size_t n) override {
		++calls;
		if (r->chance(zero_pct)) return 0;
		size_t k = r->chance(full_pct) ? n : n ? 1 + r->below(n) : 0;
		k        = std::min(k, limit - got.size());
		for (size_t i = 0; i < k; ++i) got.push_back(v[i]);
		return k;
	}
	using crab::OStream::write_some;
};
struct PartialSource : crab::IStream {
	Rng *r;
	Bytes data;
	size_t pos = 0;
	unsigned zero_pct;
	PartialSource(Rng *r, Bytes d, unsigned z) : r(r), data(std::move(d)), zero_pct(z) {}
	size_t read_some(uint8_t *v, size_t n) override {
		if (r->chance(zero_pct)) return 0;
		size_t k = std::min(n, data.size() - pos);
		if (k > 1 && r->coin()) k = 1 + r->below(k);
		if (k) std::memcpy(v, data.data() + pos, k);
		pos += k;
		return k;
	}
	using crab::IStream::read_some;
};

// ------------------------------------------------------------------ S01: finite streams
struct Made {
	std::unique_ptr<crab::IFiniteStream> s;
	Bytes content;
	std::string kind;
	bool contiguous;  // a single read_some can return everything that is left
};
struct Backing {
	std::list<Bytes> vecs;
	std::list<std::string> strs;
	std::list<std::unique_ptr<ExactBuf>> bufs;
};
static Made make_stream(Rng &r, Backing &bk, int depth) {
	Made m;
	Bytes c   = r.bytes(r.len(r.chance(10) ? 3000 : 60));
	m.content = c;
	m.contiguous = true;
	switch (r.below(depth > 0 ? 9 : 6)) {
	case 0: {
		bk.bufs.emplace_back(new ExactBuf(c.size()));
		if (c.size()) std::memcpy(bk.bufs.back()->ptr(), c.data(), c.size());
		m.s.reset(new crab::IMemoryStream(bk.bufs.back()->ptr(), c.size()));
		m.kind = "mem";
		break;
	}
	case 1: bk.vecs.push_back(c); m.s.reset(new crab::IVectorStream(&bk.vecs.back())); m.kind = "ivec"; break;
	case 2: bk.strs.push_back(std::string(c.begin(), c.end())); m.s.reset(new crab::IStringStream(&bk.strs.back())); m.kind = "istr"; break;
	case 3: {
		std::unique_ptr<crab::VectorStream> v(new crab::VectorStream(c));
		if (r.coin()) { Bytes e = r.bytes(r.len(20)); v->write(e.data(), e.size()); m.content.insert(m.content.end(), e.begin(), e.end()); }
		size_t skip = r.below(m.content.size() + 1);
		if (r.chance(30)) { Bytes sk(skip); if (skip) v->read(sk.data(), skip); EXPECT(std::equal(sk.begin(), sk.end(), m.content.begin()), "vector-read", "prefix"); m.content.erase(m.content.begin(), m.content.begin() + long(skip)); }
		if (r.chance(40)) { std::unique_ptr<crab::VectorStream> w(new crab::VectorStream(std::move(*v))); v = std::move(w); }
		if (r.chance(20)) { std::unique_ptr<crab::VectorStream> w(new crab::VectorStream(Bytes{1, 2, 3})); *w = std::move(*v); v = std::move(w); }
		m.s = std::move(v);
		m.kind = "vec";
		break;
	}
	case 4: {
		std::unique_ptr<crab::StringStream> v(new crab::StringStream(std::string(c.begin(), c.end())));
		if (r.coin()) { Bytes e = r.bytes(r.len(20)); v->write(e.data(), e.size()); m.content.insert(m.content.end(), e.begin(), e.end()); }
		size_t skip = r.below(m.content.size() + 1);
		if (r.chance(30)) { Bytes sk(skip); if (skip) v->read(sk.data(), skip); EXPECT(std::equal(sk.begin(), sk.end(), m.content.begin()), "string-read", "prefix"); m.content.erase(m.content.begin(), m.content.begin() + long(skip)); }
		if (r.chance(40)) { std::unique_ptr<crab::StringStream> w(new crab::StringStream(std::move(*v))); v = std::move(w); }
		if (r.chance(20)) { std::unique_ptr<crab::StringStream> w(new crab::StringStream(std::string("abc"))); *w = std::move(*v); v = std::move(w); }
		m.s = std::move(v);
		m.kind = "str";
		break;
	}
	case 5: {  // circular buffer, wrapped
		size_t cap = c.size() + r.below(5);
		std::unique_ptr<crab::Buffer> b(new crab::Buffer(cap));
		if (cap && r.coin()) {  // rotate
			size_t k = r.below(cap);
			Bytes z(k + 1, 0xAA);
			b->write(z.data(), k + 1 <= cap ? k + 1 : cap);
			if (b->size() > 1) { Bytes t(b->size() - 1); b->read(t.data(), t.size()); }
			// one byte remains; keep position
			Bytes rest = c;
			if (rest.size() + 1 > cap) rest.resize(cap - 1);
			b->write(rest.data(), rest.size());
			m.content = Bytes(1, 0xAA);
			m.content.insert(m.content.end(), rest.begin(), rest.end());
		} else
			b->write(c.data(), c.size());
		m.s = std::move(b);
		m.kind = "buf";
		m.contiguous = false;
		break;
	}
	default: {
		Made a = make_stream(r, bk, depth - 1), b = make_stream(r, bk, depth - 1);
		m.kind = "(" + a.kind + "+" + b.kind + ")";
		m.content = a.content;
		m.content.insert(m.content.end(), b.content.begin(), b.content.end());
		m.s.reset(new crab::CombinedIStream(std::move(a.s), std::move(b.s)));
		m.contiguous = false;
	}
	}
	return m;
}
// vector and string streams which own their bytes: written, read, cleared, moved at any moment
static Bytes raw(const Bytes &b) { return b; }
static Bytes raw(const std::string &b) { return Bytes(b.begin(), b.end()); }
template<class S, class C>
static void owned(const char *kind) {
	Rng &r = ctx().rng;
	std::unique_ptr<S> s;
	Bytes all;      // what get_buffer() holds
	size_t pos = 0;  // how much of it was read
	auto fresh = [&]() { Bytes d = r.bytes(r.len(40)); return d; };
	if (r.coin()) { all = fresh(); s.reset(new S(C(all.begin(), all.end()))); } else s.reset(new S());
	for (int i = 0, n = 3 + int(r.below(15)); i != n; ++i) {
		size_t left = all.size() - pos;
		switch (int k = int(r.below(7))) {
		case 0: case 1: {
			Bytes d = fresh();
			size_t w = r.coin() ? s->write_some(d.data(), d.size()) : (s->write(d.data(), d.size()), d.size());
			EXPECT(w == d.size(), "owned-write", kind << " accepted " << w << " of " << d.size());
			all.insert(all.end(), d.begin(), d.end());
			break;
		}
		case 2: {
			size_t c = r.len(30), want = std::min(c, left);
			ExactBuf b(c);
			size_t g = s->read_some(b.ptr(), c);
			EXPECT(g == want && std::equal(b.ptr(), b.ptr() + g, all.begin() + long(pos)), "owned-read", kind << " read_some(" << c << ")=" << g << " of " << left);
			pos += want;
			break;
		}
		case 3: {
			size_t c = r.len(30), want = std::min(c, left);
			crab::VectorStream o;
			size_t g = s->write_to(o, c);
			EXPECT(g == want && o.get_buffer() == Bytes(all.begin() + long(pos), all.begin() + long(pos + want)), "owned-write-to", kind << " write_to(" << c << ")=" << g << " of " << left);
			pos += want;
			break;
		}
		case 4: {
			Bytes c = raw(s->clear());
			EXPECT(c == all, "owned-clear", kind << ".clear() returned " << c.size() << " bytes of " << all.size());
			EXPECT(s->empty() && s->get_buffer().empty(), "owned-clear", kind << " holds " << s->size() << " bytes after clear()");
			all.clear(); pos = 0;
			count("owned_cleared");
			break;
		}
		case 5: { std::unique_ptr<S> w(new S(std::move(*s))); s = std::move(w); count("owned_moved"); break; }
		default: {
			Bytes was = fresh();
			std::unique_ptr<S> w(new S(C(was.begin(), was.end())));
			uint8_t junk[10];
			w->read_some(junk, r.below(10));
			*w = std::move(*s); s = std::move(w); count("owned_moved");
			ev(uint64_t(k));
		}
		}
		EXPECT(s->size() == all.size() - pos && s->empty() == (all.size() == pos) && raw(s->get_buffer()) == all, "owned-content", kind << " has " << s->size() << " bytes to read, expected " << all.size() - pos);
		ev(all.size()); ev(pos);
	}
}

static void m_finite() {
	Rng &r = ctx().rng;
	Backing bk;
	Made m = make_stream(r, bk, 3);
	Bytes got;
	size_t left = m.content.size();
	ctx().nontrivial = left > 0;
	ctx().desc = m.kind + " of " + std::to_string(left) + " bytes:";
	ev(hash_str(m.kind) ^ left);
	auto append = [&](const Bytes &b) { got.insert(got.end(), b.begin(), b.end()); };
	for (int step = 0; step < 40 && !ctx().failed; ++step) {
		EXPECT(m.s->size() == left && m.s->empty() == (left == 0), "stream-size", m.kind << " size " << m.s->size() << " want " << left);
		switch (r.below(5)) {
		case 0: {  // read_some
			size_t n = r.len(std::min<size_t>(left + 10, 500));
			ExactBuf b(n);
			size_t k = r.coin() ? m.s->read_some(b.ptr(), n) : m.s->read_some(reinterpret_cast<char *>(b.ptr()), n);
			EXPECT(k <= n && k <= left, "stream-read-count", m.kind << " read_some(" << n << ")=" << k << " left " << left);
			EXPECT(k != 0 || n == 0 || left == 0, "stream-read-zero", m.kind << " read_some(" << n << ")=0 but left " << left);
			if (m.contiguous) EXPECT(k == std::min(n, left), "stream-read-count", m.kind << " read_some(" << n << ")=" << k << " left " << left);
			if (k > n || k > left) return;
			append(Bytes(b.ptr(), b.ptr() + k));
			for (size_t i = k; i < n; ++i) EXPECT(b.ptr()[i] == 0xEE, "stream-read-beyond", "bytes after the reported count changed");
			left -= k;
			ev(1); ev(k);
			ctx().desc += " read" + std::to_string(n) + "=" + std::to_string(k);
			break;
		}
		case 1: {  // all-or-throw read
			size_t n = r.len(std::min<size_t>(left + 3, 300));
			ExactBuf b(n);
			bool threw = false;
			try { m.s->read(b.ptr(), n); } catch (const std::exception &) { threw = true; }
			EXPECT(threw == (n > left), "stream-read-all", m.kind << " read(" << n << ") with " << left << " left threw=" << threw);
			size_t k = std::min(n, left);
			append(Bytes(b.ptr(), b.ptr() + k));
			left -= k;
			ev(2); ev(k);
			count(threw ? "short_reads_thrown" : "full_reads");
			break;
		}
		case 2: {  // write_to partial sink with limit
			PartialSink sink(&r, unsigned(r.below(3)) * 20, unsigned(r.below(101)));
			size_t maxc = r.coin() ? r.len(left + 5) : std::numeric_limits<size_t>::max();
			if (r.coin()) sink.limit = r.len(left + 5);
			size_t k = maxc == std::numeric_limits<size_t>::max() && r.coin() ? m.s->write_to(sink) : m.s->write_to(sink, maxc);
			EXPECT(k == sink.got.size(), "stream-write_to-count", m.kind << " write_to returned " << k << " but sink got " << sink.got.size());
			EXPECT(k <= maxc, "stream-write_to-limit", m.kind << " write_to(" << maxc << ")=" << k);
			if (sink.zero_pct == 0)
				EXPECT(k == std::min(std::min(left, maxc), sink.limit), "stream-write_to-short", m.kind << " write_to(" << maxc << ")=" << k << " left " << left << " sink limit " << sink.limit);
			append(sink.got);
			EXPECT(sink.got.size() <= left, "stream-write_to-more", m.kind << " produced more than it had");
			if (sink.got.size() > left) return;
			left -= sink.got.size();
			ev(3); ev(k);
			count("write_to_calls");
			ctx().desc += " write_to=" + std::to_string(k);
			break;
		}
		case 3: {  // write_to memory / string / vector sinks
			size_t cap = r.len(left + 5);
			ExactBuf b(cap);
			if (r.chance(40)) {
				crab::OMemoryStream o(b.ptr(), cap);
				size_t k = m.s->write_to(o), want = std::min(left, cap);
				EXPECT(k == want, "stream-to-memory", m.kind << " -> memory(" << cap << ")=" << k << " left " << left);
				append(Bytes(b.ptr(), b.ptr() + want));
				left -= want;
				uint8_t x = 0;
				if (k == cap) { bool threw = false; try { o.write(&x, 1); } catch (const std::exception &) { threw = true; } EXPECT(threw, "stream-memory-full", "write into full memory stream accepted"); }
				ev(4); ev(k);
			} else if (r.coin()) {
				Bytes v = {5};
				crab::OVectorStream o(&v);
				size_t k = m.s->write_to(o, cap), want = std::min(left, cap);
				EXPECT(k == want && v.size() == want + 1 && v[0] == 5, "stream-to-vector", m.kind << " -> vector " << k);
				append(Bytes(v.begin() + 1, v.end()));
				left -= std::min(left, v.size() - 1);
				ev(5); ev(k);
			} else {
				std::string v = "x";
				crab::OStringStream o(&v);
				size_t k = m.s->write_to(o, cap), want = std::min(left, cap);
				EXPECT(k == want && v.size() == want + 1 && v[0] == 'x', "stream-to-string", m.kind << " -> string " << k);
				append(Bytes(v.begin() + 1, v.end()));
				left -= std::min(left, v.size() - 1);
				ev(6); ev(k);
			}
			break;
		}
		default: {  // through a circular buffer in between
			crab::Buffer mid(1 + r.below(20));
			size_t k = mid.read_from(*m.s);
			EXPECT(k == std::min(left, mid.capacity()) && mid.size() == k, "stream-to-buffer", m.kind << " read_from=" << k << " size " << mid.size() << " left " << left);
			crab::VectorStream o;
			size_t w = mid.write_to(o);
			EXPECT(w == k, "buffer-to-vector", w << " != " << k);
			append(o.get_buffer());
			if (o.get_buffer().size() > left) return;
			left -= o.get_buffer().size();
			ev(7); ev(k);
		}
		}
		EXPECT(got.size() + left == m.content.size() && std::equal(got.begin(), got.end(), m.content.begin()), "stream-conservation",
		    m.kind << ": moved " << got.size() << " + left " << left << " != " << m.content.size() << " or bytes differ");
		count("stream_steps");
		if (left == 0 && r.chance(50)) break;
	}
	// sinks: all-or-throw write helper
	PartialSink sink(&r, 0, 50);
	sink.limit = r.len(50);
	Bytes d    = r.bytes(r.len(60));
	ExactBuf src(d.size());
	if (d.size()) std::memcpy(src.ptr(), d.data(), d.size());
	bool threw = false;
	try { if (r.coin()) sink.write(src.ptr(), d.size()); else sink.write(reinterpret_cast<char *>(src.ptr()), d.size()); } catch (const std::exception &) { threw = true; }
	EXPECT(threw == (d.size() > sink.limit) && sink.got == Bytes(d.begin(), d.begin() + long(std::min(d.size(), sink.limit))), "stream-write-all", "write(" << d.size() << ") into limit " << sink.limit);
	if (r.coin()) owned<crab::VectorStream, crab::bdata>("VectorStream"); else owned<crab::StringStream, std::string>("StringStream");
	if (!threw && sink.limit > sink.got.size()) { sink.write_byte(0x5a); EXPECT(sink.got.back() == 0x5a && sink.got.size() == d.size() + 1, "stream-write-byte", "write_byte"); }
}

// ------------------------------------------------------------------ S02: circular buffer
static void m_buffer() {
	Rng &r     = ctx().rng;
	size_t cap = r.chance(5) ? 0 : r.chance(50) ? 1 + r.below(9) : 1 + r.below(r.chance(10) ? 5000 : 100);
	crab::Buffer b(cap);
	std::deque<uint8_t> q;
	uint8_t next = r.byte();
	ctx().desc   = "Buffer(" + std::to_string(cap) + "):";
	ctx().nontrivial = cap > 0;
	ev(cap);
	bool wrapped = false;
	auto fresh = [&](size_t n) { Bytes d(n); for (auto &x : d) x = next++; return d; };
	auto popn = [&](size_t n) { Bytes d(q.begin(), q.begin() + long(n)); q.erase(q.begin(), q.begin() + long(n)); return d; };
	for (int step = 0; step < 60 && !ctx().failed; ++step) {
		size_t op = r.below(12);
		ev(op);
		switch (op) {
		case 0: case 1: {  // write_some
			Bytes d = fresh(r.len(cap + 3));
			ExactBuf s(d.size());
			if (d.size()) std::memcpy(s.ptr(), d.data(), d.size());
			size_t k = b.write_some(s.ptr(), d.size());
			EXPECT(k <= d.size() && k <= cap - q.size() && (k || d.empty() || q.size() == cap), "buffer-write_some", "write_some(" << d.size() << ")=" << k << " with " << q.size() << "/" << cap);
			if (k > d.size()) return;
			q.insert(q.end(), d.begin(), d.begin() + long(k));
			next = uint8_t(next - (d.size() - k));
			break;
		}
		case 2: {  // all-or-throw write
			Bytes d = fresh(r.len(cap - q.size() + 2));
			bool threw = false;
			try { b.write(d.data(), d.size()); } catch (const std::exception &) { threw = true; }
			EXPECT(threw == (d.size() > cap - q.size()), "buffer-write", "write(" << d.size() << ") with " << q.size() << "/" << cap << " threw=" << threw);
			size_t k = std::min(d.size(), cap - q.size());
			q.insert(q.end(), d.begin(), d.begin() + long(k));
			next = uint8_t(next - (d.size() - k));
			break;
		}
		case 3: case 4: {  // read_some
			size_t n = r.len(q.size() + 3);
			ExactBuf d(n);
			size_t k = b.read_some(d.ptr(), n);
			EXPECT(k <= n && k <= q.size() && (k || n == 0 || q.empty()), "buffer-read_some", "read_some(" << n << ")=" << k << " of " << q.size());
			if (k > q.size()) return;
			EXPECT(Bytes(d.ptr(), d.ptr() + k) == popn(k), "buffer-read-bytes", "read_some returned wrong bytes");
			break;
		}
		case 5: {  // direct window write
			size_t w1 = b.write_count(), w2 = b.write_count2();
			size_t total = std::min(cap - q.size(), w1 + w2);
			size_t n = r.len(total);
			Bytes d  = fresh(n);
			size_t n1 = std::min(n, w1);
			if (n1) std::memcpy(b.write_ptr(), d.data(), n1);
			if (n > n1) std::memcpy(b.write_ptr2(), d.data() + n1, n - n1);
			b.did_write(n);
			q.insert(q.end(), d.begin(), d.end());
			if (n && r.chance(30)) {
				size_t undo = r.below(n + 1);
				b.did_write_undo(undo);
				for (size_t i = 0; i < undo; ++i) q.pop_back();
				next = uint8_t(next - undo);
			}
			break;
		}
		case 6: {  // direct window read
			size_t n = r.len(q.size());
			size_t n1 = std::min(n, b.read_count());
			Bytes d(b.read_ptr(), b.read_ptr() + n1);
			if (n > n1) d.insert(d.end(), b.read_ptr2(), b.read_ptr2() + (n - n1));
			EXPECT(d == popn(n), "buffer-window", "window bytes differ");
			b.did_read(n);
			break;
		}
		case 7: {  // read_from
			Bytes d = fresh(r.len(cap + 3));
			PartialSource src(&r, d, unsigned(r.below(2)) * 15);
			size_t k = b.read_from(src);
			EXPECT(k == src.pos && k <= cap - q.size(), "buffer-read_from", "read_from=" << k << " source lost " << src.pos);
			if (src.zero_pct == 0) EXPECT(k == std::min(d.size(), cap - q.size()), "buffer-read_from-short", "read_from=" << k << " of " << d.size() << " with " << q.size() << "/" << cap);
			if (src.pos > d.size()) return;
			q.insert(q.end(), d.begin(), d.begin() + long(src.pos));
			next = uint8_t(next - (d.size() - src.pos));
			break;
		}
		case 8: {  // write_to
			PartialSink s(&r, unsigned(r.below(2)) * 15, unsigned(r.below(101)));
			size_t mx = r.coin() ? std::numeric_limits<size_t>::max() : r.len(q.size() + 2);
			size_t k = b.write_to(s, mx);
			EXPECT(k == s.got.size() && k <= mx && k <= q.size(), "buffer-write_to", "write_to(" << mx << ")=" << k << " sink " << s.got.size());
			if (s.zero_pct == 0) EXPECT(k == std::min(mx, q.size()), "buffer-write_to-short", "write_to(" << mx << ")=" << k << " of " << q.size());
			if (s.got.size() > q.size()) return;
			EXPECT(s.got == popn(s.got.size()), "buffer-write_to-bytes", "bytes differ");
			break;
		}
		case 9: {  // peek
			size_t n = r.len(q.size() + 2);
			ExactBuf d(n);
			bool ok = b.peek(d.ptr(), n);
			EXPECT(ok == (n <= q.size()), "buffer-peek", "peek(" << n << ") of " << q.size() << "=" << ok);
			if (ok && n <= q.size()) EXPECT(std::equal(d.ptr(), d.ptr() + n, q.begin()), "buffer-peek-bytes", "bytes differ");
			break;
		}
		case 10: {  // read_enough_data
			Bytes d = fresh(r.len(cap + 2));
			PartialSource src(&r, d, 0);
			size_t need = r.len(cap);
			size_t before = q.size();
			bool ok = b.read_enough_data(src, need);
			if (src.pos > d.size()) return;
			q.insert(q.end(), d.begin(), d.begin() + long(src.pos));
			next = uint8_t(next - (d.size() - src.pos));
			EXPECT(ok == (q.size() >= need), "buffer-enough", "read_enough_data(" << need << ")=" << ok << " with " << q.size());
			EXPECT(q.size() >= need || before + d.size() < need, "buffer-enough-lazy", "did not read although data were available");
			break;
		}
		default:
			if (r.chance(20)) {
				if (r.coin()) { b.clear(); q.clear(); }
				else { cap = r.below(60); b.clear(cap); q.clear(); }
			}
			break;
		}
		EXPECT(b.size() == q.size() && b.capacity() == cap && b.empty() == q.empty() && b.full() == (q.size() == cap), "buffer-size", "size " << b.size() << "/" << b.capacity() << " model " << q.size() << "/" << cap);
		if (cap) {
			EXPECT(b.read_count() + b.read_count2() == q.size(), "buffer-windows", "read windows " << b.read_count() << "+" << b.read_count2() << " model " << q.size());
			EXPECT(b.write_count() + b.write_count2() == cap - q.size(), "buffer-windows", "write windows " << b.write_count() << "+" << b.write_count2() << " free " << cap - q.size());
			EXPECT((b.read_count() > 0) == !q.empty() && (b.write_count() > 0) == (q.size() < cap), "buffer-windows", "first window empty");
			if (ctx().failed) return;
			EXPECT(std::equal(b.read_ptr(), b.read_ptr() + b.read_count(), q.begin()), "buffer-content", "first part differs");
			EXPECT(std::equal(b.read_ptr2(), b.read_ptr2() + b.read_count2(), q.begin() + long(b.read_count())), "buffer-content", "second part differs");
			if (b.read_count2()) wrapped = true;
		}
		count("buffer_ops");
	}
	if (wrapped) count("buffers_wrapped");
	// overruns are refused
	bool threw = false;
	try { b.did_write(cap - q.size() + 1 + r.below(5)); } catch (const std::logic_error &) { threw = true; }
	EXPECT(threw, "buffer-overrun", "did_write past capacity accepted");
}

// ------------------------------------------------------------------ S03: intrusive heap and list
struct HItem {
	int key = 0, id = 0;
	crab::IntrusiveHeapIndex hi, hi2;
	char pad[3];
	bool operator<(const HItem &b) const { return key < b.key; }
};
struct Greater { bool operator()(const HItem &a, const HItem &b) const { return a.key > b.key; } };
static void m_heap() {
	Rng &r = ctx().rng;
	size_t n = 1 + r.below(r.chance(10) ? 300 : 24);
	std::vector<HItem> items(n);
	for (size_t i = 0; i < n; ++i) { items[i].id = int(i); items[i].key = int(r.below(r.coin() ? 5 : 1000)); }
	bool maxheap = r.coin();
	crab::IntrusiveHeap<HItem, &HItem::hi, Greater> mn;
	crab::IntrusiveHeap<HItem, &HItem::hi2> mx;
	if (r.coin()) { mn.reserve(n); mx.reserve(n); }
	std::multiset<int> model;
	std::vector<bool> in(n, false);
	ctx().nontrivial = true;
	ctx().desc = std::string(maxheap ? "max" : "min") + "-heap over " + std::to_string(n) + " items";
	auto inheap = [&](size_t i) { return maxheap ? items[i].hi2.in_heap() : items[i].hi.in_heap(); };
	size_t grow = r.below(100);
	for (int step = 0; step < 150 && !ctx().failed; ++step) {
		size_t i = r.below(n);
		size_t op = r.below(100) < grow ? 0 : 1 + r.below(3);
		if (op == 0) {
			if (!in[i]) items[i].key = int(r.below(r.coin() ? 5 : 1000));
			bool ok = maxheap ? mx.insert(items[i]) : mn.insert(items[i]);
			EXPECT(ok == !in[i], "heap-insert", "insert returned " << ok);
			if (!in[i]) { model.insert(items[i].key); in[i] = true; }
		} else if (op == 1) {
			size_t k = maxheap ? mx.erase(items[i]) : mn.erase(items[i]);
			EXPECT(k == (in[i] ? 1u : 0u), "heap-erase", "erase returned " << k);
			if (in[i]) { model.erase(model.find(items[i].key)); in[i] = false; }
		} else if (op == 2 && !model.empty()) {
			HItem &f = maxheap ? mx.front() : mn.front();
			if (maxheap) mx.pop_front(); else mn.pop_front();
			EXPECT(in[size_t(f.id)], "heap-front", "front is not an inserted element");
			in[size_t(f.id)] = false;
			auto it = model.find(f.key);
			if (it != model.end()) model.erase(it);
			EXPECT(!inheap(size_t(f.id)), "heap-pop", "popped element still claims membership");
		} else if (op == 3 && r.chance(15))
			grow = r.below(100);
		bool e = maxheap ? mx.empty() : mn.empty();
		EXPECT(e == model.empty(), "heap-empty", "empty()=" << e << " model size " << model.size());
		for (size_t j = 0; j < n; ++j) EXPECT(inheap(j) == in[j], "heap-membership", "item " << j);
		if (!model.empty() && !e) {
			HItem &f = maxheap ? mx.front() : mn.front();
			int want = maxheap ? *model.rbegin() : *model.begin();
			EXPECT(f.key == want && in[size_t(f.id)], "heap-order", "front key " << f.key << " want " << want);
		}
		ev(op); ev(i);
		count("heap_ops");
	}
	while (!model.empty() && !ctx().failed) {  // drain in order
		HItem &f = maxheap ? mx.front() : mn.front();
		int want = maxheap ? *model.rbegin() : *model.begin();
		EXPECT(f.key == want, "heap-drain", "drain key " << f.key << " want " << want);
		model.erase(model.find(want));
		if (maxheap) mx.pop_front(); else mn.pop_front();
	}
}
struct LItem {
	int id = 0;
	char pad[5];
	crab::IntrusiveNode<LItem> a;
	std::string s = "payload";
	crab::IntrusiveNode<LItem> b;
};
typedef crab::IntrusiveList<LItem, &LItem::a> LA;
typedef crab::IntrusiveList<LItem, &LItem::b> LB;
static void m_list() {
	Rng &r = ctx().rng;
	size_t n = 1 + r.below(12);
	std::vector<std::unique_ptr<LItem>> items(n);
	int ids = 0;
	std::unique_ptr<LA> la[2];
	la[0].reset(new LA); la[1].reset(new LA);
	LB lb;
	std::list<int> ma[2], mb;
	ctx().nontrivial = true;
	ctx().desc = "lists over " + std::to_string(n) + " items";
	auto find = [&](int id) -> LItem * { for (auto &x : items) if (x && x->id == id) return x.get(); return nullptr; };
	(void)find;
	auto verify = [&](auto &l, std::list<int> &m, const char *nm) {
		std::vector<int> f, bk;
		size_t guard = 0;
		for (auto it = l.begin(); it != l.end() && guard < 50; ++it, ++guard) f.push_back(it->id);
		std::vector<int> want(m.begin(), m.end());
		EXPECT(f == want, std::string("list-order-") + nm, "forward order differs: " << f.size() << " vs " << want.size());
		guard = 0;
		for (auto it = l.end(); it != l.begin() && guard < 50; ++guard) { --it; bk.push_back((*it).id); }
		std::reverse(bk.begin(), bk.end());
		EXPECT(bk == want, std::string("list-order-") + nm, "backward order differs");
		EXPECT(l.empty() == want.empty(), std::string("list-empty-") + nm, "empty()");
		if (!want.empty() && !ctx().failed) EXPECT(l.front().id == want.front() && l.back().id == want.back(), std::string("list-ends-") + nm, "front/back");
	};
	for (int step = 0; step < 120 && !ctx().failed; ++step) {
		size_t i = r.below(n), w = r.below(2), op = r.below(9);
		if (!items[i]) { items[i].reset(new LItem); items[i]->id = ++ids; }
		LItem &x = *items[i];
		bool ina = x.a.in_list(), inb = x.b.in_list();
		EXPECT(ina == (std::count(ma[0].begin(), ma[0].end(), x.id) + std::count(ma[1].begin(), ma[1].end(), x.id) == 1), "list-membership", "a");
		EXPECT(inb == (std::count(mb.begin(), mb.end(), x.id) == 1), "list-membership", "b");
		switch (op) {
		case 0: case 1: la[w]->push_back(x); if (!ina) ma[w].push_back(x.id); break;
		case 2: la[w]->push_front(x); if (!ina) ma[w].push_front(x.id); break;
		case 3: lb.push_back(x); if (!inb) mb.push_back(x.id); break;
		case 4: x.a.unlink(); ma[0].remove(x.id); ma[1].remove(x.id); break;
		case 5: x.b.unlink(); mb.remove(x.id); break;
		case 6: {  // insert in the middle
			size_t k = r.below(ma[w].size() + 1);
			auto it = la[w]->begin();
			for (size_t j = 0; j < k; ++j) it++;
			la[w]->insert(it, x);
			if (!ina) ma[w].insert(std::next(ma[w].begin(), long(k)), x.id);
			break;
		}
		case 7: { int id = x.id; items[i].reset(); ma[0].remove(id); ma[1].remove(id); mb.remove(id); break; }
		default:
			if (!ma[w].empty() && r.coin()) { LItem &f = la[w]->front(); f.a.unlink(); ma[w].pop_front(); }
			break;
		}
		verify(*la[0], ma[0], "a0"); verify(*la[1], ma[1], "a1"); verify(lb, mb, "b");
		ev(op); ev(i * 2 + w);
		count("list_ops");
	}
}

int main(int argc, char **argv) {
	return harness_main(argc, argv, {{"finite", m_finite}, {"buffer", m_buffer}, {"heap", m_heap}, {"list", m_list}});
}
