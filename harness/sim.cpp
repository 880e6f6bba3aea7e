#include "sim.hpp"
#include <arpa/inet.h>
#include <fcntl.h>
#include <netdb.h>
#include <sys/epoll.h>
#include <sys/eventfd.h>
#include <sys/uio.h>
#include <unistd.h>
#include <chrono>
#include <condition_variable>
#include <cstdarg>
#include <mutex>
#include <queue>
#include <thread>

namespace sim {

const char *sys_name[S_COUNT] = {"socket", "setsockopt", "fcntl", "bind", "listen", "connect", "accept", "recv", "send", "recvfrom", "sendto",
    "epoll_create", "epoll_ctl", "epoll_wait", "eventfd", "shutdown", "close"};

std::function<void()> on_quiet;
std::function<void()> on_block;
std::function<void(int)> on_wait;
std::function<void(int)> on_wait_return;
std::function<void()> on_poll;
Calls calls;
std::function<int(Sys, int)> fault;
std::function<bool()> expect_thread;
std::function<void(const std::string &)> on_misuse;
std::function<ConnectFate(const Addr &)> connect_fate;
std::function<void(int, const Datagram &, const Addr &)> on_udp_sent;
std::function<void(int, const Datagram &)> on_udp_delivered;
std::function<Gai(const std::string &, const std::string &, int)> resolver;
u64 gai_calls = 0;

namespace {

enum Kind { K_EPOLL, K_EVENTFD, K_STREAM, K_LISTEN, K_DGRAM };
struct Reg { u64 file = 0; uint32_t events = 0; epoll_data_t data; bool pending = false; };
struct File {
	u64 id = 0;
	int fd = -1;
	Kind kind = K_STREAM;
	bool nonblock = false;
	EP ep;                       // stream
	ListenerP lst;               // listener
	Addr local, remote;          // stream/dgram
	int family = 0;
	bool bound = false, connected = false;
	std::deque<Datagram> dq;     // dgram
	size_t dq_flight = 0;
	int derr = 0;
	bool dnospace = false;
	std::map<int, Reg> regs;     // epoll: by fd
	std::vector<std::pair<u64, int>> order;
};
typedef std::shared_ptr<File> FP;

struct Ev { u64 t, seq; std::function<void()> fn; };
struct EvCmp { bool operator()(const std::shared_ptr<Ev> &a, const std::shared_ptr<Ev> &b) const { return std::tie(a->t, a->seq) > std::tie(b->t, b->seq); } };

struct World {
	Config cfg;
	vh::Rng rng;
	u64 t = 0, seq = 0, next_id = 0, waits = 0, calls = 0;
	std::map<int, FP> files;
	std::set<int> closed_fds;
	int next_fd = 1000;
	std::priority_queue<std::shared_ptr<Ev>, std::vector<std::shared_ptr<Ev>>, EvCmp> q;
	std::map<Addr, ListenerP> listeners;
	std::map<Addr, std::weak_ptr<File>> dgram;
	std::map<Addr, std::function<void(const Datagram &, const Addr &)>> udp_peers;
	uint16_t next_port = 40000;
	bool in_pump = false;
};
World *W = nullptr;
std::thread::id main_thread;

// cross-thread part
std::mutex xmu;
std::condition_variable xcv;
std::map<int, u64> evcount;       // eventfd counters
std::set<int> xsignalled;         // written since last look
u64 xforeign = 0;                 // signals sent by other threads
bool x_active = false;

void misuse(const std::string &s) {
	if (on_misuse) on_misuse(s);
	else VIOL("fd-misuse", s);
}
bool ours(int fd) { return W && fd >= 1000; }
FP get(int fd, const char *what) {
	auto it = W->files.find(fd);
	if (it != W->files.end()) return it->second;
	misuse(std::string(what) + " on descriptor " + std::to_string(fd) + (W->closed_fds.count(fd) ? " after it was closed" : " that was never opened"));
	errno = EBADF;
	return nullptr;
}
int inject(Sys s, int fd) {
	if (!fault) return 0;
	int e = fault(s, fd);
	if (e) { vh::ev(0x1000 + s * 256 + e); NOTE("inject " << sys_name[s] << " errno " << e); }
	return e;
}
void tick() {
	W->calls++;
	W->t += W->rng.below(W->cfg.tick + 1);
}
FP new_file(Kind k) {
	auto f  = std::make_shared<File>();
	f->id   = ++W->next_id;
	f->kind = k;
	int fd  = W->next_fd;
	if (W->cfg.fd_reuse && !W->closed_fds.empty() && W->rng.chance(80)) {
		fd = *W->closed_fds.begin();
		W->closed_fds.erase(fd);
	} else
		W->next_fd++;
	f->fd = fd;
	W->files[fd] = f;
	return f;
}
bool fd_room() { return W->files.size() < W->cfg.fd_limit; }

uint32_t poll_mask(const FP &f) {
	uint32_t m = 0;
	switch (f->kind) {
	case K_EVENTFD: {
		std::lock_guard<std::mutex> l(xmu);
		if (evcount[f->fd]) m |= EPOLLIN;
		m |= EPOLLOUT;
		break;
	}
	case K_LISTEN:
		if (!f->lst->backlog.empty() || !f->lst->errors.empty()) m |= EPOLLIN;
		break;
	case K_DGRAM:
		if (!f->dq.empty()) m |= EPOLLIN;
		if (f->derr) m |= EPOLLERR;
		if (!f->dnospace) m |= EPOLLOUT;
		break;
	case K_STREAM: {
		if (!f->ep) { m |= EPOLLOUT | EPOLLHUP; break; }
		Endpoint &e = *f->ep;
		if (e.st == Endpoint::CONNECTING) break;
		if (e.err) m |= EPOLLERR;
		if (e.st == Endpoint::DEAD) { m |= EPOLLIN | EPOLLOUT | EPOLLHUP | EPOLLRDHUP; break; }
		if (e.unread()) m |= EPOLLIN;
		if (e.fin) m |= EPOLLIN | EPOLLRDHUP;
		if (e.fin && e.wr_shut) m |= EPOLLHUP;
		EP p = e.peer.lock();
		if (!e.wr_shut && (!p || p->flight + p->unread() < p->cap)) m |= EPOLLOUT;
		else if (!e.wr_shut) e.nospace = true;  // as tcp_poll() does
		if (e.wr_shut) m |= EPOLLOUT;
		break;
	}
	default: break;
	}
	return m;
}
void kick(int fd) {  // something changed on fd: an edge
	if (fd < 0 || !W->files.count(fd)) return;
	for (auto &kv : W->files)
		if (kv.second->kind == K_EPOLL) {
			auto it = kv.second->regs.find(fd);
			if (it != kv.second->regs.end()) it->second.pending = true;
		}
}
void changed(const EP &e) {
	if (e->fd >= 0) kick(e->fd);
	if (e->raw) e->raw->poll();
}
void schedule(u64 t, std::function<void()> fn) {
	auto e = std::make_shared<Ev>();
	e->t   = std::max(t, W->t);
	e->seq = ++W->seq;
	e->fn  = std::move(fn);
	W->q.push(e);
}
u64 net_delay() { return W->cfg.delay_min + W->rng.below(W->cfg.delay_max - W->cfg.delay_min + 1); }
u64 arrival_slot(const EP &to) {
	u64 t            = std::max(to->last_arrival, W->t + net_delay());
	to->last_arrival = t;
	return t;
}
void do_reset(const EP &e) {  // reset arrives at e
	if (e->st == Endpoint::DEAD) return;
	bool was_connecting = e->st == Endpoint::CONNECTING;
	e->st  = Endpoint::DEAD;
	e->rst = true;
	if (!e->err) e->err = was_connecting ? ECONNREFUSED : ECONNRESET;
	changed(e);
}
void send_rst(const EP &to) {
	u64 t = arrival_slot(to);
	schedule(t, [to] { do_reset(to); });
}
void deliver(const EP &to, std::string data) {
	to->flight -= data.size();
	if (to->app_closed || to->st == Endpoint::DEAD) {
		if (EP p = to->peer.lock()) if (to->app_closed) send_rst(p);
		return;
	}
	to->arrived += data.size();
	if (to->rq_off == to->rq.size()) { to->rq.clear(); to->rq_off = 0; }
	to->rq += data;
	changed(to);
}
void space_freed(const EP &to) {  // the app of `to` consumed data; its peer may write again
	EP p = to->peer.lock();
	if (!p || !p->nospace) return;
	schedule(W->t + net_delay(), [p, to] {
		if (!p->nospace) return;
		if (to->flight + to->unread() >= to->cap) return;
		p->nospace = false;
		changed(p);
	});
}
// Returns number of bytes accepted, or -1 with errno
ssize_t ep_send(const EP &e, const std::string &data) {
	if (e->st == Endpoint::CONNECTING) { e->nospace = true; errno = EAGAIN; return -1; }
	if (e->err) { errno = e->err; e->err = 0; return -1; }
	if (e->st == Endpoint::DEAD || e->wr_shut || e->app_closed) { errno = EPIPE; return -1; }
	EP p = e->peer.lock();
	if (!p) { errno = EPIPE; return -1; }
	if (data.empty()) return 0;
	size_t used = p->flight + p->unread();
	size_t room = used < p->cap ? p->cap - used : 0;
	if (room == 0) { e->nospace = true; errno = EAGAIN; return -1; }
	size_t n = std::min(room, data.size());
	if (n < data.size()) e->nospace = true;
	e->sent += n;
	p->flight += n;
	size_t off = 0;
	while (off < n) {
		size_t part = n - off;
		if (part > 1 && W->rng.chance(W->cfg.split)) part = 1 + W->rng.below(part);
		std::string seg = data.substr(off, part);
		off += part;
		schedule(arrival_slot(p), [p, seg] { deliver(p, seg); });
	}
	return ssize_t(n);
}
void ep_fin(const EP &e) {  // e sends its end of stream
	EP p = e->peer.lock();
	if (!p) return;
	schedule(arrival_slot(p), [p] {
		if (p->app_closed || p->st == Endpoint::DEAD) return;
		p->fin = true;
		changed(p);
	});
}
void ep_close(const EP &e, bool abort) {
	if (e->app_closed) return;
	e->app_closed = true;
	e->fd         = -1;
	EP p          = e->peer.lock();
	if (!p || e->st == Endpoint::DEAD) return;
	if (e->st == Endpoint::CONNECTING) {
		e->st = Endpoint::DEAD;
		send_rst(p);
		return;
	}
	if (abort || e->unread() != 0) send_rst(p);
	else if (!e->wr_shut) { e->wr_shut = true; ep_fin(e); }
}
size_t ep_take(const EP &e, uint8_t *dst, size_t n) {
	n = std::min(n, e->unread());
	if (n == 0) return 0;
	if (dst) std::memcpy(dst, e->rq.data() + e->rq_off, n);
	e->rq_off += n;
	e->taken += n;
	if (e->rq_off == e->rq.size()) { e->rq.clear(); e->rq_off = 0; }
	else if (e->rq_off > 65536) { e->rq.erase(0, e->rq_off); e->rq_off = 0; }
	space_freed(e);
	return n;
}
ssize_t ep_recv(const EP &e, const iovec *iov, size_t cnt) {
	if (e->st == Endpoint::CONNECTING) { errno = EAGAIN; return -1; }
	size_t want = 0;
	for (size_t i = 0; i != cnt; ++i) want += iov[i].iov_len;
	if (e->unread() && want) {
		size_t got = 0;
		for (size_t i = 0; i != cnt; ++i) got += ep_take(e, static_cast<uint8_t *>(iov[i].iov_base), iov[i].iov_len);
		return ssize_t(got);
	}
	if (want == 0) return 0;
	if (e->err) { errno = e->err; e->err = 0; return -1; }
	if (e->fin || e->st == Endpoint::DEAD) return 0;
	errno = EAGAIN;
	return -1;
}
std::pair<EP, EP> make_pair(const Addr &a, const Addr &b) {
	auto x = std::make_shared<Endpoint>(), y = std::make_shared<Endpoint>();
	x->id = ++W->next_id;
	y->id = ++W->next_id;
	x->local = y->remote = a;
	y->local = x->remote = b;
	x->peer = y;
	y->peer = x;
	auto pick_cap = [] {
		auto &c = W->cfg;
		size_t r;
		if (W->rng.coin()) r = c.cap_min + W->rng.below(c.cap_max - c.cap_min + 1);
		else { r = 1; while (W->rng.below(4) && r < c.cap_max) r *= 3; }
		return std::max(c.cap_min, std::min(c.cap_max, r));
	};
	x->cap = pick_cap();
	y->cap = pick_cap();
	return {x, y};
}
ListenerP find_listener(const Addr &to) {
	auto it = W->listeners.find(to);
	if (it != W->listeners.end()) return it->second;
	for (auto &kv : W->listeners)
		if (kv.first.family == to.family && kv.first.port == to.port && kv.first.any()) return kv.second;
	return nullptr;
}
// keeps both ends alive: endpoints reference each other weakly, so owners must hold them
struct Keep { std::vector<EP> all; };
Keep keep;

void run_due() {
	while (!W->q.empty() && W->q.top()->t <= W->t) {
		auto e = W->q.top();
		W->q.pop();
		e->fn();
	}
	std::set<int> s;
	{
		std::lock_guard<std::mutex> l(xmu);
		s.swap(xsignalled);
	}
	for (int fd : s) kick(fd);
}

}  // namespace

std::string Addr::str() const {
	char b[64] = {};
	if (ip.size() == 4 || ip.size() == 16) inet_ntop(family, ip.data(), b, sizeof b);
	return std::string(b) + ":" + std::to_string(port);
}
Addr ip4(const char *text, uint16_t port) {
	Addr a;
	a.family = AF_INET;
	a.ip.resize(4);
	inet_pton(AF_INET, text, &a.ip[0]);
	a.port = port;
	return a;
}
Addr from_sockaddr(const sockaddr *sa, socklen_t len) {
	Addr a;
	if (!sa || len < sizeof(sa_family_t)) return a;
	a.family = sa->sa_family;
	if (a.family == AF_INET && len >= sizeof(sockaddr_in)) {
		auto s = reinterpret_cast<const sockaddr_in *>(sa);
		a.ip.assign(reinterpret_cast<const char *>(&s->sin_addr), 4);
		a.port = ntohs(s->sin_port);
	} else if (a.family == AF_INET6 && len >= sizeof(sockaddr_in6)) {
		auto s = reinterpret_cast<const sockaddr_in6 *>(sa);
		a.ip.assign(reinterpret_cast<const char *>(&s->sin6_addr), 16);
		a.port = ntohs(s->sin6_port);
	} else
		a.family = 0;
	return a;
}
socklen_t to_sockaddr(const Addr &a, sockaddr *sa, socklen_t room) {
	sockaddr_storage st;
	std::memset(&st, 0, sizeof st);
	socklen_t n = 0;
	if (a.family == AF_INET) {
		auto s = reinterpret_cast<sockaddr_in *>(&st);
		s->sin_family = AF_INET;
		s->sin_port   = htons(a.port);
		std::memcpy(&s->sin_addr, a.ip.data(), 4);
		n = sizeof(sockaddr_in);
	} else if (a.family == AF_INET6) {
		auto s = reinterpret_cast<sockaddr_in6 *>(&st);
		s->sin6_family = AF_INET6;
		s->sin6_port   = htons(a.port);
		std::memcpy(&s->sin6_addr, a.ip.data(), 16);
		n = sizeof(sockaddr_in6);
	}
	if (sa) std::memcpy(sa, &st, std::min(room, n));
	return n;
}

void begin(const Config &cfg, u64 seed) {
	end();
	main_thread = std::this_thread::get_id();
	W           = new World;
	W->cfg      = cfg;
	W->rng      = vh::Rng(seed);
	W->t        = 1000 * SEC + W->rng.below(1000) * MS;
	std::lock_guard<std::mutex> l(xmu);
	evcount.clear();
	xsignalled.clear();
	x_active = true;
	gai_calls = 0;
	calls     = Calls{};
}
void end() {
	on_quiet = nullptr;
	on_wait = on_wait_return = nullptr;
	fault = nullptr;
	expect_thread = nullptr;
	on_misuse = nullptr;
	connect_fate = nullptr;
	on_udp_sent = nullptr;
	on_block = nullptr;
	on_udp_delivered = nullptr;
	{
		std::lock_guard<std::mutex> l(xmu);
		x_active = false;
		resolver = nullptr;
	}
	World *w = W;
	if (!w) return;
	// break cycles before the world goes away
	for (auto &e : keep.all) { if (e->raw) e->raw->on_event = nullptr; }
	while (!w->q.empty()) w->q.pop();
	w->listeners.clear();
	keep.all.clear();
	W = nullptr;
	delete w;
}
u64 foreign_wakes() {
	std::lock_guard<std::mutex> l(xmu);
	return xforeign;
}
bool wait_foreign(u64 more_than, unsigned seconds) {
	std::unique_lock<std::mutex> l(xmu);
	return xcv.wait_until(l, std::chrono::system_clock::now() + std::chrono::seconds(seconds), [&] { return xforeign > more_than; });
}
bool active() { return W != nullptr; }
u64 now() { return W ? W->t : 0; }
void advance(u64 ns) { W->t += ns; }
void at(u64 delay, std::function<void()> fn) { schedule(W->t + delay, std::move(fn)); }
Config &cfg() { return W->cfg; }
vh::Rng &rng() { return W->rng; }

void Peer::notify() {
	if (on_event) { auto h = on_event; h(); }
}
void Peer::poll() {
	auto self = shared_from_this();
	if (closed || !ep) return;
	if (ep->st == Endpoint::CONNECTING) return;
	bool ch = false;
	if (!connected && ep->st == Endpoint::EST) { connected = true; ch = true; }
	if (reading) {
		size_t n = std::min(ep->unread(), read_quota);
		if (n) {
			size_t old = in.size();
			in.resize(old + n);
			ep_take(ep, reinterpret_cast<uint8_t *>(&in[old]), n);
			in_total += n;
			if (read_quota != size_t(-1)) read_quota -= n;
			ch = true;
		}
		if (ep->unread() == 0 && ep->fin && !eof) { eof = true; ch = true; }
	}
	if (ep->st == Endpoint::DEAD && !reset) {
		reset = true;
		if (ep->err == ECONNREFUSED) refused = true;
		ch = true;
	}
	if (!outq.empty() && ep->st == Endpoint::EST && !ep->wr_shut) {
		ssize_t n = ep_send(ep, outq);
		if (n > 0) outq.erase(0, size_t(n));
	}
	if (outq.empty() && ep->st == Endpoint::EST) {
		if (shut_after_flush && !shut_done) { shut_done = true; ep->wr_shut = true; ep_fin(ep); }
		if (close_after_flush) { close_now(); }
	}
	if (ch) notify();
}
void Peer::write(const std::string &s) {
	if (closed || shut_after_flush) return;
	outq += s;
	poll();
}
void Peer::shutdown() {
	if (closed) return;
	shut_after_flush = true;
	poll();
}
void Peer::close() {
	if (closed) return;
	close_after_flush = true;
	poll();
}
void Peer::close_now() {
	if (closed) return;
	closed = true;
	outq.clear();
	if (ep) ep_close(ep, false);
}
void Peer::abort() {
	if (closed) return;
	closed = true;
	outq.clear();
	if (ep) ep_close(ep, true);
}
void Peer::set_reading(bool r) {
	reading = r;
	if (r && !closed) poll();
}
Peer::~Peer() {
	if (ep) ep->raw = nullptr;
}

PeerP peer_connect(const Addr &to, const Addr &from, u64 not_before) {
	auto p      = std::make_shared<Peer>();
	auto pr     = make_pair(from, to);
	p->ep       = pr.first;
	p->ep->raw  = p.get();
	p->ep->st   = Endpoint::CONNECTING;
	EP mine = pr.first, theirs = pr.second;
	keep.all.push_back(mine);
	keep.all.push_back(theirs);
	theirs->last_arrival = std::max(theirs->last_arrival, not_before);
	schedule(not_before ? theirs->last_arrival : arrival_slot(theirs), [p, mine, theirs, to] {
		if (mine->app_closed) return;
		auto l = find_listener(to);
		if (!l || !l->fd || (l->fd >= 0 && !W->files.count(l->fd))) {
			mine->st  = Endpoint::DEAD;
			mine->err = ECONNREFUSED;
			p->poll();
			return;
		}
		mine->st = Endpoint::EST;
		l->backlog.push_back(theirs);
		l->completed++;
		if (l->fd >= 0) kick(l->fd);
		p->poll();
	});
	return p;
}
ListenerP peer_listen(const Addr &addr, std::function<void(PeerP)> on_accept) {
	auto l              = std::make_shared<Listener>();
	l->addr             = addr;
	l->on_accept        = std::move(on_accept);
	W->listeners[addr]  = l;
	return l;
}
void unlisten(const ListenerP &l) {
	auto it = W->listeners.find(l->addr);
	if (it != W->listeners.end() && it->second == l) W->listeners.erase(it);
}
void udp_peer(const Addr &addr, std::function<void(const Datagram &, const Addr &)> fn) { W->udp_peers[addr] = std::move(fn); }

static FP find_dgram(const Addr &to) {
	auto it = W->dgram.find(to);
	if (it != W->dgram.end())
		if (auto f = it->second.lock()) return f;
	for (auto &kv : W->dgram)
		if (kv.first.family == to.family && kv.first.port == to.port && kv.first.any())
			if (auto f = kv.second.lock()) return f;
	return nullptr;
}
static void udp_deliver(const Addr &to, const Datagram &d) {
	FP f = find_dgram(to);
	if (!f) {
		auto it = W->udp_peers.find(to);
		if (it != W->udp_peers.end()) it->second(d, to);
		return;
	}
	if (f->connected && !(d.from == f->remote)) return;
	if (f->dq.size() >= W->cfg.udp_queue) return;
	f->dq.push_back(d);
	if (on_udp_delivered) on_udp_delivered(f->fd, d);
	kick(f->fd);
}
void udp_send(const Addr &from, const Addr &to, const std::string &data, u64 id) {
	Datagram d{from, data, id};
	schedule(W->t + net_delay(), [d, to] { udp_deliver(to, d); });
}
void udp_error(const Addr &to, int err) {
	FP f = find_dgram(to);
	if (!f) return;
	f->derr = err;
	kick(f->fd);
}
void udp_error_fd(int fd, int err) {
	auto it = W->files.find(fd);
	if (it == W->files.end() || it->second->kind != K_DGRAM) return;
	it->second->derr = err;
	kick(fd);
}
bool dgram_error_pending(int fd) {
	auto it = W->files.find(fd);
	return it != W->files.end() && it->second->derr != 0;
}
int dgram_fd(const Addr &local, bool newest_connected) {
	int r = -1;
	u64 best = 0;
	for (auto &kv : W->files)
		if (kv.second->kind == K_DGRAM && kv.second->connected == newest_connected && (newest_connected || kv.second->local == local) && kv.second->id >= best) { best = kv.second->id; r = kv.first; }
	return r;
}
Addr dgram_local(int fd) {
	auto it = W->files.find(fd);
	return it == W->files.end() ? Addr{} : it->second->local;
}
void for_each_library_endpoint(const std::function<void(const EP &)> &fn) {
	for (auto &kv : W->files)
		if (kv.second->ep) fn(kv.second->ep);
}
size_t open_fds() { return W->files.size(); }
std::string open_fd_list() {
	std::string r;
	for (auto &kv : W->files) {
		static const char *n[] = {"epoll", "eventfd", "stream", "listen", "dgram"};
		r += std::to_string(kv.first) + "=" + n[kv.second->kind] + " ";
	}
	return r;
}
EP endpoint_of(int fd) {
	auto it = W->files.find(fd);
	return it == W->files.end() ? nullptr : it->second->ep;
}
int fd_of_listener(const Addr &a) {
	auto l = find_listener(a);
	return l ? l->fd : -1;
}
u64 total_waits() { return W->waits; }
u64 syscalls() { return W->calls; }

}  // namespace sim

using namespace sim;

#define REAL(ret, name, ...) extern "C" ret __real_##name(__VA_ARGS__)
REAL(int, socket, int, int, int);
REAL(int, setsockopt, int, int, int, const void *, socklen_t);
REAL(int, getsockopt, int, int, int, void *, socklen_t *);
REAL(int, bind, int, const sockaddr *, socklen_t);
REAL(int, listen, int, int);
REAL(int, connect, int, const sockaddr *, socklen_t);
REAL(int, accept4, int, sockaddr *, socklen_t *, int);
REAL(int, accept, int, sockaddr *, socklen_t *);
REAL(ssize_t, recv, int, void *, size_t, int);
REAL(ssize_t, recvmsg, int, msghdr *, int);
REAL(ssize_t, recvfrom, int, void *, size_t, int, sockaddr *, socklen_t *);
REAL(int, recvmmsg, int, mmsghdr *, unsigned, int, timespec *);
REAL(ssize_t, send, int, const void *, size_t, int);
REAL(ssize_t, sendmsg, int, const msghdr *, int);
REAL(ssize_t, sendto, int, const void *, size_t, int, const sockaddr *, socklen_t);
REAL(int, sendmmsg, int, mmsghdr *, unsigned, int);
REAL(ssize_t, read, int, void *, size_t);
REAL(ssize_t, write, int, const void *, size_t);
REAL(ssize_t, readv, int, const iovec *, int);
REAL(ssize_t, writev, int, const iovec *, int);
REAL(int, close, int);
REAL(int, shutdown, int, int);
REAL(int, fcntl, int, int, ...);
REAL(int, fcntl64, int, int, ...);
REAL(int, ioctl, int, unsigned long, ...);
REAL(int, epoll_create1, int);
REAL(int, epoll_create, int);
REAL(int, epoll_ctl, int, int, int, epoll_event *);
REAL(int, epoll_wait, int, epoll_event *, int, int);
REAL(int, epoll_pwait, int, epoll_event *, int, int, const sigset_t *);
REAL(int, eventfd, unsigned, int);
REAL(int, eventfd_read, int, eventfd_t *);
REAL(int, eventfd_write, int, eventfd_t);
REAL(int, getsockname, int, sockaddr *, socklen_t *);
REAL(int, getpeername, int, sockaddr *, socklen_t *);
REAL(int, getaddrinfo, const char *, const char *, const addrinfo *, addrinfo **);
REAL(void, freeaddrinfo, addrinfo *);
extern "C" std::chrono::steady_clock::time_point __real__ZNSt6chrono3_V212steady_clock3nowEv();

extern "C" {

std::chrono::steady_clock::time_point __wrap__ZNSt6chrono3_V212steady_clock3nowEv() {
	if (!W || std::this_thread::get_id() != main_thread) return __real__ZNSt6chrono3_V212steady_clock3nowEv();
	return std::chrono::steady_clock::time_point(std::chrono::nanoseconds(W->t));
}
int __wrap_socket(int domain, int type, int proto) {
	if (!W) return __real_socket(domain, type, proto);
	tick();
	if (int e = inject(S_SOCKET, -1)) { errno = e; return -1; }
	if (!fd_room()) { errno = EMFILE; return -1; }
	if (domain != AF_INET && domain != AF_INET6) { errno = EAFNOSUPPORT; return -1; }
	int base = type & ~(SOCK_NONBLOCK | SOCK_CLOEXEC);
	FP f     = new_file(base == SOCK_DGRAM ? K_DGRAM : K_STREAM);
	f->nonblock = type & SOCK_NONBLOCK;
	f->family   = domain;
	vh::ev(0x20 + base);
	return f->fd;
}
int __wrap_setsockopt(int fd, int level, int opt, const void *v, socklen_t n) {
	if (!ours(fd)) return __real_setsockopt(fd, level, opt, v, n);
	tick();
	if (!get(fd, "setsockopt")) return -1;
	if (int e = inject(S_SETSOCKOPT, fd)) { errno = e; return -1; }
	return 0;
}
int __wrap_getsockopt(int fd, int level, int opt, void *v, socklen_t *n) {
	if (!ours(fd)) return __real_getsockopt(fd, level, opt, v, n);
	FP f = get(fd, "getsockopt");
	if (!f) return -1;
	int r = 0;
	if (level == SOL_SOCKET && opt == SO_ERROR) {
		if (f->ep) { r = f->ep->err; f->ep->err = 0; }
		if (f->kind == K_DGRAM) { r = f->derr; f->derr = 0; }
	}
	if (v && n && *n >= sizeof(int)) { std::memcpy(v, &r, sizeof r); *n = sizeof r; }
	return 0;
}
int __wrap_fcntl(int fd, int cmd, ...) {
	va_list ap;
	va_start(ap, cmd);
	long arg = va_arg(ap, long);
	va_end(ap);
	if (!ours(fd)) return __real_fcntl(fd, cmd, arg);
	tick();
	FP f = get(fd, "fcntl");
	if (!f) return -1;
	if (int e = inject(S_FCNTL, fd)) { errno = e; return -1; }
	if (cmd == F_GETFL) return O_RDWR | (f->nonblock ? O_NONBLOCK : 0);
	if (cmd == F_SETFL) { f->nonblock = arg & O_NONBLOCK; return 0; }
	return 0;
}
int __wrap_fcntl64(int fd, int cmd, ...) {
	va_list ap;
	va_start(ap, cmd);
	long arg = va_arg(ap, long);
	va_end(ap);
	if (!ours(fd)) return __real_fcntl64(fd, cmd, arg);
	return __wrap_fcntl(fd, cmd, arg);
}
int __wrap_ioctl(int fd, unsigned long req, ...) {
	va_list ap;
	va_start(ap, req);
	void *arg = va_arg(ap, void *);
	va_end(ap);
	if (!ours(fd)) return __real_ioctl(fd, req, arg);
	FP f = get(fd, "ioctl");
	if (!f) return -1;
	if (req == 0x5421 /*FIONBIO*/) { f->nonblock = *static_cast<int *>(arg) != 0; return 0; }
	if (req == 0x541B /*FIONREAD*/) { *static_cast<int *>(arg) = f->ep ? int(f->ep->unread()) : f->dq.empty() ? 0 : int(f->dq.front().data.size()); return 0; }
	errno = EINVAL;
	return -1;
}
int __wrap_bind(int fd, const sockaddr *sa, socklen_t len) {
	if (!ours(fd)) return __real_bind(fd, sa, len);
	tick();
	FP f = get(fd, "bind");
	if (!f) return -1;
	if (int e = inject(S_BIND, fd)) { errno = e; return -1; }
	Addr a = from_sockaddr(sa, len);
	if (!a.family || a.family != f->family) { errno = EINVAL; return -1; }
	if (a.port == 0) a.port = W->next_port++;
	if (f->kind == K_DGRAM) {
		auto it = W->dgram.find(a);
		if (it != W->dgram.end() && it->second.lock()) { errno = EADDRINUSE; return -1; }
		W->dgram[a] = f;
	} else if (W->listeners.count(a)) { errno = EADDRINUSE; return -1; }
	f->local = a;
	f->bound = true;
	return 0;
}
int __wrap_listen(int fd, int) {
	if (!ours(fd)) return __real_listen(fd, 1);
	tick();
	FP f = get(fd, "listen");
	if (!f) return -1;
	if (int e = inject(S_LISTEN, fd)) { errno = e; return -1; }
	if (W->listeners.count(f->local)) { errno = EADDRINUSE; return -1; }
	f->kind      = K_LISTEN;
	f->lst       = std::make_shared<Listener>();
	f->lst->addr = f->local;
	f->lst->fd   = fd;
	W->listeners[f->local] = f->lst;
	return 0;
}
int __wrap_connect(int fd, const sockaddr *sa, socklen_t len) {
	if (!ours(fd)) return __real_connect(fd, sa, len);
	tick();
	FP f = get(fd, "connect");
	if (!f) return -1;
	if (int e = inject(S_CONNECT, fd)) { errno = e; return -1; }
	Addr to = from_sockaddr(sa, len);
	if (!to.family) { errno = EAFNOSUPPORT; return -1; }
	if (f->kind == K_DGRAM) {
		f->remote    = to;
		f->connected = true;
		if (!f->bound) {
			f->local = to.family == AF_INET ? ip4("127.0.0.1", W->next_port++) : Addr{AF_INET6, std::string(15, '\0') + '\1', W->next_port++};
			f->bound = true;
			W->dgram[f->local] = f;
		}
		return 0;
	}
	if (f->ep) { errno = EISCONN; return -1; }
	if (!f->nonblock) misuse("connect() on a blocking socket");
	ConnectFate fate = connect_fate ? connect_fate(to) : ACCEPTED;
	if (fate == REFUSED_SYNC) { errno = ECONNREFUSED; return -1; }
	if (fate == UNREACH_SYNC) { errno = ENETUNREACH; return -1; }
	Addr from = to.family == AF_INET ? ip4("127.0.0.1", W->next_port++) : Addr{AF_INET6, std::string(15, '\0') + '\1', W->next_port++};
	auto pr = ::make_pair(from, to);
	EP mine = pr.first, theirs = pr.second;
	keep.all.push_back(mine);
	keep.all.push_back(theirs);
	f->ep     = mine;
	f->local  = from;
	f->remote = to;
	mine->fd  = fd;
	mine->st  = Endpoint::CONNECTING;
	auto establish = [mine, theirs, to, fate] {
		if (mine->app_closed || mine->st == Endpoint::DEAD) return;
		auto l = fate == ACCEPTED ? find_listener(to) : nullptr;
		if (!l || (l->fd < 0 && !l->on_accept)) {
			mine->st  = Endpoint::DEAD;
			mine->err = fate == TIMEOUT_ASYNC ? ETIMEDOUT : ECONNREFUSED;
			changed(mine);
			return;
		}
		mine->st = Endpoint::EST;
		mine->nospace = false;
		l->completed++;
		changed(mine);
		if (l->fd >= 0) {
			l->backlog.push_back(theirs);
			kick(l->fd);
		} else {
			auto p      = std::make_shared<Peer>();
			p->ep       = theirs;
			theirs->raw = p.get();
			p->connected = true;
			l->on_accept(p);
			p->poll();
		}
	};
	if (fate == ACCEPTED && W->rng.chance(W->cfg.sync_connect) && find_listener(to)) {
		establish();
		return 0;
	}
	u64 extra = fate == TIMEOUT_ASYNC ? 20 * SEC : 0;
	schedule(W->t + net_delay() + extra, establish);
	errno = EINPROGRESS;
	return -1;
}
int __wrap_accept4(int fd, sockaddr *sa, socklen_t *len, int flags) {
	if (!ours(fd)) return __real_accept4(fd, sa, len, flags);
	tick();
	FP f = get(fd, "accept");
	if (!f) return -1;
	if (f->kind != K_LISTEN) { errno = EINVAL; return -1; }
	if (!f->nonblock) misuse("accept() on a blocking socket");
	if (int e = inject(S_ACCEPT, fd)) { errno = e; return -1; }
	if (!f->lst->errors.empty()) { errno = f->lst->errors.front(); f->lst->errors.pop_front(); return -1; }
	if (f->lst->backlog.empty()) { errno = EAGAIN; return -1; }
	if (!fd_room()) { errno = EMFILE; vh::count("accept_emfile"); return -1; }
	EP e = f->lst->backlog.front();
	f->lst->backlog.pop_front();
	FP nf       = new_file(K_STREAM);
	nf->ep      = e;
	nf->nonblock = flags & SOCK_NONBLOCK;
	nf->local   = e->local;
	nf->remote  = e->remote;
	nf->family  = f->family;
	e->fd       = nf->fd;
	if (sa && len) *len = to_sockaddr(e->remote, sa, *len);
	vh::ev(0x30);
	return nf->fd;
}
int __wrap_accept(int fd, sockaddr *sa, socklen_t *len) {
	if (!ours(fd)) return __real_accept(fd, sa, len);
	return __wrap_accept4(fd, sa, len, 0);
}
static ssize_t stream_recv_(int fd, const iovec *iov, size_t cnt, int flags) {
	tick();
	FP f = get(fd, "recv");
	if (!f) return -1;
	if (int e = inject(S_RECV, fd)) { errno = e; return -1; }
	if (f->kind == K_DGRAM) { errno = EOPNOTSUPP; misuse("stream read on datagram socket"); return -1; }
	if (!f->ep) { errno = ENOTCONN; return -1; }
	if (!f->nonblock && !(flags & MSG_DONTWAIT)) misuse("recv() on a blocking socket");
	ssize_t r = ep_recv(f->ep, iov, cnt);
	vh::ev(0x40 + u64(r + 1) * 64);
	return r;
}
static void tally(u64 &n, u64 &failed, u64 &bytes, ssize_t r) {
	n++;
	if (r > 0) bytes += u64(r);
	if (r < 0 && errno != EAGAIN) failed++;
}
static ssize_t stream_recv(int fd, const iovec *iov, size_t cnt, int flags) {
	ssize_t r = stream_recv_(fd, iov, cnt, flags);
	tally(calls.recv, calls.recv_failed, calls.recv_bytes, r);
	return r;
}
static ssize_t stream_send_(int fd, const iovec *iov, size_t cnt, int flags) {
	tick();
	FP f = get(fd, "send");
	if (!f) return -1;
	if (int e = inject(S_SEND, fd)) { errno = e; return -1; }
	if (!f->ep) { errno = ENOTCONN; return -1; }
	if (!f->nonblock && !(flags & MSG_DONTWAIT)) misuse("send() on a blocking socket");
	if (!(flags & MSG_NOSIGNAL)) misuse("send() that could raise SIGPIPE");
	std::string d;
	for (size_t i = 0; i != cnt; ++i) d.append(static_cast<const char *>(iov[i].iov_base), iov[i].iov_len);
	ssize_t r = ep_send(f->ep, d);
	vh::ev(0x50 + u64(r + 1) * 64);
	return r;
}
static ssize_t stream_send(int fd, const iovec *iov, size_t cnt, int flags) {
	ssize_t r = stream_send_(fd, iov, cnt, flags);
	tally(calls.send, calls.send_failed, calls.send_bytes, r);
	return r;
}
ssize_t __wrap_recv(int fd, void *b, size_t n, int flags) {
	if (!ours(fd)) return __real_recv(fd, b, n, flags);
	iovec v{b, n};
	return stream_recv(fd, &v, 1, flags);
}
static ssize_t dgram_recv(int fd, void *b, size_t n, int flags, sockaddr *sa, socklen_t *len) {
	tick();
	FP f = get(fd, "recvfrom");
	if (!f) return -1;
	if (!f->nonblock && !(flags & MSG_DONTWAIT)) misuse("recvfrom() on a blocking socket");
	if (int e = inject(S_RECVFROM, fd)) { errno = e; return -1; }
	if (f->derr) { errno = f->derr; f->derr = 0; return -1; }
	if (f->dq.empty()) { errno = EAGAIN; return -1; }
	Datagram d = f->dq.front();
	f->dq.pop_front();
	size_t c = std::min(n, d.data.size());
	if (c) std::memcpy(b, d.data.data(), c);
	if (sa && len) *len = to_sockaddr(d.from, sa, *len);
	vh::ev(0x60 + c * 64);
	return (flags & MSG_TRUNC) ? ssize_t(d.data.size()) : ssize_t(c);
}
ssize_t __wrap_recvfrom(int fd, void *b, size_t n, int flags, sockaddr *sa, socklen_t *len) {
	if (!ours(fd)) return __real_recvfrom(fd, b, n, flags, sa, len);
	auto it = W->files.find(fd);
	if (it != W->files.end() && it->second->kind != K_DGRAM) { iovec v{b, n}; return stream_recv(fd, &v, 1, flags); }
	ssize_t r = dgram_recv(fd, b, n, flags, sa, len);
	tally(calls.get, calls.get_failed, calls.get_bytes, r);
	if (r == 1 && n == 1) calls.get_ones++;
	return r;
}
ssize_t __wrap_recvmsg(int fd, msghdr *m, int flags) {
	if (!ours(fd)) return __real_recvmsg(fd, m, flags);
	auto it = W->files.find(fd);
	if (it != W->files.end() && it->second->kind == K_DGRAM) {
		size_t n = 0;
		for (size_t i = 0; i != m->msg_iovlen; ++i) n += m->msg_iov[i].iov_len;
		std::vector<uint8_t> tmp(n + 1);
		m->msg_flags = 0;
		if (!it->second->dq.empty() && it->second->dq.front().data.size() > n) m->msg_flags |= MSG_TRUNC;
		ssize_t r = __wrap_recvfrom(fd, tmp.data(), n, flags, static_cast<sockaddr *>(m->msg_name), m->msg_name ? &m->msg_namelen : nullptr);
		if (r > 0) {
			size_t off = 0, left = std::min(size_t(r), n);
			for (size_t i = 0; i != m->msg_iovlen && left; ++i) {
				size_t k = std::min(left, m->msg_iov[i].iov_len);
				std::memcpy(m->msg_iov[i].iov_base, tmp.data() + off, k);
				off += k;
				left -= k;
			}
		}
		return r;
	}
	return stream_recv(fd, m->msg_iov, m->msg_iovlen, flags);
}
static ssize_t dgram_send(int fd, const void *b, size_t n, int flags, const sockaddr *sa, socklen_t len) {
	tick();
	FP f = get(fd, "sendto");
	if (!f) return -1;
	if (!f->nonblock && !(flags & MSG_DONTWAIT)) misuse("sendto() on a blocking socket");
	if (int e = inject(S_SENDTO, fd)) { errno = e; return -1; }
	if (f->derr) { errno = f->derr; f->derr = 0; return -1; }
	if (n > 65507) { errno = EMSGSIZE; return -1; }
	Addr to = sa ? from_sockaddr(sa, len) : f->remote;
	if (!to.family) { errno = EDESTADDRREQ; return -1; }
	if (f->dnospace || W->rng.chance(W->cfg.udp_full)) {
		if (!f->dnospace) {
			f->dnospace = true;
			std::weak_ptr<File> wf = f;
			schedule(W->t + net_delay() + 1, [wf] { if (auto x = wf.lock()) { x->dnospace = false; if (W->files.count(x->fd) && W->files[x->fd] == x) kick(x->fd); } });
		}
		errno = EAGAIN;
		return -1;
	}
	if (!f->bound) {
		f->local = ip4("127.0.0.1", W->next_port++);
		f->bound = true;
		W->dgram[f->local] = f;
	}
	Addr src = f->local;
	if (src.any()) src = src.family == AF_INET ? ip4("127.0.0.1", src.port) : src;
	Datagram d{src, std::string(static_cast<const char *>(b), n), 0};
	if (on_udp_sent) on_udp_sent(fd, d, to);
	schedule(W->t + net_delay(), [d, to] { udp_deliver(to, d); });
	vh::ev(0x70 + n * 64);
	return ssize_t(n);
}
ssize_t __wrap_sendto(int fd, const void *b, size_t n, int flags, const sockaddr *sa, socklen_t len) {
	if (!ours(fd)) return __real_sendto(fd, b, n, flags, sa, len);
	auto it = W->files.find(fd);
	if (it != W->files.end() && it->second->kind != K_DGRAM) { iovec v{const_cast<void *>(b), n}; return stream_send(fd, &v, 1, flags); }
	ssize_t r = dgram_send(fd, b, n, flags, sa, len);
	tally(calls.put, calls.put_failed, calls.put_bytes, r);
	return r;
}
ssize_t __wrap_send(int fd, const void *b, size_t n, int flags) {
	if (!ours(fd)) return __real_send(fd, b, n, flags);
	return __wrap_sendto(fd, b, n, flags, nullptr, 0);
}
ssize_t __wrap_sendmsg(int fd, const msghdr *m, int flags) {
	if (!ours(fd)) return __real_sendmsg(fd, m, flags);
	auto it = W->files.find(fd);
	if (it != W->files.end() && it->second->kind == K_DGRAM) {
		std::string d;
		for (size_t i = 0; i != m->msg_iovlen; ++i) d.append(static_cast<const char *>(m->msg_iov[i].iov_base), m->msg_iov[i].iov_len);
		return __wrap_sendto(fd, d.data(), d.size(), flags, static_cast<sockaddr *>(m->msg_name), m->msg_namelen);
	}
	return stream_send(fd, m->msg_iov, m->msg_iovlen, flags);
}
int __wrap_recvmmsg(int fd, mmsghdr *v, unsigned n, int flags, timespec *ts) {
	if (!ours(fd)) return __real_recvmmsg(fd, v, n, flags, ts);
	unsigned i = 0;
	for (; i != n; ++i) {
		ssize_t r = __wrap_recvmsg(fd, &v[i].msg_hdr, flags);
		if (r < 0) break;
		v[i].msg_len = unsigned(r);
	}
	return i == 0 ? -1 : int(i);
}
int __wrap_sendmmsg(int fd, mmsghdr *v, unsigned n, int flags) {
	if (!ours(fd)) return __real_sendmmsg(fd, v, n, flags);
	unsigned i = 0;
	for (; i != n; ++i) {
		ssize_t r = __wrap_sendmsg(fd, &v[i].msg_hdr, flags);
		if (r < 0) break;
		v[i].msg_len = unsigned(r);
	}
	return i == 0 ? -1 : int(i);
}
int __wrap_eventfd_read(int fd, eventfd_t *v) {
	if (!ours(fd)) return __real_eventfd_read(fd, v);
	tick();
	if (!get(fd, "eventfd_read")) return -1;
	std::lock_guard<std::mutex> l(xmu);
	u64 &c = evcount[fd];
	if (!c) { errno = EAGAIN; return -1; }
	*v = c;
	c  = 0;
	return 0;
}
int __wrap_eventfd_write(int fd, eventfd_t v) {
	if (fd < 1000) return __real_eventfd_write(fd, v);
	std::unique_lock<std::mutex> l(xmu);
	if (!x_active || !evcount.count(fd)) {
		l.unlock();
		if (std::this_thread::get_id() == main_thread && W) misuse("eventfd_write on a closed descriptor");
		errno = EBADF;
		return -1;
	}
	evcount[fd] += v;
	if (std::this_thread::get_id() != main_thread) xforeign++;
	xsignalled.insert(fd);
	xcv.notify_all();
	return 0;
}
ssize_t __wrap_read(int fd, void *b, size_t n) {
	if (!ours(fd)) return __real_read(fd, b, n);
	auto it = W->files.find(fd);
	if (it != W->files.end() && it->second->kind == K_EVENTFD) {
		if (n < 8) { errno = EINVAL; return -1; }
		eventfd_t v;
		if (__wrap_eventfd_read(fd, &v) < 0) return -1;
		std::memcpy(b, &v, 8);
		return 8;
	}
	return __wrap_recv(fd, b, n, 0);
}
ssize_t __wrap_write(int fd, const void *b, size_t n) {
	if (fd < 1000) return __real_write(fd, b, n);
	bool evf;
	{
		std::lock_guard<std::mutex> l(xmu);
		evf = evcount.count(fd);
	}
	if (evf) {
		eventfd_t v;
		std::memcpy(&v, b, 8);
		return __wrap_eventfd_write(fd, v) < 0 ? -1 : 8;
	}
	if (!W) return __real_write(fd, b, n);
	return __wrap_send(fd, b, n, 0);
}
ssize_t __wrap_readv(int fd, const iovec *v, int c) {
	if (!ours(fd)) return __real_readv(fd, v, c);
	return stream_recv(fd, v, size_t(c), 0);
}
ssize_t __wrap_writev(int fd, const iovec *v, int c) {
	if (!ours(fd)) return __real_writev(fd, v, c);
	return stream_send(fd, v, size_t(c), 0);
}
int __wrap_close(int fd) {
	if (!ours(fd)) return __real_close(fd);
	tick();
	FP f = get(fd, "close");
	if (!f) return -1;
	W->files.erase(fd);
	W->closed_fds.insert(fd);
	for (auto &kv : W->files)
		if (kv.second->kind == K_EPOLL) kv.second->regs.erase(fd);
	if (f->kind == K_EVENTFD) {
		std::lock_guard<std::mutex> l(xmu);
		evcount.erase(fd);
		xsignalled.erase(fd);
	}
	if (f->ep) ep_close(f->ep, false);
	if (f->lst) {
		auto it = W->listeners.find(f->lst->addr);
		if (it != W->listeners.end() && it->second == f->lst) W->listeners.erase(it);
		for (auto &e : f->lst->backlog) ep_close(e, true);
		f->lst->fd = 0;
	}
	if (f->kind == K_DGRAM) {
		auto it = W->dgram.find(f->local);
		if (it != W->dgram.end() && (it->second.expired() || it->second.lock() == f)) W->dgram.erase(it);
	}
	vh::ev(0x80);
	if (int e = inject(S_CLOSE, fd)) { errno = e; return -1; }
	return 0;
}
int __wrap_shutdown(int fd, int how) {
	if (!ours(fd)) return __real_shutdown(fd, how);
	tick();
	FP f = get(fd, "shutdown");
	if (!f) return -1;
	if (int e = inject(S_SHUTDOWN, fd)) { errno = e; return -1; }
	if (f->ep && f->ep->st == Endpoint::CONNECTING) {  // Linux abandons the attempt
		f->ep->st = Endpoint::DEAD;
		f->ep->err = 0;
		EP p = f->ep->peer.lock();
		if (p) send_rst(p);
		kick(fd);
		return 0;
	}
	if (!f->ep || f->ep->st != Endpoint::EST) { errno = ENOTCONN; return -1; }
	if (how == SHUT_WR || how == SHUT_RDWR) {
		if (!f->ep->wr_shut) { f->ep->wr_shut = true; ep_fin(f->ep); kick(fd); }
	}
	if (how == SHUT_RD || how == SHUT_RDWR) { f->ep->fin = true; kick(fd); }
	vh::ev(0x90);
	return 0;
}
int __wrap_epoll_create1(int flags) {
	if (!W || std::this_thread::get_id() != main_thread) return __real_epoll_create1(flags);
	tick();
	if (int e = inject(S_EPOLL_CREATE, -1)) { errno = e; return -1; }
	if (!fd_room()) { errno = EMFILE; return -1; }
	return new_file(K_EPOLL)->fd;
}
int __wrap_epoll_create(int n) {
	if (!W || std::this_thread::get_id() != main_thread) return __real_epoll_create(n);
	return __wrap_epoll_create1(0);
}
int __wrap_epoll_ctl(int efd, int op, int fd, epoll_event *ev) {
	if (!ours(efd)) return __real_epoll_ctl(efd, op, fd, ev);
	tick();
	FP ep = get(efd, "epoll_ctl");
	if (!ep) return -1;
	if (fd < 1000) {  // a real descriptor under a simulated epoll cannot be served
		misuse("epoll_ctl of an unknown descriptor");
		errno = EBADF;
		return -1;
	}
	FP f = get(fd, "epoll_ctl");
	if (!f) return -1;
	if (int e = inject(S_EPOLL_CTL, fd)) { errno = e; return -1; }
	if (op == EPOLL_CTL_DEL) {
		if (!ep->regs.erase(fd)) { errno = ENOENT; return -1; }
		return 0;
	}
	bool has = ep->regs.count(fd);
	if (op == EPOLL_CTL_ADD && has) { errno = EEXIST; return -1; }
	if (op == EPOLL_CTL_MOD && !has) { errno = ENOENT; return -1; }
	Reg &r    = ep->regs[fd];
	r.file    = f->id;
	r.events  = ev->events;
	r.data    = ev->data;
	r.pending = true;
	return 0;
}
static int epoll_poll(int efd, epoll_event *evs, int maxev, int timeout) {
	tick();
	FP ep = get(efd, "epoll_wait");
	if (!ep) return -1;
	W->waits++;
	if (on_wait) on_wait(timeout);
	if (W->waits > 400000) {
		VIOL("livelock", "the loop keeps polling without end (400000 polls in one case)");
		vh::finish_now(0);
	}
	u64 deadline = timeout < 0 ? NEVER : W->t + u64(timeout) * MS;
	bool hinted  = false;
	if (timeout != 0 && W->rng.chance(W->cfg.eintr)) {
		if (!W->q.empty() && W->q.top()->t < deadline && W->rng.coin()) { W->t = std::max(W->t, W->q.top()->t); run_due(); }
		if (on_wait_return) on_wait_return(-1);
		errno = EINTR;
		return -1;
	}
	while (true) {
		run_due();
		if (W->rng.chance(W->cfg.spurious) && !ep->regs.empty() && !hinted) {
			// an extra report on some connected stream or listener
			auto it = ep->regs.begin();
			std::advance(it, W->rng.below(ep->regs.size()));
			it->second.pending = true;
			if (W->rng.chance(20)) {
				auto f = W->files.find(it->first);
				if (f != W->files.end() && (f->second->kind == K_LISTEN || f->second->kind == K_DGRAM || (f->second->kind == K_STREAM && f->second->ep && f->second->ep->st == Endpoint::EST))) {
					evs[0].events = EPOLLIN & it->second.events;
					evs[0].data   = it->second.data;
					if (evs[0].events) {
						it->second.pending = (poll_mask(f->second) != 0);
						if (on_wait_return) on_wait_return(1);
						vh::ev(0xa0);
						return 1;
					}
				}
			}
		}
		hinted = true;
		std::vector<int> ready;
		for (auto &kv : ep->regs) {
			Reg &r = kv.second;
			bool et = r.events & EPOLLET;
			if (et && !r.pending) continue;
			uint32_t m = poll_mask(W->files[kv.first]) & (r.events | EPOLLERR | EPOLLHUP);
			if (!m) { r.pending = false; continue; }
			ready.push_back(kv.first);
		}
		if (!ready.empty()) {
			W->rng.shuffle(ready);
			size_t n = std::min(ready.size(), size_t(maxev));
			if (n > 1 && W->rng.chance(W->cfg.subset)) n = 1 + W->rng.below(n);
			for (size_t i = 0; i != n; ++i) {
				Reg &r        = ep->regs[ready[i]];
				evs[i].events = poll_mask(W->files[ready[i]]) & (r.events | EPOLLERR | EPOLLHUP);
				evs[i].data   = r.data;
				r.pending     = false;
				if (r.events & EPOLLONESHOT) r.events = 0;
				vh::ev(0xb0 + evs[i].events);
			}
			if (on_wait_return) on_wait_return(int(n));
			return int(n);
		}
		if (W->t >= deadline || timeout == 0) {
			if (timeout == 0) W->t += W->rng.below(300000);
			if (on_wait_return) on_wait_return(0);
			return 0;
		}
		if (expect_thread && expect_thread()) {
			std::unique_lock<std::mutex> l(xmu);
			if (xsignalled.empty() && !xcv.wait_until(l, std::chrono::system_clock::now() + std::chrono::seconds(20), [] { return !xsignalled.empty(); })) {
				l.unlock();
				vh::count("thread_result_timeouts");
				expect_thread = nullptr;
			}
			continue;
		}
		u64 next = W->q.empty() ? NEVER : W->q.top()->t;
		if (next == NEVER && on_quiet) {
			size_t waits = W->q.size();
			on_quiet();
			bool x;
			{
				std::lock_guard<std::mutex> l(xmu);
				x = !xsignalled.empty();
			}
			if (W->q.size() != waits || x) continue;
			bool pend = false;
			for (auto &kv : ep->regs)
				if (kv.second.pending) pend = true;
			if (pend) continue;
		}
		if (on_block) on_block();
		if (next <= deadline && next != NEVER) { W->t = std::max(W->t, next); continue; }
		if (deadline == NEVER) {
			VIOL("blocked-forever", "the loop waits without a timeout, no event can arrive any more");
			vh::finish_now(0);
		}
		W->t = std::max(W->t, deadline);
	}
}
int __wrap_epoll_wait(int efd, epoll_event *evs, int maxev, int timeout) {
	if (!ours(efd)) return __real_epoll_wait(efd, evs, maxev, timeout);
	if (on_poll) on_poll();
	int n = epoll_poll(efd, evs, maxev, timeout);
	if (n >= 0) {
		calls.polls++;
		calls.events += u64(n);
	}
	return n;
}
int __wrap_epoll_pwait(int efd, epoll_event *evs, int maxev, int timeout, const sigset_t *m) {
	if (!ours(efd)) return __real_epoll_pwait(efd, evs, maxev, timeout, m);
	return __wrap_epoll_wait(efd, evs, maxev, timeout);
}
int __wrap_eventfd(unsigned init, int flags) {
	if (!W || std::this_thread::get_id() != main_thread) return __real_eventfd(init, flags);
	tick();
	if (int e = inject(S_EVENTFD, -1)) { errno = e; return -1; }
	if (!fd_room()) { errno = EMFILE; return -1; }
	FP f = new_file(K_EVENTFD);
	std::lock_guard<std::mutex> l(xmu);
	evcount[f->fd] = init;
	return f->fd;
}
int __wrap_getsockname(int fd, sockaddr *sa, socklen_t *len) {
	if (W && fd == -1) { errno = EBADF; return -1; }  // tolerated: asking a closed socket
	if (!ours(fd)) return __real_getsockname(fd, sa, len);
	FP f = get(fd, "getsockname");
	if (!f) return -1;
	*len = to_sockaddr(f->local, sa, *len);
	return 0;
}
int __wrap_getpeername(int fd, sockaddr *sa, socklen_t *len) {
	if (W && fd == -1) { errno = EBADF; return -1; }
	if (!ours(fd)) return __real_getpeername(fd, sa, len);
	FP f = get(fd, "getpeername");
	if (!f) return -1;
	if (f->kind == K_STREAM && (!f->ep || f->ep->st != Endpoint::EST)) { errno = ENOTCONN; return -1; }
	*len = to_sockaddr(f->remote, sa, *len);
	return 0;
}
int __wrap_getaddrinfo(const char *node, const char *service, const addrinfo *hints, addrinfo **res) {
	std::function<Gai(const std::string &, const std::string &, int)> r;
	{
		std::lock_guard<std::mutex> l(xmu);
		r = resolver;
		gai_calls++;
	}
	*res = nullptr;
	int family = hints ? hints->ai_family : AF_UNSPEC;
	Gai g;
	if (r) g = r(node ? node : "", service ? service : "", family);
	else {
		Addr a = ip4(node ? node : "", uint16_t(std::atoi(service ? service : "0")));
		sockaddr_in tmp;
		if (node && inet_pton(AF_INET, node, &tmp.sin_addr) == 1) g.addrs.push_back(a);
		else g.rc = EAI_NONAME;
	}
	if (g.delay_us) std::this_thread::sleep_for(std::chrono::microseconds(g.delay_us));
	if (g.rc) return g.rc;
	addrinfo *last = nullptr;
	for (auto &a : g.addrs) {
		auto *ai = static_cast<addrinfo *>(std::calloc(1, sizeof(addrinfo) + sizeof(sockaddr_storage)));
		ai->ai_addr = reinterpret_cast<sockaddr *>(ai + 1);
		ai->ai_addrlen = to_sockaddr(a, ai->ai_addr, sizeof(sockaddr_storage));
		ai->ai_family = a.family;
		ai->ai_socktype = SOCK_STREAM;
		if (last) last->ai_next = ai;
		else *res = ai;
		last = ai;
	}
	return *res ? 0 : EAI_NONAME;
}
void __wrap_freeaddrinfo(addrinfo *ai) {
	while (ai) {
		auto *n = ai->ai_next;
		std::free(ai);
		ai = n;
	}
}

}  // extern "C"
