// Real kernel, loopback only: options of sockets, multicast membership, addresses and delivery compared with control sockets
// which the harness sets up with plain system calls.
#include <crab/crab.hpp>
#include <arpa/inet.h>
#include <dirent.h>
#include <fcntl.h>
#include <ifaddrs.h>
#include <net/if.h>
#include <netinet/in.h>
#include <netinet/tcp.h>
#include <poll.h>
#include <sys/ioctl.h>
#include <sys/socket.h>
#include <sys/stat.h>
#include <unistd.h>
#include <cerrno>
#include <chrono>
#include <fstream>
#include "common.hpp"
using namespace vh;

#ifndef SO_BUF_LOCK
#define SO_BUF_LOCK 72
#endif

typedef std::chrono::steady_clock Clock;
static int nonce_base = getpid();

struct Fd {
	int v;
	explicit Fd(int v = -1) : v(v) {}
	Fd(Fd &&o) : v(o.v) { o.v = -1; }
	Fd &operator=(Fd &&o) { std::swap(v, o.v); return *this; }
	~Fd() { reset(); }
	void reset() { if (v >= 0) ::close(v); v = -1; }
	explicit operator bool() const { return v >= 0; }
};
static std::set<int> sockets() {
	std::set<int> r;
	DIR *d = opendir("/proc/self/fd");
	if (!d) return r;
	while (auto e = readdir(d)) {
		int fd = atoi(e->d_name);
		struct stat st{};
		if (e->d_name[0] != '.' && fd != dirfd(d) && fstat(fd, &st) == 0 && S_ISSOCK(st.st_mode)) r.insert(fd);
	}
	closedir(d);
	return r;
}
static size_t all_fds() {
	size_t n = 0;
	DIR *d = opendir("/proc/self/fd");
	while (auto e = readdir(d)) n += e->d_name[0] != '.';
	closedir(d);
	return n;
}
static int fresh(const std::set<int> &before) {  // the one socket which appeared
	int r = -1;
	for (int fd : sockets())
		if (!before.count(fd)) r = r == -1 ? fd : -2;
	return r;
}
static int optint(int fd, int level, int name) {
	int v = 0;
	socklen_t n = sizeof v;
	if (getsockopt(fd, level, name, &v, &n) != 0) return -errno - 1000;
	return n == 1 ? *reinterpret_cast<unsigned char *>(&v) : v;
}
static void no_time_wait(int fd) {  // do not use up the ports of the system
	linger l{1, 0};
	if (fd >= 0) setsockopt(fd, SOL_SOCKET, SO_LINGER, &l, sizeof l);
}
static bool setint(int fd, int level, int name, int v) { return setsockopt(fd, level, name, &v, sizeof v) == 0; }
static sockaddr_storage local_of(int fd) {
	sockaddr_storage s{};
	socklen_t n = sizeof s;
	getsockname(fd, reinterpret_cast<sockaddr *>(&s), &n);
	return s;
}
static std::string show(const sockaddr_storage &s) {
	char b[80] = {};
	if (s.ss_family == AF_INET) {
		auto a = reinterpret_cast<const sockaddr_in *>(&s);
		inet_ntop(AF_INET, &a->sin_addr, b, sizeof b);
		return std::string(b) + ":" + std::to_string(ntohs(a->sin_port));
	}
	auto a = reinterpret_cast<const sockaddr_in6 *>(&s);
	inet_ntop(AF_INET6, &a->sin6_addr, b, sizeof b);
	return std::string(b) + ":" + std::to_string(ntohs(a->sin6_port));
}
static uint16_t port_of(int fd) {
	auto s = local_of(fd);
	return ntohs(s.ss_family == AF_INET ? reinterpret_cast<sockaddr_in *>(&s)->sin_port : reinterpret_cast<sockaddr_in6 *>(&s)->sin6_port);
}
static bool has_ipv6() {
	static int v = [] {
		Fd s(socket(AF_INET6, SOCK_STREAM, IPPROTO_TCP));
		sockaddr_in6 a{};
		a.sin6_family = AF_INET6;
		a.sin6_addr   = in6addr_loopback;
		return s && bind(s.v, reinterpret_cast<sockaddr *>(&a), sizeof a) == 0 ? 1 : 0;
	}();
	return v == 1;
}
// What one socket looks like from outside
struct Look {
	int snd, rcv, lock, nodelay, reuse_addr, reuse_port, nonblock, listening;
};
static Look look(int fd, bool tcp) {
	Look l{};
	l.snd        = optint(fd, SOL_SOCKET, SO_SNDBUF);
	l.rcv        = optint(fd, SOL_SOCKET, SO_RCVBUF);
	l.lock       = optint(fd, SOL_SOCKET, SO_BUF_LOCK);
	l.nodelay    = tcp ? optint(fd, IPPROTO_TCP, TCP_NODELAY) : 0;
	l.reuse_addr = optint(fd, SOL_SOCKET, SO_REUSEADDR);
	l.reuse_port = optint(fd, SOL_SOCKET, SO_REUSEPORT);
	l.nonblock   = (fcntl(fd, F_GETFL) & O_NONBLOCK) ? 1 : 0;
	l.listening  = optint(fd, SOL_SOCKET, SO_ACCEPTCONN);
	return l;
}
// rs, rr: sizes requested. A size which was not requested may be tuned by the system: then only the absence of a lock is compared
static void compare(const char *who, const Look &a, const Look &c, size_t rs, size_t rr) {
	bool locks = c.lock >= 0 && a.lock >= 0;
	if (rs) {
		EXPECT(a.snd == c.snd, "sndbuf", who << ": send buffer " << a.snd << ", a control socket with the same setting has " << c.snd << " (requested " << rs << ")");
		count("sizes_compared");
	} else if (locks)
		EXPECT((a.lock & 1) == (c.lock & 1), "sndbuf-default", who << ": send buffer was not requested, but fixed to " << a.snd);
	if (rr) {
		EXPECT(a.rcv == c.rcv, "rcvbuf", who << ": receive buffer " << a.rcv << ", a control socket with the same setting has " << c.rcv << " (requested " << rr << ")");
		count("sizes_compared");
	} else if (locks)
		EXPECT((a.lock & 2) == (c.lock & 2), "rcvbuf-default", who << ": receive buffer was not requested, but fixed to " << a.rcv);
	EXPECT(a.nodelay == c.nodelay, "nodelay", who << ": TCP_NODELAY " << a.nodelay << ", expected " << c.nodelay);
	EXPECT(a.reuse_addr == c.reuse_addr, "reuse-addr", who << ": SO_REUSEADDR " << a.reuse_addr << ", expected " << c.reuse_addr);
	EXPECT(a.reuse_port == c.reuse_port, "reuse-port", who << ": SO_REUSEPORT " << a.reuse_port << ", expected " << c.reuse_port);
	EXPECT(a.nonblock == 1, "nonblocking", who << ": socket is in blocking mode");
	EXPECT(a.listening == c.listening, "listening", who << ": listening " << a.listening << ", expected " << c.listening);
	ev(u64(a.snd) * 3 + u64(a.rcv) * 5 + u64(a.nodelay));
}
static void control_options(int fd, bool tcp_delay, size_t snd, size_t rcv, bool tcp) {
	if (snd) setint(fd, SOL_SOCKET, SO_SNDBUF, int(snd));
	if (rcv) setint(fd, SOL_SOCKET, SO_RCVBUF, int(rcv));
	if (tcp && !tcp_delay) setint(fd, IPPROTO_TCP, TCP_NODELAY, 1);
}
static int window_scale(int fd) {
	tcp_info ti{};
	socklen_t n = sizeof ti;
	if (getsockopt(fd, IPPROTO_TCP, TCP_INFO, &ti, &n) != 0) return -1;
	return ti.tcpi_rcv_wscale;
}
static int mss_window(int fd) {  // the window clamp is a consequence of the receive buffer at the time of connecting
	return optint(fd, IPPROTO_TCP, TCP_WINDOW_CLAMP);
}
static bool spin(crab::RunLoop &loop, const std::function<bool()> &done, double seconds = 20) {
	if (done()) return true;
	auto until = Clock::now() + std::chrono::milliseconds(int(seconds * 1000));
	bool ok    = false;
	std::unique_ptr<crab::Timer> t;
	t.reset(new crab::Timer([&] {
		ok = done();
		if (ok || Clock::now() > until) { loop.cancel(); return; }
		t->once(0.0005);
	}));
	t->once(0);
	loop.run();
	return ok;
}
static size_t pick_size(Rng &r) {
	static const std::vector<size_t> v{0, 0, 1, 1000, 4096, 10000, 65536, 70001, 131072, 300000, 1 << 20, 1 << 24, 0x7fffffff};
	return r.pick(v);
}
static std::string describe(const crab::details::TCPSocketSettings &s) {
	return std::string(s.tcp_delay ? "delay " : "") + "snd " + std::to_string(s.sndbuf_size) + " rcv " + std::to_string(s.rcvbuf_size);
}

// ------------------------------------------------------------------ TCP settings
static void m_tcp() {
	Rng &r = ctx().rng;
	size_t fds0 = all_fds();
	{
		crab::RunLoop loop;
		bool v6 = has_ipv6() && r.chance(35);
		std::string ip = v6 ? r.chance(70) ? "::1" : "::" : r.chance(20) ? "127.0.0.1" : r.chance(30) ? "0.0.0.0" : "127." + std::to_string(r.below(256)) + "." + std::to_string(r.below(256)) + ".7";
		std::string to = ip == "::" ? "::1" : ip == "0.0.0.0" ? "127.0.0.1" : ip;
		crab::TCPAcceptor::Settings as;
		as.tcp_delay   = r.coin();
		as.sndbuf_size = pick_size(r);
		as.rcvbuf_size = pick_size(r);
		as.reuse_addr  = r.coin();
		as.reuse_port  = r.chance(30);
		NOTE("acceptor " << ip << " " << describe(as) << (as.reuse_addr ? " reuse_addr" : "") << (as.reuse_port ? " reuse_port" : ""));
		ctx().desc = "acceptor " + ip + " " + describe(as);
		crab::Address any(ip, 0);

		// control listener
		Fd cl(socket(v6 ? AF_INET6 : AF_INET, SOCK_STREAM, IPPROTO_TCP));
		if (as.reuse_addr) setint(cl.v, SOL_SOCKET, SO_REUSEADDR, 1);
		if (as.reuse_port) setint(cl.v, SOL_SOCKET, SO_REUSEPORT, 1);
		control_options(cl.v, as.tcp_delay, as.sndbuf_size, as.rcvbuf_size, true);
		if (bind(cl.v, any.impl_get_sockaddr(), socklen_t(any.impl_get_sockaddr_length())) != 0 || listen(cl.v, SOMAXCONN) != 0) { count("control_failed"); return; }

		auto before = sockets();
		std::unique_ptr<crab::TCPAcceptor> acc;
		int accept_events = 0;
		std::string refused;
		for (int attempt = 0; attempt != 6 && !acc; ++attempt) try {  // ports of the system may be exhausted for a moment
			acc.reset(new crab::TCPAcceptor(any, [&] { accept_events++; }, as));
		} catch (const std::exception &ex) {
			refused = ex.what();
			Fd c(socket(v6 ? AF_INET6 : AF_INET, SOCK_STREAM, IPPROTO_TCP));
			if (bind(c.v, any.impl_get_sockaddr(), socklen_t(any.impl_get_sockaddr_length())) != 0 || listen(c.v, 5) != 0) { count("control_failed"); return; }
		}
		if (!acc) {
			VIOL("acceptor-refused", "the system lets a control socket listen on " << ip << " with these settings, the acceptor throws: " << refused);
			return;
		}
		int lfd = fresh(before);
		EXPECT(lfd >= 0, "acceptor-socket", "creating an acceptor made no single socket");
		if (lfd < 0) return;
		count("acceptors");
		Look ll = look(lfd, true), lc = look(cl.v, true);
		ll.nodelay = lc.nodelay;  // sizes and delay matter on the accepted sockets, and are compared there
		ll.lock = lc.lock = -1;
		compare("acceptor", ll, lc, 0, 0);

		size_t rounds = 1 + r.below(3);
		for (size_t k = 0; k != rounds && !ctx().failed; ++k) {
			crab::TCPSocket::Settings cs;
			cs.tcp_delay   = r.coin();
			cs.sndbuf_size = pick_size(r);
			cs.rcvbuf_size = pick_size(r);
			NOTE("connect " << describe(cs));
			// control connection
			Fd cc(socket(v6 ? AF_INET6 : AF_INET, SOCK_STREAM, IPPROTO_TCP));
			control_options(cc.v, cs.tcp_delay, cs.sndbuf_size, cs.rcvbuf_size, true);
			crab::Address ca(to, port_of(cl.v));
			if (::connect(cc.v, ca.impl_get_sockaddr(), socklen_t(ca.impl_get_sockaddr_length())) != 0) { count("control_failed"); return; }
			Fd csv(::accept(cl.v, nullptr, nullptr));
			if (!csv) { count("control_failed"); return; }
			no_time_wait(cc.v);
			no_time_wait(csv.v);
			// library connection
			bool raw_client = r.chance(20);
			int events = 0;
			std::unique_ptr<crab::TCPSocket> sock;
			std::unique_ptr<crab::TCPSocket> srv;
			int aevents = 0;
			before = sockets();
			int cfd = -1;
			Fd rc;
			crab::Address la(to, port_of(lfd));
			if (raw_client) {
				rc = Fd(socket(v6 ? AF_INET6 : AF_INET, SOCK_STREAM, IPPROTO_TCP));
				control_options(rc.v, cs.tcp_delay, cs.sndbuf_size, cs.rcvbuf_size, true);
				if (::connect(rc.v, la.impl_get_sockaddr(), socklen_t(la.impl_get_sockaddr_length())) != 0) { if (errno == EADDRNOTAVAIL) count("control_failed"); else VIOL("not-listening", "connect to the acceptor failed: " << strerror(errno)); return; }
				cfd = rc.v;
			} else {
				sock.reset(new crab::TCPSocket([&] { events++; }));
				bool made = false;
				for (int attempt = 0; attempt != 6 && !made; ++attempt) made = sock->connect(la, cs);
				if (!made) { VIOL("connect-refused", "the system connects a control socket with these settings, connect() returned false"); return; }
				cfd = fresh(before);
				if (cfd < 0) { VIOL("connect-socket", "connect() made no single socket"); return; }
			}
			bool arrived = spin(loop, [&] { return acc->can_accept(); });
			EXPECT(arrived, "not-accepted", "a connection was not offered for accepting in 20 s");
			if (!arrived) return;
			if (!raw_client) {
				bool w = spin(loop, [&] { return sock->can_write(); });
				EXPECT(w && events > 0, "not-connected", "the socket did not become writable after connecting");
				compare("connected socket", look(cfd, true), look(cc.v, true), cs.sndbuf_size, cs.rcvbuf_size);
				EXPECT(window_scale(cfd) == window_scale(cc.v), "window", "window scale of the connected socket " << window_scale(cfd) << ", of a control socket with the receive buffer set before connecting " << window_scale(cc.v));
				EXPECT(mss_window(cfd) == mss_window(cc.v), "window", "window clamp of the connected socket " << mss_window(cfd) << ", of a control socket with the receive buffer set before connecting " << mss_window(cc.v));
				count("connected");
			}
			srv.reset(new crab::TCPSocket([&] { aevents++; }));
			crab::Address from;
			srv->accept(*acc, r.chance(90) ? &from : nullptr);
			// the accepted socket is the one whose peer is our client
			int afd = -1;
			std::string mine = show(local_of(cfd));
			for (int fd : sockets()) {
				sockaddr_storage s{};
				socklen_t n = sizeof s;
				if (fd != cfd && getpeername(fd, reinterpret_cast<sockaddr *>(&s), &n) == 0 && show(s) == mine && show(local_of(fd)) == to + ":" + std::to_string(la.get_port())) afd = fd;
			}
			EXPECT(afd >= 0, "accepted-socket", "no socket of this process is connected to the accepted client");
			if (afd < 0) return;
			compare("accepted socket", look(afd, true), look(csv.v, true), as.sndbuf_size, as.rcvbuf_size);
			EXPECT(window_scale(afd) == window_scale(csv.v), "window", "window scale of the accepted socket " << window_scale(afd) << ", control " << window_scale(csv.v));
			count("accepted");
			// addresses
			if (from.get_port()) EXPECT(from.to_string() == mine, "accepted-address", "accept reported " << from.to_string() << ", the client is at " << mine);
			EXPECT(srv->remote_address().to_string() == mine, "remote-address", "accepted socket: remote " << srv->remote_address().to_string() << ", expected " << mine);
			EXPECT(srv->local_address().to_string() == la.to_string(), "local-address", "accepted socket: local " << srv->local_address().to_string() << ", expected " << la.to_string());
			if (sock) {
				EXPECT(sock->local_address().to_string() == mine, "local-address", "connected socket: local " << sock->local_address().to_string() << ", expected " << mine);
				EXPECT(sock->remote_address().to_string() == la.to_string(), "remote-address", "connected socket: remote " << sock->remote_address().to_string() << ", expected " << la.to_string());
			}
			count("addresses_compared");
			// a few bytes both ways
			if (sock) {
				Bytes out = r.bytes(1 + r.below(3000)), in;
				size_t sent = 0;
				uint8_t buf[512];
				bool ok = spin(loop, [&] {
					if (sent < out.size()) sent += sock->write_some(out.data() + sent, out.size() - sent);
					while (size_t n = srv->read_some(buf, sizeof buf)) in.insert(in.end(), buf, buf + n);
					return in.size() >= out.size();
				});
				no_time_wait(cfd);
				EXPECT(ok && in == out, "bytes", "sent " << out.size() << " bytes, accepted socket received " << in.size());
				count("bytes_exchanged", in.size());
			}
			no_time_wait(cfd);
			no_time_wait(afd);
			if (r.coin()) { srv.reset(); sock.reset(); rc.reset(); } else { sock.reset(); rc.reset(); srv.reset(); }
		}
		// the same port again
		if (!ctx().failed) {
			bool time_wait = r.chance(15);
			uint16_t port  = port_of(lfd);
			crab::TCPAcceptor::Settings s2;
			s2.reuse_addr = r.coin();
			s2.reuse_port = r.coin();
			crab::Address same(ip, port);
			if (time_wait) {  // the acceptor side closes first, and its port is remembered by the system
				Fd c(socket(v6 ? AF_INET6 : AF_INET, SOCK_STREAM, IPPROTO_TCP));
				crab::Address la(to, port);
				crab::TCPSocket srv([] {});
				if (::connect(c.v, la.impl_get_sockaddr(), socklen_t(la.impl_get_sockaddr_length())) == 0 && spin(loop, [&] { return acc->can_accept(); })) {
					srv.accept(*acc);
					srv.close();
				}
				acc.reset();
			}
			auto attempt = [&] {
				Fd c(socket(v6 ? AF_INET6 : AF_INET, SOCK_STREAM, IPPROTO_TCP));
				if (s2.reuse_addr) setint(c.v, SOL_SOCKET, SO_REUSEADDR, 1);
				if (s2.reuse_port) setint(c.v, SOL_SOCKET, SO_REUSEPORT, 1);
				return bind(c.v, same.impl_get_sockaddr(), socklen_t(same.impl_get_sockaddr_length())) == 0 && listen(c.v, SOMAXCONN) == 0;
			};
			bool can = attempt();
			size_t n0 = all_fds();
			bool did = true;
			std::string why;
			{
				std::unique_ptr<crab::TCPAcceptor> a2;
				try {
					a2.reset(new crab::TCPAcceptor(same, [] {}, s2));
				} catch (const std::exception &ex) { did = false; why = ex.what(); }
			}
			size_t n1 = all_fds();
			bool can2 = attempt();
			if (can == can2) {
				EXPECT(did == can, "port-again", "second acceptor on port " << port << (time_wait ? " after the first one closed" : " beside the first one") << (s2.reuse_addr ? " reuse_addr" : "") << (s2.reuse_port ? " reuse_port" : "") << (did ? " succeeded" : " failed") << ", a control socket " << (can ? "succeeded" : "failed") << " " << why);
				count(can ? "port_again_allowed" : "port_again_refused");
			}
			EXPECT(n0 == n1, "leak", "descriptors " << n0 << " before and " << n1 << " after a second acceptor");
			ev(did * 2 + time_wait);
		}
		// settings which cannot be applied
		if (r.chance(30)) {
			crab::TCPSocket s([] {});
			crab::TCPSocket::Settings bad;
			(r.coin() ? bad.sndbuf_size : bad.rcvbuf_size) = size_t(0x80000000ULL + r.below(1000));
			size_t n0 = all_fds();
			bool ok   = true;
			Fd open_port(socket(AF_INET, SOCK_STREAM, IPPROTO_TCP));
			crab::Address lo("127.0.0.1", 0);
			if (bind(open_port.v, lo.impl_get_sockaddr(), socklen_t(lo.impl_get_sockaddr_length())) == 0 && listen(open_port.v, 5) == 0) {
				ok = s.connect(crab::Address("127.0.0.1", port_of(open_port.v)), bad);
				EXPECT(!ok && !s.is_open(), "bad-settings", "connect() with a buffer size which cannot be applied " << (ok ? "succeeded" : "left the socket open"));
			}
			open_port.reset();
			bool threw = false;
			try {
				crab::TCPAcceptor::Settings b2;
				b2.rcvbuf_size = bad.rcvbuf_size;
				b2.sndbuf_size = bad.sndbuf_size;
				crab::TCPAcceptor a2(crab::Address("127.0.0.1", 0), [] {}, b2);
			} catch (const std::exception &) { threw = true; }
			EXPECT(threw, "bad-settings", "an acceptor with a buffer size which cannot be applied was created");
			try {
				threw = false;
				crab::UDPReceiver::Settings b3;
				b3.rcvbuf_size = bad.rcvbuf_size;
				b3.sndbuf_size = bad.sndbuf_size;
				crab::UDPReceiver u(crab::Address("127.0.0.1", 0), [] {}, b3);
			} catch (const std::exception &) { threw = true; }
			EXPECT(threw, "bad-settings", "a receiver with a buffer size which cannot be applied was created");
			EXPECT(all_fds() == n0, "leak", "descriptors left after settings which cannot be applied");
			count("bad_settings");
		}
	}
	EXPECT(all_fds() == fds0, "leak", "descriptors " << fds0 << " before and " << all_fds() << " after the case");
	ctx().nontrivial = true;
}

// ------------------------------------------------------------------ UDP settings and multicast
struct Adapter {
	std::string text;      // as given to the library
	bool valid = true;     // names an adapter or an IPv4 address
	ip_mreqn mreq{};
};
static std::vector<std::string> own_ips() {
	std::vector<std::string> v;
	ifaddrs *list = nullptr;
	if (getifaddrs(&list) != 0) return v;
	for (auto p = list; p; p = p->ifa_next)
		if (p->ifa_addr && p->ifa_addr->sa_family == AF_INET && (p->ifa_flags & IFF_UP)) {
			char b[64];
			inet_ntop(AF_INET, &reinterpret_cast<sockaddr_in *>(p->ifa_addr)->sin_addr, b, sizeof b);
			v.push_back(b);
			v.push_back(p->ifa_name);
		}
	freeifaddrs(list);
	return v;
}
static Adapter pick_adapter(Rng &r) {
	Adapter a;
	switch (r.below(12)) {
	case 0: case 1: case 2: a.text = "lo"; break;
	case 3: case 4: case 5: a.text = "127.0.0.1"; break;
	case 6: a.text = ""; break;
	case 7: { auto v = own_ips(); a.text = v.empty() ? "lo" : r.pick(v); break; }
	case 8: a.text = r.pick(std::vector<std::string>{"nosuch0", "lo ", "LO", "999.1.1.1", "127.0.0", "127.0.0.1:80", "lo0"}); break;
	case 9: a.text = r.pick(std::vector<std::string>{"::1", "::", "fe80::1"}); break;
	case 10: a.text = r.pick(std::vector<std::string>{"10.250.250.250", "127.0.0.2", "203.0.113.9"}); break;
	default: a.text = "0.0.0.0"; break;
	}
	a.mreq.imr_address.s_addr = htonl(INADDR_ANY);
	if (!a.text.empty()) {
		a.mreq.imr_ifindex = int(if_nametoindex(a.text.c_str()));
		if (!a.mreq.imr_ifindex && inet_pton(AF_INET, a.text.c_str(), &a.mreq.imr_address) != 1) a.valid = false;
	}
	return a;
}
struct Member { std::string dev; int users; };
static std::vector<Member> memberships_once(const in_addr &group) {  // what the system says
	std::vector<Member> v;
	std::ifstream f("/proc/net/igmp");
	std::string line, dev;
	char want[16];
	std::snprintf(want, sizeof want, "%08X", unsigned(group.s_addr));
	while (std::getline(f, line)) {
		std::istringstream is(line);
		std::string a, b;
		if (line.empty()) continue;
		if (line[0] != '\t') {
			is >> a >> b;
			dev = b;
		} else {
			int users = 0;
			is >> a >> users;
			if (a == want) v.push_back(Member{dev, users});
		}
	}
	return v;
}
static std::string show(const std::vector<Member> &v) {
	std::string s;
	for (auto &m : v) s += m.dev + "*" + std::to_string(m.users) + " ";
	return s.empty() ? "none" : s;
}
static std::vector<Member> memberships(const in_addr &group) {  // other processes change the list while we read it
	auto a = memberships_once(group);
	for (int same_reads = 0, i = 0; same_reads != 3 && i != 50; ++i) {
		auto b = memberships_once(group);
		if (show(a) == show(b)) same_reads++;
		else { a = b; same_reads = 0; }
	}
	return a;
}
static bool same(const std::vector<Member> &a, const std::vector<Member> &b) { return show(a) == show(b); }
struct RawReceiver {
	Fd fd;
	bool ok = false;
	RawReceiver(const sockaddr_in &group, const ip_mreqn &adapter) : fd(socket(AF_INET, SOCK_DGRAM | SOCK_NONBLOCK, IPPROTO_UDP)) {
		setint(fd.v, SOL_SOCKET, SO_REUSEADDR, 1);
		setint(fd.v, SOL_SOCKET, SO_REUSEPORT, 1);
		setint(fd.v, IPPROTO_IP, IP_PKTINFO, 1);
		setint(fd.v, IPPROTO_IP, IP_RECVTTL, 1);
		ip_mreqn m      = adapter;
		m.imr_multiaddr = group.sin_addr;
		ok = bind(fd.v, reinterpret_cast<const sockaddr *>(&group), sizeof group) == 0 && setsockopt(fd.v, IPPROTO_IP, IP_ADD_MEMBERSHIP, &m, sizeof m) == 0;
	}
	bool get(Bytes &data, int &ifindex, int &ttl, sockaddr_storage &from) {
		data.resize(66000);
		char cb[256];
		iovec iov{data.data(), data.size()};
		msghdr m{};
		m.msg_iov = &iov; m.msg_iovlen = 1; m.msg_control = cb; m.msg_controllen = sizeof cb; m.msg_name = &from; m.msg_namelen = sizeof from;
		ssize_t n = recvmsg(fd.v, &m, 0);
		if (n < 0) return false;
		data.resize(size_t(n));
		for (auto c = CMSG_FIRSTHDR(&m); c; c = CMSG_NXTHDR(&m, c)) {
			if (c->cmsg_level == IPPROTO_IP && c->cmsg_type == IP_PKTINFO) ifindex = reinterpret_cast<in_pktinfo *>(CMSG_DATA(c))->ipi_ifindex;
			if (c->cmsg_level == IPPROTO_IP && c->cmsg_type == IP_TTL) std::memcpy(&ttl, CMSG_DATA(c), sizeof ttl);
		}
		return true;
	}
};
static sockaddr_in sa4(const std::string &ip, uint16_t port) {
	sockaddr_in a{};
	a.sin_family = AF_INET;
	a.sin_port   = htons(port);
	inet_pton(AF_INET, ip.c_str(), &a.sin_addr);
	return a;
}
static uint16_t free_port() {
	Fd s(socket(AF_INET, SOCK_DGRAM, IPPROTO_UDP));
	auto a = sa4("0.0.0.0", 0);
	bind(s.v, reinterpret_cast<sockaddr *>(&a), sizeof a);
	return port_of(s.v);
}
static void m_udp() {
	Rng &r = ctx().rng;
	size_t fds0 = all_fds();
	{
		crab::RunLoop loop;
		// groups differ between processes which run at the same time
		static unsigned turn = 0;
		std::string group = "239." + std::to_string(1 + (nonce_base >> 8) % 250) + "." + std::to_string(nonce_base & 255) + "." + std::to_string(1 + turn++ % 250);
		bool mc  = r.chance(75);
		bool v6  = !mc && has_ipv6() && r.chance(30);
		std::string ip = mc ? group : v6 ? "::1" : r.chance(80) ? "127.0.0.1" : "0.0.0.0";
		uint16_t port  = mc ? free_port() : 0;
		auto gsa       = sa4(group, port);
		Adapter ad     = pick_adapter(r);
		crab::UDPReceiver::Settings us;
		us.adapter     = ad.text;
		us.sndbuf_size = pick_size(r);
		us.rcvbuf_size = pick_size(r);
		if (us.rcvbuf_size && us.rcvbuf_size < 4096 && r.coin()) us.rcvbuf_size = 65536;
		ctx().desc = "receiver " + ip + ":" + std::to_string(port) + " adapter '" + ad.text + "' snd " + std::to_string(us.sndbuf_size) + " rcv " + std::to_string(us.rcvbuf_size);
		NOTE(ctx().desc);
		ev(hash_str(ad.text) + us.sndbuf_size * 31 + us.rcvbuf_size * 7 + mc + 2 * v6);
		// control
		bool can = true;
		std::vector<Member> m_ctl, m0 = memberships(gsa.sin_addr);
		Look cl{};
		{
			Fd c(socket(v6 ? AF_INET6 : AF_INET, SOCK_DGRAM, IPPROTO_UDP));
			crab::Address a(ip, port);
			if (mc) { setint(c.v, SOL_SOCKET, SO_REUSEADDR, 1); setint(c.v, SOL_SOCKET, SO_REUSEPORT, 1); }
			control_options(c.v, false, us.sndbuf_size, us.rcvbuf_size, false);
			can = bind(c.v, a.impl_get_sockaddr(), socklen_t(a.impl_get_sockaddr_length())) == 0;
			if (mc && can) {
				ip_mreqn m      = ad.mreq;
				m.imr_multiaddr = gsa.sin_addr;
				can = ad.valid && setsockopt(c.v, IPPROTO_IP, IP_ADD_MEMBERSHIP, &m, sizeof m) == 0;
			}
			cl    = look(c.v, false);
			m_ctl = memberships(gsa.sin_addr);
		}
		EXPECT(same(m0, memberships(gsa.sin_addr)) && m0.empty(), "harness", "group in use");
		size_t n0   = all_fds();
		auto before = sockets();
		int events  = 0;
		std::unique_ptr<crab::UDPReceiver> u;
		std::string why;
		try {
			u.reset(new crab::UDPReceiver(crab::Address(ip, port), [&] { events++; }, us));
		} catch (const std::exception &ex) { why = ex.what(); }
		EXPECT(bool(u) == can, mc ? "receiver-adapter" : "receiver-created", "receiver " << (u ? "was created" : "throws " + why) << ", a control socket " << (can ? "works" : "is refused"));
		if (!u) {
			EXPECT(all_fds() == n0 && same(m0, memberships(gsa.sin_addr)), "leak", "descriptors or memberships left by a receiver which could not be created: " << show(memberships(gsa.sin_addr)));
			count("receivers_refused");
		} else {
			int ufd = fresh(before);
			EXPECT(ufd >= 0, "receiver-socket", "creating a receiver made no single socket");
			if (ufd < 0) return;
			Look l = look(ufd, false);
			if (mc) { l.reuse_addr = cl.reuse_addr; l.reuse_port = cl.reuse_port; }  // how sharing of a group is arranged is observed below
			compare("receiver", l, cl, us.sndbuf_size, us.rcvbuf_size);
			count("receivers");
			if (mc) {
				EXPECT(same(memberships(gsa.sin_addr), m_ctl), "membership", "receiver on '" << ad.text << "' is a member on: " << show(memberships(gsa.sin_addr)) << ", a control socket on: " << show(m_ctl));
				count("memberships_compared");
				// other listeners of the same group share it: both get every datagram
				RawReceiver raw(gsa, ad.mreq);
				EXPECT(raw.ok, "group-shared", "another socket of the system cannot listen to the group beside the receiver: " << strerror(errno));
				std::unique_ptr<crab::UDPReceiver> second;
				int events2 = 0;
				if (r.chance(40)) {
					try {
						crab::UDPReceiver::Settings s2;
						s2.adapter = ad.text;
						second.reset(new crab::UDPReceiver(crab::Address(ip, port), [&] { events2++; }, s2));
						count("groups_shared");
					} catch (const std::exception &ex) { VIOL("group-shared", "a second receiver of the group throws " << ex.what()); }
				}
				// raw sender or library transmitter, same adapter
				bool lib_tx = r.chance(60);
				Fd rs;
				std::unique_ptr<crab::UDPTransmitter> tx;
				int want_ttl = 1;
				sockaddr_storage from{};
				if (lib_tx) {
					auto b2 = sockets();
					try {
						tx.reset(new crab::UDPTransmitter(crab::Address(group, port), [] {}, ad.text));
					} catch (const std::exception &ex) { why = ex.what(); }
					Fd c(socket(AF_INET, SOCK_DGRAM, IPPROTO_UDP));
					bool c_ok = ad.valid && setsockopt(c.v, IPPROTO_IP, IP_MULTICAST_IF, &ad.mreq, sizeof ad.mreq) == 0 && ::connect(c.v, reinterpret_cast<sockaddr *>(&gsa), sizeof gsa) == 0;
					EXPECT(bool(tx) == c_ok, "transmitter-adapter", "transmitter " << (tx ? "was created" : "throws " + why) << ", a control socket " << (c_ok ? "works" : "is refused"));
					if (!tx) { count("transmitters_refused"); return; }
					count("transmitters");
					c.reset();
					int tfd = fresh(b2);
					if (tfd < 0) { VIOL("transmitter-socket", "creating a transmitter made no single socket"); return; }
					EXPECT(look(tfd, false).nonblock == 1, "nonblocking", "transmitter is in blocking mode");
					EXPECT(optint(tfd, IPPROTO_IP, IP_MULTICAST_TTL) == 1, "ttl", "default TTL of a transmitter is " << optint(tfd, IPPROTO_IP, IP_MULTICAST_TTL));
					for (size_t i = r.below(4); i-- > 0;) {
						int ttl = r.chance(80) ? int(r.below(256)) : r.coin() ? 256 + int(r.below(1000)) : -2 - int(r.below(1000));
						Fd c2(socket(AF_INET, SOCK_DGRAM, IPPROTO_UDP));
						bool ttl_ok = setint(c2.v, IPPROTO_IP, IP_MULTICAST_TTL, ttl);
						bool did    = true;
						try {
							tx->set_multicast_ttl(ttl);
						} catch (const std::exception &) { did = false; }
						EXPECT(did == ttl_ok, "ttl", "set_multicast_ttl(" << ttl << ") " << (did ? "succeeds" : "throws") << ", a control socket " << (ttl_ok ? "accepts it" : "refuses it"));
						if (ttl_ok) want_ttl = ttl;
						EXPECT(optint(tfd, IPPROTO_IP, IP_MULTICAST_TTL) == want_ttl, "ttl", "TTL is " << optint(tfd, IPPROTO_IP, IP_MULTICAST_TTL) << " after setting " << ttl << ", expected " << want_ttl);
						count("ttls_set");
						ev(u64(ttl));
					}
					from = local_of(tfd);
					EXPECT(spin(loop, [&] { return tx->can_write(); }), "transmitter-write", "a new transmitter cannot write");
				} else {
					rs = Fd(socket(AF_INET, SOCK_DGRAM, IPPROTO_UDP));
					if (setsockopt(rs.v, IPPROTO_IP, IP_MULTICAST_IF, &ad.mreq, sizeof ad.mreq) != 0 || ::connect(rs.v, reinterpret_cast<sockaddr *>(&gsa), sizeof gsa) != 0) { count("control_failed"); return; }
					from = local_of(rs.v);
				}
				for (size_t k = 1 + r.below(4); k-- > 0 && raw.ok && !ctx().failed;) {
					Bytes d = r.bytes(r.below(300));
					if (lib_tx) EXPECT(tx->write_datagram(d.data(), d.size()), "transmitter-write", "write_datagram failed on an empty buffer");
					else if (::send(rs.v, d.data(), d.size(), 0) < 0) { count("control_failed"); break; }
					Bytes got;
					int ifindex = 0, ttl = -1;
					sockaddr_storage gfrom{};
					pollfd pf{raw.fd.v, POLLIN, 0};
					bool there = poll(&pf, 1, 300) == 1 && raw.get(got, ifindex, ttl, gfrom);
					if (lib_tx && !there) {  // does the system deliver such datagrams at all?
						Fd c(socket(AF_INET, SOCK_DGRAM, IPPROTO_UDP));
						setsockopt(c.v, IPPROTO_IP, IP_MULTICAST_IF, &ad.mreq, sizeof ad.mreq);
						setint(c.v, IPPROTO_IP, IP_MULTICAST_TTL, want_ttl);
						::sendto(c.v, "x", 1, 0, reinterpret_cast<sockaddr *>(&gsa), sizeof gsa);
						Bytes g2;
						bool ctl = poll(&pf, 1, 5000) == 1 && raw.get(g2, ifindex, ttl, gfrom);
						EXPECT(!ctl || g2 == d, "transmitter-lost", "datagram of the transmitter did not reach a member of the group on adapter '" << ad.text << "', that of a control socket did");
						count("undeliverable");
						break;
					}
					if (!there) { count("undeliverable"); break; }
					if (lib_tx) {
						EXPECT(got == d, "transmitter-data", "the group received " << got.size() << " bytes, sent " << d.size());
						EXPECT(ttl == want_ttl, "ttl", "datagram arrived with TTL " << ttl << ", expected " << want_ttl);
						if (ad.mreq.imr_ifindex) EXPECT(ifindex == ad.mreq.imr_ifindex, "transmitter-adapter", "datagram arrived on adapter " << ifindex << ", expected " << ad.mreq.imr_ifindex);
						EXPECT(show(gfrom) == show(from), "transmitter-address", "datagram from " << show(gfrom) << ", expected " << show(from));
						count("sent_to_group");
					}
					if (us.rcvbuf_size == 0 || us.rcvbuf_size > 60000) {
						for (int w = 0; w != (second ? 2 : 1); ++w) {
							auto &x = w ? *second : *u;
							uint8_t buf[700];
							crab::Address pa;
							crab::optional<size_t> n;
							bool ok = spin(loop, [&] { n = x.read_datagram(buf, sizeof buf, &pa); return n.has_value(); });
							EXPECT(ok && Bytes(buf, buf + *n) == d, "receiver-lost", "a receiver which is a member of the group on '" << ad.text << "' " << (ok ? "read other data" : "did not receive a datagram which another member received"));
							if (ok) EXPECT(pa.to_string() == show(from), "receiver-address", "datagram from " << pa.to_string() << ", sent from " << show(from));
							count("received_from_group");
							ev(d.size() * 2 + u64(w));
						}
					}
				}
			} else {  // unicast: replies
				crab::UDPReceiver &x = *u;
				std::string to = ip == "0.0.0.0" ? "127.0.0.1" : ip;
				crab::Address la(to, port_of(ufd));
				int tev = 0;
				crab::UDPTransmitter tx(la, [&] { tev++; });
				EXPECT(spin(loop, [&] { return tx.can_write(); }), "transmitter-write", "a new transmitter cannot write");
				for (size_t k = 1 + r.below(4); k-- > 0 && (us.rcvbuf_size == 0 || us.rcvbuf_size > 60000) && !ctx().failed;) {
					Bytes d = r.bytes(r.below(1200)), e = r.bytes(r.below(1200));
					EXPECT(tx.write_datagram(d.data(), d.size()), "transmitter-write", "write_datagram failed on an empty buffer");
					uint8_t buf[1500];
					crab::Address pa, pb;
					crab::optional<size_t> n;
					bool ok = spin(loop, [&] { n = x.read_datagram(buf, sizeof buf, &pa); return n.has_value(); });
					EXPECT(ok && Bytes(buf, buf + *n) == d, "receiver-lost", "datagram " << (ok ? "changed" : "lost"));
					if (!ok) return;
					EXPECT(spin(loop, [&] { return x.can_write(); }), "receiver-write", "receiver cannot write");
					if (us.sndbuf_size && us.sndbuf_size < 60000) continue;  // may not fit
					EXPECT(x.write_datagram(e.data(), e.size(), pa), "receiver-write", "reply refused");
					ok = spin(loop, [&] { n = tx.read_datagram(buf, sizeof buf, &pb); return n.has_value(); });
					EXPECT(ok && Bytes(buf, buf + *n) == e, "reply-lost", "reply to " << pa.to_string() << (ok ? " changed" : " lost"));
					EXPECT(!ok || pb.to_string() == la.to_string(), "reply-address", "reply from " << pb.to_string() << ", the receiver is at " << la.to_string());
					count("replies");
					ev(d.size() * 1500 + e.size());
				}
			}
			u.reset();
			EXPECT(memberships(gsa.sin_addr).empty(), "membership-left", "group is still joined after everything was destroyed: " << show(memberships(gsa.sin_addr)));
		}
		// a transmitter which cannot be created
		if (mc && !ctx().failed && r.chance(30)) {
			Fd c(socket(AF_INET, SOCK_DGRAM, IPPROTO_UDP));
			bool c_ok = ad.valid && setsockopt(c.v, IPPROTO_IP, IP_MULTICAST_IF, &ad.mreq, sizeof ad.mreq) == 0 && ::connect(c.v, reinterpret_cast<sockaddr *>(&gsa), sizeof gsa) == 0;
			c.reset();
			size_t n1 = all_fds();
			bool did  = true;
			try {
				crab::UDPTransmitter tx(crab::Address(group, port), [] {}, ad.text);
			} catch (const std::exception &) { did = false; }
			EXPECT(did == c_ok, "transmitter-adapter", "transmitter on '" << ad.text << "' " << (did ? "was created" : "throws") << ", a control socket " << (c_ok ? "works" : "is refused"));
			EXPECT(all_fds() == n1, "leak", "descriptors left by a transmitter");
			count(did ? "transmitters" : "transmitters_refused");
		}
	}
	EXPECT(all_fds() == fds0, "leak", "descriptors " << fds0 << " before and " << all_fds() << " after the case");
	ctx().nontrivial = true;
}

int main(int argc, char **argv) {
	return harness_main(argc, argv, {{"tcpopts", m_tcp}, {"udpopts", m_udp}});
}
