// Simulated kernel: sockets, edge-triggered epoll, eventfd and the steady clock, entered through linker wraps.
// Everything runs in virtual time on the calling thread; only eventfd_write and getaddrinfo may come from others.
#pragma once
#include <netinet/in.h>
#include <sys/socket.h>
#include <cerrno>
#include "common.hpp"

namespace sim {

using vh::u64;

constexpr u64 MS  = 1000000;
constexpr u64 SEC = 1000000000;
constexpr u64 NEVER = ~u64(0);

enum Sys { S_SOCKET, S_SETSOCKOPT, S_FCNTL, S_BIND, S_LISTEN, S_CONNECT, S_ACCEPT, S_RECV, S_SEND, S_RECVFROM, S_SENDTO, S_EPOLL_CREATE,
	S_EPOLL_CTL, S_EPOLL_WAIT, S_EVENTFD, S_SHUTDOWN, S_CLOSE, S_COUNT };
extern const char *sys_name[S_COUNT];

struct Config {
	u64 delay_min = 0, delay_max = 2 * MS;  // network delay of a segment
	size_t cap_min = 1, cap_max = 70000;    // capacity of one direction of a connection
	unsigned split     = 30;                // percent: an arriving segment is delivered in pieces
	unsigned spurious  = 3;                 // percent per epoll_wait: an extra readiness report
	unsigned eintr     = 2;                 // percent per blocking epoll_wait
	unsigned subset    = 30;                // percent: report only some of the ready descriptors
	unsigned sync_connect = 15;             // percent: connect() completes at once
	size_t fd_limit    = 100000;
	size_t udp_queue   = 64;
	unsigned udp_full  = 10;                // percent: sendto finds the buffer full
	u64 tick           = 200;               // virtual nanoseconds a system call takes, at most
	bool fd_reuse      = true;
};

struct Addr {
	int family = 0;
	std::string ip;  // raw bytes
	uint16_t port = 0;
	bool any() const { return ip.find_first_not_of('\0') == std::string::npos; }
	bool operator<(const Addr &o) const { return std::tie(family, ip, port) < std::tie(o.family, o.ip, o.port); }
	bool operator==(const Addr &o) const { return family == o.family && ip == o.ip && port == o.port; }
	std::string str() const;
};
Addr ip4(const char *text, uint16_t port);
Addr from_sockaddr(const sockaddr *sa, socklen_t len);
socklen_t to_sockaddr(const Addr &a, sockaddr *sa, socklen_t room);

struct Peer;
struct Endpoint : std::enable_shared_from_this<Endpoint> {  // one side of a TCP connection
	enum St { CONNECTING, EST, DEAD };
	St st = EST;
	u64 id = 0;
	std::weak_ptr<Endpoint> peer;
	Addr local, remote;
	std::string rq;        // received and readable
	size_t rq_off = 0;
	size_t flight = 0;     // bytes on the way to this side
	size_t cap    = 65536; // limit of flight + unread for this side
	u64 last_arrival = 0;  // arrivals stay in order
	bool fin = false;      // peer's end of stream arrived
	bool rst = false;      // connection reset here
	int err  = 0;          // pending socket error
	bool nospace = false;  // a send did not fit
	bool wr_shut = false;
	bool app_closed = false;
	int fd = -1;           // library side
	Peer *raw = nullptr;   // harness side
	u64 sent = 0, arrived = 0, taken = 0;  // bytes accepted from app / arrived / handed to app
	size_t unread() const { return rq.size() - rq_off; }
};
typedef std::shared_ptr<Endpoint> EP;

// A harness-controlled end of a connection. Never blocks, unlimited outgoing queue.
struct Peer : std::enable_shared_from_this<Peer> {
	EP ep;
	std::string in;         // everything read so far (harness may consume)
	u64 in_total = 0;
	std::string outq;
	bool connected = false, eof = false, reset = false, refused = false, closed = false;
	bool reading = true;
	size_t read_quota = size_t(-1);  // max bytes to read until raised
	bool shut_after_flush = false, close_after_flush = false, shut_done = false;
	std::function<void()> on_event;
	void write(const std::string &s);
	void shutdown();        // after everything queued was sent
	void close();           // after everything queued was sent
	void close_now();       // drops what is queued
	void abort();           // reset
	void set_reading(bool r);
	void poll();            // internal: move data, notify
	void notify();
	bool finished() const { return eof || reset || refused || closed; }
	~Peer();
};
typedef std::shared_ptr<Peer> PeerP;

struct Listener {
	Addr addr;
	std::deque<EP> backlog;
	std::function<void(PeerP)> on_accept;  // harness-side listener
	int fd = -1;
	u64 completed = 0;
	std::deque<int> errors;  // errors accept() returns before the next entry
};
typedef std::shared_ptr<Listener> ListenerP;

struct Calls {  // what the library asked for since begin()
	u64 recv = 0, recv_failed = 0, recv_bytes = 0, send = 0, send_failed = 0, send_bytes = 0, polls = 0, events = 0;
	u64 get = 0, get_failed = 0, get_bytes = 0, get_ones = 0, put = 0, put_failed = 0, put_bytes = 0;  // datagrams; ones: buffer of one byte
};
extern Calls calls;
struct Datagram { Addr from; std::string data; u64 id; };

void begin(const Config &cfg, u64 seed);  // starts simulation for a case
void end();                               // stops simulation; drops all state
bool active();
u64 now();                                // virtual nanoseconds
void advance(u64 ns);                     // time passes while the program computes
void at(u64 delay, std::function<void()> fn);
Config &cfg();
vh::Rng &rng();

// hooks
extern std::function<void()> on_quiet;                     // epoll_wait would block and nothing is scheduled
extern std::function<void()> on_block;                     // epoll_wait sleeps: every readiness change was reported
extern std::function<void(int timeout_ms)> on_wait;        // each epoll_wait entry
extern std::function<void(int nevents)> on_wait_return;    // each epoll_wait return (n events)
extern std::function<void()> on_poll;                      // each epoll_wait entry, for monitors which only look
extern std::function<int(Sys, int fd)> fault;              // errno to inject or 0
extern std::function<bool()> expect_thread;                // true while a result from another thread is due
extern std::function<void(const std::string &)> on_misuse; // descriptor misuse

// harness-side network
PeerP peer_connect(const Addr &to, const Addr &from, u64 not_before = 0);  // connects to a library listener (or is refused)
ListenerP peer_listen(const Addr &addr, std::function<void(PeerP)> on_accept);
void unlisten(const ListenerP &l);
enum ConnectFate { ACCEPTED, REFUSED_SYNC, REFUSED_ASYNC, TIMEOUT_ASYNC, UNREACH_SYNC };
extern std::function<ConnectFate(const Addr &)> connect_fate;  // for library connects
void udp_peer(const Addr &addr, std::function<void(const Datagram &, const Addr &to)> on_datagram);
void udp_send(const Addr &from, const Addr &to, const std::string &data, u64 id);  // towards a library socket
void udp_error_fd(int fd, int err);
bool dgram_error_pending(int fd);
int dgram_fd(const Addr &local, bool newest_connected);     // descriptor of a library datagram socket
Addr dgram_local(int fd);
void udp_error(const Addr &to, int err);                   // an error appears on the library socket bound there
extern std::function<void(int fd, const Datagram &, const Addr &to)> on_udp_sent;  // the kernel took it from a library socket
extern std::function<void(int fd, const Datagram &)> on_udp_delivered;  // entered a library socket's queue

// name resolution: set of answers per name
struct Gai { int rc = 0; std::vector<Addr> addrs; unsigned delay_us = 0; };
extern std::function<Gai(const std::string &host, const std::string &service, int family)> resolver;
extern u64 gai_calls;
u64 foreign_wakes();                      // eventfd signals sent by other threads
bool wait_foreign(u64 more_than, unsigned seconds);

void for_each_library_endpoint(const std::function<void(const EP &)> &fn);
size_t open_fds();
std::string open_fd_list();
EP endpoint_of(int fd);
int fd_of_listener(const Addr &a);
u64 total_waits();
u64 syscalls();

}  // namespace sim
