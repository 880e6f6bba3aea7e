#pragma once
// Shared by the demonstrations: a blocking raw TCP peer, a watchdog and checks.
#include <arpa/inet.h>
#include <netinet/in.h>
#include <netinet/tcp.h>
#include <poll.h>
#include <signal.h>
#include <sys/socket.h>
#include <unistd.h>
#include <atomic>
#include <chrono>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <memory>
#include <string>
#include <thread>
#include <vector>
#define CHECK(c) do { if (!(c)) { std::fprintf(stderr, "FAILED line %d: %s\n", __LINE__, #c); std::_Exit(1); } } while (0)
using clk = std::chrono::steady_clock;
inline double since(clk::time_point t) { return std::chrono::duration<double>(clk::now() - t).count(); }
inline void watchdog(int sec) { std::thread([sec] { std::this_thread::sleep_for(std::chrono::seconds(sec)); std::fprintf(stderr, "FAILED: timed out\n"); std::_Exit(1); }).detach(); }
inline int free_port(int type = SOCK_STREAM) {
	int fd = ::socket(AF_INET, type, 0);
	sockaddr_in a{};
	a.sin_family      = AF_INET;
	a.sin_addr.s_addr = htonl(INADDR_LOOPBACK);
	socklen_t l       = sizeof(a);
	CHECK(::bind(fd, (sockaddr *)&a, l) == 0);
	::getsockname(fd, (sockaddr *)&a, &l);
	::close(fd);
	return ntohs(a.sin_port);
}
struct Raw {
	int fd = -1;
	std::string in;
	bool eof = false;
	explicit Raw(int f) : fd(f) {}
	static Raw connect(int port) {
		for (int i = 0; i != 300; ++i) {
			int fd = ::socket(AF_INET, SOCK_STREAM, 0);
			sockaddr_in a{};
			a.sin_family      = AF_INET;
			a.sin_port        = htons(port);
			a.sin_addr.s_addr = htonl(INADDR_LOOPBACK);
			if (::connect(fd, (sockaddr *)&a, sizeof(a)) == 0) {
				int one = 1;
				::setsockopt(fd, IPPROTO_TCP, TCP_NODELAY, &one, sizeof(one));
				return Raw(fd);
			}
			::close(fd);
			std::this_thread::sleep_for(std::chrono::milliseconds(10));
		}
		CHECK(!"cannot connect");
		return Raw(-1);
	}
	void send(const std::string &s) {
		size_t p = 0;
		while (p < s.size()) {
			ssize_t n = ::send(fd, s.data() + p, s.size() - p, MSG_NOSIGNAL);
			if (n <= 0) return;
			p += n;
		}
	}
	// reads until pred(in), end of stream or timeout; returns pred(in)
	bool until(std::function<bool(const std::string &)> pred, int ms) {
		auto t = clk::now();
		while (!pred(in)) {
			int left = ms - int(since(t) * 1000);
			if (left <= 0 || eof) return false;
			pollfd p{fd, POLLIN, 0};
			if (::poll(&p, 1, left) <= 0) continue;
			char b[65536];
			ssize_t n = ::recv(fd, b, sizeof(b), 0);
			if (n <= 0) { eof = true; continue; }
			in.append(b, n);
		}
		return true;
	}
	bool has(const std::string &s, int ms = 3000) { return until([&](const std::string &x) { return x.find(s) != std::string::npos; }, ms); }
	bool closed(int ms) { until([](const std::string &) { return false; }, ms); return eof; }
	void close() { if (fd >= 0) ::close(fd); fd = -1; }
};
struct RawListener {
	int fd, port;
	RawListener() {
		fd = ::socket(AF_INET, SOCK_STREAM, 0);
		sockaddr_in a{};
		a.sin_family      = AF_INET;
		a.sin_addr.s_addr = htonl(INADDR_LOOPBACK);
		socklen_t l       = sizeof(a);
		CHECK(::bind(fd, (sockaddr *)&a, l) == 0 && ::listen(fd, 16) == 0);
		::getsockname(fd, (sockaddr *)&a, &l);
		port = ntohs(a.sin_port);
	}
	Raw accept() { return Raw(::accept(fd, nullptr, nullptr)); }
};
inline std::string ws_frame(int op, bool fin, const std::string &b, bool mask = true) {
	std::string s;
	s += char((fin ? 0x80 : 0) | op);
	char m = mask ? char(0x80) : 0;
	if (b.size() < 126) s += char(m | char(b.size()));
	else { s += char(m | 126); s += char(b.size() >> 8); s += char(b.size()); }
	const char k[4] = {0x11, 0x22, 0x33, 0x44};
	if (mask) s.append(k, 4);
	for (size_t i = 0; i != b.size(); ++i) s += mask ? char(b[i] ^ k[i % 4]) : b[i];
	return s;
}
