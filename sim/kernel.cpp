#include "kernel.h"
#include <arpa/inet.h>
#include <cerrno>
#include <chrono>
#include <ctime>
#include <fcntl.h>
#include <netinet/in.h>
#include <poll.h>
#include <random>
#include <signal.h>
#include <sys/ioctl.h>
#include <sys/select.h>
#include <sys/socket.h>
#include <sys/time.h>
#include <sys/uio.h>
#include <unistd.h>

namespace sim {

Kernel k;
int64_t nowNs() { return k.now - k.start; }
bool injecting() { return k.active && k.faultsOn; }
std::string ipStr(uint32_t ip) { char b[32]; snprintf(b, sizeof b, "%u.%u.%u.%u", ip >> 24, (ip >> 16) & 255, (ip >> 8) & 255, ip & 255); return b; }

static void step() {
	if (++sh->steps > k.stepCap) { violate("*", "livelock", "more than %llu simulated steps in one run: the library does not stop", (unsigned long long)k.stepCap); abandon(); }
}

bool Sock::readable() const {
	if (dgram) return !rxq.empty() || shutRd;
	if (!conn) return true;
	if (connecting) return false;
	return conn->avail() || conn->finRx || conn->rstErr || conn->st == TcpConn::FAILED || shutRd;
}
bool Sock::writable() const {
	if (dgram) return true;
	if (!conn) return true;
	if (connecting) return false;
	return conn->st == TcpConn::FAILED || conn->rstErr || conn->wasReset || shutWr || conn->inflight < k.cfg.sndbuf;
}

int64_t Kernel::lat(Stream s) { return range(s, cfg.latMin, cfg.latMax); }

bool Kernel::runDue() {
	bool any = false;
	while (!q.empty() && q.top().t <= now) {
		step();
		auto fn = std::move(const_cast<Ev&>(q.top()).fn);
		q.pop();
		fn();
		any = true;
	}
	return any;
}

void Kernel::advance(int64_t d) {
	int64_t end = now + d;
	while (!q.empty() && q.top().t <= end) { if (q.top().t > now) now = q.top().t; runDue(); }
	if (now < end) now = end;
}

void Kernel::syscall(const char* name, int64_t a) {
	step();
	syscalls++;
	now += cfg.cost;
	runDue();
	ev(name, a);
}

int Kernel::block(const std::function<bool()>& ready, int64_t deadline, const char* what) {
	runDue();
	int r = -1;
	if (ready()) r = 0;
	else if (deadline >= 0 && deadline <= now) r = 1;
	else {
		int64_t sig = -1;
		if (faultsOn && cfg.eintr && chance(S, cfg.eintr, 64)) {
			int64_t span = deadline < 0 ? 20 * MS : deadline - now;
			sig = now + span / 8 * choose(S, 8);
		}
		if (faultsOn && cfg.sigPeriod) {     // an interval timer of the application
			int64_t tick = (now / cfg.sigPeriod + 1) * cfg.sigPeriod;
			sig = sig < 0 ? tick : std::min(sig, tick);
		}
		uint64_t events = 0;
		const int64_t INF = INT64_MAX;
		while (r < 0) {
			int64_t tn = q.empty() ? INF : q.top().t;
			int64_t dl = deadline < 0 ? INF : deadline, sg = sig < 0 ? INF : sig;
			int64_t lim = std::min(dl, sg);
			if ((tn == INF && lim == INF) || ++events > 400000) {
				violate("*", "blocked-forever", "%s blocks and nothing can ever wake it", what);
				abandon();
			}
			if (tn <= lim) {
				if (tn > now) now = tn;
				runDue();
				if (ready()) r = 0;
				continue;
			}
			if (lim > now) now = lim;
			if (sg <= dl) { fault("EINTR"); eintrs++; r = 2; }
			else r = 1;
		}
	}
	if (faultsOn && cfg.oversleep && r != 2 && chance(S, cfg.oversleep, 64)) {
		int64_t d = range(S, 0, cfg.oversleepMax);
		d = std::min(d, stallLeft);
		if (d > 0) { fault("process_stall"); lateNs += d; stallLeft -= d; advance(d); if (r == 1 && ready()) r = 0; }
	}
	lastWaitReturn = now;
	return r;
}

Sock* Kernel::get(int fd) { auto it = fds.find(fd); return it == fds.end() ? nullptr : it->second.get(); }

int Kernel::newFd(bool dgram) {
	int fd = faultsOn ? cfg.fdBase : FD_BASE;
	while (fds.count(fd) || (fd < FD_HIGH && fd >= 1000)) ++fd;
	if (fd >= FD_END) return -1;
	if (fd >= FD_SETSIZE) { fault("fd_beyond_select"); sysfails++; }   // the caller may refuse it, but may not use it with select
	auto s = std::make_unique<Sock>();
	s->fd = fd; s->dgram = dgram;
	fds[fd] = std::move(s);
	everOpened.insert(fd);
	opened++;
	return fd;
}

static bool memoryShort(size_t) {
	if (!k.active || !k.faultsOn || !k.cfg.allocfail) return false;
	static bool due = false;
	if (k.allocLeft <= 0) {        // draw 0: none of the next ones fails
		uint32_t n = choose(S, 4000 / k.cfg.allocfail);
		due = n > 0; k.allocLeft = due ? n : 8000;
	}
	if (--k.allocLeft > 0 || !due) return false;
	fault("allocation_fails");
	k.sysfails++; k.allocfails++;
	return true;
}
void Kernel::shortOfMemory(uint32_t rate) { cfg.allocfail = rate; allocLeft = 0; allocFails = rate ? memoryShort : nullptr; }

int Kernel::failing(const char* what, std::initializer_list<int> errs) {
	if (!faultsOn || !cfg.sysfail || !chance(S, cfg.sysfail, 256)) return 0;
	int e = *(errs.begin() + choose(S, errs.size()));
	fault(what);
	sysfails++;
	return e;
}

// ---- TCP --------------------------------------------------------------------
void Kernel::toClient(TcpConn& c, TcpConn::Seg s) {
	if (s.t < c.s2cLast) s.t = c.s2cLast;
	c.s2cLast = s.t;
	c.s2c.push_back(std::move(s));
	if (!c.s2cPump) { c.s2cPump = true; at(c.s2c.front().t, [this, &c] { pumpS2C(c); }); }
}

void Kernel::pumpS2C(TcpConn& c) {
	c.s2cPump = false;
	while (!c.s2c.empty() && c.s2c.front().t <= now) {
		if (!c.host->reachable) { c.s2cPump = true; after(200 * MS, [this, &c] { pumpS2C(c); }); return; }
		TcpConn::Seg s = std::move(c.s2c.front()); c.s2c.pop_front();
		if (!c.sock) continue;
		c.lastEvent = c.lastRx = lastNetEvent = now;
		switch (s.kind) {
			case 0: if (c.finRx || c.wasReset || c.st != TcpConn::OPEN) break;
				c.rx.insert(c.rx.end(), s.b.begin(), s.b.end()); ev("tcp.rx", c.id, s.b.size()); evData("rx", s.b.data(), s.b.size()); break;
			case 1: c.finRx = true; ev("tcp.fin", c.id); break;
			case 2: if (!c.wasReset) c.rstErr = s.err; ev("tcp.rst", c.id, s.err); c.hostOpen = false; break;
			case 3:
				c.sock->connecting = false;
				if (s.err) { c.st = TcpConn::FAILED; c.sock->soError = s.err; }
				else c.st = TcpConn::OPEN;
				ev("tcp.connected", c.id, s.err);
				break;
		}
	}
	if (!c.s2c.empty()) { c.s2cPump = true; at(c.s2c.front().t, [this, &c] { pumpS2C(c); }); }
}

void Kernel::toHost(TcpConn& c, TcpConn::Seg s) {
	if (s.t < c.c2sLast) s.t = c.c2sLast;
	c.c2sLast = s.t;
	c.c2s.push_back(std::move(s));
	if (!c.c2sPump) { c.c2sPump = true; at(c.c2s.front().t, [this, &c] { pumpC2S(c); }); }
}

void Kernel::pumpC2S(TcpConn& c) {
	c.c2sPump = false;
	while (!c.c2s.empty() && c.c2s.front().t <= now) {
		if (!c.host->reachable || !c.host->up || c.notReading) { c.c2sPump = true; after(200 * MS, [this, &c] { pumpC2S(c); }); return; }
		TcpConn::Seg s = std::move(c.c2s.front()); c.c2s.pop_front();
		if (s.kind == 0) {
			if (c.inflight >= cfg.sndbuf) c.lastEvent = c.lastRx = now;      // the window opens
			c.inflight -= std::min(c.inflight, s.b.size());
			if (!c.hostOpen) { if (!c.wasReset) { ev("tcp.rstreply", c.id); tcpRst(c, 0, ECONNRESET); } continue; }
			ev("dev.rx", c.id, s.b.size());
			c.host->onData(c, s.b);
		} else if (c.hostOpen) {
			c.hostOpen = false;
			ev("dev.closed", c.id, s.kind);
			c.host->onClosed(c, s.kind == 2);
		}
	}
	if (!c.c2s.empty()) { c.c2sPump = true; at(c.c2s.front().t, [this, &c] { pumpC2S(c); }); }
}

void Kernel::tcpToClient(TcpConn& c, const Bytes& b, int64_t delay, const std::vector<std::pair<size_t, int64_t>>* cuts) {
	if (b.empty()) return;
	int64_t t = now + delay + lat();
	if (!cuts) { toClient(c, {t, 0, b, 0}); return; }
	size_t p = 0;
	for (auto& [len, gap] : *cuts) {
		if (p >= b.size()) break;
		size_t n = std::min(len, b.size() - p);
		if (p) t += gap;
		toClient(c, {t, 0, Bytes(b.begin() + p, b.begin() + p + n), 0});
		p += n;
	}
	if (p < b.size()) toClient(c, {t, 0, Bytes(b.begin() + p, b.end()), 0});
}

void Kernel::tcpFin(TcpConn& c, int64_t delay) { c.hostOpen = false; toClient(c, {now + delay + lat(), 1, {}, 0}); }
void Kernel::tcpRst(TcpConn& c, int64_t delay, int err) { c.hostOpen = false; toClient(c, {now + delay + lat(), 2, {}, err}); }

void Kernel::hostCrash(Host& h) {
	for (auto& c : conns) if (c->host == &h) {
		c->hostOpen = false;
		c->s2c.clear();
		c->malign++;
	}
}

static void startConnect(Sock& s, uint32_t ip, uint16_t port) {
	auto owned = std::make_unique<TcpConn>();
	TcpConn& c = *owned;
	c.id = (int)k.conns.size(); c.port = port; c.sock = &s; s.conn = &c; s.connecting = true;
	k.conns.push_back(std::move(owned));
	auto it = k.hosts.find(ip);
	static Host nowhere;
	c.host = it == k.hosts.end() ? &nowhere : it->second;
	c.lastEvent = k.now;
	ev("connect", c.id, ip, port);
	if (k.onTcpConnect) k.onTcpConnect(c);
	if (it == k.hosts.end()) {      // no such machine: host unreachable after ARP gives up
		c.malign++;
		k.toClient(c, {k.now + 3 * SEC, 3, {}, EHOSTUNREACH});
		return;
	}
	int64_t l = k.lat(), l2 = k.lat();
	if (injecting() && k.cfg.connectSlow && chance(N, k.cfg.connectSlow, 64)) { fault("slow_connect"); l += range(N, 0, k.cfg.connectSlowMax); }
	int id = c.id;
	auto attempt = [l2, id](auto self) -> void {
		TcpConn& c = *k.conns[id];
		if (!c.sock) return;
		if (!c.host->up || !c.host->reachable) {         // SYN lost: retransmitted a second later
			c.malign++;
			k.after(1 * SEC, [self] { self(self); });
			return;
		}
		switch (c.host->onConnect(c)) {
			case Host::YES: c.hostOpen = true; c.host->onOpen(c); k.toClient(c, {k.now + l2, 3, {}, 0}); break;
			case Host::REFUSE: c.malign++; k.toClient(c, {k.now + l2, 3, {}, ECONNREFUSED}); break;
			case Host::IGNORE_SYN: c.malign++; break;
		}
	};
	k.after(l, [attempt] { attempt(attempt); });
}

void Kernel::destroySock(Sock& s) {
	if (s.conn) {
		TcpConn& c = *s.conn;
		c.sock = nullptr;
		if (c.hostOpen || c.st == TcpConn::SYN) {
			bool rst = c.avail() > 0 || c.st == TcpConn::SYN;
			if (!c.clientFin || rst) toHost(c, {now + lat(), rst ? 2 : 1, {}, 0});
		}
	}
}

// ---- UDP --------------------------------------------------------------------
void Kernel::deliverUdp(Datagram d) {
	Sock* best = nullptr;
	for (auto& [fd, s] : fds) {
		if (!s->dgram || !s->bound || s->lport != d.dport) continue;
		if (s->udpPeer && (s->pip != d.src || s->pport != d.sport)) continue;
		if (!best || s->bindSeq > best->bindSeq) best = s.get();
	}
	d.at = now;
	lastNetEvent = now;
	uint64_t key = ((uint64_t)d.src << 16) | d.dport;
	uint64_t& mx = maxSeen[key];
	if (d.no < mx) d.irregular = true; else mx = d.no;
	if (!best) { ev("udp.noport", d.dport); if (onNoPort) onNoPort(d); return; }
	if (best->rxq.size() >= cfg.rcvbufDgrams) { fault("udp_rcvbuf_overflow"); if (onOverflow) onOverflow(d); return; }
	ev("udp.rx", d.tag, d.src, d.data.size());
	evData("udp", d.data.data(), d.data.size());
	if (onArrive) onArrive(d);
	best->rxq.push_back(std::move(d));
}

void Kernel::udpToClient(uint32_t src, uint16_t sport, uint16_t dport, const Bytes& b, int tag, bool faulty, int64_t delay) {
	Datagram d; d.src = src; d.sport = sport; d.dst = CLIENT_IP; d.dport = dport; d.data = b; d.tag = tag; d.no = ++dgNo;
	auto it = hosts.find(src);
	if (it != hosts.end() && !it->second->reachable) { fault("partition_drop"); return; }
	int64_t l = delay + lat();
	if (faulty && faultsOn) {
		if (cfg.udpDrop && chance(N, cfg.udpDrop, 64)) { fault("udp_drop"); return; }
		if (cfg.udpDelay && chance(N, cfg.udpDelay, 64)) { fault("udp_delay"); l += range(N, 0, cfg.udpDelayMax); }
		if (cfg.udpDup && chance(N, cfg.udpDup, 64)) {
			fault("udp_dup");
			Datagram e = d; e.irregular = true;
			int64_t l2 = delay + lat() + range(N, 0, cfg.udpDelayMax);
			after(std::max(l, l2), [this, e] { deliverUdp(e); });
			after(std::min(l, l2), [this, d] { deliverUdp(d); });
			return;
		}
	}
	after(l, [this, d] { deliverUdp(d); });
}

void Kernel::finalChecks() {
	if (!fds.empty()) {
		std::string l;
		for (auto& [fd, s] : fds) { l += " " + std::to_string(fd) + (s->dgram ? "(udp)" : "(tcp)"); }
		violate("C15", "fd-leak", "%zu socket(s) never closed:%s", fds.size(), l.c_str());
	}
}

static bool isSim(int fd) { return k.active && fd >= FD_BASE && fd < FD_END && !(fd >= 1000 && fd < FD_HIGH); }
static int err(int e) { errno = e; return -1; }
// A descriptor the simulator never handed out.
static int foreign(int fd, const char* call) {
	if (fd >= 0) { violate("C15", "foreign-fd", "%s on descriptor %d, which is not one of the library's sockets", call, fd); }
	return err(EBADF);
}
static Sock* sock(int fd, const char* call) {
	Sock* s = k.get(fd);
	if (!s) { violate("C15", "use-after-close", "%s on descriptor %d, which %s", call, fd, k.everOpened.count(fd) ? "is already closed" : "was never opened"); errno = EBADF; }
	return s;
}

static ssize_t doRecv(int fd, void* buf, size_t n, int flags, sockaddr* from, socklen_t* fl, const char* name) {
	k.syscall(name, fd);
	Sock* s = sock(fd, name);
	if (!s) return -1;
	bool nb = s->nonblock || (flags & MSG_DONTWAIT);
	if (s->dgram) {
		if (int e = k.failing("sysfail_recv_udp", {ENOMEM, ENOBUFS, EAGAIN})) { k.lastWaitReturn = k.now; if (e != EAGAIN || nb) return err(e); }
		if (s->rxq.empty() && s->shutRd) return 0;
		if (s->rxq.empty() && nb) return err(EAGAIN);
		int fdn = fd;
		int r = k.block([fdn] { Sock* t = k.get(fdn); return t && !t->rxq.empty(); }, s->rcvtimeo < 0 ? -1 : k.now + s->rcvtimeo, "recvfrom on a UDP socket");
		if (r == 1) return err(EAGAIN);
		if (r == 2) return err(EINTR);
		Datagram d = s->rxq.front();
		size_t m = std::min(n, d.data.size());
		if (m) memcpy(buf, d.data.data(), m);
		if (from && fl) {
			sockaddr_in a{}; a.sin_family = AF_INET; a.sin_port = htons(d.sport); a.sin_addr.s_addr = htonl(d.src);
			memcpy(from, &a, std::min<size_t>(*fl, sizeof a)); *fl = sizeof a;
		}
		if (!(flags & MSG_PEEK)) { s->rxq.pop_front(); if (k.onConsume) k.onConsume(d); }
		ev("recv.udp", fd, m);
		return (flags & MSG_TRUNC) ? (ssize_t)d.data.size() : (ssize_t)m;
	}
	TcpConn* c = s->conn;
	if (!c || c->st == TcpConn::SYN || c->st == TcpConn::FAILED) return err(ENOTCONN);
	if (int e = k.failing("sysfail_recv_tcp", {ECONNRESET, ETIMEDOUT, EHOSTUNREACH})) { c->malign++; k.lastWaitReturn = k.now; return err(e); }
	size_t got = 0;
	int64_t deadline = s->rcvtimeo < 0 ? -1 : k.now + s->rcvtimeo;   // one budget per call, as in Linux
	for (;;) {
		auto ready = [c, s] { return c->avail() || c->finRx || c->rstErr || c->wasReset || s->shutRd; };
		if (n == 0) return 0;
		if (!ready() && nb) return got ? (ssize_t)got : err(EAGAIN);
		int r = k.block(ready, deadline, "recv on a TCP socket");
		if (r == 1) return got ? (ssize_t)got : err(EAGAIN);
		if (r == 2) return got ? (ssize_t)got : err(EINTR);
		if (s->shutRd) return got;
		if (c->avail()) {
			size_t m = std::min(n - got, c->avail());
			if (m > 1 && injecting() && k.cfg.segment && chance(S, k.cfg.segment, 512)) { fault("short_read"); m = 1 + choose(S, (uint32_t)m); }
			memcpy((char*)buf + got, c->rx.data() + c->rxPos, m);
			if (!(flags & MSG_PEEK)) c->rxPos += m;
			if (c->rxPos == c->rx.size()) { c->rx.clear(); c->rxPos = 0; }
			got += m;
			ev("recv.tcp", c->id, m);
			if ((flags & MSG_WAITALL) && got < n && !(flags & MSG_PEEK)) continue;
			return got;
		}
		if (c->rstErr) { if (got) return got; int e = c->rstErr; c->rstErr = 0; c->wasReset = true; c->finRx = true; return err(e); }
		return got;
	}
}

static ssize_t sendTcp(Sock* s, const uint8_t* p, size_t n, int flags) {
	TcpConn* c = s->conn;
	auto epipe = [&]() -> ssize_t {
		if (!(flags & MSG_NOSIGNAL)) { violate("*", "sigpipe", "send() on a broken connection without MSG_NOSIGNAL: SIGPIPE kills the process"); abandon(); }
		return err(EPIPE);
	};
	if (!c || c->st == TcpConn::SYN || c->st == TcpConn::FAILED) return c && c->st == TcpConn::SYN ? err(EAGAIN) : epipe();
	if (c->rstErr) { int e = c->rstErr; c->rstErr = 0; c->wasReset = true; c->finRx = true; return err(e); }
	if (c->wasReset || s->shutWr) return epipe();
	if (int e = k.failing("sysfail_send_tcp", {ENOBUFS, ECONNRESET, EHOSTUNREACH, ETIMEDOUT})) { c->malign++; return err(e); }
	bool nb = s->nonblock || (flags & MSG_DONTWAIT);
	size_t done = 0;
	bool cut = n > 0 && injecting() && k.cfg.shortWrite && chance(S, k.cfg.shortWrite, 64);
	size_t limit = n;
	if (cut) {
		limit = choose(S, (uint32_t)n);      // a signal arrives after `limit` bytes went out
		fault(limit ? "short_write" : "EINTR_send");
		if (!limit) return err(EINTR);
	}
	while (done < limit) {
		if (c->inflight >= k.cfg.sndbuf) {
			if (nb) break;
			int r = k.block([c, s] { return c->inflight < k.cfg.sndbuf || c->rstErr || c->wasReset || s->shutWr; }, s->sndtimeo < 0 ? -1 : k.now + s->sndtimeo, "send on a TCP socket");
			if (r == 1) { if (done) break; return err(EAGAIN); }
			if (r == 2) { if (done) break; return err(EINTR); }
			if (c->rstErr || c->wasReset) { if (done) break; int e = c->rstErr ? c->rstErr : EPIPE; c->rstErr = 0; c->wasReset = true; return err(e); }
			continue;
		}
		size_t m = std::min(limit - done, k.cfg.sndbuf - c->inflight);
		c->inflight += m;
		k.toHost(*c, {k.now + k.lat(), 0, Bytes(p + done, p + done + m), 0});
		done += m;
	}
	if (!done && n) return err(EAGAIN);
	c->bytesSent += done;
	ev("send.tcp", c->id, done);
	evData("tx", p, done);
	return done;
}

static ssize_t sendUdp(Sock* s, const uint8_t* p, size_t n, uint32_t ip, uint16_t port) {
	Bytes b(p, p + n);
	bool isB = ip == k.bcast || ip == 0xffffffffu;
	if (n > 65507) return err(EMSGSIZE);
	if (isB && !s->broadcast) { k.udpSendErrs++; if (k.onUdpSend) k.onUdpSend(ip, port, b, EACCES, false); return err(EACCES); }
	if (!s->bound) { s->bound = true; s->lport = k.ephemeral++; s->bindSeq = ++k.bindCount; }
	int e = k.failing("sysfail_sendto", {ENOBUFS, EPERM, ENETUNREACH, EHOSTUNREACH});
	if (!e && injecting() && k.cfg.sendErr && chance(S, k.cfg.sendErr, 64)) { e = pick<int>(S, {ENOBUFS, ENETUNREACH, EPERM, EAGAIN, EHOSTUNREACH, ENETDOWN, EMSGSIZE, EACCES, ECONNREFUSED}); fault("sendto_error"); }
	if (!e && !s->nonblock && injecting() && k.cfg.shortWrite && chance(S, k.cfg.shortWrite, 256)) { fault("EINTR_sendto"); return err(EINTR); }
	ev("send.udp", ip, port, n, e);
	if (e) k.udpSendErrs++; else k.udpSends++;
	evData("utx", p, n);
	if (k.onUdpSend) k.onUdpSend(ip, port, b, e, true);
	if (e) return err(e);
	Datagram d; d.src = CLIENT_IP; d.sport = s->lport; d.dst = ip; d.dport = port; d.data = b; d.no = ++k.dgNo;
	for (auto& [hip, h] : k.hosts) {
		if (!(isB || hip == ip)) continue;
		Host* host = h;
		if (!host->reachable) { fault("partition_drop"); continue; }
		if (injecting() && k.cfg.udpDrop && chance(N, k.cfg.udpDrop, 64)) { fault("udp_drop_c2s"); continue; }
		k.after(k.lat(), [host, d] { if (host->up) host->onUdp(d); });
	}
	return n;
}

static ssize_t doSend(int fd, const void* buf, size_t n, int flags, const sockaddr* to, socklen_t tl, const char* name) {
	k.syscall(name, fd);
	Sock* s = sock(fd, name);
	if (!s) return -1;
	if (!s->dgram) return sendTcp(s, (const uint8_t*)buf, n, flags);
	uint32_t ip = s->pip; uint16_t port = s->pport;
	if (to && tl >= sizeof(sockaddr_in)) { auto a = (const sockaddr_in*)to; ip = ntohl(a->sin_addr.s_addr); port = ntohs(a->sin_port); }
	else if (!s->udpPeer) return err(EDESTADDRREQ);
	return sendUdp(s, (const uint8_t*)buf, n, ip, port);
}

struct PollItem { int fd; bool rd, wr; bool r = false, w = false; };
static int doPoll(std::vector<PollItem>& v, int64_t timeoutNs, const char* name) {
	for (auto& p : v) if (!sock(p.fd, name)) return err(EBADF);
	if (int e = k.failing("sysfail_select", {ENOMEM})) { k.lastWaitReturn = k.now; return err(e); }
	auto scan = [&v] {
		int n = 0;
		for (auto& p : v) { Sock* s = k.get(p.fd); p.r = s && p.rd && s->readable(); p.w = s && p.wr && s->writable(); n += p.r + p.w; }
		return n;
	};
	int r = k.block([&] { return scan() > 0; }, timeoutNs < 0 ? -1 : k.now + timeoutNs, name);
	if (r == 2) return err(EINTR);
	int n = scan();
	ev("ready", n);
	return n;
}

static int doSelect(int nfds, fd_set* rs, fd_set* ws, fd_set* es, int64_t timeoutNs) {
	k.syscall("select", nfds);
	std::vector<PollItem> v;
	for (int fd = 0; fd < nfds && fd < FD_SETSIZE; fd++) {
		bool r = rs && FD_ISSET(fd, rs), w = ws && FD_ISSET(fd, ws);
		if (!r && !w) continue;
		if (!isSim(fd)) { foreign(fd, "select"); return -1; }
		v.push_back({fd, r, w});
	}
	int n = doPoll(v, timeoutNs, "select");
	if (n < 0) return n;
	if (rs) FD_ZERO(rs);
	if (ws) FD_ZERO(ws);
	if (es) FD_ZERO(es);
	for (auto& p : v) { if (p.r) FD_SET(p.fd, rs); if (p.w) FD_SET(p.fd, ws); }
	return n;
}

static int64_t tsNs(const timespec& t) { return (int64_t)t.tv_sec * SEC + t.tv_nsec; }
static void setTs(timespec* t, int64_t n) { t->tv_sec = n / SEC; t->tv_nsec = n % SEC; }
static const int64_t EPOCH = 1700000000LL * SEC;
static int64_t wall() { return EPOCH + k.now + k.wallOffset; }
static void clockRead() { k.now += 100; }

}  // namespace sim

using namespace sim;

#define REAL(name) __real_##name
extern "C" {

int REAL(socket)(int, int, int);
int __wrap_socket(int d, int t, int p) { Out out_;
	if (!k.active) return REAL(socket)(d, t, p);
	k.syscall("socket", t);
	if (int e = k.failing("sysfail_socket", {EMFILE, ENFILE, ENOBUFS, ENOMEM})) return err(e);
	bool dg = (t & 0xf) == SOCK_DGRAM;
	int fd = k.newFd(dg);
	if (fd < 0) return err(EMFILE);
	if (t & SOCK_NONBLOCK) k.get(fd)->nonblock = true;
	return fd;
}

int REAL(close)(int);
int __wrap_close(int fd) { Out out_;
	if (!k.active) return REAL(close)(fd);
	if (!isSim(fd)) return foreign(fd, "close");
	k.syscall("close", fd);
	Sock* s = sock(fd, "close");
	if (!s) return -1;
	auto unread = s->dgram && s->bound ? std::move(s->rxq) : decltype(s->rxq){};
	k.destroySock(*s);
	k.fds.erase(fd);
	k.closed++;
	if (k.onNoPort) for (auto& d : unread) k.onNoPort(d);
	// The descriptor is gone all the same, as in Linux; nothing may depend on the result.
	if (k.faultsOn && k.cfg.sysfail && chance(S, 1, 16)) { fault("sysfail_close"); return err(pick<int>(S, {EINTR, EIO})); }
	return 0;
}

int REAL(bind)(int, const sockaddr*, socklen_t);
int __wrap_bind(int fd, const sockaddr* a, socklen_t l) { Out out_;
	if (!k.active) return REAL(bind)(fd, a, l);
	if (!isSim(fd)) return foreign(fd, "bind");
	k.syscall("bind", fd);
	Sock* s = sock(fd, "bind");
	if (!s) return -1;
	if (int e = k.failing("sysfail_bind", {EADDRINUSE, ENOBUFS})) return err(e);
	auto in = (const sockaddr_in*)a;
	uint32_t ip = ntohl(in->sin_addr.s_addr);
	if (ip != 0 && ip != CLIENT_IP && ip != k.bcast) return err(EADDRNOTAVAIL);
	uint16_t port = ntohs(in->sin_port);
	if (!port) port = k.ephemeral++;
	for (auto& [f, o] : k.fds) if (o.get() != s && o->dgram && o->bound && o->lport == port && !(o->reuse && s->reuse)) return err(EADDRINUSE);
	s->bound = true; s->lport = port; s->bindSeq = ++k.bindCount;
	return 0;
}

int REAL(connect)(int, const sockaddr*, socklen_t);
int __wrap_connect(int fd, const sockaddr* a, socklen_t l) { Out out_;
	if (!k.active) return REAL(connect)(fd, a, l);
	if (!isSim(fd)) return foreign(fd, "connect");
	k.syscall("connect", fd);
	Sock* s = sock(fd, "connect");
	if (!s) return -1;
	auto in = (const sockaddr_in*)a;
	uint32_t ip = ntohl(in->sin_addr.s_addr); uint16_t port = ntohs(in->sin_port);
	if (s->dgram) { s->udpPeer = true; s->pip = ip; s->pport = port; if (!s->bound) { s->bound = true; s->lport = k.ephemeral++; s->bindSeq = ++k.bindCount; } return 0; }
	if (s->conn) {
		if (s->connecting) return err(EALREADY);
		if (s->conn->st == TcpConn::FAILED) { int e = s->soError ? s->soError : ECONNABORTED; s->soError = 0; return err(e); }
		return err(EISCONN);
	}
	if (int e = k.failing("sysfail_connect", {ENETUNREACH, EADDRNOTAVAIL, ECONNREFUSED, EHOSTUNREACH})) return err(e);
	startConnect(*s, ip, port);
	TcpConn* c = s->conn;
	if (s->nonblock) {
		if (injecting() && k.cfg.connectNow && chance(S, k.cfg.connectNow, 64)) {
			int64_t end = k.now + 2 * k.cfg.latMax + 10;
			if (end - k.now < 2 * MS) { k.advance(end - k.now); if (!s->connecting && c->st == TcpConn::OPEN) { fault("connect_immediate"); return 0; } }
		}
		return err(EINPROGRESS);
	}
	int r = k.block([s] { return !s->connecting; }, s->sndtimeo < 0 ? k.now + 127 * SEC : k.now + s->sndtimeo, "connect");
	if (r == 2) return err(EINTR);
	if (r == 1) return err(s->sndtimeo < 0 ? ETIMEDOUT : EINPROGRESS);
	if (c->st == TcpConn::FAILED) { int e = s->soError; s->soError = 0; return err(e); }
	return 0;
}

int REAL(shutdown)(int, int);
int __wrap_shutdown(int fd, int how) { Out out_;
	if (!k.active) return REAL(shutdown)(fd, how);
	if (!isSim(fd)) return foreign(fd, "shutdown");
	k.syscall("shutdown", fd);
	Sock* s = sock(fd, "shutdown");
	if (!s) return -1;
	if (s->dgram) return s->udpPeer ? 0 : err(ENOTCONN);
	if (!s->conn || s->conn->st != TcpConn::OPEN || s->conn->wasReset) return err(ENOTCONN);
	if (how == SHUT_RD || how == SHUT_RDWR) s->shutRd = true;
	if ((how == SHUT_WR || how == SHUT_RDWR) && !s->shutWr) {
		s->shutWr = true; s->conn->clientFin = true;
		if (s->conn->hostOpen) k.toHost(*s->conn, {k.now + k.lat(), 1, {}, 0});
	}
	return 0;
}

int REAL(listen)(int, int);
int __wrap_listen(int fd, int b) { Out out_; if (!k.active) return REAL(listen)(fd, b); return err(EOPNOTSUPP); }
int REAL(accept)(int, sockaddr*, socklen_t*);
int __wrap_accept(int fd, sockaddr* a, socklen_t* l) { Out out_; if (!k.active) return REAL(accept)(fd, a, l); return err(EOPNOTSUPP); }

ssize_t REAL(recv)(int, void*, size_t, int);
ssize_t __wrap_recv(int fd, void* b, size_t n, int f) { Out out_;
	if (!k.active) return REAL(recv)(fd, b, n, f);
	if (!isSim(fd)) return foreign(fd, "recv");
	return doRecv(fd, b, n, f, nullptr, nullptr, "recv");
}
ssize_t REAL(recvfrom)(int, void*, size_t, int, sockaddr*, socklen_t*);
ssize_t __wrap_recvfrom(int fd, void* b, size_t n, int f, sockaddr* a, socklen_t* l) { Out out_;
	if (!k.active) return REAL(recvfrom)(fd, b, n, f, a, l);
	if (!isSim(fd)) return foreign(fd, "recvfrom");
	return doRecv(fd, b, n, f, a, l, "recvfrom");
}
ssize_t REAL(recvmsg)(int, msghdr*, int);
ssize_t __wrap_recvmsg(int fd, msghdr* m, int f) { Out out_;
	if (!k.active) return REAL(recvmsg)(fd, m, f);
	if (!isSim(fd)) return foreign(fd, "recvmsg");
	size_t tot = 0;
	for (size_t i = 0; i < m->msg_iovlen; i++) tot += m->msg_iov[i].iov_len;
	Bytes tmp(tot + 1);
	socklen_t nl = m->msg_namelen;
	ssize_t r = doRecv(fd, tmp.data(), tot, f | MSG_TRUNC, m->msg_name ? (sockaddr*)m->msg_name : nullptr, m->msg_name ? &nl : nullptr, "recvmsg");
	if (r < 0) return r;
	m->msg_namelen = nl; m->msg_flags = 0;
	if ((size_t)r > tot) { m->msg_flags |= MSG_TRUNC; if (!(f & MSG_TRUNC)) r = tot; }
	size_t p = 0, c = std::min((size_t)r, tot);
	for (size_t i = 0; i < m->msg_iovlen && p < c; i++) { size_t q = std::min(m->msg_iov[i].iov_len, c - p); memcpy(m->msg_iov[i].iov_base, tmp.data() + p, q); p += q; }
	return r;
}
ssize_t REAL(read)(int, void*, size_t);
ssize_t __wrap_read(int fd, void* b, size_t n) { Out out_; if (!isSim(fd)) return REAL(read)(fd, b, n); return doRecv(fd, b, n, 0, nullptr, nullptr, "read"); }

ssize_t REAL(send)(int, const void*, size_t, int);
ssize_t __wrap_send(int fd, const void* b, size_t n, int f) { Out out_;
	if (!k.active) return REAL(send)(fd, b, n, f);
	if (!isSim(fd)) return foreign(fd, "send");
	return doSend(fd, b, n, f, nullptr, 0, "send");
}
ssize_t REAL(sendto)(int, const void*, size_t, int, const sockaddr*, socklen_t);
ssize_t __wrap_sendto(int fd, const void* b, size_t n, int f, const sockaddr* a, socklen_t l) { Out out_;
	if (!k.active) return REAL(sendto)(fd, b, n, f, a, l);
	if (!isSim(fd)) return foreign(fd, "sendto");
	return doSend(fd, b, n, f, a, l, "sendto");
}
ssize_t REAL(sendmsg)(int, const msghdr*, int);
ssize_t __wrap_sendmsg(int fd, const msghdr* m, int f) { Out out_;
	if (!k.active) return REAL(sendmsg)(fd, m, f);
	if (!isSim(fd)) return foreign(fd, "sendmsg");
	Bytes b;
	for (size_t i = 0; i < m->msg_iovlen; i++) { auto p = (const uint8_t*)m->msg_iov[i].iov_base; b.insert(b.end(), p, p + m->msg_iov[i].iov_len); }
	return doSend(fd, b.data(), b.size(), f, (const sockaddr*)m->msg_name, m->msg_namelen, "sendmsg");
}
ssize_t REAL(write)(int, const void*, size_t);
ssize_t __wrap_write(int fd, const void* b, size_t n) { Out out_; if (!isSim(fd)) return REAL(write)(fd, b, n); return doSend(fd, b, n, 0, nullptr, 0, "write"); }
ssize_t REAL(writev)(int, const iovec*, int);
ssize_t __wrap_writev(int fd, const iovec* v, int c) { Out out_;
	if (!isSim(fd)) return REAL(writev)(fd, v, c);
	Bytes b;
	for (int i = 0; i < c; i++) { auto p = (const uint8_t*)v[i].iov_base; b.insert(b.end(), p, p + v[i].iov_len); }
	return doSend(fd, b.data(), b.size(), 0, nullptr, 0, "writev");
}

int REAL(select)(int, fd_set*, fd_set*, fd_set*, timeval*);
int __wrap_select(int n, fd_set* r, fd_set* w, fd_set* e, timeval* t) { Out out_;
	if (!k.active) return REAL(select)(n, r, w, e, t);
	if (t && (t->tv_sec < 0 || t->tv_usec < 0 || t->tv_usec >= 1000000)) return err(EINVAL);
	int64_t start = k.now, to = t ? (int64_t)t->tv_sec * SEC + (int64_t)t->tv_usec * US : -1;
	int rc = doSelect(n, r, w, e, to);
	if (t) { int64_t left = std::max<int64_t>(0, to - (k.now - start)); t->tv_sec = left / SEC; t->tv_usec = (left % SEC) / US; }   // as Linux does
	return rc;
}
int REAL(pselect)(int, fd_set*, fd_set*, fd_set*, const timespec*, const sigset_t*);
int __wrap_pselect(int n, fd_set* r, fd_set* w, fd_set* e, const timespec* t, const sigset_t* m) { Out out_;
	if (!k.active) return REAL(pselect)(n, r, w, e, t, m);
	return doSelect(n, r, w, e, t ? tsNs(*t) : -1);
}
static int pollNs(pollfd* p, nfds_t n, int64_t to) {
	k.syscall("poll", n);
	std::vector<PollItem> v;
	for (nfds_t i = 0; i < n; i++) {
		p[i].revents = 0;
		if (p[i].fd < 0) continue;
		if (!isSim(p[i].fd)) return foreign(p[i].fd, "poll");
		v.push_back({p[i].fd, (p[i].events & (POLLIN | POLLRDNORM)) != 0, (p[i].events & (POLLOUT | POLLWRNORM)) != 0});
	}
	int rc = doPoll(v, to, "poll");
	if (rc < 0) return rc;
	int c = 0; size_t j = 0;
	for (nfds_t i = 0; i < n; i++) {
		if (p[i].fd < 0) continue;
		auto& x = v[j++];
		if (x.r) p[i].revents |= p[i].events & (POLLIN | POLLRDNORM);
		if (x.w) p[i].revents |= p[i].events & (POLLOUT | POLLWRNORM);
		Sock* s = k.get(x.fd);
		if (s && !s->dgram && (s->soError || (s->conn && s->conn->rstErr))) p[i].revents |= POLLERR;
		if (p[i].revents) c++;
	}
	return c;
}
int REAL(poll)(pollfd*, nfds_t, int);
int __wrap_poll(pollfd* p, nfds_t n, int t) { Out out_; if (!k.active) return REAL(poll)(p, n, t); return pollNs(p, n, t < 0 ? -1 : (int64_t)t * MS); }
int REAL(ppoll)(pollfd*, nfds_t, const timespec*, const sigset_t*);
int __wrap_ppoll(pollfd* p, nfds_t n, const timespec* t, const sigset_t* m) { Out out_; if (!k.active) return REAL(ppoll)(p, n, t, m); return pollNs(p, n, t ? tsNs(*t) : -1); }

int REAL(setsockopt)(int, int, int, const void*, socklen_t);
int __wrap_setsockopt(int fd, int lv, int op, const void* v, socklen_t l) { Out out_;
	if (!k.active) return REAL(setsockopt)(fd, lv, op, v, l);
	if (!isSim(fd)) return foreign(fd, "setsockopt");
	k.syscall("setsockopt", op);
	Sock* s = sock(fd, "setsockopt");
	if (!s) return -1;
	if (lv != SOL_SOCKET) return 0;
	if (op == SO_RCVTIMEO || op == SO_SNDTIMEO) {
		if (l < sizeof(timeval)) return err(EINVAL);
		if (int e = k.failing("sysfail_setsockopt_timeout", {ENOMEM, ENOBUFS})) return err(e);
		timeval t; memcpy(&t, v, sizeof t);
		if (t.tv_usec < 0 || t.tv_usec >= 1000000) return err(EDOM);
		int64_t n = (int64_t)t.tv_sec * SEC + (int64_t)t.tv_usec * US;
		(op == SO_RCVTIMEO ? s->rcvtimeo : s->sndtimeo) = n > 0 ? n : -1;
		return 0;
	}
	if (op == SO_REUSEADDR || op == SO_BROADCAST) {
		if (int e = k.failing("sysfail_setsockopt", {ENOBUFS, ENOMEM})) return err(e);
		int x = 0; memcpy(&x, v, std::min<size_t>(l, sizeof x));
		(op == SO_REUSEADDR ? s->reuse : s->broadcast) = x != 0;
	}
	return 0;
}
int REAL(getsockopt)(int, int, int, void*, socklen_t*);
int __wrap_getsockopt(int fd, int lv, int op, void* v, socklen_t* l) { Out out_;
	if (!k.active) return REAL(getsockopt)(fd, lv, op, v, l);
	if (!isSim(fd)) return foreign(fd, "getsockopt");
	k.syscall("getsockopt", op);
	Sock* s = sock(fd, "getsockopt");
	if (!s) return -1;
	int x = 0;
	if (lv == SOL_SOCKET && op == SO_ERROR) { x = s->soError; s->soError = 0; if (!x && s->conn && s->conn->rstErr) x = s->conn->rstErr; }
	else if (lv == SOL_SOCKET && op == SO_TYPE) x = s->dgram ? SOCK_DGRAM : SOCK_STREAM;
	if (*l >= sizeof(int)) { memcpy(v, &x, sizeof x); *l = sizeof x; }
	return 0;
}
static int doFcntl(int fd, int cmd, long arg) {
	k.syscall("fcntl", cmd);
	Sock* s = sock(fd, "fcntl");
	if (!s) return -1;
	if (int e = k.failing("sysfail_fcntl", {EINVAL})) return err(e);
	switch (cmd) {
		case F_GETFL: return O_RDWR | (s->nonblock ? O_NONBLOCK : 0);
		case F_SETFL: s->nonblock = (arg & O_NONBLOCK) != 0; return 0;
		default: return 0;
	}
}
int REAL(fcntl)(int, int, ...);
int __wrap_fcntl(int fd, int cmd, ...) { Out out_;
	va_list ap; va_start(ap, cmd); long arg = va_arg(ap, long); va_end(ap);
	if (!isSim(fd)) { if (k.active) return foreign(fd, "fcntl"); return REAL(fcntl)(fd, cmd, arg); }
	return doFcntl(fd, cmd, arg);
}
int REAL(fcntl64)(int, int, ...);
int __wrap_fcntl64(int fd, int cmd, ...) { Out out_;
	va_list ap; va_start(ap, cmd); long arg = va_arg(ap, long); va_end(ap);
	if (!isSim(fd)) { if (k.active) return foreign(fd, "fcntl"); return REAL(fcntl64)(fd, cmd, arg); }
	return doFcntl(fd, cmd, arg);
}
int REAL(ioctl)(int, unsigned long, ...);
int __wrap_ioctl(int fd, unsigned long req, ...) { Out out_;
	va_list ap; va_start(ap, req); void* arg = va_arg(ap, void*); va_end(ap);
	if (!isSim(fd)) { if (k.active) return foreign(fd, "ioctl"); return REAL(ioctl)(fd, req, arg); }
	k.syscall("ioctl", req);
	Sock* s = sock(fd, "ioctl");
	if (!s) return -1;
	if (req == FIONBIO) { s->nonblock = *(int*)arg != 0; return 0; }
	if (req == FIONREAD) { *(int*)arg = s->dgram ? (s->rxq.empty() ? 0 : s->rxq.front().data.size()) : (s->conn ? s->conn->avail() : 0); return 0; }
	return err(EINVAL);
}
int REAL(getsockname)(int, sockaddr*, socklen_t*);
int __wrap_getsockname(int fd, sockaddr* a, socklen_t* l) { Out out_;
	if (!k.active) return REAL(getsockname)(fd, a, l);
	Sock* s = sock(fd, "getsockname");
	if (!s) return -1;
	sockaddr_in in{}; in.sin_family = AF_INET; in.sin_port = htons(s->lport); in.sin_addr.s_addr = htonl(s->conn ? CLIENT_IP : 0);
	memcpy(a, &in, std::min<size_t>(*l, sizeof in)); *l = sizeof in;
	return 0;
}
int REAL(getpeername)(int, sockaddr*, socklen_t*);
int __wrap_getpeername(int fd, sockaddr* a, socklen_t* l) { Out out_;
	if (!k.active) return REAL(getpeername)(fd, a, l);
	Sock* s = sock(fd, "getpeername");
	if (!s) return -1;
	if (!s->conn || s->conn->st != TcpConn::OPEN || s->conn->wasReset) return err(ENOTCONN);
	sockaddr_in in{}; in.sin_family = AF_INET; in.sin_port = htons(s->conn->port); in.sin_addr.s_addr = htonl(s->conn->host->ip);
	memcpy(a, &in, std::min<size_t>(*l, sizeof in)); *l = sizeof in;
	return 0;
}

// ---- clocks -------------------------------------------------------------------
int REAL(clock_gettime)(clockid_t, timespec*);
int __wrap_clock_gettime(clockid_t c, timespec* t) { Out out_;
	if (!k.active) return REAL(clock_gettime)(c, t);
	clockRead();
	setTs(t, (c == CLOCK_REALTIME || c == CLOCK_REALTIME_COARSE) ? wall() : k.now);
	return 0;
}
int REAL(gettimeofday)(timeval*, void*);
int __wrap_gettimeofday(timeval* t, void* z) { Out out_;
	if (!k.active) return REAL(gettimeofday)(t, z);
	clockRead();
	t->tv_sec = wall() / SEC; t->tv_usec = wall() % SEC / US;
	return 0;
}
time_t REAL(time)(time_t*);
time_t __wrap_time(time_t* t) { Out out_; if (!k.active) return REAL(time)(t); clockRead(); time_t x = wall() / SEC; if (t) *t = x; return x; }
static int sleepNs(int64_t n, timespec* rem) {
	k.syscall("sleep", n / US);
	int64_t end = k.now + n;
	int r = k.block([] { return false; }, end, "sleep");
	if (r == 2) { if (rem) setTs(rem, std::max<int64_t>(0, end - k.now)); return EINTR; }
	return 0;
}
int REAL(nanosleep)(const timespec*, timespec*);
int __wrap_nanosleep(const timespec* t, timespec* rem) { Out out_; if (!k.active) return REAL(nanosleep)(t, rem); int e = sleepNs(tsNs(*t), rem); return e ? err(e) : 0; }
int REAL(clock_nanosleep)(clockid_t, int, const timespec*, timespec*);
int __wrap_clock_nanosleep(clockid_t c, int f, const timespec* t, timespec* rem) { Out out_;
	if (!k.active) return REAL(clock_nanosleep)(c, f, t, rem);
	int64_t n = tsNs(*t);
	if (f & TIMER_ABSTIME) n = std::max<int64_t>(0, n - (c == CLOCK_REALTIME ? wall() : k.now));
	return sleepNs(n, rem);
}
int REAL(usleep)(useconds_t);
int __wrap_usleep(useconds_t u) { Out out_; if (!k.active) return REAL(usleep)(u); int e = sleepNs((int64_t)u * US, nullptr); return e ? err(e) : 0; }
unsigned REAL(sleep)(unsigned);
unsigned __wrap_sleep(unsigned s) { Out out_; if (!k.active) return REAL(sleep)(s); sleepNs((int64_t)s * SEC, nullptr); return 0; }

using SteadyTP = std::chrono::steady_clock::time_point;
using SystemTP = std::chrono::system_clock::time_point;
SteadyTP REAL(_ZNSt6chrono3_V212steady_clock3nowEv)();
SteadyTP __wrap__ZNSt6chrono3_V212steady_clock3nowEv() { Out out_;
	if (!k.active) return REAL(_ZNSt6chrono3_V212steady_clock3nowEv)();
	clockRead();
	return SteadyTP(std::chrono::nanoseconds(k.now));
}
SystemTP REAL(_ZNSt6chrono3_V212system_clock3nowEv)();
SystemTP __wrap__ZNSt6chrono3_V212system_clock3nowEv() { Out out_;
	if (!k.active) return REAL(_ZNSt6chrono3_V212system_clock3nowEv)();
	clockRead();
	return SystemTP(std::chrono::nanoseconds(wall()));
}

// ---- randomness ---------------------------------------------------------------
void __wrap__ZNSt13random_device7_M_initERKNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEE(void*, const std::string&) {}
void __wrap__ZNSt13random_device7_M_finiEv(void*) {}
unsigned __wrap__ZNSt13random_device9_M_getvalEv(void*) { Out out_; unsigned v = sim::u32(sim::S); ev("random", v); return v; }
ssize_t REAL(getrandom)(void*, size_t, unsigned);
ssize_t __wrap_getrandom(void* b, size_t n, unsigned f) { Out out_; if (!k.active) return REAL(getrandom)(b, n, f); Bytes x = bytes(S, n); memcpy(b, x.data(), n); return n; }
int REAL(rand)(void);
int __wrap_rand(void) { Out out_; if (!k.active) return REAL(rand)(); return (int)(u32(S) & 0x7fffffff); }

}  // extern "C"
