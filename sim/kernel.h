// Simulated operating system and network: clocks, timers, sockets, signals, faults.
#pragma once
#include "core.h"
#include "alloc.h"
#include <deque>
#include <map>
#include <memory>
#include <queue>
#include <set>
#include <unordered_map>

namespace sim {

constexpr int64_t US = 1000, MS = 1000000, SEC = 1000000000;
constexpr int FD_BASE = 100, FD_HIGH = 1010, FD_END = 1500;   // 1000..1009 are kept for the harness
constexpr uint32_t ip4(int a, int b, int c, int d) { return ((uint32_t)a << 24) | (b << 16) | (c << 8) | d; }
constexpr uint32_t CLIENT_IP = ip4(10, 0, 0, 200);
std::string ipStr(uint32_t ip);

struct Host;
struct Sock;

struct TcpConn {
	int id;
	Host* host;
	uint16_t port;
	Sock* sock = nullptr;          // client side, null once the client closed its descriptor
	enum St { SYN, OPEN, FAILED, DEAD } st = SYN;
	Bytes rx; size_t rxPos = 0;    // arrived, unread by the client
	bool finRx = false;            // peer closed, visible to the client after rx
	int rstErr = 0;                // pending socket error
	bool wasReset = false;
	bool clientFin = false;        // client shut down / closed its writing side
	bool hostOpen = false;         // device still holds the connection
	bool notReading = false;       // device does not read any more
	bool linger = false;           // device gone: answer data with RST
	size_t inflight = 0;           // bytes accepted by send() the device has not read
	int64_t c2sLast = 0, s2cLast = 0;
	int64_t lastEvent = 0;         // last thing the client could have noticed on this connection
	int64_t lastRx = 0;            // last time the peer was heard on it
	uint32_t malign = 0;           // faults injected on this connection that may make a call fail
	uint64_t bytesSent = 0;        // accepted from the client
	struct Seg { int64_t t; int kind; Bytes b; int err; };   // kind: 0 data, 1 FIN, 2 RST, 3 connection result
	std::deque<Seg> s2c, c2s; bool s2cPump = false, c2sPump = false;
	size_t avail() const { return rx.size() - rxPos; }
};

struct Datagram {
	uint32_t src; uint16_t sport; uint32_t dst; uint16_t dport;
	Bytes data;
	int64_t at = 0;
	uint64_t no = 0;
	int tag = 0;                   // producer-defined
	bool irregular = false;        // duplicate copy, or overtaken by a later datagram of the same sender
};

struct Sock {
	int fd; bool dgram;
	bool nonblock = false; int64_t rcvtimeo = -1, sndtimeo = -1;
	bool reuse = false, broadcast = false;
	bool bound = false; uint16_t lport = 0; uint64_t bindSeq = 0;
	std::deque<Datagram> rxq;
	bool udpPeer = false; uint32_t pip = 0; uint16_t pport = 0;
	TcpConn* conn = nullptr; bool connecting = false; int soError = 0;
	bool shutRd = false, shutWr = false;
	bool readable() const;
	bool writable() const;
};

// A node of the network (a device).
struct Host {
	uint32_t ip = 0;
	bool up = true;            // powered
	bool reachable = true;     // not partitioned from the client
	virtual ~Host() = default;
	enum Accept { YES, REFUSE, IGNORE_SYN };
	virtual Accept onConnect(TcpConn&) { return REFUSE; }
	virtual void onOpen(TcpConn&) {}
	virtual void onData(TcpConn&, const Bytes&) {}
	virtual void onClosed(TcpConn&, bool /*reset*/) {}
	virtual void onUdp(const Datagram&) {}
};

struct Config {
	int64_t latMin = 200 * US, latMax = 200 * US;     // one-way
	int64_t cost = 1 * US;                            // per system call
	uint32_t eintr = 0;        // /64 per blocking call
	int64_t sigPeriod = 0;     // an interval timer interrupts blocking calls
	uint32_t shortWrite = 0;   // /64 per TCP send
	uint32_t segment = 0;      // /64 per TCP reply: split into segments
	int64_t segGap = 0;        // max gap between segments
	uint32_t udpDrop = 0, udpDup = 0, udpDelay = 0;   // /64 per datagram
	int64_t udpDelayMax = 0;
	uint32_t sysfail = 0;      // /256 per fallible system call
	uint32_t allocfail = 0;    // allocations of the library fail, on average one of 2000 / allocfail
	uint32_t sendErr = 0;      // /64 per UDP send
	int fdBase = FD_BASE;      // lowest free descriptor, above it they are dense
	uint32_t connectSlow = 0;  // /64: connection takes up to connectSlowMax to establish
	int64_t connectSlowMax = 0;
	uint32_t oversleep = 0;    // /64 per blocking call: the process is scheduled late
	int64_t oversleepMax = 0;
	size_t sndbuf = 1 << 17;
	size_t rcvbufDgrams = 400;
	uint32_t connectNow = 0;   // /64: connect completes immediately
};

struct Kernel {
	bool active = false;
	int64_t now = 0, start = 0;
	Config cfg;
	bool faultsOn = true;      // master switch of the probabilistic faults in cfg

	struct Ev { int64_t t; uint64_t seq; std::function<void()> fn; };
	struct Cmp { bool operator()(const Ev& a, const Ev& b) const { return a.t != b.t ? a.t > b.t : a.seq > b.seq; } };
	std::priority_queue<Ev, std::vector<Ev>, Cmp> q;
	uint64_t evSeq = 0;
	void at(int64_t t, std::function<void()> fn) { q.push(Ev{t < now ? now : t, evSeq++, std::move(fn)}); }
	void after(int64_t d, std::function<void()> fn) { at(now + d, std::move(fn)); }
	bool runDue();                        // runs events due at or before now
	void advance(int64_t d);              // the application computes / sleeps for d
	void syscall(const char* name, int64_t a = 0);
	int block(const std::function<bool()>& ready, int64_t deadline, const char* what);   // 0 ready, 1 deadline, 2 EINTR

	std::map<uint32_t, Host*> hosts;
	std::map<int, std::unique_ptr<Sock>> fds;
	std::vector<std::unique_ptr<TcpConn>> conns;
	std::set<int> everOpened;
	uint64_t bindCount = 0, dgNo = 0; uint16_t ephemeral = 49152;
	std::map<uint64_t, uint64_t> maxSeen;   // per sender: highest datagram number arrived
	int64_t lastWaitReturn = 0;   // last time select/poll/recv returned to the application
	int64_t lastNetEvent = 0;     // last time something arrived for the client, or a signal
	int64_t lateNs = 0;           // total lateness injected by oversleeping
	int64_t stallLeft = 0;        // how much longer the process may be stalled during the current library call
	int64_t wallOffset = 0;       // system clock minus simulated time
	int opened = 0, closed = 0;
	uint64_t eintrs = 0;
	uint64_t udpSendErrs = 0, udpSends = 0;
	uint64_t sysfails = 0;        // injected failures of system calls and allocations so far
	uint64_t allocfails = 0;      // those of allocations
	uint64_t syscalls = 0;        // system calls made so far
	int64_t allocLeft = 0;        // allocations until the next one that fails
	uint32_t rdBase = 0;
	uint64_t stepCap = 4000000;
	uint32_t bcast = ip4(10, 0, 0, 255);

	// device side
	void tcpToClient(TcpConn& c, const Bytes& b, int64_t delay, const std::vector<std::pair<size_t, int64_t>>* cuts = nullptr);
	void tcpFin(TcpConn& c, int64_t delay);
	void tcpRst(TcpConn& c, int64_t delay, int err);
	void udpToClient(uint32_t src, uint16_t sport, uint16_t dport, const Bytes& b, int tag, bool faulty = true, int64_t delay = 0);
	int64_t lat(Stream s = N);
	void hostCrash(Host& h);                    // drops all of its connections, silently
	void pumpS2C(TcpConn& c); void pumpC2S(TcpConn& c);
	void toClient(TcpConn& c, TcpConn::Seg s); void toHost(TcpConn& c, TcpConn::Seg s);

	// hooks for oracles
	std::function<void(const Datagram&)> onConsume, onArrive, onOverflow, onNoPort;
	std::function<void(uint32_t ip, uint16_t port, const Bytes&, int err, bool bcastOk)> onUdpSend;
	std::function<void(TcpConn&)> onTcpConnect;

	Sock* get(int fd);
	int newFd(bool dgram);
	void destroySock(Sock& s);
	void deliverUdp(Datagram d);
	void shortOfMemory(uint32_t rate);          // allocations of the library fail from now on
	int failing(const char* what, std::initializer_list<int> errs);   // errno to fail with, or 0
	void finalChecks();
};
extern Kernel k;
bool injecting();

}  // namespace sim
