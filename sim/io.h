// Implicit (I/O) messaging: the library's connection manager against simulated targets, with a reference model.
#pragma once
#include "world.h"
#include "scenarios.h"
#include "ConnectionManager.h"
#include <deque>

namespace sim {

struct Expect { uint32_t header; uint16_t seq; Bytes data; bool must; };

struct IoModel {                 // what the user of one connection is entitled to
	int no = 0;
	eipScanner::IOConnection::WPtr wp;
	eipScanner::IOConnection::SPtr held;
	IoConn* tgt = nullptr; Adapter* dev = nullptr;
	uint32_t t2oId = 0, o2tId = 0, dstIp = 0; uint16_t dstPort = 0; bool idKnown = false;
	bool open = true, unsure = false, p2p = false;
	bool cls1 = false, o2tRt = false, t2oRt = false, o2tFixed = true, t2oFixed = true;
	size_t o2tSize = 0, t2oSize = 0;
	int64_t TO = 0, api = 0;
	bool recvSet = false, sendSet = false, closeSet = false;
	int recvGen = 0, sendGen = 0, closeGen = 0;
	int closeCalls = 0;
	bool inClose = false, closeSetInHandle = false, userClosed = false, closing = false, closedInHandle = false;
	std::deque<Expect> exp;
	// watchdog
	int64_t lastTickLB = 0, lbStart = 0, ubStart = 0;
	bool fed = false; int64_t fedUB = 0; bool mayFed = false;
	uint64_t ticks = 0;          // since the watchdog was last fed
	// output
	Bytes data; int64_t lbReset = 0, ubReset = 0; uint64_t outTicks = 0, skipped = 0;
	bool anySent = false; uint32_t lastSeq32 = 0; uint16_t lastSeq16 = 0;
	bool due = false; int slots = 0; int sends = 0; bool mismatchedThisHandle = false;
	bool openedInHandle = false;
	uint64_t delivered = 0, sent = 0; int closeCallsBefore = 0; bool openAtBegin = false;
	int sendScript = 0;          // what the send listener does
};

struct IoWorld {
	World w;
	std::unique_ptr<eipScanner::ConnectionManager> cm;
	std::deque<IoModel> conns;
	bool reentrant = false;      // callbacks call back into the library
	bool inHandle = false; int64_t handleBegin = 0; bool explicitInHandle = false; int64_t cbTime = 0;
	int depth = 0;               // inside a callback
	int maxConns = 4;
	bool clashed = false;        // the last open failed because its identifier was in use or its size does not fit
	uint32_t throwOdds = 0;      // /64 per call of a listener
	uint32_t throwWho = 7;       // 1: receive, 2: send, 4: close listeners
	std::string thrown;          // what a listener threw during this handling call
	int throws = 0;
	void maybeThrow(uint32_t who);
	bool calm = false;           // no more deliberate changes

	void start(const char* name, int ndev, std::initializer_list<Mode> modes);
	Sess* sessionFor(Adapter& d);
	IoModel* open(Sess& s, bool plain = false);
	void close(IoModel& m, Sess& s);
	void handle(int64_t timeoutMs);
	void setData(IoModel& m, int kind);
	void listenRecv(IoModel& m); void listenSend(IoModel& m); void listenClose(IoModel& m);
	IoModel* pickOpen();
	void checkHasOpen(const char* when);
	void stray();
	void wearOut(Sess& s);       // hundreds of opens that are refused: serial numbers grow
	void renew();                // the application destroys its connection manager and makes a new one
	void end();
	// callbacks
	void onRecv(int no, int gen, uint32_t h, uint16_t s, const std::vector<uint8_t>& d);
	void onSend(int no, int gen, std::vector<uint8_t>& d);
	void onClose(int no, int gen);
	void react(IoModel& m, const char* where);
	void consume(const Datagram& d);
	void unheard(const Datagram& d);
	void sentUdp(uint32_t ip, uint16_t port, const Bytes& b);
	void afterTick(IoModel& m, int64_t lb, int64_t ub, bool ok);
	void markClosed(IoModel& m);
	const char* blame(const IoModel& m, const char* props);   // a healthy connection suffers while another is in trouble
	bool refused = false;        // an open failed or was rejected
	bool strayed = false;        // strangers have sent datagrams
	IoModel* byId(uint32_t t2o);
	eipScanner::cip::connectionManager::ConnectionParameters drawParams(bool large, bool plain, IoModel& m);
	std::function<void(eipScanner::cip::connectionManager::ConnectionParameters&)> tweak;
};

}  // namespace sim
