// Common ground of the scenarios: swarm configuration, sessions, and the oracle of explicit messaging.
#pragma once
#include "device.h"
#include "SessionInfo.h"
#include "MessageRouter.h"
#include "utils/Logger.h"
#include <chrono>
#include <exception>
#include <memory>
#include <system_error>
#include <typeinfo>

namespace sim {

enum class Mode { CLEAN, BENIGN, MALIGN, SYSFAIL };
const char* modeName(Mode m);

struct OddException { std::string what; };      // applications may throw anything
struct Outcome { bool ok = true; std::string what, sig;      // sig: with the type of what was thrown
	 int code = 0; bool system = false; int64_t t0 = 0, t1 = 0; int64_t late0 = 0; uint64_t sysfails0 = 0, eintrs0 = 0, allocfails0 = 0; };

// Runs one call of the library's API; anything but a std::exception that comes out of it is a violation.
template <class F> Outcome guard(const char* name, F&& f) {
	Outcome o; o.t0 = k.now; o.late0 = k.lateNs; k.stallLeft = 60 * MS; o.sysfails0 = k.sysfails; o.eintrs0 = k.eintrs; o.allocfails0 = k.allocfails;
	ev(name, 1);
	try { In in_; f(); }
	catch (const std::system_error& e) { o.ok = false; o.system = true; o.what = e.what(); o.code = e.code().value(); o.sig = o.what + " (" + typeid(e).name() + ")"; }
	catch (const std::exception& e) { o.ok = false; o.what = e.what(); o.sig = o.what + " (" + typeid(e).name() + ")"; }
	catch (const OddException& e) { o.ok = false; o.what = e.what; o.sig = o.what + " (odd)"; }
	catch (...) { o.ok = false; o.what = "(not a std::exception)"; violate("*", "odd-exception", "%s threw something that is not a std::exception", name); }
	o.t1 = k.now;
	ev(name, o.ok ? 2 : 3);
	if (!o.ok) say("%s threw: %s", name, o.what.c_str());
	return o;
}

// Throws some exception as a listener of the application may do; `sig` tells which.
[[noreturn]] void throwSomething(const std::string& what, std::string& sig);

struct Request {                 // a request as the caller made it
	uint8_t service = 0; int cls = 0, inst = -1, attr = -1; Bytes data; std::vector<Item> items; bool path8 = false;
};

struct Sess {
	int id = 0;
	std::shared_ptr<eipScanner::SessionInfo> si;
	Adapter* dev = nullptr;
	TcpConn* conn = nullptr;
	int64_t timeout = SEC;
	bool dead = false;           // a fault hit the connection: later calls may fail
	bool tainted = false;        // bytes were altered on the wire: the stream means nothing any more
	bool partition = false;
	std::vector<Request> made; size_t matched = 0;   // requests made on it; those before `matched` were seen or overtaken
	size_t ledgerPos = 0;
	Rx* current = nullptr;       // ledger entry of the last request made
	uint32_t soft = 0;           // faults on the connection that leave it usable
	bool live() const { return si && !dead && !tainted && conn->malign <= soft; }
};

struct World {
	Mode mode = Mode::CLEAN;
	std::deque<Adapter> devs;
	std::deque<std::unique_ptr<Sess>> sess;
	TcpConn* lastConn = nullptr;
	int64_t slack = 0;
	bool checkRequests = true;   // match the device's ledger against Sess::made

	void setup(const char* scenario, int ndev, std::initializer_list<Mode> modes);
	void finish();               // closes sessions, drains, final checks

	Sess* open(Adapter& d, int64_t timeout, bool mustBeOrderly = true);
	void close(Sess& s);         // destroys the SessionInfo and checks the farewell
	Sess* liveSession(Adapter* d = nullptr);

	// Explicit call judging. `nreq`: requests the call makes, -1 if unknown.
	struct Call { Sess* s; uint32_t malign0; bool dead0, tainted0, unreachable0; size_t made0; };
	Call before(Sess& s);
	// Returns true if the call was allowed to fail. Updates the session's condition.
	bool after(const Call& c, const Outcome& o, const char* name, const char* props, bool failureIsReported = false);
	void matchLedger(Sess& s);
	void boundTime(const Outcome& o, int64_t lastEvent, int64_t timeout, const char* name);

	void powerCycle(Adapter& d, int64_t down);
	void partition(Adapter& d, bool on);
	void settle(int64_t d) { bool f = k.faultsOn; k.faultsOn = false; k.advance(d); k.faultsOn = f; }
	void faultsOff();            // stops injecting, heals partitions, restarts devices
};

Request randomRequest(Stream s, bool path8, bool anyIds = false);
bool tooLarge(const Request& r);
extern bool logControlled;
Mode drawMode(std::initializer_list<Mode> modes);
eipScanner::cip::MessageRouterResponse sendVia(const Sess& s, const Request& r, int variant);
bool sameRequest(const Rx& rx, const Request& r);
std::string show(const Request& r);
void addMalignKinds(Adapter& d, bool garble);

}  // namespace sim
