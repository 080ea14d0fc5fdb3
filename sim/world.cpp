#include "world.h"
#include <stdexcept>
#include <typeinfo>
#include "Yaskawa_MessageRouter.h"

namespace sim {

void throwSomething(const std::string& what, std::string& sig) {
	auto raise = [&](auto e) { sig = std::string(e.what()) + " (" + typeid(e).name() + ")"; throw e; };
	struct Own : std::exception { std::string s; const char* what() const noexcept override { return s.c_str(); } };
	switch (choose(W, 10)) {
		case 1: case 2: raise(std::system_error(pick<int>(W, {ECONNREFUSED, EAGAIN, ETIMEDOUT, EINTR, ENOSPC, EBADF}), std::generic_category(), what));
		case 3: raise(std::out_of_range(what));
		case 4: raise(std::invalid_argument(what));
		case 5: raise(std::bad_alloc());
		case 6: { Own o; o.s = what; raise(o); }
		case 7: sig = what + " (odd)"; throw OddException{what};
		default: raise(std::runtime_error(what));
	}
	abort();
}

using namespace eipScanner;

const char* modeName(Mode m) { switch (m) { case Mode::CLEAN: return "mode_clean"; case Mode::BENIGN: return "mode_benign"; case Mode::MALIGN: return "mode_malign"; default: return "mode_sysfail"; } }

namespace {
struct NullAppender : utils::LogAppenderIf { void print(utils::LogLevel, const std::string& m) override { Out out_; if (verbose) fprintf(stderr, "                log: %s\n", m.c_str()); } };
}

Mode drawMode(std::initializer_list<Mode> modes) { return *(modes.begin() + choose(W, modes.size())); }

void World::setup(const char* scenario, int ndev, std::initializer_list<Mode> modes) {
	ev(scenario);
	mode = drawMode(modes);
	probe(modeName(mode));
	bool all = choose(W, 8) == 7;
	if (!logControlled) {
		utils::Logger::setAppender(std::make_unique<NullAppender>());
		utils::Logger::setLogLevel(all ? utils::LogLevel::TRACE : verbose ? utils::LogLevel::INFO : utils::LogLevel::OFF);
	}
	Config& c = k.cfg;
	if (mode != Mode::CLEAN) {
		c.latMax = pick<int64_t>(W, {200 * US, 2 * MS, 8 * MS});
		c.eintr = pick<uint32_t>(W, {0, 3, 12, 30});
		if (choose(W, 8) == 7) c.sigPeriod = pick<int64_t>(W, {1 * MS, 7 * MS, 40 * MS, 250 * MS});
		c.shortWrite = pick<uint32_t>(W, {0, 3, 12, 30});
		c.segment = pick<uint32_t>(W, {0, 12, 40});
		c.segGap = pick<int64_t>(W, {0, 500 * US, 3 * MS});
		c.connectSlow = pick<uint32_t>(W, {0, 16});
		c.connectSlowMax = 20 * MS;
		c.oversleep = pick<uint32_t>(W, {0, 0, 2, 6});
		c.oversleepMax = pick<int64_t>(W, {300 * US, 3 * MS, 30 * MS});
		c.sndbuf = pick<size_t>(W, {1 << 17, 1 << 17, 1 << 17, 4096, 600});
		c.connectNow = pick<uint32_t>(W, {0, 16});
		c.cost = pick<int64_t>(W, {1 * US, 5 * US});
	}
	k.shortOfMemory(0);
	if (mode == Mode::SYSFAIL) { if (uint32_t rate = pick<uint32_t>(W, {0, 0, 1, 4, 20}); !logControlled && allocFaults) k.shortOfMemory(rate); /* logging less allocates less */ c.sysfail = pick<uint32_t>(W, {2, 6, 20}); c.fdBase = pick<int>(W, {FD_BASE, FD_BASE, FD_BASE, 1020, 1023, 1024}); }
	for (int i = 0; i < ndev; i++) devs.emplace_back(i);
	for (auto& d : devs) {
		if (mode != Mode::CLEAN) d.delayMax = pick<int64_t>(W, {0, 1 * MS, 8 * MS});
	}
	slack = 3 * MS + 400 * c.cost;
	k.now = pick<int64_t>(W, {10 * SEC, 0, 2147480 * MS, 4294900 * SEC / 1000, 2147483640 * MS, 40000000 * SEC});   // uptime of the machine
	k.start = k.now;
	if (mode != Mode::CLEAN && choose(W, 4) == 3) for (int i = 0, n = 1 + choose(W, 4); i < n; i++) {
		int64_t by = pick<int64_t>(W, {3600, -3600, 86400 * 365, -86400 * 365, 1, -1}) * SEC;
		k.at(k.now + range(W, 0, 5000) * MS, [by] { fault("wall_clock_jump"); k.wallOffset += by; });
	}
	k.onTcpConnect = [this](TcpConn& t) { lastConn = &t; };
}

void addMalignKinds(Adapter& d, bool garble) {
	d.malign = pick<uint32_t>(W, {2, 5, 12});
	for (int rf : {RF_LATE, RF_NOREPLY, RF_FIN_BEFORE, RF_RST_BEFORE, RF_FIN_MID, RF_RST_MID, RF_STALL_MID, RF_ENCAPS_STATUS, RF_WRONG_HANDLE, RF_TRUNC, RF_POWERCYCLE})
		if (choose(W, 3) == 0) d.malignKinds.push_back(rf);
	if (garble && choose(W, 2)) d.malignKinds.push_back(RF_GARBLE);
	if (d.malignKinds.empty()) d.malignKinds.push_back(RF_LATE);
	d.restartAfterMs = (int)range(W, 50, 3000);
}

void World::powerCycle(Adapter& d, int64_t down) { fault("device_powercycle"); d.powerCycle(down); }

void World::partition(Adapter& d, bool on) {
	d.reachable = !on;
	if (on) fault("partition"); else ev("heal", d.index);
	for (auto& c : k.conns) if (c->host == &d) c->malign++;
}

void World::faultsOff() {
	k.faultsOn = false;
	for (auto& d : devs) { if (!d.reachable) partition(d, false); d.malign = 0; d.acceptPolicy = Host::YES; d.regPolicy = 0; d.nextRf.reset(); }
}

// ---- explicit messaging oracle ---------------------------------------------------------------
bool sameRequest(const Rx& rx, const Request& r) {
	if (rx.service != r.service || rx.path.cls != r.cls || rx.path.inst != r.inst || rx.path.attr != r.attr || rx.data != r.data) return false;
	bool wide = r.cls > 255 || r.inst > 255 || r.attr > 255;     // does not fit into 8-bit segments
	if (r.path8 ? rx.path.seg16 && !wide : rx.path.seg8) return false;
	if (rx.items.size() != 2 + r.items.size()) return false;
	for (size_t i = 0; i < r.items.size(); i++) if (!(rx.items[2 + i] == r.items[i])) return false;
	return true;
}

bool tooLarge(const Request& r) {               // for the 16 bits of a frame's length
	auto words = [&](int id) { return r.path8 && id <= 255 ? 2u : 4u; };
	size_t n = 16 + 2 + words(r.cls) + (r.inst >= 0 ? words(r.inst) : 0) + (r.attr >= 0 ? words(r.attr) : 0) + r.data.size();
	for (auto& i : r.items) n += 4 + i.data.size();
	return n > 65535;
}

std::string show(const Request& r) {
	char b[200]; snprintf(b, sizeof b, "service 0x%02x path %d/%d/%d data %zu bytes %s, %zu extra items", r.service, r.cls, r.inst, r.attr, r.data.size(), hex(r.data, 12).c_str(), r.items.size());
	return b;
}

void World::matchLedger(Sess& s) {
	auto& L = s.dev->ledger;
	for (; s.ledgerPos < L.size(); s.ledgerPos++) {
		Rx& e = L[s.ledgerPos];
		if (e.conn != s.conn->id || !e.isRequest) continue;
		if (e.rf == RF_GARBLE) s.tainted = true;
		if (!checkRequests) { s.current = &e; continue; }
		size_t j = s.matched;
		while (j < s.made.size() && !sameRequest(e, s.made[j])) j++;
		if (j == s.made.size()) {
			bool again = s.matched > 0 && sameRequest(e, s.made[s.matched - 1]);
			violate(again ? "C02 C01" : "C02", again ? "request-twice" : "request-altered", "the device received service 0x%02x path %d/%d/%d data %zu bytes %s (%zu items), which is %s; last made: %s",
				e.service, e.path.cls, e.path.inst, e.path.attr, e.data.size(), hex(e.data, 12).c_str(), e.items.size(), again ? "a repetition of a request made once" : "no request the caller made",
				s.made.empty() ? "(none)" : show(s.made.back()).c_str());
			continue;
		}
		s.matched = j + 1;
		if (j + 1 == s.made.size()) s.current = &e;
	}
}

World::Call World::before(Sess& s) {
	matchLedger(s);
	s.current = nullptr;
	if (s.conn->malign > s.soft) s.dead = true;
	return Call{&s, s.conn->malign, s.dead, s.tainted, !s.dev->reachable || !s.dev->up, s.made.size()};
}

void World::boundTime(const Outcome& o, int64_t lastEvent, int64_t timeout, const char* name) {
	int64_t from = std::max(o.t0, lastEvent), limit = from + timeout + slack + (k.lateNs - o.late0);
	if (o.t1 > limit)
		violate("C04", "overdue", "%s returned %.3f ms after the last sign of life, its timeout is %.3f ms", name, (o.t1 - from) / 1e6, timeout / 1e6);
}

bool World::after(const Call& c, const Outcome& o, const char* name, const char* props, bool failureIsReported) {
	Sess& s = *c.s;
	matchLedger(s);
	boundTime(o, s.conn->lastEvent, s.timeout, name);
	bool sysf = k.sysfails > o.sysfails0;
	bool hit = s.conn->malign > c.malign0 || sysf || c.unreachable0 || !s.dev->reachable || !s.dev->up;
	Rx* e = s.current;
	int rf = e ? e->rf : RF_NONE;
	bool softOnly = hit && !sysf && !c.unreachable0 && s.dev->reachable && s.dev->up && s.conn->malign == c.malign0 + 1 && (rf == RF_ENCAPS_STATUS || rf == RF_WRONG_HANDLE);
	bool allowed = c.dead0 || c.tainted0 || hit || (e && e->alteredContent) || rf == RF_TRICKLE;
	if (!o.ok && !allowed && !failureIsReported) {
		violate(props, "failed-without-fault", "%s failed although nothing went wrong on the connection: %s", name, o.what.c_str());
		violate("C04", "failed-without-fault", "%s failed although the device answered in time: %s", name, o.what.c_str());
	}
	// Given up too early: only silence can have made it fail, so the full timeout must have passed.
	if (!o.ok && !failureIsReported && !c.dead0 && !c.tainted0 && !sysf && !c.unreachable0 && s.dev->reachable && s.dev->up && s.conn->malign == c.malign0 + 1
		&& (rf == RF_NOREPLY || rf == RF_LATE || rf == RF_STALL_MID) && o.t1 - std::max(o.t0, s.conn->lastRx) < s.timeout - 2 * MS)
		violate("C04", "gave-up-early", "%s failed %.3f ms after the last sign of life although its timeout is %.3f ms: %s", name, (o.t1 - std::max(o.t0, s.conn->lastRx)) / 1e6, s.timeout / 1e6, o.what.c_str());
	if (rf == RF_GARBLE) s.tainted = true;
	if (softOnly) s.soft++;
	else if (hit) s.dead = true;
	if (rf == RF_TRICKLE && !o.ok) s.dead = true;
	return allowed;
}

// ---- sessions -----------------------------------------------------------------------------------
Sess* World::open(Adapter& d, int64_t timeout, bool) {
	auto owned = std::make_unique<Sess>();
	Sess& s = *owned;
	s.id = (int)sess.size(); s.dev = &d; s.timeout = timeout;
	d.patience = timeout;
	for (auto& o : sess) if (o->si && o->dev == &d) d.patience = std::max(d.patience, o->timeout);
	lastConn = nullptr;
	size_t nconn = k.conns.size();
	bool unreachable = !d.up || !d.reachable;
	std::string host = ipStr(d.ip);
	Outcome o = guard("session.open", [&] { s.si = timeout == SEC ? std::make_shared<SessionInfo>(host, 44818) : std::make_shared<SessionInfo>(host, 44818, std::chrono::milliseconds(timeout / MS)); });   // a second is the default
	bool sysf = k.sysfails > o.sysfails0;
	if (k.conns.size() > nconn + 1) violate("C03", "many-connects", "opening one session made %zu connections", k.conns.size() - nconn);
	s.conn = lastConn;
	if (!s.conn) {
		if (o.ok) violate("C03", "no-connection", "a session was reported open without a TCP connection");
		else if (!sysf) violate("C03 C04", "failed-without-fault", "opening a session failed before connecting: %s", o.what.c_str());
		boundTime(o, 0, 0, "opening a session");
		return nullptr;
	}
	boundTime(o, std::max(s.conn->lastEvent, k.lastNetEvent), timeout, "opening a session");
	s.ledgerPos = d.ledger.size();
	auto g = d.grantedReply.find(s.conn->id);
	bool granted = g != d.grantedReply.end();
	bool garbled = false; int rf = RF_NONE;
	for (auto& e : d.ledger) if (e.conn == s.conn->id && e.cmd == 0x65) { garbled = garbled || e.alteredContent; rf = e.rf; }
	unreachable = unreachable || !d.up || !d.reachable;
	if (!o.ok) {
		bool allowed = sysf || unreachable || s.conn->malign || d.regPolicy || garbled || d.acceptPolicy != Host::YES || rf == RF_TRICKLE;
		if (!allowed) violate("C03 C04", "failed-without-fault", "opening a session failed although the device granted it in time: %s", o.what.c_str());
		if (!sysf && !unreachable && d.acceptPolicy == Host::IGNORE_SYN && o.t1 - o.t0 < timeout - 2 * MS)
			violate("C04", "gave-up-early", "connecting gave up after %.3f ms of silence, the timeout is %.3f ms", (o.t1 - o.t0) / 1e6, timeout / 1e6);
		if (!sysf && !unreachable && s.conn->st == TcpConn::OPEN && !s.conn->wasReset && d.regPolicy == 3 && o.t1 - std::max(o.t0, s.conn->lastRx) < timeout - 2 * MS)
			violate("C04", "gave-up-early", "registering gave up after %.3f ms of silence, the timeout is %.3f ms", (o.t1 - std::max(o.t0, s.conn->lastRx)) / 1e6, timeout / 1e6);
		s.si.reset();
		return nullptr;
	}
	if (garbled) s.tainted = true;
	else if (!granted) { violate("C03", "session-not-granted", "a session was reported open but the device did not grant one (policy %d, delivery %s)", d.regPolicy, rfName(rf)); s.tainted = true; }
	else if (s.si->getSessionHandle() != g->second) violate("C03", "wrong-handle", "session handle %u reported, the device granted %u", s.si->getSessionHandle(), g->second);
	if (!garbled && k.lateNs == o.late0 && (rf == RF_LATE || rf == RF_STALL_MID)) violate("C03 C04", "session-too-late", "a session was reported open before its grant was delivered in full");
	auto ep = s.si->getRemoteEndPoint();
	if (ep.getHost() != host || ep.getPort() != 44818) violate("C03", "wrong-endpoint", "the session names %s:%d as its peer instead of %s", ep.getHost().c_str(), ep.getPort(), host.c_str());
	if (sysf || s.conn->malign) s.dead = true;
	if (rf == RF_TRICKLE) s.dead = false;
	probe("session_opened");
	sess.push_back(std::move(owned));
	return sess.back().get();
}

void World::close(Sess& s) {
	if (!s.si) return;
	matchLedger(s);
	if (s.conn->malign > s.soft) s.dead = true;
	uint32_t m0 = s.conn->malign; uint64_t sf0 = k.sysfails;
	int before = s.dev->unregistered[s.conn->id];
	uint32_t handle = s.si->getSessionHandle();
	bool reach = s.dev->up && s.dev->reachable;
	long uses = s.si.use_count();
	Outcome o = guard("session.close", [&] { s.si.reset(); });
	if (uses != 1) return;
	boundTime(o, s.conn->lastEvent, k.cfg.sndbuf < 10000 ? s.timeout : 0, "closing a session");
	if (s.conn->sock) violate("C15 C03", "connection-left-open", "the TCP connection is still open after the session object was destroyed");
	settle(2 * k.cfg.latMax + 10 * MS);
	int n = s.dev->unregistered[s.conn->id] - before;
	(void)handle;
	bool clean = !s.dead && !s.tainted && s.conn->malign == m0 && k.sysfails == sf0 && reach && s.dev->up && s.dev->reachable;
	if (clean && n != 1) violate("C03", "not-unregistered", "destroying a session sent %d UnregisterSession requests", n);
	if (n > 1) violate("C03", "double-unregister", "destroying a session sent %d UnregisterSession requests", n);
	if (clean && n == 1 && s.conn->hostOpen) violate("C03 C15", "connection-left-open", "the device still sees the connection of a destroyed session");
	matchLedger(s);
}

Sess* World::liveSession(Adapter* d) {
	std::vector<Sess*> v;
	for (auto& s : sess) if (s->si && (!d || s->dev == d)) v.push_back(s.get());
	return v.empty() ? nullptr : v[choose(W, v.size())];
}

void World::finish() {
	faultsOff();
	for (auto& s : sess) close(*s);
	settle(10 * MS);
	k.finalChecks();
}

Request randomRequest(Stream s, bool path8, bool anyIds) {
	Request r;
	r.path8 = path8;
	r.service = (uint8_t)pick<uint32_t>(s, {0x01, 0x0E, 0x10, 0x4B, 0x03, 0x05, 0x7f, 0x32});
	bool wide = path8 && anyIds && choose(s, 12) == 11;
	auto id = [&]() -> int { return path8 && !(wide && choose(s, 2)) ? (int)choose(s, 256) : (int)u16(s); };
	do { r.cls = id(); } while (r.cls == 0x06 || r.cls == 0x01 || r.cls == 0x0F || r.cls == 0x37 || r.cls == 0x97);
	switch (choose(s, 4)) { case 0: r.inst = id(); break; case 1: break; default: r.inst = id(); r.attr = id(); }
	size_t n = 0;
	switch (choose(s, 6)) { case 0: n = choose(s, 9); break; case 1: n = 0; break; case 2: n = choose(s, 500); break; case 3: n = 480 + choose(s, 40); break; case 4: n = choose(s, 3000); break; default: n = choose(s, 64); }
	if (choose(s, 40) == 39) { n = pick<size_t>(s, {8000, 16300, 65100, 65480, 65536, 70000, 131000}); n += choose(s, 300); }
	r.data = bytes(s, n);
	if (choose(s, 6) == 5) { int m = 1 + choose(s, 3); for (int i = 0; i < m; i++) r.items.push_back({pick<uint16_t>(s, {0x8000, 0x8001, 0x0100, 0x00B1}), bytes(s, choose(s, 24))}); }
	return r;
}

cip::MessageRouterResponse sendVia(const Sess& s, const Request& r, int variant) {
	std::vector<eip::CommonPacketItem> items;
	for (auto& i : r.items) items.emplace_back(static_cast<eip::CommonPacketItemIds>(i.type), i.data);
	if (variant == 2) {
		cip::Yaskawa_EPath p = r.inst < 0 ? cip::Yaskawa_EPath(r.cls) : r.attr < 0 ? cip::Yaskawa_EPath(r.cls, r.inst) : cip::Yaskawa_EPath(r.cls, r.inst, r.attr);
		Yaskawa_MessageRouter mr;
		return items.empty() ? (r.data.empty() ? mr.sendRequest(s.si, r.service, p) : mr.sendRequest(s.si, r.service, p, r.data)) : mr.sendRequest(s.si, r.service, p, r.data, items);
	}
	cip::EPath p = r.inst < 0 ? cip::EPath(r.cls) : r.attr < 0 ? cip::EPath(r.cls, r.inst) : cip::EPath(r.cls, r.inst, r.attr);
	MessageRouter mr(variant == 1);
	return items.empty() ? (r.data.empty() ? mr.sendRequest(s.si, r.service, p) : mr.sendRequest(s.si, r.service, p, r.data)) : mr.sendRequest(s.si, r.service, p, r.data, items);
}

}  // namespace sim
