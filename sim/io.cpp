#include "io.h"
#include <set>
#include "cip/connectionManager/NetworkConnectionParams.h"
#include "cip/connectionManager/NetworkConnectionParametersBuilder.h"

namespace sim {
using namespace eipScanner;
using cip::connectionManager::ConnectionParameters;

static constexpr int64_t TOL = 1100 * US;

void IoWorld::start(const char* name, int ndev, std::initializer_list<Mode> modes) {
	w.setup(name, ndev, modes);
	w.checkRequests = false;
	k.shortOfMemory(0);              // what is lost then is judged in the endurance scenario
	Config& c = k.cfg;
	if (w.mode != Mode::CLEAN) {
		c.udpDrop = pick<uint32_t>(W, {0, 0, 2, 8});
		c.udpDup = pick<uint32_t>(W, {0, 0, 3, 10});
		c.udpDelay = pick<uint32_t>(W, {0, 0, 3, 10});
		c.udpDelayMax = pick<int64_t>(W, {2 * MS, 20 * MS, 120 * MS});
		c.sendErr = pick<uint32_t>(W, {0, 0, 4}); 
		c.rcvbufDgrams = pick<size_t>(W, {400, 400, 400, 6});
	}
	cm = std::make_unique<ConnectionManager>();
	k.onConsume = [this](const Datagram& d) { consume(d); };
	k.onNoPort = [this](const Datagram& d) { unheard(d); };
	k.onUdpSend = [this](uint32_t ip, uint16_t port, const Bytes& b, int, bool) { sentUdp(ip, port, b); };
}

IoModel* IoWorld::byId(uint32_t t2o) { for (auto& m : conns) if (m.open && m.t2oId == t2o) return &m; return nullptr; }

IoModel* IoWorld::pickOpen() {
	std::vector<IoModel*> v;
	for (auto& m : conns) if (m.open) v.push_back(&m);
	return v.empty() ? nullptr : v[choose(W, v.size())];
}

Sess* IoWorld::sessionFor(Adapter& d) {
	for (auto& s : w.sess) if (s->dev == &d && s->live()) return s.get();
	for (auto& s : w.sess) if (s->dev == &d && s->si && !depth) { w.close(*s); break; }
	return w.open(d, pick<int64_t>(W, {300 * MS, 1000 * MS, 100 * MS}));
}

// The application composes the parameters of one direction field by field, in any order, in chains and single
// statements, and may change its mind about a field; what it gets must be exactly the fields it set last.
static uint32_t built(bool large, uint32_t type, uint32_t prio, bool variable, uint32_t owner, uint32_t size, uint32_t want) {
	using B = cip::connectionManager::NetworkConnectionParametersBuilder;
	uint32_t sizeMask = large ? 0xffff : 0x1ff, start = choose(W, 3) == 2 ? u32(W) : 0;
	if (size > sizeMask) return want;
	B b(start & (large ? 0xee00ffffu : 0xefffu), large);
	auto check = [&](const B& x, int f, const char* when) {
		bool ok = f == 0 ? (uint32_t)x.getConnectionType() == type : f == 1 ? (uint32_t)x.getPriority() == prio : f == 2 ? (uint32_t)x.getType() == variable : f == 3 ? (uint32_t)x.getRedundantOwner() == owner : x.getConnectionSize() == size;
		if (!ok) violate("C18", "field-read-back", "%s, field %d of the network connection parameters reads back differently from what was set", when, f);
	};
	auto set = [&](B& x, int f, bool decoy) -> B& {
		auto v = [&](uint32_t val, uint32_t mask) { return decoy ? u32(W) & mask : val; };
		switch (f) {
			case 0: return x.setConnectionType((B::ConnectionType)v(type, 3));
			case 1: return x.setPriority((B::Priority)v(prio, 3));
			case 2: return x.setType((B::Type)v(variable, 1));
			case 3: x.setRedundantOwner((B::RedundantOwner)v(owner, 1)); return x;
			default: return x.setConnectionSize((uint16_t)v(size, sizeMask));
		}
	};
	std::vector<int> order{0, 1, 2, 3, 4};
	for (int i = 4; i > 0; i--) std::swap(order[i], order[choose(W, i + 1)]);
	bool chain = choose(W, 2);
	if (chain && !start) {   // one expression
		uint32_t got = B(0, large).setRedundantOwner((B::RedundantOwner)owner).setConnectionType((B::ConnectionType)type).setPriority((B::Priority)prio).setType((B::Type)variable).setConnectionSize((uint16_t)size).build();
		if (got != want) violate("C18", "field-composition", "network connection parameters composed in one expression are 0x%x instead of 0x%x", got, want);
		b.setRedundantOwner((B::RedundantOwner)owner).setPriority((B::Priority)prio).setConnectionSize((uint16_t)size);
		b.setType((B::Type)variable).setConnectionType((B::ConnectionType)type);
	} else {
		B* x = &b;
		for (int f : order) {
			if (choose(W, 4) == 3) { set(*x, choose(W, 2) ? f : order[choose(W, 5)], true); }
			set(*x, f, false);
		}
		for (int f : order) set(b, f, false);
	}
	for (int f : order) check(b, f, "after all were set");
	uint32_t got = b.build();
	if (got != want) violate("C18", "field-composition", "network connection parameters are 0x%x, the fields that were set make 0x%x", got, want);
	probe("parameters_built");
	return got;
}

ConnectionParameters IoWorld::drawParams(bool large, bool plain, IoModel& m) {
	ConnectionParameters p;
	int ts = large ? 29 : 13, ps = large ? 26 : 10, vs = large ? 25 : 9, rs = large ? 31 : 15;
	auto size = [&]() -> uint32_t { switch (choose(W, 5)) { case 0: return 2 + choose(W, 30); case 1: return 0; case 2: return choose(W, 480); case 3: return large ? (choose(W, 10) == 9 ? pick<uint32_t>(W, {8000, 8100, 8180, 20000, 65000}) + choose(W, 200) : choose(W, 4000)) : choose(W, 6) == 5 ? 500 + choose(W, 12) : 470 + choose(W, 30); default: return 1 + choose(W, 64); } };
	p.priorityTimeTick = plain ? 0 : (uint8_t)choose(W, 256);
	p.timeoutTicks = plain ? 0 : (uint8_t)choose(W, 256);
	p.o2tNetworkConnectionId = plain ? 0 : u32(W);
	p.t2oNetworkConnectionId = plain ? 0 : u32(W);
	p.originatorVendorId = u16(W);
	p.originatorSerialNumber = u32(W);
	p.connectionTimeoutMultiplier = (uint8_t)pick<uint32_t>(W, {1, 0, 2, 3, 0, 4, 5, 6, 7});
	uint32_t t2oType = choose(W, 4) == 3 ? 1 : 2, o2tType = choose(W, 8) == 7 ? 1 : 2;
	m.o2tFixed = choose(W, 3) != 2; m.t2oFixed = choose(W, 3) != 2;
	m.o2tSize = size(); m.t2oSize = size();
	auto compose = [&](uint32_t type, bool fixed, uint32_t size) {
		uint32_t prio = choose(W, 4), owner = plain ? 0 : choose(W, 2);
		uint32_t want = type << ts | prio << ps | (fixed ? 0u : 1u) << vs | owner << rs | size;
		if (!choose(W, 2)) return want;
		return built(large, type, prio, !fixed, owner, size, want);
	};
	p.o2tNetworkConnectionParams = compose(o2tType, m.o2tFixed, (uint32_t)m.o2tSize);
	p.t2oNetworkConnectionParams = compose(t2oType, m.t2oFixed, (uint32_t)m.t2oSize);
	auto rpi = [&]() -> uint32_t { return pick<uint32_t>(W, {10000, 20000, 5000, 2000, 50000, 100000, 3333, 250000, 1000000, 1000}); };
	p.o2tRPI = rpi(); p.t2oRPI = rpi();
	p.transportTypeTrigger = (uint8_t)(pick<uint32_t>(W, {1, 1, 3, 0}) | pick<uint32_t>(W, {0, 0x10, 0x20}) | pick<uint32_t>(W, {0, 0x80}));
	m.cls1 = (p.transportTypeTrigger & 0x0f) != 0;
	p.o2tRealTimeFormat = m.o2tRt = choose(W, 2); p.t2oRealTimeFormat = m.t2oRt = choose(W, 3) == 2;
	p.connectionPath = choose(W, 3) ? bytes(W, 2 * (1 + choose(W, 20))) : Bytes{0x20, 0x04, 0x24, 151, 0x2C, 150, 0x2C, 100};
	return p;
}

IoModel* IoWorld::open(Sess& s, bool plain) {
	Adapter& d = *s.dev;
	conns.emplace_back();
	IoModel& m = conns.back();
	m.no = (int)conns.size() - 1; m.dev = &d; m.open = false;
	bool large = choose(W, 3) == 2;
	ConnectionParameters p = drawParams(large, plain, m);
	if (tweak) { tweak(p); m.cls1 = (p.transportTypeTrigger & 0x0f) != 0; }
	OpenPolicy pol;
	for (;;) {
		uint32_t id = u32(D);
		bool used = false;
		for (auto& o : conns) if (&o != &m && o.idKnown && o.o2tId == id) used = true;
		pol.o2tId = id + 0;
		if (!used) break;
	}
	bool p2p = ((p.t2oNetworkConnectionParams >> (large ? 29 : 13)) & 3) == 2;
	m.p2p = p2p;
	IoModel* other = conns.size() > 1 ? pickOpen() : nullptr;
	if (!p2p) {
		if (other && choose(D, 2)) pol.t2oId = other->t2oId ^ (1u << (16 + choose(D, 16)));
		else {
			IoModel* old = nullptr;
			for (auto& o : conns) if (!o.open && o.idKnown && choose(D, 3) == 2) old = &o;
			pol.t2oId = old ? old->t2oId : u32(D);
			if (old) probe("t2o_id_reused");
		}
	}
	if (other && choose(D, 12) == 11) { pol.t2oId = other->t2oId; fault("t2o_id_clash"); }
	if (!plain) {
		if (choose(D, 8) == 7) { pol.reject = true; pol.status = (uint8_t)pick<uint32_t>(D, {1, 1, 2, 5, 8}); for (int n = choose(D, 3); n > 0; n--) pol.addl.push_back(u16(D)); }
		pol.sockaddr = pick<int>(D, {0, 0, 1, 2});
		pol.sockIp = choose(D, 2) ? d.ip : ip4(10, 0, 0, 60 + choose(D, 4));
		pol.sockPort = pick<uint16_t>(D, {2222, 2223, 40000, 65535});
		pol.t2oSockaddr = choose(D, 3) == 2; pol.sockFirst = choose(D, 2);
		if (choose(D, 3) == 2) pol.o2tApi = std::max<uint32_t>(1000, p.o2tRPI / 1000 * pick<uint32_t>(D, {2000, 1000, 500, 1500}));
		if (choose(D, 3) == 2) pol.t2oApi = std::max<uint32_t>(1000, p.t2oRPI / 1000 * pick<uint32_t>(D, {2000, 1000, 500, 1500}));
		pol.appReply = bytes(D, 2 * pick<size_t>(D, {0, 0, 1, 5}));
	}
	d.openPolicy = pol;
	d.onIoOpen = [this, &m](IoConn& t) {
		if (m.tgt) return;
		m.tgt = &t;
		t.rt = m.t2oRt; t.size = m.t2oSize; t.variable = !m.t2oFixed;
		t.period = (int64_t)t.t2oApi * US;
		m.dev->startProducing(t, range(D, 0, 2) * t.period / 2 + 100 * US);
	};
	if (inHandle) explicitInHandle = true;
	size_t n0 = d.io.size();
	auto c = w.before(s);
	int64_t cb0 = k.now;
	Outcome o = guard(large ? "largeForwardOpen" : "forwardOpen", [&] { m.wp = large ? cm->largeForwardOpen(s.si, p) : cm->forwardOpen(s.si, p); });
	(void)cb0;
	uint32_t headers = (m.cls1 ? 2 : 0), most = large ? 0xffff : 0x1ff;
	bool unfit = m.o2tSize + headers + (m.o2tRt ? 4 : 0) > most || m.t2oSize + headers + (m.t2oRt ? 4 : 0) > most;
	w.after(c, o, "forwardOpen", "C10", unfit);
	Rx* e = s.current;
	if (unfit) {
		if (o.ok || e) violate("C10 C02", "oversize-open", "a connection of %zu/%zu bytes, which with its headers exceeds the field of its size, was %s", m.o2tSize, m.t2oSize, o.ok ? "opened" : "requested");
		clashed = true;
		probe("open_too_large");
		checkHasOpen("refused forwardOpen");
		return nullptr;
	}
	if (d.io.size() > n0 + 1) violate("C10 C02", "opened-twice", "one forwardOpen opened %zu connections at the target", d.io.size() - n0);
	if (IoConn* t = m.tgt) {
		uint32_t extra = m.cls1 ? 2 : 0;
		uint32_t eo = p.o2tNetworkConnectionParams + extra + (m.o2tRt ? 4 : 0), et = p.t2oNetworkConnectionParams + extra + (m.t2oRt ? 4 : 0);
		if (!large) { eo &= 0xffff; et &= 0xffff; }
		auto bad = [&](const char* f, uint64_t got, uint64_t want) { violate("C10", "forward-open-field", "ForwardOpen arrived with %s 0x%llx, the caller asked for 0x%llx", f, (unsigned long long)got, (unsigned long long)want); };
		auto badNet = [&](const char* f, uint64_t got, uint64_t want) { violate("C10 C18", "forward-open-field", "ForwardOpen arrived with %s 0x%llx, the caller asked for 0x%llx", f, (unsigned long long)got, (unsigned long long)want); };
		if (t->large != large) bad("large", t->large, large);
		if (t->prio != p.priorityTimeTick) bad("priority/tick", t->prio, p.priorityTimeTick);
		if (t->ticks != p.timeoutTicks) bad("timeout ticks", t->ticks, p.timeoutTicks);
		if (t->vendor != p.originatorVendorId) bad("vendor", t->vendor, p.originatorVendorId);
		if (t->origSerial != p.originatorSerialNumber) bad("originator serial", t->origSerial, p.originatorSerialNumber);
		if (t->mult != p.connectionTimeoutMultiplier) bad("timeout multiplier", t->mult, p.connectionTimeoutMultiplier);
		if (t->o2tRpi != p.o2tRPI) bad("O2T RPI", t->o2tRpi, p.o2tRPI);
		if (t->t2oRpi != p.t2oRPI) bad("T2O RPI", t->t2oRpi, p.t2oRPI);
		if (t->o2tParams != eo) badNet("O2T parameters", t->o2tParams, eo);
		if (t->t2oParams != et) badNet("T2O parameters", t->t2oParams, et);
		if (t->trigger != p.transportTypeTrigger) bad("transport/trigger", t->trigger, p.transportTypeTrigger);
		if (t->path != p.connectionPath) violate("C10", "forward-open-field", "ForwardOpen arrived with path %s, the caller asked for %s", hex(t->path).c_str(), hex(p.connectionPath).c_str());
		if (!p2p && t->reqT2oId != p.t2oNetworkConnectionId) bad("T2O id", t->reqT2oId, p.t2oNetworkConnectionId);
		if (((p.o2tNetworkConnectionParams >> (large ? 29 : 13)) & 3) != 1 && t->reqO2tId != p.o2tNetworkConnectionId) bad("O2T id", t->reqO2tId, p.o2tNetworkConnectionId);
		for (auto& x : conns) if (&x != &m && x.tgt) {
			if (x.tgt->serial == t->serial && (x.open || x.tgt->open)) violate("C10", "serial-reused", "two connections share serial number %u", t->serial);
			if (p2p && x.p2p && (x.open || x.tgt->open) && x.tgt->t2oId == t->reqT2oId && x.tgt->reqT2oId == t->reqT2oId) violate("C10", "id-reused", "two connections were proposed with T2O id %u", t->reqT2oId);
		}
	}
	if (!o.ok) { refused = true; probe("forward_open_failed"); checkHasOpen("failed forwardOpen"); return nullptr; }
	bool up = !m.wp.expired();
	if (!e) { violate("C10 C01", "open-from-nothing", "forwardOpen returned although its request never reached the target"); return nullptr; }
	bool accepted = m.tgt && e->reply.status == 0;
	bool unsureClash = false;
	for (auto& x : conns) if ((x.unsure || x.inClose) && m.tgt && x.t2oId == m.tgt->t2oId) unsureClash = true;
	IoModel* clash = m.tgt ? byId(m.tgt->t2oId) : nullptr;
	if (!accepted) {
		if (up) { violate("C10", "open-after-reject", "the target rejected the connection but forwardOpen returned one"); }
		refused = true;
		probe("forward_open_rejected");
		checkHasOpen("rejected forwardOpen");
		return nullptr;
	}
	if (clash || unsureClash) {
		clashed = true;
		if (up && !unsureClash) violate("C10 C11", "id-clash-accepted", "forwardOpen returned a connection although its T2O id 0x%x belongs to another open connection", m.tgt->t2oId);
		m.tgt->sick = 3;
		if (up) { m.unsure = m.idKnown = true; m.o2tId = m.tgt->o2tId; m.t2oId = m.tgt->t2oId; }
		return nullptr;
	}
	if (!up) { violate("C10", "open-lost", "the target accepted the connection but forwardOpen returned none"); return nullptr; }
	m.open = true; m.openedInHandle = inHandle;
	m.idKnown = true; m.t2oId = m.tgt->t2oId; m.o2tId = m.tgt->o2tId; m.dstIp = m.tgt->dstIp; m.dstPort = m.tgt->dstPort;
	m.TO = (int64_t)m.tgt->t2oApi * US * (4ll << p.connectionTimeoutMultiplier);
	m.api = (int64_t)m.tgt->o2tApi * US;
	m.lastTickLB = m.lbStart = m.lbReset = k.lastWaitReturn;
	m.ubStart = m.ubReset = k.now;
	probe(large ? "io_opened_large" : "io_opened");
	say("connection %d: T2O id 0x%x O2T id 0x%x to %s:%d, watchdog %.3f ms, O2T API %.3f ms, sizes %zu/%zu", m.no, m.t2oId, m.o2tId, ipStr(m.dstIp).c_str(), m.dstPort, m.TO / 1e6, m.api / 1e6, m.o2tSize, m.t2oSize);
	if (choose(W, 8) != 7) listenRecv(m);
	if (choose(W, 3) == 2) listenSend(m);
	if (choose(W, 8) != 7) listenClose(m);
	if (m.closeSet && choose(W, 4) == 3) m.held = m.wp.lock();
	if (choose(W, 4) != 3) setData(m, 0); else if (m.o2tFixed && m.o2tSize && m.sendScript == 0) probe("no_output_data_yet");
	checkHasOpen("forwardOpen");
	return &m;
}

void IoWorld::checkHasOpen(const char* when) {
	if (depth) return;           // a listener is running: the connection it belongs to may be on its way out
	bool want = false;
	for (auto& m : conns) { if (m.open) want = true; if (m.unsure) return; }
	if (cm->hasOpenConnections() != want) violate("C10", "has-open-wrong", "hasOpenConnections() says %d after %s, the truth is %d", !want, when, want);
}

const char* IoWorld::blame(const IoModel& m, const char* props) {
	static std::string all;
	bool trouble = strayed;
	for (auto& x : conns) if (&x != &m && x.tgt && (x.tgt->sick || (x.idKnown && !x.open && !x.userClosed))) trouble = true;
	if (m.tgt && m.tgt->sick) trouble = false;
	all = props;
	if (trouble && !strstr(props, "C11")) all += " C11";
	if (refused && !strstr(props, "C10")) all += " C10";
	return all.c_str();
}

void IoWorld::markClosed(IoModel& m) { m.open = false; m.exp.clear(); if (inHandle) m.closedInHandle = true; }

void IoWorld::close(IoModel& m, Sess& s) {
	bool wasOpen = m.open;
	int calls = m.closeCalls;
	s.dev->closeStatus = choose(D, 10) == 9 ? 1 : 0;
	if (inHandle) explicitInHandle = true;
	auto c = w.before(s);
	m.closing = true;
	Outcome o = guard("forwardClose", [&] { cm->forwardClose(s.si, m.wp); });
	m.closing = false;
	w.after(c, o, "forwardClose", "C10");
	Rx* e = s.current;
	if (m.closeCalls > calls + 1) violate("C10 C09", "close-listener-twice", "the close listener was called %d times during one forwardClose", m.closeCalls - calls);
	if (!wasOpen) { if (o.ok) probe("closed_again"); return; }
	if (o.ok) {
		if (!e || e->service != 0x4E) violate("C10", "no-forward-close", "forwardClose returned without the target having received a ForwardClose");
		else if (e->reply.status == 0 && m.tgt->open) violate("C10", "close-wrong-connection", "the target closed a different connection");
		else if (e->reply.status && !s.dev->closeStatus && m.tgt->open) violate("C10", "close-unknown", "the target did not recognise the ForwardClose of connection serial %u", m.tgt->serial);
		markClosed(m); m.userClosed = true;
		if (!m.held && !depth && !m.wp.expired()) violate("C10", "still-there", "a connection is still alive after forwardClose returned");
		probe("io_closed");
	} else if (m.held) { markClosed(m); m.unsure = true; }
	else if (m.wp.expired()) { markClosed(m); m.userClosed = true; }
	checkHasOpen("forwardClose");
}

// ---- listeners ----------------------------------------------------------------------------------
void IoWorld::listenRecv(IoModel& m) {
	auto p = m.wp.lock(); if (!p) return;
	int no = m.no, gen = ++m.recvGen; m.recvSet = true;
	Bytes guardBytes(64, (uint8_t)gen);      // captured state: a destroyed listener that is still running touches freed memory
	p->setReceiveDataListener([this, no, gen, guardBytes](cip::CipUdint h, cip::CipUint s, const std::vector<uint8_t>& d) { Out out_;
		onRecv(no, gen, h, s, d);
		if (guardBytes[0] != (uint8_t)gen) violate("C12 C05", "listener-corrupted", "a running listener was destroyed");
		maybeThrow(1);
	});
}
void IoWorld::listenSend(IoModel& m) {
	auto p = m.wp.lock(); if (!p) return;
	int no = m.no, gen = ++m.sendGen; m.sendSet = true; m.sendScript = choose(W, 5);
	Bytes guardBytes(64, (uint8_t)gen);
	p->setSendDataListener([this, no, gen, guardBytes](std::vector<uint8_t>& d) { Out out_;
		onSend(no, gen, d);
		if (guardBytes[0] != (uint8_t)gen) violate("C12 C05", "listener-corrupted", "a running listener was destroyed");
		maybeThrow(2);
	});
}
void IoWorld::listenClose(IoModel& m) {
	auto p = m.wp.lock(); if (!p) return;
	int no = m.no, gen = ++m.closeGen; m.closeSet = true;
	if (inHandle) m.closeSetInHandle = true;   // its watchdog may have closed it earlier in this round, unheard
	Bytes guardBytes(64, (uint8_t)gen);
	p->setCloseListener([this, no, gen, guardBytes] { Out out_;
		onClose(no, gen);
		if (guardBytes[0] != (uint8_t)gen) violate("C12 C05", "listener-corrupted", "a running listener was destroyed");
		maybeThrow(4);
	});
}

void IoWorld::maybeThrow(uint32_t who) {
	if (!throwOdds || !(throwWho & who) || !inHandle || calm || depth || !chance(W, throwOdds, 64)) return;
	fault("listener_throws");
	alsoViolates = "C22";           // whatever goes wrong from here on
	throwSomething("listener failed, occasion " + std::to_string(++throws), thrown);
}

void IoWorld::setData(IoModel& m, int kind) {
	auto p = m.wp.lock(); if (!p) return;
	size_t n = m.o2tSize;
	if (!m.o2tFixed && n && choose(W, 2)) n = choose(W, n + 1);
	if (kind == 1 && m.o2tFixed) n = choose(W, 2) ? n + 1 + choose(W, 5) : n - (n ? 1 + choose(W, n) : 0);
	Bytes b = bytes(W, n);
	p->setDataToSend(b);
	m.data = b;
	if (m.o2tFixed && b.size() != m.o2tSize) { m.mismatchedThisHandle = true; probe("wrong_output_size_set"); }
	ev("setData", m.no, n);
}

void IoWorld::onRecv(int no, int gen, uint32_t h, uint16_t s, const std::vector<uint8_t>& d) {
	IoModel& m = conns[no];
	int64_t t0 = k.now;
	ev("cb.recv", no, gen, h, s); evData("cb.data", d.data(), d.size());
	if (!m.open && !m.unsure) violate(m.userClosed ? "C10 C12 C07" : "C09 C12 C07", "callback-after-close", "the receive listener of connection %d was called after the connection was closed", no);
	if (gen != m.recvGen) violate("C12 C07", "stale-listener", "a receive listener was called after it had been replaced");
	if (m.open) {
		bool hit = false;
		const char* why = "nothing of the kind arrived for it";
		const char* cls = "unexpected-data";
		while (!m.exp.empty()) {
			Expect e = m.exp.front(); m.exp.pop_front();
			if (e.header == h && e.seq == s && e.data == d) {
				hit = true;
				if (!e.must)         // damaged, and perhaps ignored: the call may be about a later datagram with the same content
					for (size_t i = 0; i < m.exp.size(); i++) {
						auto& x = m.exp[i];
						if (!x.must) continue;
						if (x.header == h && x.seq == s && x.data == d) m.exp.erase(m.exp.begin(), m.exp.begin() + i + 1);
						break;
					}
				break;
			}
			if (e.must) {
				if (e.data == d) { why = "its sequence count or header is not what was sent"; cls = "wrong-header"; }
				else { why = "different data arrived for it"; cls = "wrong-data"; }
				break;
			}
		}
		if (!hit) {
			bool foreign = false;
			for (auto& o : conns) if (&o != &m) for (auto& e : o.exp) if (e.data == d && !d.empty()) foreign = true;
			violate(foreign ? "C07 C11" : blame(m, "C07"), foreign ? "wrong-connection" : cls, "connection %d got header 0x%x sequence %u data %s (%zu bytes), but %s", no, h, s, hex(d, 12).c_str(), d.size(), foreign ? "that belongs to another connection" : why);
		}
		m.fed = true; m.fedUB = k.now; m.delivered++;
		probe("io_delivered");
	}
	if (++depth == 1) react(m, "recv");
	--depth;
	cbTime += k.now - t0;
}

void IoWorld::onSend(int no, int gen, std::vector<uint8_t>& d) {
	IoModel& m = conns[no];
	int64_t t0 = k.now;
	ev("cb.send", no, gen); evData("cb.data", d.data(), d.size());
	if (!m.open && !m.unsure) violate(m.userClosed ? "C10 C12 C08" : "C09 C12 C08", "callback-after-close", "the send listener of connection %d was called after the connection was closed", no);
	if (gen != m.sendGen) violate("C12 C08", "stale-listener", "a send listener was called after it had been replaced");
	if (m.open && d != m.data) violate("C08", "send-listener-data", "the send listener of connection %d was given %s (%zu bytes), the data set is %s (%zu bytes)", no, hex(d, 12).c_str(), d.size(), hex(m.data, 12).c_str(), m.data.size());
	if (++m.slots > 1) violate("C08", "send-twice", "the send listener of connection %d was called twice in one round", no);
	switch (m.sendScript) {
		case 1: if (!d.empty()) d[0]++; break;
		case 2: d = bytes(W, m.o2tSize); break;
		case 3: d = bytes(W, m.o2tFixed && choose(W, 3) == 2 ? m.o2tSize + 1 : m.o2tSize); break;
		case 4: if (d.size() > 1) { uint8_t x = d[0]; d.erase(d.begin()); d.push_back(x); } break;
		default: break;
	}
	m.data = d;
	if (m.o2tFixed && d.size() != m.o2tSize) m.mismatchedThisHandle = true;
	if (++depth == 1) react(m, "send");
	--depth;
	cbTime += k.now - t0;
}

void IoWorld::onClose(int no, int gen) {
	IoModel& m = conns[no];
	int64_t t0 = k.now;
	ev("cb.close", no, gen);
	m.closeCalls++;
	if (gen != m.closeGen) violate("C12 C09", "stale-listener", "a close listener was called after it had been replaced");
	if (m.closeCalls > 1) violate("C09 C12", "closed-twice", "the close listener of connection %d was called %d times", no, m.closeCalls);
	if (!m.closing) {
		if (!inHandle) violate("C09", "close-out-of-the-blue", "the close listener was called outside handleConnections and forwardClose");
		if (!m.open && !m.unsure) violate(m.userClosed ? "C10 C12" : "C09 C12", "callback-after-close", "the close listener of connection %d was called although it was closed before", no);
		if (m.open) { m.exp.clear(); m.open = false; m.closedInHandle = true; }
	}
	m.inClose = true;            // until its listener returns, its id is still in use
	if (++depth == 1) react(m, "close");
	--depth;
	m.inClose = false;
	cbTime += k.now - t0;
}

// A listener that uses the library it is called from.
void IoWorld::react(IoModel& m, const char* where) {
	if (!reentrant || calm || choose(W, 4) != 3) return;
	bool inSend = where[0] == 's';
	IoModel* o = pickOpen();
	if (!o) o = &m;
	uint32_t what = choose(W, 9);
	// Listeners that always wait for something let datagrams arrive faster than they are handled: that call would never end.
	if (what >= 4 && what != 7 && inHandle && k.now - handleBegin > 4 * SEC) return;
	if (!*alsoViolates) alsoViolates = "C12";   // whatever goes wrong from here on
	switch (what) {
		case 0: if (m.open && !inSend) setData(m, choose(W, 3) == 2); break;
		case 1: if (!inSend || o != &m) setData(*o, 0); break;
		case 2: if (m.open) { probe("replace_own_listener"); if (inSend) listenSend(m); else listenRecv(m); } break;
		case 3: if (o->open) { listenRecv(*o); listenSend(*o); listenClose(*o); probe("replace_other_listener"); } break;
		case 4: if (m.open) for (auto& s : w.sess) if (s->dev == m.dev && s->live()) { probe("close_self_in_callback"); close(m, *s); break; } break;
		case 5: if (o->open) for (auto& s : w.sess) if (s->dev == o->dev && s->live()) { probe(o == &m ? "close_self_in_callback" : "close_other_in_callback"); close(*o, *s); break; } break;
		case 6: {
			int n = 0; for (auto& x : conns) n += x.open;
			if (n >= maxConns + 2) break;
			for (auto& s : w.sess) if (s->live()) { probe("open_in_callback"); open(*s); break; }
			break;
		}
		case 7: if (m.held) { m.held.reset(); probe("release_in_callback"); } break;
		default: for (auto& s : w.sess) if (s->live()) { probe("request_in_callback"); if (inHandle) explicitInHandle = true; exchange(w, *s, nullptr, -1); break; } break;
	}
}

// ---- what the network saw ----------------------------------------------------------------------
void IoWorld::consume(const Datagram& d) {
	if (d.dport != 2222) return;
	std::vector<Item> items;
	parseItems(d.data, 0, items, false);   // a tolerant reader may use what precedes the damage
	if (items.size() < 2 || items[0].data.size() < 4) return;
	Rd a(items[0].data);
	IoModel* m = byId(a.u32());
	if (!m) return;
	std::vector<Item> again;
	bool strict = items.size() == 2 && parseItems(d.data, 0, again, true) && items[0].type == 0x8002 && items[0].data.size() == 8 && items[1].type == 0xB1;
	Rd q(items[1].data);
	Expect e{0, 0, {}, false};
	if (m->cls1) e.seq = q.u16();
	if (m->t2oRt) e.header = q.u32();
	if (!q.ok) return;
	e.data = q.rest();
	if (m->t2oFixed && e.data.size() != m->t2oSize) return;
	e.must = strict && !d.irregular && d.src == m->dev->ip && e.data.size() <= m->t2oSize;
	if (m->recvSet) m->exp.push_back(e);
	else { if (e.must) m->fed = true; else m->mayFed = true; m->fedUB = k.now; }
}

// No socket of the library takes what a target sends to an open connection.
void IoWorld::unheard(const Datagram& d) {
	std::vector<Item> items;
	if (!cm || d.dport != 2222 || !parseItems(d.data, 0, items, true) || items.size() != 2 || items[0].type != 0x8002 || items[0].data.size() != 8 || items[1].type != 0xB1) return;
	Rd a(items[0].data);
	IoModel* m = byId(a.u32());
	if (m && !m->closing && !m->wp.expired() && d.src == m->dev->ip && (!m->t2oFixed || items[1].data.size() == m->t2oSize + (m->cls1 ? 2 : 0) + (m->t2oRt ? 4 : 0)))
		violate(blame(*m, "C07"), "not-listening", "data arrived for connection %d while the library had no socket to receive it", m->no);
}

void IoWorld::sentUdp(uint32_t ip, uint16_t port, const Bytes& b) {
	std::vector<Item> it;
	if (!parseItems(b, 0, it, true) || it.size() != 2 || it[0].type != 0x8002 || it[0].data.size() != 8 || it[1].type != 0xB1) { violate("C08", "bad-output", "malformed output datagram %s", hex(b).c_str()); return; }
	Rd a(it[0].data);
	uint32_t id = a.u32(), seq32 = a.u32();
	IoModel* m = nullptr; IoModel* dead = nullptr;
	for (auto& x : conns) if (x.idKnown && x.o2tId == id) { if (x.open) m = &x; else dead = &x; }
	if (!m) {
		if (dead && (dead->unsure || (dead->closedInHandle && dead->userClosed))) return;
		if (dead) violate(dead->userClosed ? "C08 C10" : "C08 C09", "output-after-close", "data was sent on connection %d after it was closed", dead->no);
		else violate("C08", "unknown-output", "data was sent with unknown connection id 0x%x", id);
		return;
	}
	if (!inHandle) violate("C08", "unsolicited-output", "data was sent outside handleConnections");
	if (ip != m->dstIp || port != m->dstPort) violate(blame(*m, "C08 C10"), "wrong-destination", "connection %d sent its data to %s:%d instead of %s:%d", m->no, ipStr(ip).c_str(), port, ipStr(m->dstIp).c_str(), m->dstPort);
	Rd q(it[1].data);
	uint16_t seq16 = m->cls1 ? q.u16() : 0;
	uint32_t header = m->o2tRt ? q.u32() : 1;
	if (!q.ok) { violate("C08", "bad-output", "output of connection %d is too short for its header", m->no); return; }
	Bytes data = q.rest();
	if (header != 1) violate("C08", "wrong-run-header", "connection %d sent real time header 0x%x, expected 1 (run)", m->no, header);
	if (data != m->data) violate(blame(*m, "C08"), "wrong-output-data", "connection %d sent %s (%zu bytes), the data set is %s (%zu bytes)", m->no, hex(data, 12).c_str(), data.size(), hex(m->data, 12).c_str(), m->data.size());
	if (m->o2tFixed && data.size() != m->o2tSize) violate("C08", "wrong-output-size", "connection %d sent %zu bytes on a connection of fixed size %zu", m->no, data.size(), m->o2tSize);
	if (m->anySent) {
		uint32_t d32 = seq32 - m->lastSeq32; uint16_t d16 = seq16 - m->lastSeq16;
		if (d32 < 1 || d32 > m->skipped + 1) violate(blame(*m, "C08"), "sequence", "connection %d sent sequence number %u after %u", m->no, seq32, m->lastSeq32);
		if (m->cls1 && (d16 < 1 || d16 > m->skipped + 1)) violate(blame(*m, "C08"), "sequence", "connection %d sent sequence count %u after %u", m->no, seq16, m->lastSeq16);
		if (m->cls1 && seq16 < m->lastSeq16) probe("seq16_wrapped");
	}
	m->anySent = true; m->lastSeq32 = seq32; m->lastSeq16 = seq16; m->skipped = 0;
	if (++m->sends > 1) violate("C08", "send-twice", "connection %d sent twice in one round", m->no);
	m->sent++;
	probe("io_sent");
}

void IoWorld::afterTick(IoModel& m, int64_t lb, int64_t ub, bool ok) {
	bool closed = m.closeCalls > m.closeCallsBefore && !m.userClosed;
	if ((!m.closeSet || m.closeSetInHandle) && !m.held && m.open && m.wp.expired()) { closed = true; markClosed(m); }
	// watchdog
	int64_t lbS = m.fed ? m.lastTickLB : m.lbStart;
	int64_t ubS = m.fed || m.mayFed ? m.fedUB : m.ubStart;
	if (m.fed) m.ticks = 0;
	int64_t tol = TOL + (int64_t)++m.ticks * 2 * US;
	if (closed) {
		probe("watchdog_closed");
		if (ub - lbS + tol < m.TO) violate(blame(m, "C09"), "closed-early", "connection %d was closed by its watchdog after at most %.3f ms without data, the timeout is %.3f ms", m.no, (ub - lbS) / 1e6, m.TO / 1e6);
		if (!m.held && !m.wp.expired()) violate("C09", "closed-but-alive", "connection %d is still alive after its close listener was called", m.no);
	} else if (m.open) {
		if (m.wp.expired()) { violate(blame(m, "C09 C11"), "vanished", "connection %d disappeared without its close listener being called", m.no); markClosed(m); return; }
		if (ok && !m.openedInHandle && lb - ubS > m.TO + tol) violate("C09", "not-closed", "connection %d is still open %.3f ms after its last usable data, the timeout is %.3f ms", m.no, (lb - ubS) / 1e6, m.TO / 1e6);
	}
	m.lbStart = lbS; m.ubStart = ubS; m.fed = m.mayFed = false;
	if (!m.open) return;
	// output
	tol = TOL + (int64_t)++m.outTicks * 2 * US;
	bool mism = m.mismatchedThisHandle || (m.o2tFixed && m.data.size() != m.o2tSize);
	bool early = ub - m.lbReset + tol < m.api;
	if (m.sends || m.slots) {
		if (early) violate(blame(m, "C08"), "sent-early", "connection %d sent %.3f ms after its previous output, its interval is %.3f ms", m.no, (ub - m.lbReset) / 1e6, m.api / 1e6);
		if (!m.sends) {
			if (!mism && ok) violate(blame(m, "C08"), "slot-not-sent", "connection %d asked for its data but did not send it", m.no);
			m.skipped++;
		}
		m.lbReset = lb; m.ubReset = ub; m.outTicks = 0;
	} else if (mism) { m.ubReset = ub; m.skipped++; }
	else if (ok && !m.openedInHandle && lb - m.ubReset >= m.api + tol)
		violate(blame(m, "C08"), "missed-send", "connection %d has not sent for %.3f ms, its interval is %.3f ms", m.no, (lb - m.ubReset) / 1e6, m.api / 1e6);
	if (ok) m.lastTickLB = lb;
}

void IoWorld::handle(int64_t ms) {
	for (auto& m : conns) {
		m.slots = m.sends = 0; m.closeCallsBefore = m.closeCalls; m.openAtBegin = m.open; m.openedInHandle = false; m.closedInHandle = m.closeSetInHandle = false;
		m.mismatchedThisHandle = m.open && m.o2tFixed && m.data.size() != m.o2tSize;
	}
	inHandle = true; explicitInHandle = false; cbTime = 0; handleBegin = k.now; thrown.clear();
	int64_t net0 = k.lastNetEvent;
	Outcome o = guard("handleConnections", [&] { cm->handleConnections(std::chrono::milliseconds(ms)); });
	inHandle = false;
	bool sysf = k.sysfails > o.sysfails0;
	int64_t lb = explicitInHandle ? handleBegin : std::max(handleBegin, k.lastWaitReturn), ub = k.now;
	bool threw = !thrown.empty();
	if (threw && o.ok) violate("C22", "exception-swallowed", "a listener threw, but handleConnections returned as if nothing had happened");
	if (threw && !o.ok && !sysf && o.sig != thrown) violate("C22", "exception-replaced", "a listener threw '%s', handleConnections threw '%s'", thrown.c_str(), o.sig.c_str());
	if (threw && !o.ok) for (auto& m : conns) {       // what was read before must have been handed over all the same
		if (!m.open) continue;
		for (auto& e : m.exp) if (e.must && m.recvSet) { violate("C22 C07", "lost-by-exception", "data %s (%zu bytes) that was read for connection %d was never given to its listener, since a listener threw", hex(e.data, 12).c_str(), e.data.size(), m.no); break; }
	}
	if (!o.ok && !sysf && !threw) violate("C11 C04", "handle-threw", "handleConnections threw although no system call failed: %s", o.what.c_str());
	if (o.ok) {
		if (o.t1 - o.t0 < ms * MS - 2 * MS) violate("C04", "handle-early", "handleConnections(%lld ms) returned after %.3f ms", (long long)ms, (o.t1 - o.t0) / 1e6);
		int64_t limit = std::max(o.t0 + ms * MS, k.lastNetEvent > net0 ? k.lastNetEvent : 0) + w.slack + (k.lateNs - o.late0) + cbTime + (int64_t)conns.size() * 50 * US;
		if (o.t1 > limit) violate("C04", "handle-late", "handleConnections(%lld ms) returned after %.3f ms although nothing was left to do", (long long)ms, (o.t1 - o.t0) / 1e6);
		for (auto& [fd, s] : k.fds) if (s->dgram && s->bound && s->lport == 2222)
			for (auto& d : s->rxq) if (d.at <= std::max(o.t0, o.t0 + ms * MS - 2 * MS)) { violate("C07 C04", "left-pending", "a datagram that arrived %.3f ms before handleConnections returned was not read", (o.t1 - d.at) / 1e6); break; }
		for (auto& m : conns) {
			if (!m.open) continue;
			for (auto& e : m.exp) if (e.must && m.recvSet) { violate(blame(m, "C07"), "not-delivered", "data %s (%zu bytes) that arrived for connection %d was never given to its listener", hex(e.data, 12).c_str(), e.data.size(), m.no); break; }
		}
	}
	for (auto& m : conns) { m.exp.clear(); if (m.openAtBegin || m.openedInHandle) { if (m.openAtBegin && m.userClosed && !m.open) continue; afterTick(m, lb, ub, o.ok); } }
	for (auto& m : conns) {
		if (m.closedInHandle && m.userClosed && !m.held && !m.wp.expired()) violate("C10 C12", "still-there", "connection %d, closed from inside a listener, is still alive after handleConnections returned", m.no);
		m.closedInHandle = false;
	}
	checkHasOpen("handleConnections");
	uint64_t h = conns.size();
	for (auto& m : conns) h = mix(h, m.open | m.held.operator bool() << 1 | (m.tgt ? m.tgt->sick : 0) << 2 | m.recvSet << 5 | m.sendSet << 6 | std::min<uint64_t>(m.delivered, 3) << 7 | std::min<uint64_t>(m.sent, 3) << 9 | (m.o2tFixed && m.data.size() != m.o2tSize) << 11);
	state(h);
}

void IoWorld::stray() {
	IoModel* m = pickOpen();
	uint32_t src = choose(W, 2) ? ip4(10, 0, 0, 90 + choose(W, 4)) : w.devs[choose(W, w.devs.size())].ip;
	uint32_t id = m ? m->t2oId : u32(W);
	Bytes payload = bytes(W, m ? m->t2oSize + (m->cls1 ? 2 : 0) + (m->t2oRt ? 4 : 0) : choose(W, 40));
	Bytes b;
	auto dg = [&](uint32_t i, const Bytes& pl) { return packItems({{0x8002, Wr().u32(i).u32(7).b}, {0xB1, pl}}); };
	switch (choose(W, 11)) {
		case 0: b = bytes(W, choose(W, 60)); break;
		case 1: break;
		case 2: b = dg(u32(W), payload); break;
		case 3: case 4: b = dg(id ^ (1u << (16 + choose(W, 16))), payload); break;
		case 5: b = mutate(W, dg(id, payload)); break;
		case 6: b = dg(id, payload); b.resize(choose(W, b.size())); break;
		case 7: b = dg(id, payload); b[0] = 0xff; b[1] = choose(W, 256); break;
		case 8: b = packItems({{0x8002, Wr().u32(id).u32(7).b}}); break;
		case 9: b = packItems({{0x8002, bytes(W, choose(W, 4))}, {0xB1, payload}}); break;
		default: b = dg(id, bytes(W, choose(W, 12))); break;
	}
	strayed = true;
	fault("stray_datagram");
	k.udpToClient(src, 2222, 2222, b, 0, false, range(W, 0, 3) * MS);
}

void IoWorld::wearOut(Sess& s) {
	IoModel dummy;
	ConnectionParameters p = drawParams(false, true, dummy);
	p.o2tNetworkConnectionParams = p.t2oNetworkConnectionParams = 2 << 13 | 8;
	int n = 200 + choose(W, 150);
	std::set<uint16_t> serials; std::set<uint32_t> ids;
	for (int i = 0; i < n && s.live() && !violated(); i++) {
		OpenPolicy pol; pol.reject = true; pol.status = 1;
		s.dev->openPolicy = pol; s.dev->onIoOpen = nullptr;
		auto c = w.before(s);
		IOConnection::WPtr wp;
		Outcome o = guard("forwardOpen", [&] { wp = cm->forwardOpen(s.si, p); });
		w.after(c, o, "forwardOpen", "C10");
		if (!o.ok) break;
		if (!wp.expired()) violate("C10", "open-after-reject", "the target rejected the connection but forwardOpen returned one");
		if (!s.current || s.current->data.size() < 12) continue;
		Rd q(s.current->data); q.u16(); q.u32();
		uint32_t id = q.u32(); uint16_t serial = q.u16();
		if (!serials.insert(serial).second) violate("C10", "serial-reused", "two of %d ForwardOpen requests had the same serial number", i + 1);
		if (!ids.insert(id).second) violate("C10", "id-reused", "two of %d ForwardOpen requests proposed the same identifier", i + 1);
	}
	refused = true;
	checkHasOpen("rejected forwardOpen");
	probe("many_opens");
}

void IoWorld::renew() {
	std::vector<int> was;
	for (auto& m : conns) if (m.open) was.push_back(m.no);
	Outcome o = guard("destroying the connection manager", [&] { cm.reset(); });
	if (!o.ok) violate("C15 C10", "destroy-threw", "destroying the connection manager threw: %s", o.what.c_str());
	for (auto& m : conns) {
		m.unsure = false;
		if (!m.open) continue;
		if (!m.held && !m.wp.expired()) violate("C15 C10", "outlives-manager", "a connection outlives its manager");
		m.open = false; m.userClosed = true; m.exp.clear();   // the target does not know and keeps producing
	}
	if (choose(W, 2)) k.advance(range(W, 0, 50) * MS);
	cm = std::make_unique<ConnectionManager>();
	if (cm->hasOpenConnections()) violate("C10", "has-open-wrong", "a new connection manager has open connections");
	if (choose(W, 2)) for (auto& m : conns) if (m.held && choose(W, 2)) m.held.reset();
	probe(was.empty() ? "manager_renewed_idle" : "manager_renewed");
}

void IoWorld::end() {
	calm = true;
	for (auto& m : conns) m.held.reset();
	bool any = cm->hasOpenConnections();
	cm.reset();
	for (auto& m : conns) if (m.open && !m.wp.expired()) violate("C15 C10", "outlives-manager", "a connection outlives its manager");
	(void)any;
	w.finish();
}

enum class Kind { NORMAL, REENTRANT, LIFECYCLE, CHAOS, THROWING };

static void run(const char* name, Kind kind) {
	IoWorld io;
	bool life = kind == Kind::LIFECYCLE, chaos = kind == Kind::CHAOS;
	io.start(name, 1 + choose(W, 3), {Mode::CLEAN, Mode::BENIGN, Mode::BENIGN, Mode::MALIGN, Mode::SYSFAIL});
	World& w = io.w;
	io.reentrant = kind == Kind::REENTRANT;
	if (kind == Kind::THROWING) { io.throwOdds = pick<uint32_t>(W, {4, 1, 16, 64}); io.throwWho = pick<uint32_t>(W, {7, 2, 1, 4, 3}); io.reentrant = choose(W, 4) == 3; }
	io.maxConns = life ? 8 : 4;
	bool bad = w.mode == Mode::MALIGN;
	if (bad) for (auto& d : w.devs) if (choose(W, 2)) { addMalignKinds(d, false); std::erase(d.malignKinds, (int)RF_TRUNC); if (d.malignKinds.empty()) d.malignKinds.push_back(RF_LATE); }
	if (choose(W, 6) == 5) io.handle(pick<int64_t>(W, {0, 5, 40}));       // before any connection exists
	for (auto& d : w.devs) { Sess* s = io.sessionFor(d); if (s && (choose(W, 3) || &d == &w.devs[0])) io.open(*s, choose(W, 2)); }
	int nops = 6 + choose(W, life ? 30 : 50);
	if (life && choose(W, 12) == 11) if (Sess* s = io.sessionFor(w.devs[0])) io.wearOut(*s);
	int renewAt = choose(W, life ? 3 : 8) == 1 ? (int)choose(W, nops) : -1;
	for (int i = 0; i < nops && !violated(); i++) {
		if (i == renewAt) { io.renew(); for (auto& d : w.devs) if (choose(W, 2)) if (Sess* s = io.sessionFor(d)) io.open(*s); }
		uint32_t op = choose(W, 32);
		if (life) op = pick<uint32_t>(W, {0, 20, 21, 22, 22, 23, 23, 24, 25, 26, 28, 14, 18});
		if (chaos && choose(W, 2)) op = 18;
		Adapter& d = w.devs[choose(W, w.devs.size())];
		IoModel* m = io.pickOpen();
		if (op < 14) io.handle(pick<int64_t>(W, {10, 1, 0, 2, 5, 20, 50, 100, 3, 300, 17, 30}));
		else if (op < 16) { if (m) io.setData(*m, choose(W, 4) == 3); }
		else if (op < 18) {
			if (m && m->tgt) {
				m->tgt->sick = pick<int>(W, {0, 3, 1, 2, 0});
				int64_t t = m->TO;
				if (m->tgt->sick && choose(W, 2) && t < 3 * SEC) for (int j = 0; j < 5 && m->open; j++) io.handle(std::max<int64_t>(1, t / MS / 4 + (int64_t)choose(W, 3) - 1));
			}
		} else if (op < 20) { for (int j = 1 + choose(W, 4); j > 0; j--) io.stray(); }
		else if (op == 20) { io.handle(1); k.advance(range(W, 0, 400) * MS); }
		else if (op < 24) {
			int n = 0; for (auto& x : io.conns) n += x.open;
			if (n < io.maxConns) if (Sess* s = io.sessionFor(d)) io.open(*s);
		} else if (op < 26) {
			if (m) { Sess* s = nullptr; for (auto& x : w.sess) if (x->dev == m->dev && x->live()) s = x.get(); if (!s) s = io.sessionFor(*m->dev); if (s) { auto old = choose(W, 3) == 2 ? m->wp.lock() : nullptr; if (old && !m->held) m->held = old; old.reset(); io.close(*m, *s); } }
		} else if (op == 26) {
			if (!io.conns.empty()) { IoModel& x = io.conns[choose(W, io.conns.size())]; if (!x.open && !x.unsure) for (auto& s : w.sess) if (s->dev == x.dev && s->live()) { io.close(x, *s); break; } }
		} else if (op == 27) {
			if (m) switch (choose(W, 4)) { case 0: io.listenRecv(*m); break; case 1: io.listenSend(*m); break; case 2: io.listenClose(*m); break; default: m->held.reset(); }
		} else if (op == 28) { if (Sess* s = w.liveSession()) exchange(w, *s, nullptr, -1); }
		else if (op == 29) { if (bad) { if (choose(W, 2)) idleTrouble(w, d); else { w.partition(d, true); for (int j = 0; j < 4; j++) io.handle(40); w.partition(d, false); } } else io.handle(33); }
		else if (op == 30) { if (m) { k.advance(range(W, 0, 1000) * MS); io.handle(5); } }
		else if (Sess* s = w.liveSession()) { if (choose(W, 3) == 2) { w.close(*s); probe("session_closed_under_io"); } }
	}
	// once faults stop: a fresh connection works, old ones are still judged
	if (!violated() && w.mode != Mode::CLEAN && choose(W, 2)) {
		w.faultsOff(); io.calm = true;
		k.advance(4 * SEC);
		for (auto& d : w.devs) for (auto& t : d.io) if (!t->sick) t->sick = 0;
		w.open(w.devs[0], SEC);
		Sess* s = w.sess.back().get();
		if (s->dev == &w.devs[0] && s->live()) {
			for (int j = 0; j < 3; j++) io.handle(20);
			IoModel* f = nullptr;
			for (int j = 0; j < 5 && !f; j++) { io.clashed = false; f = io.open(*s, true); if (!io.clashed) break; }
			if (!f) { if (!io.clashed && w.devs[0].openPolicy.t2oId.has_value() == false) violate("C10 C11 C05", "no-recovery", "after all faults stopped a connection to a healthy target cannot be opened"); }
			else {
				uint64_t d0 = f->delivered, s0 = f->sent;
				io.setData(*f, 0);
				for (int64_t t = 0; t < 3; t++) io.handle(std::max(f->api, (int64_t)f->tgt->t2oApi * US) / MS + 3);
				if (f->open && f->recvSet && f->delivered == d0) violate("C07 C11", "no-recovery", "after all faults stopped a fresh connection delivers nothing");
				if (f->open && f->sent == s0 && !f->sendScript) violate("C08 C11", "no-recovery", "after all faults stopped a fresh connection sends nothing");
				probe("io_recovered");
			}
		}
	}
	io.end();
}

static void runIo() { run("io", Kind::NORMAL); }
static void runReentrant() { run("io-reentrant", Kind::REENTRANT); }
static void runLife() { run("io-lifecycle", Kind::LIFECYCLE); }
static void runThrowing() { run("io-throwing", Kind::THROWING); }
static void runIoChaos() { run("io-chaos", Kind::CHAOS); }

// Long lives: wrapping counters, watchdogs of more than an hour, drift over many rounds.
static void runMarathon() {
	IoWorld io;
	io.start("io-marathon", 1, {Mode::CLEAN, Mode::CLEAN, Mode::BENIGN});
	k.cfg.sigPeriod = k.cfg.eintr = k.cfg.udpDrop = k.cfg.oversleep = 0; k.cfg.shortWrite = 0;
	World& w = io.w;
	Sess* s = io.sessionFor(w.devs[0]);
	if (!s) { io.end(); return; }
	uint32_t kind = choose(W, 5);
	if (kind == 0) {                 // thousands of tiny rounds: nothing drifts
		io.tweak = [](ConnectionParameters& p) { p.o2tRPI = p.t2oRPI = pick<uint32_t>(W, {5000, 20000}); };
		IoModel* m = io.open(*s, true);
		if (m) {
			int64_t gap = pick<int64_t>(W, {900 * US, 1500 * US, 400 * US, 1999 * US});
			for (int i = 0; i < 1500 && m->open && !violated(); i++) { io.handle(0); k.advance(gap); if (i == 700) m->tgt->sick = 3; }
		}
		probe("marathon_rounds");
	} else if (kind == 1) {          // sequence count wraps
		io.tweak = [](ConnectionParameters& p) { p.o2tRPI = 1000; p.t2oRPI = 1000000; p.connectionTimeoutMultiplier = 7; p.transportTypeTrigger = 1; };
		IoModel* m = io.open(*s, true);
		if (m) { m->sendScript = 0; for (int i = 0; i < 66500 && m->open && !violated(); i++) { io.handle(0); k.advance(2500 * US); } }
		probe("marathon_wrap");
	} else {                         // slow connections: long timeouts and intervals
		io.tweak = [](ConnectionParameters& p) {
			p.t2oRPI = pick<uint32_t>(W, {4000000, 8500000, 10000000, 60000000, 1000000}); p.o2tRPI = pick<uint32_t>(W, {2000000, 30000000, 600000000, 3000000000u});
			p.connectionTimeoutMultiplier = (uint8_t)pick<uint32_t>(W, {7, 6, 7, 5});
		};
		IoModel* m = io.open(*s, true);
		if (m) {
			int64_t step = std::max<int64_t>(1, m->TO / MS / (6 + choose(W, 30)));
			bool feed = choose(W, 2);
			if (!feed) m->tgt->sick = 3;
			int64_t until = k.now + 3 * m->TO + 2 * m->api;
			while (k.now < until && m->open && !violated()) {
				if (choose(W, 2)) io.handle(step); else { k.advance(step * MS); io.handle(choose(W, 3)); }
				if (feed && k.now > until - 2 * m->TO) m->tgt->sick = 3;
			}
		}
		probe("marathon_slow");
	}
	io.end();
}

const Scenario scIo{"io", runIo, "implicit connections: data, watchdog, output, strays, target faults"};
const Scenario scIoReentrant{"io-reentrant", runReentrant, "listeners that open, close and reconfigure connections from inside their callbacks"};
const Scenario scIoLifecycle{"io-lifecycle", runLife, "opening and closing connections: rejections, clashing ids, lost replies, double closes"};
const Scenario scIoThrowing{"io-throwing", runThrowing, "listeners that throw: the exception reaches the caller and nothing else is disturbed"};
const Scenario scIoChaos{"io-chaos", runIoChaos, "stray and malformed datagrams on top of running connections"};
const Scenario scIoMarathon{"io-marathon", runMarathon, "long-lived connections: wrapping counters, hour-long watchdogs, drift"};

}  // namespace sim
