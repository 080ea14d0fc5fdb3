// Devices that answer anything with anything: no content of any reply or datagram may crash, hang or poison the library.
#include "world.h"
#include "scenarios.h"
#include "ConnectionManager.h"
#include "DiscoveryManager.h"
#include "FileObject.h"
#include "IdentityObject.h"
#include "ParameterObject.h"
#include "fileObject/FileObjectState.h"
#include "vendor/ra/powerFlex525/DPIFaultManager.h"

namespace sim {
using namespace eipScanner;
using cip::connectionManager::ConnectionParameters;
namespace pf = vendor::ra::powerFlex525;

namespace {
struct Chaos {
	World w;
	std::unique_ptr<ConnectionManager> cm;
	std::vector<IOConnection::WPtr> io;
	std::vector<std::unique_ptr<FileObject>> files;
	std::vector<std::unique_ptr<ParameterObject>> params;
	uint32_t odds = 16;
	uint64_t received = 0, closed = 0;
	uint64_t sink = 0;

	void arm(Adapter& d) {
		d.twist = [this](Rx& e) {
			if (!chance(D, odds, 64)) return;
			Reply& r = e.reply;
			fault("garbage_reply");
			switch (choose(D, 9)) {
				case 0: r.data = mutate(D, r.data); break;
				case 1: r.data.clear(); break;
				case 2: if (!r.data.empty()) r.data.resize(choose(D, r.data.size())); break;
				case 3: r.data = bytes(D, choose(D, 80)); break;
				case 4: r.status = (uint8_t)u16(D); if (choose(D, 2)) r.addl.assign(choose(D, 255), u16(D)); break;
				case 5: { Bytes x = bytes(D, 1 + choose(D, 600)); r.data.insert(r.data.end(), x.begin(), x.end()); break; }
				case 6: for (int n = 1 + choose(D, 3); n > 0; n--) r.extra.push_back({pick<uint16_t>(D, {0x8000, 0x8001, 0, 0xB2, 0x8002, 0xffff}), bytes(D, pick<size_t>(D, {0, 1, 2, 8, 15, 16, 17, 300}))}); break;
				case 7: if (!r.data.empty()) for (auto& b : r.data) if (choose(D, 4) == 3) b = 0xff; break;
				default: r = randomReply(); break;
			}
			size_t rest = 64; for (auto& i : r.extra) rest += 4 + i.data.size();      // a frame's length has 16 bits
			if (r.data.size() + 2 * r.addl.size() + rest > 65000) r.data.resize(65000 - 2 * r.addl.size() - rest);
		};
		d.discovery = [this, &d](const Datagram& q) {
			for (int n = 1 + choose(D, 3); n > 0; n--) {
				Bytes item = Wr().u16(1).raw(sockaddrBytes(d.ip, 44818)).raw(d.ident.pack()).u8(3).b;
				Bytes f = encodeFrame(0x63, 0, 0, {}, packItems({{0x0C, item}}));
				if (chance(D, odds, 64)) { f = choose(D, 4) == 3 ? bytes(D, choose(D, 520)) : mutate(D, f); fault("discovery_garbage"); }
				k.udpToClient(d.ip, 44818, q.sport, f, 1, true, 0);
			}
		};
	}

	// A call whose outcome is free as long as it ends in time and fails with an ordinary exception only.
	template <class F> bool call(Sess& s, const char* name, F&& f) {
		auto c = w.before(s);
		Outcome o = guard(name, f);
		w.after(c, o, name, "C05", true);
		return o.ok;
	}

	void identity(Sess& s) {
		call(s, "identity", [&] {
			IdentityObject i(1, s.si);
			sink += i.getProductName().size() + i.getVendorId() + i.getDeviceType() + i.getProductCode() + i.getSerialNumber() + i.getStatus() + i.getRevision().toString().size();
		});
	}
	void parameter(Sess& s) {
		int inst = 1 + choose(W, 3);
		ParamObj& q = s.dev->params[inst];
		size_t n = pick<size_t>(D, {2, 1, 4, 8});
		q.value = bytes(D, n); q.min = bytes(D, n); q.max = bytes(D, n); q.def = bytes(D, n);
		q.descriptor = u16(D); q.name = "speed"; q.units = "Hz"; q.help = "help"; q.linkPath = bytes(D, choose(D, 8)); q.type = (uint8_t)pick<uint32_t>(D, {0xC7, 0xC2, 0xC8, 0, 0xff});
		bool full = choose(W, 2);
		std::unique_ptr<ParameterObject> p;
		call(s, "parameter", [&] {
			p = std::make_unique<ParameterObject>(inst, full, s.si);
			sink += p->getName().size() + p->getUnits().size() + p->getHelp().size();
		});
		if (p && params.size() < 4) params.push_back(std::move(p));
		if (!params.empty() && choose(W, 2)) {
			auto& x = *params[choose(W, params.size())];
			call(s, "updateValue", [&] { x.updateValue(s.si); });
			// reading a value narrower than the type asked for is refused with an exception
			guard("getActualValue", [&] { switch (choose(W, 4)) { case 0: sink += x.getActualValue<uint8_t>(); break; case 1: sink += x.getActualValue<uint16_t>(); break; case 2: sink += x.getActualValue<uint32_t>(); break; default: sink += x.getActualValue<uint64_t>(); } });
		}
	}
	void dpi(Sess& s) {
		if (choose(W, 3) == 2) {
			s.dev->dpiObjects[1] = bytes(D, 30);
			call(s, "dpiObject", [&] { pf::DPIFaultObject f(1, s.si); sink += f.getFullInformation().faultText.toStdString().size(); });
			return;
		}
		for (int i = 0; i < 10; i++) s.dev->rawParams[i < 3 ? 7 + i : 601 + i] = choose(D, 2) ? 4 + choose(D, 3) : 0;
		pf::DPIFaultManager m(choose(W, 2), choose(W, 2), choose(W, 2));
		m.setNewFaultListener([&](const pf::DPIFaultParameter& p) { sink += p.getFullInformation().faultDescription.faultText.size(); });
		call(s, "handleFaultParameters", [&] { m.handleFaultParameters(s.si); });
		if (choose(W, 4) == 3) call(s, "writeCommand", [&] { m.writeCommand(pf::DPIFaultManagerCommands::CLEAR_FAULT, s.si); });
	}
	void file(Sess& s) {
		int inst = 0xC8 + choose(W, 2);
		FileObj& f = s.dev->files[inst];
		f.transferSize = pick<uint8_t>(D, {200, 1, 7, 255}); f.content = bytes(D, choose(D, 900)); f.state = 2; f.cur = -1;
		std::unique_ptr<FileObject> o;
		int done = 0;
		bool open = call(s, "fileObject", [&] { o = std::make_unique<FileObject>(inst, s.si); });
		if (!open) return;
		bool begun = call(s, "beginUpload", [&] { o->beginUpload(s.si, [&](cip::GeneralStatusCodes, const std::vector<uint8_t>& b) { done++; sink += b.size(); }); });
		for (int i = 0; begun && i < 12; i++) {
			bool more = false;
			call(s, "handleTransfers", [&] { more = o->handleTransfers(s.si); });
			if (!more) break;
		}
		if (done > 1) violate("C13", "completed-twice", "the completion of one upload was signalled %d times", done);
	}
	bool forwardOpen(Sess& s, bool reject = false) {
		ConnectionParameters p;
		p.connectionPath = {0x20, 0x04, 0x24, 151, 0x2C, 150, 0x2C, 100};
		p.o2tRealTimeFormat = choose(W, 2); p.t2oRealTimeFormat = choose(W, 2);
		p.originatorVendorId = 342; p.originatorSerialNumber = 0x12345;
		p.t2oNetworkConnectionParams = (choose(W, 2) ? 2u : 1u) << 13 | (choose(W, 2) << 9) | 8;
		p.o2tNetworkConnectionParams = 2u << 13 | 8;
		p.o2tRPI = p.t2oRPI = pick<uint32_t>(W, {10000, 2000, 100000});
		p.connectionTimeoutMultiplier = (uint8_t)choose(W, 4);
		p.transportTypeTrigger = pick<uint8_t>(W, {1, 0, 3});
		s.dev->openPolicy = {};
		s.dev->openPolicy.reject = reject;
		s.dev->openPolicy.sockaddr = choose(D, 3); s.dev->openPolicy.sockIp = s.dev->ip; s.dev->openPolicy.t2oSockaddr = choose(D, 2);
		bool rt = p.t2oRealTimeFormat;
		s.dev->onIoOpen = [rt](IoConn& t) { t.size = 8; t.rt = rt; t.period = (int64_t)t.t2oApi * US; t.dev->startProducing(t, 100 * US); };
		IOConnection::WPtr c;
		call(s, "forwardOpen", [&] { c = cm->forwardOpen(s.si, p); });
		auto x = c.lock();
		if (!x) return false;
		probe("chaos_connection");
		if (choose(W, 4) != 3) x->setReceiveDataListener([this](auto, auto, const std::vector<uint8_t>& d) { received++; sink += d.size(); });
		x->setCloseListener([this] { closed++; });
		x->setDataToSend(bytes(W, 8));
		io.push_back(c);
		return true;
	}
	void handle(int64_t ms) {
		// a target that announced an interval of nothing produces without end: let the call end
		Outcome o = guard("handleConnections", [&] { cm->handleConnections(std::chrono::milliseconds(ms)); });
		if (!o.ok && k.sysfails == o.sysfails0) violate("C11 C05", "handle-threw", "handleConnections threw although no system call failed: %s", o.what.c_str());
	}
	void stray(Adapter& d) {
		IoConn* t = nullptr;
		for (auto& c : d.io) if (c->open) t = c.get();
		Bytes b = t ? d.makeDatagram(t->t2oId, u32(D), bytes(D, 8 + (t->cls1() ? 2 : 0))) : bytes(D, choose(D, 60));
		if (choose(D, 4)) b = mutate(D, b);
		fault("stray_datagram");
		k.udpToClient(d.ip, 2222, 2222, b, 0, false);
	}
	void discovery() {
		DiscoveryManager m(ipStr(k.bcast), 44818, std::chrono::milliseconds(50));
		Outcome o = guard("discover", [&] { for (auto& x : m.discover()) sink += x.identityObject.getProductName().size() + x.socketAddress.toString().size(); });
		if (!o.ok && k.sysfails == o.sysfails0) violate("C14 C05", "failed-without-fault", "discovery failed although no system call did: %s", o.what.c_str());
	}
};

void runChaos() {
	Chaos x;
	World& w = x.w;
	w.setup("chaos", 1 + choose(W, 2), {Mode::MALIGN, Mode::CLEAN, Mode::BENIGN, Mode::MALIGN, Mode::SYSFAIL});
	w.checkRequests = false;
	if (w.mode == Mode::MALIGN && choose(W, 2)) for (auto& d : w.devs) addMalignKinds(d, true);
	x.odds = pick<uint32_t>(W, {16, 4, 40, 64});
	for (auto& d : w.devs) { d.ident.name = "drive"; x.arm(d); }
	x.cm = std::make_unique<ConnectionManager>();
	int n = 4 + choose(W, 28);
	for (int i = 0; i < n && !violated(); i++) {
		Adapter& d = w.devs[choose(W, w.devs.size())];
		uint32_t op = choose(W, 20);
		if (op == 19) { x.discovery(); continue; }
		if (op >= 15) { x.handle(pick<int64_t>(W, {10, 1, 0, 30})); continue; }
		if (op >= 13) { x.stray(d); x.handle(1); continue; }
		if (op == 12) { if (w.mode == Mode::MALIGN) idleTrouble(w, d); else k.advance(100 * MS); continue; }
		Sess* s = anySession(w, d);
		if (!s) continue;
		if (op < 2) x.identity(*s);
		else if (op < 4) x.parameter(*s);
		else if (op < 5) x.dpi(*s);
		else if (op < 7) x.file(*s);
		else if (op < 10) { int live = 0; for (auto& c : x.io) live += !c.expired(); if (live < 4) x.forwardOpen(*s); }
		else if (op == 10) { if (!x.io.empty()) { auto c = x.io[choose(W, x.io.size())]; x.call(*s, "forwardClose", [&] { x.cm->forwardClose(s->si, c); }); } }
		else {
			Request r = randomRequest(W, choose(W, 2));
			x.call(*s, "request", [&] { auto resp = sendVia(*s, r, r.path8 ? 1 + choose(W, 2) : 0); x.sink += resp.getData().size(); });
		}
		uint64_t h = x.io.size(); for (auto& c : x.io) h = mix(h, c.expired());
		state(mix(h, op));
	}
	// once the devices are sane again, everything works
	if (!violated()) {
		w.faultsOff();
		for (auto& d : w.devs) { d.twist = nullptr; for (auto& c : d.io) c->producing = false; }
		k.advance(8 * SEC);
		x.handle(1);
		Adapter& d = w.devs[0];
		Sess* s = w.open(d, SEC);
		if (!s) violate("C05", "no-recovery", "after all faults stopped a session with a healthy device cannot be opened");
		else {
			std::string name; uint32_t serial = 0;
			auto c = w.before(*s);
			Outcome o = guard("identity", [&] { IdentityObject i(1, s->si); name = i.getProductName(); serial = i.getSerialNumber(); });
			w.after(c, o, "reading the identity", "C05");
			if (o.ok && (name != d.ident.name || serial != d.ident.serial)) violate("C05 C06", "no-recovery", "after all faults stopped the identity of a healthy device is read wrong");
			bool up = x.forwardOpen(*s);
			if (!up) {
				bool p2p = !d.io.empty() && d.io.back()->open;   // the id may clash with one that garbage put into use
				if (!p2p) violate("C05 C10", "no-recovery", "after all faults stopped a connection to a healthy target cannot be opened");
			} else if (!d.io.empty() && d.io.back()->open) {
				auto con = x.io.back().lock();
				uint64_t got = 0;
				if (con) con->setReceiveDataListener([&](auto, auto, const std::vector<uint8_t>& b) { if (b.size() == 8) got++; });
				con.reset();
				for (int i = 0; i < 3; i++) x.handle(d.io.back()->t2oApi / 1000 + 5);
				if (!got) violate("C05 C07", "no-recovery", "after all faults stopped a fresh connection delivers nothing");
			}
			probe("recovered");
		}
	}
	x.cm.reset();
	x.files.clear(); x.params.clear();
	w.finish();
}

// A process that runs for months: the same work over and over, with whatever goes wrong in between. After each round
// everything is closed; what the library still holds then must not grow from round to round.
struct Needs { uint64_t blocks = 0, bytes = 0, fds = 0, calls = 0; };

struct Endurance {
	Chaos x;
	World& w = x.w;
	std::vector<int> script;
	bool throwing = false;
	Needs top; int times[4] = {0, 0, 0, 0};

	void openAndRun(Adapter& d, Sess& s, int kind) {
		size_t n0 = d.io.size();
		if (kind == 2) s.dev->nextRf = pick<int>(D, {RF_NOREPLY, RF_LATE, RF_FIN_MID, RF_RST_BEFORE, RF_ENCAPS_STATUS, RF_POWERCYCLE});
		if (!x.forwardOpen(s, kind == 1)) return;
		auto c = x.io.back().lock();
		if (c && throwing && choose(W, 2)) {
			int which = choose(W, 3);
			if (which == 0) c->setReceiveDataListener([](auto, auto, const std::vector<uint8_t>&) { throw std::runtime_error("listener failed"); });
			if (which == 1) c->setSendDataListener([](std::vector<uint8_t>&) { throw std::runtime_error("listener failed"); });
			if (which == 2) { auto left = std::make_shared<int>(1 + choose(W, 2)); c->setCloseListener([left] { if ((*left)-- > 0) throw std::runtime_error("listener failed"); }); }
		}
		for (int i = choose(W, 4); c && i > 0; i--) c->setDataToSend(bytes(W, choose(W, 300)));
		c.reset();
		IoConn* t = d.io.size() > n0 ? d.io.back().get() : nullptr;
		if (kind == 3 && t) t->producing = false;                        // its watchdog runs out
		if (kind == 3) for (int i = 0; i < 8 && !x.io.back().expired(); i++) handle(60);
		else for (int i = 1 + choose(W, 3); i > 0; i--) handle(pick<int64_t>(W, {15, 1, 40}));
		if (choose(W, 3)) shut(x.io.back(), kind == 4);
	}
	void shut(const IOConnection::WPtr& c, bool lost) {
		Adapter& d = w.devs[0];
		Sess* s = anySession(w, d);
		if (!s) return;
		if (lost) d.nextRf = pick<int>(D, {RF_NOREPLY, RF_LATE, RF_FIN_BEFORE, RF_RST_MID});
		x.call(*s, "forwardClose", [&] { x.cm->forwardClose(s->si, c); });
	}
	void handle(int64_t ms) {
		Outcome o = guard("handleConnections", [&] { x.cm->handleConnections(std::chrono::milliseconds(ms)); });
		if (!o.ok && !throwing && k.sysfails == o.sysfails0) violate("C11 C05", "handle-threw", "handleConnections threw although nothing failed: %s", o.what.c_str());
	}
	void refused(Adapter& d) {
		d.regPolicy = choose(W, 8); d.acceptPolicy = pick<Host::Accept>(W, {Host::YES, Host::REFUSE, Host::YES, Host::IGNORE_SYN});
		w.open(d, 60 * MS);
		d.regPolicy = 0; d.acceptPolicy = Host::YES;
	}
	void step(int kind) {
		Adapter& d = w.devs[0];
		if (kind == 0) { refused(d); return; }
		if (kind == 1) { x.discovery(); return; }
		if (kind == 2) { for (int i = 3; i > 0; i--) x.stray(d); handle(2); return; }
		if (kind == 3) { if (w.mode == Mode::MALIGN) idleTrouble(w, d); else k.advance(50 * MS); return; }
		if (kind == 4) { handle(pick<int64_t>(W, {5, 0, 50})); return; }
		Sess* s = anySession(w, d);
		if (!s) return;
		switch (kind) {
			case 5: x.identity(*s); break;
			case 6: x.parameter(*s); break;
			case 7: x.dpi(*s); break;
			case 8: x.file(*s); break;
			case 9: case 10: case 11: case 12: case 13: openAndRun(d, *s, kind - 9); break;
			case 14: w.close(*s); break;
			case 15: x.cm.reset(); guard("manager", [&] { x.cm = std::make_unique<ConnectionManager>(); }); while (!x.cm) guard("manager", [&] { x.cm = std::make_unique<ConnectionManager>(); }); break;
			default: { Request r = randomRequest(W, choose(W, 2)); x.call(*s, "request", [&] { auto resp = sendVia(*s, r, r.path8 ? 1 + choose(W, 2) : 0); x.sink += resp.getData().size(); }); }
		}
	}
	// Everything is put back; returns what is still needed.
	Needs rest() {
		std::vector<uint32_t> malign; uint32_t odds = x.odds;
		for (auto& d : w.devs) malign.push_back(d.malign);
		w.faultsOff(); x.odds = 0;
		x.params.clear(); x.files.clear();
		for (auto& t : w.devs[0].io) t->producing = false;
		k.advance(4 * SEC);            // the longest outage, and whatever is on its way
		handle(0);
		for (auto& c : x.io) if (!c.expired()) {
			Sess* s = anySession(w, w.devs[0]);
			if (!s) { violate("C21 C05", "no-recovery", "with all faults gone no session can be opened"); break; }
			x.call(*s, "forwardClose", [&] { x.cm->forwardClose(s->si, c); });
			if (!c.expired()) violate("C21 C10", "not-closed", "a connection is still there after it was closed without any fault");
		}
		x.io.clear();
		for (auto& s : w.sess) w.close(*s);
		if (x.cm->hasOpenConnections()) violate("C21 C11", "connections-left", "every connection was closed, but some are still open");
		handle(0);
		k.advance(100 * MS);
		handle(0);
		uint64_t c0 = k.syscalls;
		handle(0);
		Needs n;
		n.calls = k.syscalls - c0;
		auto h = libraryHolds();
		n.blocks = h.blocks; n.bytes = h.bytes; n.fds = k.fds.size();
		size_t i = 0;
		for (auto& d : w.devs) d.malign = malign[i++];
		x.odds = odds; k.faultsOn = true;
		return n;
	}
	void judge(Needs& base, const Needs& n, int r, const char* when) {
		say("round %d: %llu blocks, %llu bytes, %llu descriptors, %llu calls", r, (unsigned long long)n.blocks, (unsigned long long)n.bytes, (unsigned long long)n.fds, (unsigned long long)n.calls);
		// What is made once and kept (a table built on first use) may appear in any round; what grows again and again may not.
		if (r == 0) { base = top = n; return; }
		auto grew = [&](uint64_t Needs::*f, uint64_t least, int& times) { if (n.*f >= top.*f + least) { top.*f = n.*f; times++; } return times >= 6; };
		if (grew(&Needs::blocks, 1, times[0])) violate("C21", "memory-grows", "after round %d the library holds %llu blocks of memory, after the first it held %llu, and it grew %d times, %s", r, (unsigned long long)n.blocks, (unsigned long long)base.blocks, times[0], when);
		if (grew(&Needs::bytes, 8, times[1])) violate("C21", "memory-grows", "after round %d the library holds %llu bytes of memory, after the first it held %llu, and it grew %d times, %s", r, (unsigned long long)n.bytes, (unsigned long long)base.bytes, times[1], when);
		if (grew(&Needs::fds, 1, times[2])) violate("C21 C15", "descriptors-grow", "after round %d %llu descriptors are open, after the first there were %llu, and it grew %d times, %s", r, (unsigned long long)n.fds, (unsigned long long)base.fds, times[2], when);
		if (grew(&Needs::calls, 1, times[3])) violate("C21", "work-grows", "after round %d handling the connections takes %llu system calls, after the first it took %llu, and it grew %d times, %s", r, (unsigned long long)n.calls, (unsigned long long)base.calls, times[3], when);
		state(mix(n.blocks, n.fds));
		probe("round");
	}
	// One session, one connection and one of every object, used for a long time without ever being closed.
	void steady() {
		w.setup("endurance", 1, {Mode::CLEAN, Mode::BENIGN});
		w.checkRequests = false;
		Adapter& d = w.devs[0];
		d.ident.name = "drive"; x.odds = 0; x.arm(d);
		x.odds = pick<uint32_t>(W, {0, 0, 16});
		for (int i = 0; i < 10; i++) d.rawParams[i < 3 ? 7 + i : 601 + i] = 4 + i % 3;
		guard("manager", [&] { x.cm = std::make_unique<ConnectionManager>(); });
		Sess* s = w.open(d, SEC);
		std::unique_ptr<FileObject> file; std::unique_ptr<DiscoveryManager> disc; std::unique_ptr<pf::DPIFaultManager> drive; std::unique_ptr<IdentityObject> ident;
		FileObj& f = d.files[0xC8];
		auto fresh = [&] { f = FileObj(); f.content = bytes(D, 500); };
		fresh();
		uint32_t odds = x.odds; x.odds = 0;
		if (s) {
			for (int i = 0; i < 3; i++) x.parameter(*s);
			x.call(*s, "identity", [&] { ident = std::make_unique<IdentityObject>(1, s->si); });
			x.call(*s, "fileObject", [&] { file = std::make_unique<FileObject>(0xC8, s->si); });
			guard("objects", [&] { disc = std::make_unique<DiscoveryManager>(ipStr(k.bcast), 44818, std::chrono::milliseconds(20)); drive = std::make_unique<pf::DPIFaultManager>(choose(W, 2), choose(W, 2), choose(W, 2)); });
			drive->setNewFaultListener([this](const pf::DPIFaultParameter& p) { x.sink += p.getFullInformation().faultDescription.faultText.size(); });
			x.forwardOpen(*s);
		}
		x.odds = odds;
		IOConnection::WPtr io; IoConn* t = nullptr;
		if (!x.io.empty() && !x.io.back().expired()) { io = x.io.back(); t = d.io.back().get(); }
		for (int n = 1 + choose(W, 5); n > 0; n--) script.push_back(choose(W, 12));
		Needs base;
		bool uploading = false;
		auto alive = [&] { for (int64_t i = 0; i < 2; i++) handle(1); };
		for (int r = 0; r < 40 && s && s->live() && !violated(); r++) {
			for (int op : script) {
				if (op >= 9 && !s->live()) continue;
				switch (op) {
					case 0: case 1: for (int i = 0; i < 6; i++) handle(pick<int64_t>(W, {15, 1, 40, 3})); break;
					case 2: if (auto c = io.lock()) { In in_; c->setDataToSend(Bytes(choose(W, 2) ? 8 : 16, 7)); } break;
					case 3: if (auto c = io.lock()) { In in_; std::vector<uint8_t> seen(20); c->setReceiveDataListener([this, seen](auto, auto, const std::vector<uint8_t>& b) { x.sink += b.size() + seen.size(); }); c->setSendDataListener([this, seen](std::vector<uint8_t>& b) { x.sink += b.size() + seen.size(); }); c->setCloseListener([this, seen] { x.closed += seen.size(); }); } break;
					case 4: if (t) { t->sick = choose(D, 3); handle(30); t->sick = 0; handle(10); } break;
					case 5: for (int i = 0; i < 4; i++) x.stray(d); handle(5); break;
					case 6: guard("discover", [&] { for (auto& y : disc->discover()) x.sink += y.identityObject.getProductName().size(); }); alive(); break;
					case 7: k.advance(range(W, 0, 20) * MS); alive(); break;
					case 8: if (!x.params.empty()) x.call(*s, "updateValue", [&] { for (auto& p : x.params) p->updateValue(s->si); }); alive(); break;
					case 9: x.call(*s, "handleFaultParameters", [&] { drive->handleFaultParameters(s->si); }); alive(); break;
					case 10:
						if (!file) break;
						if (!uploading) { fresh(); uploading = x.call(*s, "beginUpload", [&] { file->beginUpload(s->si, [this](cip::GeneralStatusCodes, const std::vector<uint8_t>& b) { x.sink += b.size(); }); }); }
						for (int i = 0; uploading && i < 8; i++) { bool more = false; x.call(*s, "handleTransfers", [&] { more = file->handleTransfers(s->si); }); if (!more) uploading = false; }
						alive(); break;
					default: { Request q = randomRequest(W, choose(W, 2)); x.call(*s, "request", [&] { auto resp = sendVia(*s, q, q.path8 ? 1 + choose(W, 2) : 0); x.sink += resp.getData().size(); }); alive(); }
				}
			}
			Needs n;
			auto h = libraryHolds();
			n.blocks = h.blocks; n.bytes = h.bytes; n.fds = k.fds.size();
			judge(base, n, r, "although the same objects were used all the time");
		}
		if (!io.expired()) probe("endured_with_connection");
		file.reset(); disc.reset(); drive.reset(); ident.reset();
		x.cm.reset(); x.params.clear();
		w.finish();
		probe("endured_steadily");
	}
	void run() {
		if (choose(W, 3) == 2) { steady(); return; }
		w.setup("endurance", 1, {Mode::CLEAN, Mode::MALIGN, Mode::BENIGN, Mode::MALIGN, Mode::SYSFAIL, Mode::SYSFAIL});
		w.checkRequests = false;
		if (w.mode == Mode::MALIGN) addMalignKinds(w.devs[0], choose(W, 2));
		x.odds = w.mode == Mode::CLEAN ? 0 : pick<uint32_t>(W, {0, 4, 24});
		Adapter& d = w.devs[0];
		d.ident.name = "drive"; x.arm(d);
		guard("manager", [&] { x.cm = std::make_unique<ConnectionManager>(); });
		if (!x.cm) { w.finish(); return; }
		throwing = choose(W, 4) == 3;
		for (int n = 1 + choose(W, 5); n > 0; n--) script.push_back(choose(W, 17));
		Needs base;
		for (int r = 0; r < 24 && !violated(); r++) {
			for (int s : script) { step(s); if (violated()) return; }
			judge(base, rest(), r, "although everything was closed");
		}
		x.cm.reset();
		x.params.clear();
		w.finish();
		probe("endured");
	}
};
void runEndurance() { Endurance e; e.run(); }
}  // namespace

const Scenario scEndurance{"endurance", runEndurance, "the same work over and over: memory, descriptors and effort stay the same"};
const Scenario scChaos{"chaos", runChaos, "devices that answer every service with garbage; all client objects used at random"};

}  // namespace sim
