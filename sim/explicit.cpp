// Explicit messaging: sessions, requests, replies, timeouts, connection faults.
#include "world.h"
#include "scenarios.h"

namespace sim {
using namespace eipScanner;

// One request/response exchange with full checking of the reply.
void exchange(World& w, Sess& s, const Request* given, int variant) {
	if (variant < 0) variant = pick<int>(W, {0, 0, 1, 2});
	Request r = given ? *given : randomRequest(W, variant != 0, variant == 1);
	auto c = w.before(s);
	bool refusable = variant == 1 && (r.cls > 255 || r.inst > 255 || r.attr > 255), large = tooLarge(r);
	if (!large) s.made.push_back(r);
	std::optional<cip::MessageRouterResponse> resp;
	say("session %d: %s", s.id, show(r).c_str());
	Outcome o = guard("request", [&] { resp = sendVia(s, r, variant); });
	w.matchLedger(s);
	w.after(c, o, "sendRequest", "C01", large || (refusable && !s.current));
	Rx* e = s.current;
	if (large) {
		if (o.ok) violate("C02 C01", "too-large-accepted", "a request of %zu bytes, too large for a frame, returned a reply", r.data.size());
		probe("request_too_large");
		return;
	}
	if (!o.ok) { probe("request_failed"); return; }
	if (c.tainted0 || s.tainted) return;
	if (!e) { violate("C01 C02", "reply-from-nowhere", "sendRequest returned a reply although the device never received the request"); return; }
	if (e->alteredContent) { probe("altered_reply_accepted"); return; }
	if (e->rf == RF_ENCAPS_STATUS || e->rf == RF_WRONG_HANDLE)
		violate("C01 C03", "bad-reply-accepted", "a reply with %s was accepted as the answer", e->rf == RF_ENCAPS_STATUS ? "an encapsulation error status" : "another session's handle");
	const Reply& x = e->reply;
	bool bodyGone = e->rf == RF_ENCAPS_STATUS;
	if (!bodyGone) {
		if ((uint8_t)resp->getServiceCode() != (r.service | 0x80) && (uint8_t)resp->getServiceCode() != r.service)
			violate("C01", "wrong-service", "the reply's service is 0x%02x, the request's 0x%02x", (unsigned)resp->getServiceCode(), r.service);
		if ((uint8_t)resp->getGeneralStatusCode() != x.status)
			violate("C01", "wrong-reply-status", "general status 0x%02x returned, the device answered this request with 0x%02x", (unsigned)resp->getGeneralStatusCode(), x.status);
		else if (resp->getAdditionalStatus() != x.addl)
			violate("C01", "wrong-reply-addl", "%zu additional status words returned, the device sent %zu", resp->getAdditionalStatus().size(), x.addl.size());
		if (resp->getData() != x.data)
			violate("C01", "wrong-reply-data", "reply data %s (%zu bytes) returned, the device answered this request with %s (%zu bytes)", hex(resp->getData(), 16).c_str(), resp->getData().size(), hex(x.data, 16).c_str(), x.data.size());
		auto& items = resp->getAdditionalPacketItems();
		bool same = items.size() == x.extra.size();
		for (size_t i = 0; same && i < items.size(); i++) same = (uint16_t)items[i].getTypeId() == x.extra[i].type && items[i].getData() == x.extra[i].data && items[i].getLength() == x.extra[i].data.size();
		if (!same) violate("C01", "wrong-reply-items", "%zu additional items returned, the device sent %zu (or their contents differ)", items.size(), x.extra.size());
	}
	probe("request_answered");
	if (c.made0 > 0) probe("request_on_used_session");
}

int64_t drawTimeout() { return pick<int64_t>(W, {300 * MS, 60 * MS, 1000 * MS, 150 * MS, 2500 * MS}); }

// Trouble on idle connections of one device.
void idleTrouble(World& w, Adapter& d) {
	switch (choose(W, 7)) {
		case 0: w.partition(d, d.reachable); break;
		case 1: w.powerCycle(d, range(W, 10, 1500) * MS); break;
		case 2: case 3: {
			std::vector<TcpConn*> v;
			for (auto& c : k.conns) if (c->host == &d && c->hostOpen && c->sock) v.push_back(c.get());
			if (v.empty()) return;
			TcpConn& c = *v[choose(W, v.size())];
			c.malign++; d.session.erase(c.id);
			if (choose(W, 2)) { fault("idle_fin"); k.tcpFin(c, 0); } else { fault("idle_rst"); k.tcpRst(c, 0, pick<int>(W, {ECONNRESET, ETIMEDOUT, EHOSTUNREACH})); }
			break;
		}
		case 4: w.partition(d, false); break;
		case 5: {
			std::vector<TcpConn*> v;
			for (auto& c : k.conns) if (c->host == &d && c->hostOpen && c->sock) v.push_back(c.get());
			if (v.empty()) return;
			TcpConn* c = v[choose(W, v.size())];
			c->malign++; c->notReading = true; fault("peer_stops_reading");
			k.after(range(W, 0, 4000) * MS, [c] { c->notReading = false; });
			break;
		}
		default: k.advance(range(W, 0, 3000) * MS); break;
	}
}

static void phaseClean(World& w) {       // once faults stop, everything works again
	w.faultsOff();
	k.advance(8 * SEC);                   // longest outage
	for (auto& d : w.devs) {
		Sess* s = w.open(d, SEC);
		if (!s) { violate("C01 C03 C05", "no-recovery", "after all faults stopped a session with a healthy device cannot be opened"); continue; }
		int n = 1 + choose(W, 3);
		for (int i = 0; i < n; i++) exchange(w, *s, nullptr, -1);
		probe("recovered");
	}
}

static void runExplicit() {
	World w;
	w.setup("explicit", 1 + choose(W, 3), {Mode::CLEAN, Mode::BENIGN, Mode::BENIGN, Mode::MALIGN, Mode::MALIGN, Mode::SYSFAIL});
	bool bad = w.mode == Mode::MALIGN;
	bool garble = bad && choose(W, 3) == 2;
	if (bad) for (auto& d : w.devs) addMalignKinds(d, garble);
	if (w.mode == Mode::BENIGN && choose(W, 4) == 3) for (auto& d : w.devs) { d.malign = 6; d.malignKinds = {RF_TRICKLE}; }
	int nops = 3 + choose(W, 28);
	w.open(w.devs[0], drawTimeout());
	for (int i = 0; i < nops; i++) {
		uint32_t op = choose(W, 16);
		Adapter& d = w.devs[choose(W, w.devs.size())];
		if (op < 11) {
			Sess* s = w.liveSession();
			if (!s) s = w.open(d, drawTimeout());
			if (s) exchange(w, *s, nullptr, -1);
		} else if (op < 13) {
			int open = 0; for (auto& s : w.sess) if (s->si) open++;
			if (open < 5) w.open(d, drawTimeout());
		} else if (op == 13) {
			if (Sess* s = w.liveSession()) w.close(*s);
		} else if (op == 14) {
			if (bad) idleTrouble(w, d); else k.advance(range(W, 0, 5000) * MS);
		} else k.advance(range(W, 0, 2000) * MS);
	}
	if (w.mode != Mode::CLEAN && choose(W, 3)) phaseClean(w);
	w.finish();
}

// Establishing sessions against every kind of peer.
static void runSession() {
	World w;
	w.setup("session", 1 + choose(W, 2), {Mode::CLEAN, Mode::BENIGN, Mode::MALIGN, Mode::MALIGN, Mode::SYSFAIL});
	bool bad = w.mode == Mode::MALIGN;
	int n = 2 + choose(W, 10);
	for (int i = 0; i < n; i++) {
		Adapter& d = w.devs[choose(W, w.devs.size())];
		if (bad) {
			d.regPolicy = choose(W, 2) ? choose(W, 8) : 0;
			d.acceptPolicy = pick<Host::Accept>(W, {Host::YES, Host::YES, Host::YES, Host::REFUSE, Host::IGNORE_SYN});
			if (choose(W, 8) == 7) { k.after(range(W, 0, 400) * MS, [&w, &d] { w.powerCycle(d, 300 * MS); }); }
			if (choose(W, 10) == 9) w.partition(d, d.reachable);
		}
		Sess* s = w.open(d, drawTimeout());
		if (!s) { probe("session_refused"); continue; }
		if (choose(W, 2)) exchange(w, *s, nullptr, -1);
		if (choose(W, 2)) w.close(*s);
	}
	if (bad) phaseClean(w);
	w.finish();
}

// A machine that is not there at all.
static void runNowhere() {
	World w;
	w.setup("nowhere", 1, {Mode::CLEAN, Mode::BENIGN, Mode::SYSFAIL});
	int64_t to = drawTimeout();
	std::shared_ptr<SessionInfo> si;
	std::string host = ipStr(ip4(10, 0, 0, 77));
	Outcome o = guard("session.open", [&] { si = to == SEC ? std::make_shared<SessionInfo>(host, 44818) : std::make_shared<SessionInfo>(host, 44818, std::chrono::milliseconds(to / MS)); });   // a second is the default
	if (o.ok) violate("C03", "no-connection", "a session with a machine that does not exist was reported open");
	w.boundTime(o, k.lastNetEvent, to, "opening a session");
	si.reset();
	Sess* s = w.open(w.devs[0], to);
	if (s) exchange(w, *s, nullptr, -1);
	w.finish();
}

const Scenario scExplicit{"explicit", runExplicit, "sessions and explicit requests to 1-3 devices under network, peer and system call faults"};
const Scenario scSession{"session", runSession, "session establishment against refusing, silent, dying and garbling peers"};
const Scenario scNowhere{"nowhere", runNowhere, "connecting to an address where nothing answers"};

}  // namespace sim
