// Discovery: one broadcast question, any number of answers, good and bad.
#include "world.h"
#include "scenarios.h"
#include "DiscoveryManager.h"

namespace sim {
using namespace eipScanner;

namespace {
struct Answer {                  // one device described in one reply
	IdentityData id; uint32_t ip = 0; uint16_t port = 44818; uint8_t state = 3;
	Bytes item() const { return Wr().u16(1).raw(sockaddrBytes(ip, port)).raw(id.pack()).u8(state).b; }
};
struct Sent { std::vector<Answer> answers; bool good = true; };

struct Disc {
	World w;
	std::map<int, Sent> sent;    // by datagram tag
	int tag = 0;
	std::set<uint32_t> serials;
	std::vector<Answer> drawn;   // devices are told apart by their serial number only where garbage is among the replies
	int requests = 0; uint16_t clientPort = 0; bool expectBroadcast = true; uint32_t target = 0; uint16_t targetPort = 44818;
	uint32_t garble = 0, twins = 0, many = 0, alike = 0; int64_t spread = 0;
	std::vector<Datagram> consumed;
	int64_t lastConsume = 0; bool inCall = false; int64_t timeout = 0;
	size_t maxName = 32;

	Answer draw(Adapter& d) {
		Answer a;
		if (alike && drawn.size() && chance(D, alike, 64)) { a = drawn[choose(D, drawn.size())]; if (choose(D, 2)) return a; }
		a.id.vendor = u16(D); a.id.type = u16(D); a.id.product = u16(D); a.id.major = choose(D, 256); a.id.minor = choose(D, 256); a.id.status = u16(D);
		if (alike && choose(D, 2)) a.id.serial = drawn.size() && choose(D, 2) ? drawn[choose(D, drawn.size())].id.serial : pick<uint32_t>(D, {0, uint32_t(-1), 1});
		else do a.id.serial = ((uint32_t)choose(D, 65536) << 16 | choose(D, 65536)); while (!serials.insert(a.id.serial).second);
		Bytes n = bytes(D, choose(D, maxName + 1)); for (auto& c : n) if (choose(D, 2)) c = ' ' + c % 95; a.id.name.assign(n.begin(), n.end());
		a.ip = choose(D, 4) ? d.ip : u32(D); a.port = choose(D, 4) ? 44818 : u16(D); a.state = choose(D, 256);
		drawn.push_back(a);
		return a;
	}
	void answer(Adapter& d, const Datagram& q) {
		int n = many && chance(D, many, 64) ? (int)choose(D, 5) : 1;
		for (int i = 0; i < n; i++) {
			Sent s;
			std::vector<Item> items;
			size_t bytes = 26;
			for (int j = 1 + (choose(D, 6) == 5 ? choose(D, 4) : 0); j > 0; j--) {
				Answer a = draw(d);
				Bytes it = a.item();
				if (bytes + it.size() + 4 > 500) break;
				bytes += it.size() + 4;
				items.push_back({0x0C, it}); s.answers.push_back(a);
			}
			Bytes f = encodeFrame(0x63, 0, 0, {}, packItems(items));
			if (garble && chance(D, garble, 64)) {
				s.good = false; fault("discovery_garbage");
				switch (choose(D, 9)) {
					case 0: f = sim::bytes(D, choose(D, 520)); break;
					case 1: f.resize(choose(D, f.size())); break;
					case 2: f.clear(); break;
					case 3: f.resize(24); break;
					case 4: f[24] = choose(D, 256); f[25] = choose(D, 256); break;
					case 5: if (items.size()) { Bytes it = items.back().data; it.resize(choose(D, it.size())); items.back().data = it; f = encodeFrame(0x63, 0, 0, {}, packItems(items)); } break;
					case 6: if (items.size()) { Bytes it = items.back().data; if (it.size() > 32) it[32] = 255; items.back().data = it; f = encodeFrame(0x63, 0, 0, {}, packItems(items)); } break;
					case 7: f = encodeFrame(0x63, 0, 0, {}, packItems({})); break;
					default: f = mutate(D, f); break;
				}
			}
			sent[++tag] = s;
			int copies = twins && chance(D, twins, 64) ? 2 : 1;
			for (int j = 0; j < copies; j++) k.udpToClient(d.ip, 44818, q.sport, f, tag, true, spread ? range(D, 0, spread) : 0);
		}
	}
	void discover(DiscoveryManager& m, bool calm) {
		consumed.clear(); requests = 0; inCall = true;
		std::vector<IdentityItem> got;
		uint64_t e0 = k.udpSendErrs, s0 = k.udpSends;
		Outcome o = guard("discover", [&] { for (auto& x : m.discover()) got.push_back(x); });
		inCall = false;
		if (o.ok && k.udpSendErrs > e0 && k.udpSends == s0) violate("C15", "send-failure-hidden", "the question could not be sent, but discovery reported %zu devices as if it had been", got.size());
		bool sysf = k.sysfails > o.sysfails0;
		if (!o.ok) { if (!sysf) violate("C14", "failed-without-fault", "discovery failed although no system call did: %s", o.what.c_str()); probe("discovery_failed"); return; }
		if (requests != 1 && !sysf) violate("C14", "requests", "one discovery sent %d questions", requests);
		// what came back
		size_t i = 0; bool bad = false, anyGarbage = false; size_t good = 0;
		std::set<uint32_t> known;
		for (auto& d : consumed) { auto it = sent.find(d.tag); if (it == sent.end() || !it->second.good) anyGarbage = true; else for (auto& a : it->second.answers) known.insert(a.id.serial); }
		for (auto& d : consumed) {
			auto it = sent.find(d.tag);
			if (it == sent.end() || !it->second.good) continue;
			for (auto& a : it->second.answers) {
				good++;
				while (i < got.size() && anyGarbage && !known.count(got[i].identityObject.getSerialNumber())) i++;
				if (i >= got.size()) { violate("C14", "device-missing", "the well-formed reply about serial %u was read but is not in the result (%zu entries)", a.id.serial, got.size()); bad = true; break; }
				auto& x = got[i++];
				auto& y = x.identityObject;
				if (y.getSerialNumber() != a.id.serial) { violate("C14", "wrong-order-or-device", "the result has serial %u where serial %u was expected", y.getSerialNumber(), a.id.serial); bad = true; break; }
				if (y.getVendorId() != a.id.vendor || y.getDeviceType() != a.id.type || y.getProductCode() != a.id.product || y.getRevision().getMajorRevision() != a.id.major || y.getRevision().getMinorRevision() != a.id.minor
					|| y.getStatus() != a.id.status || y.getProductName() != a.id.name) { violate("C14 C06", "wrong-identity", "the entry of serial %u differs from what the device sent", a.id.serial); bad = true; break; }
				if (x.socketAddress.getHost() != ipStr(a.ip) || x.socketAddress.getPort() != a.port) { violate("C14 C06", "wrong-address", "the entry of serial %u has address %s:%d, the device sent %s:%d", a.id.serial, x.socketAddress.getHost().c_str(), x.socketAddress.getPort(), ipStr(a.ip).c_str(), a.port); bad = true; break; }
				probe("device_discovered");
			}
			if (bad) break;
		}
		if (!bad && i < got.size() && !anyGarbage) violate("C14", "device-invented", "the result has %zu entries, %zu were sent", got.size(), good);
		if (anyGarbage) probe("garbage_during_discovery");
		if (consumed.empty()) probe("nobody_answered");
		// when it ended
		if (!sysf) {
			int64_t last = std::max(o.t0, lastConsume);
			if (o.t1 - last < timeout - 2 * MS) violate("C14 C04", "gave-up-early", "discovery ended %.3f ms after the last reply, its timeout is %.3f ms", (o.t1 - last) / 1e6, timeout / 1e6);
			int64_t limit = std::max(last, k.lastNetEvent) + timeout + w.slack + (k.lateNs - o.late0);
			if (o.t1 > limit) violate("C14 C04", "overdue", "discovery ended %.3f ms after the last reply, its timeout is %.3f ms", (o.t1 - last) / 1e6, timeout / 1e6);
			if (calm && good == 0) violate("C14 C05", "no-recovery", "after all faults stopped a healthy device is not discovered");
		}
		state(mix(std::min<size_t>(consumed.size(), 12), anyGarbage | good << 1));
	}
};

void runDiscovery() {
	Disc x;
	World& w = x.w;
	w.setup("discovery", 1 + choose(W, 6), {Mode::CLEAN, Mode::BENIGN, Mode::MALIGN, Mode::MALIGN, Mode::SYSFAIL});
	Config& c = k.cfg;
	if (w.mode != Mode::CLEAN) {
		c.udpDrop = pick<uint32_t>(W, {0, 0, 6, 20}); c.udpDup = pick<uint32_t>(W, {0, 0, 6, 20}); c.udpDelay = pick<uint32_t>(W, {0, 6, 20}); c.udpDelayMax = pick<int64_t>(W, {5 * MS, 80 * MS, 600 * MS});
		x.many = pick<uint32_t>(W, {0, 16, 40}); x.twins = pick<uint32_t>(W, {0, 10}); x.spread = pick<int64_t>(W, {0, 5 * MS, 200 * MS, 900 * MS});
		c.rcvbufDgrams = pick<size_t>(W, {400, 400, 4});
	}
	if (w.mode == Mode::MALIGN) x.garble = pick<uint32_t>(W, {8, 20, 50});
	if (!x.garble && w.mode != Mode::MALIGN) x.alike = pick<uint32_t>(W, {0, 8, 32});
	x.maxName = pick<size_t>(W, {32, 0, 120, 255});
	for (auto& d : w.devs) d.discovery = [&x, &d](const Datagram& q) { if (q.data.size() == 24 && q.data[0] == 0x63) x.answer(d, q); };
	k.onUdpSend = [&](uint32_t ip, uint16_t port, const Bytes& b, int, bool allowed) {
		x.requests++;
		if (!x.inCall) violate("C14", "unsolicited", "a datagram was sent outside discovery");
		if (ip != x.target || port != x.targetPort) violate("C14", "wrong-destination", "the question went to %s:%d instead of %s:%d", ipStr(ip).c_str(), port, ipStr(x.target).c_str(), x.targetPort);
		if (b != encodeFrame(0x63, 0, 0, {}, {})) violate("C14 C02", "bad-question", "malformed ListIdentity: %s", hex(b).c_str());
		if (!allowed) violate("C14", "no-broadcast", "the question was sent without permission to broadcast");
	};
	k.onConsume = [&](const Datagram& d) { x.consumed.push_back(d); x.lastConsume = k.now; };
	int n = 1 + choose(W, 6);
	for (int i = 0; i < n && !violated(); i++) {
		x.timeout = pick<int64_t>(W, {300 * MS, 20 * MS, 100 * MS, 1000 * MS, 1 * MS});
		bool uni = choose(W, 4) == 3;
		x.target = uni ? (choose(W, 4) ? w.devs[choose(W, w.devs.size())].ip : ip4(10, 0, 0, 99)) : k.bcast;
		x.targetPort = choose(W, 6) == 5 ? 44819 : 44818;
		DiscoveryManager m(ipStr(x.target), x.targetPort, std::chrono::milliseconds(x.timeout / MS));
		for (int j = 1 + choose(W, 2); j > 0; j--) {
			if (w.mode == Mode::MALIGN && choose(W, 4) == 3) w.partition(w.devs[choose(W, w.devs.size())], choose(W, 2));
			if (w.mode == Mode::MALIGN && choose(W, 6) == 5) w.powerCycle(w.devs[choose(W, w.devs.size())], 500 * MS);
			x.discover(m, false);
		}
		k.advance(range(W, 0, 2000) * MS);
	}
	if (!violated() && choose(W, 2)) {
		w.faultsOff(); x.garble = x.twins = x.many = 0; x.spread = 0; k.advance(4 * SEC);
		x.timeout = 100 * MS; x.target = k.bcast; x.targetPort = 44818;
		DiscoveryManager m(ipStr(x.target), 44818, std::chrono::milliseconds(100));
		x.discover(m, x.maxName < 255);
		probe("recovered");
	}
	w.finish();
}
}  // namespace

const Scenario scDiscovery{"discovery", runDiscovery, "broadcast discovery with lost, late, repeated and garbled replies"};

}  // namespace sim
