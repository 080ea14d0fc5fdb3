// Typed values carried by explicit messages: what an application encodes with the library's types, the device decodes
// (and the other way round), both judged by a codec of their own.
#include "world.h"
#include "scenarios.h"
#include "cip/EPath.h"
#include "vendor/yaskawa/mp3300iec/Yaskawa_EPath.h"
#include "utils/Buffer.h"
#include <cmath>

namespace sim {
using namespace eipScanner;
using utils::Buffer;

namespace {
enum Kind { U8, I8, U16, I16, U32, I32, U64, I64, F32, F64, RAW, WORDS, SSTR, STR, REV, ADDR, NKIND };
const char* kindName[] = {"USINT", "SINT", "UINT", "INT", "UDINT", "DINT", "ULINT", "LINT", "REAL", "LREAL", "octets", "array of UINT", "SHORT_STRING", "STRING", "revision", "socket address"};
struct Val { int kind; Bytes wire; uint64_t bits = 0; Bytes data; std::vector<uint16_t> words; uint32_t ip = 0; uint16_t port = 0; };

uint64_t u64(Stream s) { uint64_t hi = u32(s); return hi << 32 | u32(s); }
void put(Bytes& b, uint64_t v, int n) { for (int i = 0; i < n; i++) b.push_back((uint8_t)(v >> (8 * i))); }

Val randomVal(Stream s) {
	Val v; v.kind = (int)choose(s, NKIND);
	switch (v.kind) {
		case U8: case I8: v.bits = u16(s) & 0xff; put(v.wire, v.bits, 1); break;
		case U16: case I16: v.bits = u16(s); put(v.wire, v.bits, 2); break;
		case U32: case I32: v.bits = u32(s); put(v.wire, v.bits, 4); break;
		case U64: case I64: v.bits = u64(s); put(v.wire, v.bits, 8); break;
		case F32: { float f = choose(s, 4) ? (float)((int32_t)u32(s)) / (float)(1 + choose(s, 1000)) : pick<float>(s, {0.f, -0.f, INFINITY, -INFINITY, 1e-42f, 3.4e38f}); uint32_t b; memcpy(&b, &f, 4); v.bits = b; put(v.wire, b, 4); break; }
		case F64: { double f = choose(s, 4) ? (double)((int64_t)u64(s)) / (1 + choose(s, 1000)) : pick<double>(s, {0., -0., (double)INFINITY, -(double)INFINITY, 1e-310, 1.7e308}); memcpy(&v.bits, &f, 8); put(v.wire, v.bits, 8); break; }
		case RAW: v.data = bytes(s, choose(s, 40)); v.wire = v.data; break;
		case WORDS: for (int n = choose(s, 12); n > 0; n--) v.words.push_back(u16(s)); for (auto x : v.words) put(v.wire, x, 2); break;
		case SSTR: v.data = bytes(s, pick<size_t>(s, {5, 0, 1, 32, 127, 128, 254, 255})); put(v.wire, v.data.size(), 1); v.wire.insert(v.wire.end(), v.data.begin(), v.data.end()); break;
		case STR: v.data = bytes(s, pick<size_t>(s, {5, 0, 1, 32, 255, 256, 300, 1000})); put(v.wire, v.data.size(), 2); v.wire.insert(v.wire.end(), v.data.begin(), v.data.end()); break;
		case REV: v.bits = u16(s); put(v.wire, v.bits, 2); break;
		case ADDR: v.ip = u32(s); v.port = u16(s); v.wire = sockaddrBytes(v.ip, v.port); break;
	}
	return v;
}
template <class T> T as(uint64_t bits) { T t; memcpy(&t, &bits, sizeof t); return t; }

void encode(Buffer& b, const Val& v) {
	switch (v.kind) {
		case U8: b << as<uint8_t>(v.bits); break;
		case I8: b << as<int8_t>(v.bits); break;
		case U16: b << as<uint16_t>(v.bits); break;
		case I16: b << as<int16_t>(v.bits); break;
		case U32: b << as<uint32_t>(v.bits); break;
		case I32: b << as<int32_t>(v.bits); break;
		case U64: b << as<uint64_t>(v.bits); break;
		case I64: b << as<int64_t>(v.bits); break;
		case F32: b << as<float>(v.bits); break;
		case F64: b << as<double>(v.bits); break;
		case RAW: b << v.data; break;
		case WORDS: b << v.words; break;
		case SSTR: if (v.data.empty()) b << cip::CipShortString(); else b << cip::CipShortString(std::string(v.data.begin(), v.data.end())); break;
		case STR: if (v.data.empty()) b << cip::CipString(); else b << cip::CipString(v.data); break;
		case REV: b << cip::CipRevision(v.bits & 0xff, v.bits >> 8); break;
		case ADDR: b << sockets::EndPoint(ipStr(v.ip), v.port); break;
	}
}
template <class T> bool one(Buffer& b, uint64_t bits) { T t; memset(&t, 0x5a, sizeof t); b >> t; return !memcmp(&t, &bits, sizeof t); }
// Decodes the next value and compares it; throws what the library throws.
bool decode(Buffer& b, const Val& v) {
	switch (v.kind) {
		case U8: return one<uint8_t>(b, v.bits);
		case I8: return one<int8_t>(b, v.bits);
		case U16: return one<uint16_t>(b, v.bits);
		case I16: return one<int16_t>(b, v.bits);
		case U32: return one<uint32_t>(b, v.bits);
		case I32: return one<int32_t>(b, v.bits);
		case U64: return one<uint64_t>(b, v.bits);
		case I64: return one<int64_t>(b, v.bits);
		case F32: return one<float>(b, v.bits);
		case F64: return one<double>(b, v.bits);
		case RAW: { Bytes d(v.data.size(), 0x5a); b >> d; return d == v.data; }
		case WORDS: { std::vector<uint16_t> w(v.words.size(), 0x5a5a); b >> w; return w == v.words; }
		case SSTR: { cip::CipShortString x; b >> x; return x.getData() == v.data && x.getLength() == v.data.size() && x.toStdString() == std::string(v.data.begin(), v.data.end()); }
		case STR: { cip::CipString x; b >> x; return x.getData() == v.data && x.getLength() == v.data.size() && x.toStdString() == std::string(v.data.begin(), v.data.end()); }
		case REV: { cip::CipRevision x; b >> x; return x.getMajorRevision() == (v.bits & 0xff) && x.getMinorRevision() == v.bits >> 8; }
		default: { sockets::EndPoint x("", 0); b >> x; return x.getHost() == ipStr(v.ip) && x.getPort() == v.port; }
	}
}

// One write or read of a structure of typed values.
void transfer(World& w, Sess& s) {
	Adapter& d = *s.dev;
	Bytes sent, answer, body;
	Buffer b = choose(W, 2) ? Buffer() : Buffer(choose(W, 100));
	Outcome oe = guard("encode", [&] { for (int n = choose(W, 12); n > 0; n--) { Val v = randomVal(W); sent.insert(sent.end(), v.wire.begin(), v.wire.end()); encode(b, v); } });
	if (!oe.ok && k.allocfails > oe.allocfails0) { probe("out_of_memory"); return; }
	if (!oe.ok) { violate("C17", "encoding-failed", "encoding legal values threw: %s", oe.what.c_str()); return; }
	if (b.size() != sent.size()) violate("C17", "wrong-encoding", "the encoding of the values has %zu bytes instead of %zu", b.size(), sent.size());
	std::vector<Val> give;
	for (int n = choose(D, 12); n > 0; n--) { give.push_back(randomVal(D)); answer.insert(answer.end(), give.back().wire.begin(), give.back().wire.end()); }
	size_t keep = answer.size();
	if (keep && choose(D, 4) == 3) { keep = choose(D, answer.size()); fault("values_cut"); }
	Request r;
	r.service = pick<uint8_t>(W, {0x10, 0x0E, 0x4D}); r.cls = 0x64 + choose(W, 500); r.inst = choose(W, 300); r.attr = choose(W, 300);
	r.data = b.data();
	bool seen = false;
	d.custom = [&, conn = s.conn->id](const Rx& rx) -> std::optional<Reply> {
		if (rx.conn != conn || !rx.isRequest || rx.path.cls == 0x06) return {};
		if (rx.data != sent && rx.data == r.data) violate("C17", "wrong-encoding", "the device received %zu bytes %s, the values given encode as %zu bytes %s", rx.data.size(), hex(rx.data, 64).c_str(), sent.size(), hex(sent, 64).c_str());
		if (rx.path.inst != r.inst || rx.path.attr != r.attr) violate("C17 C02", "wrong-path", "the device received the path %d/%d/%d, the path given is %d/%d/%d", rx.path.cls, rx.path.inst, rx.path.attr, r.cls, r.inst, r.attr);
		Reply rep; rep.data.assign(answer.begin(), answer.begin() + keep); seen = true;
		return rep;
	};
	int variant = choose(W, 2);
	r.path8 = variant == 1;
	auto c = w.before(s);
	s.made.push_back(r);
	std::optional<cip::MessageRouterResponse> resp;
	Outcome o = guard("request", [&] { resp = sendVia(s, r, variant); });
	w.after(c, o, "sendRequest", "C01 C17");
	d.custom = nullptr;
	if (!o.ok || c.tainted0 || s.tainted || !seen || !s.current || s.current->alteredContent) { probe("values_not_exchanged"); return; }
	Buffer in(resp->getData());
	size_t at = 0;
	for (auto& v : give) {
		bool whole = at + v.wire.size() <= keep, same = false;
		Outcome od = guard("decode", [&] { same = decode(in, v); });
		if (!od.ok && k.allocfails > od.allocfails0) { probe("out_of_memory"); return; }
		if (whole && !od.ok) { violate("C17", "decoding-failed", "decoding a %s at offset %zu of %zu threw: %s", kindName[v.kind], at, keep, od.what.c_str()); return; }
		if (whole && !same) { violate("C17", "wrong-value", "a %s at offset %zu, sent as %s, was decoded to another value", kindName[v.kind], at, hex(v.wire, 32).c_str()); return; }
		if (!whole) {
			if (od.ok) violate("C17 C05", "read-past-end", "a %s of %zu bytes was decoded although only %zu bytes were left", kindName[v.kind], v.wire.size(), keep - at);
			probe("decoding_refused");
			return;
		}
		at += v.wire.size();
		if (in.pos() != at || in.empty() != (at == keep) || !in.isValid()) { violate("C17", "wrong-position", "after %zu decoded bytes the buffer says %zu", at, in.pos()); return; }
	}
	Bytes more;
	Outcome oe2 = guard("decode", [&] { uint8_t x; in >> x; });
	if (keep == at && oe2.ok) violate("C17 C05", "read-past-end", "a value was decoded after the last byte");
	probe("values_exchanged");
}

// A path is given by the device, in any mixture of formats, decoded, compared and used.
template <class P> void path(World& w, Sess& s, bool wide) {
	Adapter& d = *s.dev;
	int n = 1 + choose(D, 3), id[3];
	Bytes p; std::vector<size_t> ends; bool over = false;
	for (int i = 0; i < n; i++) {
		id[i] = choose(D, 4) ? choose(D, 256) : u16(D);
		bool lng = id[i] > 255 || choose(D, 2);
		if (!wide && id[i] > 255) over = true;
		uint8_t t[] = {0x20, 0x24, 0x30};
		p.push_back(t[i] | lng); if (lng) p.push_back(0);
		put(p, id[i], lng ? 2 : 1);
		ends.push_back(p.size());
	}
	int keepSeg = n; bool broken = false;
	size_t keep = p.size();
	if (choose(D, 4) == 3) { fault("path_cut"); keep = choose(D, p.size() + 1); broken = keep != 0; keepSeg = 0; for (int i = 0; i < n; i++) if (ends[i] <= keep) { keepSeg = i + 1; if (ends[i] == keep) broken = false; } }
	else if (choose(D, 8) == 7) { fault("path_unknown_segment"); p.push_back(pick<uint8_t>(D, {0x00, 0x28, 0x2C, 0x34, 0x91, 0xff})); p.push_back(0); keep = p.size(); broken = true; }
	over = false; if (!wide) for (int i = 0; i < keepSeg; i++) if (id[i] > 255) over = true;
	p.resize(keep);
	Request r; r.service = 0x0E; r.cls = 0x64; r.inst = 1; r.attr = 1;
	bool seen = false;
	d.custom = [&, conn = s.conn->id](const Rx& rx) -> std::optional<Reply> { if (rx.conn != conn || !rx.isRequest || rx.path.cls != 0x64) return {}; Reply rep; rep.data = p; seen = true; return rep; };
	auto c = w.before(s);
	s.made.push_back(r);
	std::optional<cip::MessageRouterResponse> resp;
	Outcome o = guard("request", [&] { resp = sendVia(s, r, 0); });
	w.after(c, o, "sendRequest", "C01 C17");
	d.custom = nullptr;
	if (!o.ok || c.tainted0 || s.tainted || !seen || !s.current || s.current->alteredContent) return;
	P got = choose(W, 2) ? P() : P(1, 2, 3);
	Outcome od = guard("expandPath", [&] { got.expandPaddedPath(resp->getData()); });
	if (broken || over) { if (od.ok) violate("C17 C05", "broken-path-accepted", "the path %s, which is %s, was decoded to %s", hex(p, 32).c_str(), broken ? "malformed" : "too wide for the type", got.toString().c_str()); probe("path_refused"); return; }
	if (!od.ok && k.allocfails > od.allocfails0) { probe("out_of_memory"); return; }
	if (!od.ok) { violate("C17", "decoding-failed", "decoding the path %s threw: %s", hex(p, 32).c_str(), od.what.c_str()); return; }
	P want = keepSeg == 0 ? P() : keepSeg == 1 ? P(id[0]) : keepSeg == 2 ? P(id[0], id[1]) : P(id[0], id[1], id[2]);
	if (!(got == want) || got.toString() != want.toString() || got.getClassId() != want.getClassId() || got.getObjectId() != want.getObjectId() || got.getAttributeId() != want.getAttributeId() || got.getSizeInWords() != want.getSizeInWords())
		violate("C17", "wrong-path", "the path %s was decoded to %s instead of %s", hex(p, 32).c_str(), got.toString().c_str(), want.toString().c_str());
	for (int i = 0; i < keepSeg; i++) {                    // paths that differ somewhere are different
		int o[3] = {id[0], keepSeg > 1 ? id[1] : 0, keepSeg > 2 ? id[2] : 0}; o[i] ^= 1 << choose(W, 8);
		P other = keepSeg == 1 ? P(o[0]) : keepSeg == 2 ? P(o[0], o[1]) : P(o[0], o[1], o[2]);
		if (got == other) violate("C17", "different-paths-equal", "the paths %s and %s are said to be equal", got.toString().c_str(), other.toString().c_str());
	}
	probe("path_decoded");
}

// A text too long for the length field of its encoding.
void longText() {
	size_t n = pick<size_t>(W, {256, 257, 300, 511, 512, 70000});
	std::string t(n, 'x');
	Buffer b;
	bool wideStr = n > 65535 && choose(W, 2);
	Outcome o = guard("encode", [&] { if (wideStr) b << cip::CipString(t); else b << cip::CipShortString(t); });
	if (o.ok) violate("C17", "text-cut", "a text of %zu bytes was encoded as a %s", n, wideStr ? "STRING" : "SHORT_STRING");
	probe("text_too_long");
}

void runTyped() {
	World w;
	w.setup("typed", 1 + choose(W, 2), {Mode::CLEAN, Mode::BENIGN, Mode::BENIGN, Mode::MALIGN, Mode::SYSFAIL});
	if (w.mode == Mode::MALIGN) for (auto& d : w.devs) addMalignKinds(d, choose(W, 3) == 2);
	for (int i = 0, n = 3 + choose(W, 20); i < n; i++) {
		uint32_t op = choose(W, 12);
		if (op == 11) { longText(); continue; }
		Sess* s = anySession(w, w.devs[choose(W, w.devs.size())]);
		if (!s) continue;
		if (op < 7) transfer(w, *s);
		else if (op < 10) path<cip::EPath>(w, *s, true);
		else path<cip::Yaskawa_EPath>(w, *s, false);
	}
	w.finish();
}
}  // namespace

const Scenario scTyped{"typed", runTyped, "typed values and paths encoded by the application and decoded by the device, and the other way round"};

}  // namespace sim
