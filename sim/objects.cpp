// Object-level reads: identity, parameters, drive fault records, and the drive fault queue.
#include "world.h"
#include "faulttable.h"
#include "scenarios.h"
#include "IdentityObject.h"
#include "ParameterObject.h"
#include "vendor/ra/powerFlex525/DPIFaultManager.h"
#include <cmath>

namespace sim {
using namespace eipScanner;
namespace pf = vendor::ra::powerFlex525;

// A usable session with the device: an existing one or a new one.
Sess* anySession(World& w, Adapter& d) {
	for (auto& s : w.sess) if (s->dev == &d && s->live() && choose(W, 6) != 5) return s.get();
	for (auto& s : w.sess) if (s->dev == &d && s->si && !s->live()) w.close(*s);
	int open = 0; for (auto& s : w.sess) if (s->si) open++;
	if (open >= 6) for (auto& s : w.sess) if (s->si && s->dev == &d) return s.get();
	return w.open(d, pick<int64_t>(W, {300 * MS, 60 * MS, 1000 * MS, 150 * MS}));
}

namespace {
struct ErrorAt { int n = 0, at = -1; uint8_t status = 0; bool hit = false; std::vector<uint16_t> addl; };
// Lets the device answer its n-th request from now with an error status.
void armError(Adapter& d, std::shared_ptr<ErrorAt> e, int conn) {
	d.custom = [e, conn](const Rx& rx) -> std::optional<Reply> {
		if (rx.path.cls == 0x06 || rx.conn != conn) return {};
		if (e->n++ != e->at) return {};
		e->hit = true; fault("cip_error_status");
		Reply r; r.status = e->status; r.addl = e->addl; return r;
	};
}
std::shared_ptr<ErrorAt> maybeError(Sess& s, int span, uint32_t odds) {
	Adapter& d = *s.dev;
	auto e = std::make_shared<ErrorAt>();
	if (choose(D, odds) == odds - 1) {
		e->at = choose(D, span); e->status = (uint8_t)pick<uint32_t>(D, {5, 8, 0x14, 0x0e, 1, 0xff, 6, 2});
		for (int n = choose(D, 3); n > 0; n--) e->addl.push_back(u16(D));
	}
	armError(d, e, s.conn->id);
	return e;
}
template <class T> T le(const Bytes& b) { T v{}; memcpy(&v, b.data(), std::min(sizeof v, b.size())); return v; }
std::string text(Stream s) {
	Bytes b = bytes(s, pick<size_t>(s, {6, 0, 1, 20, 32, 100, 255}));
	for (auto& c : b) if (choose(s, 2)) c = 'A' + c % 26;
	return std::string(b.begin(), b.end());
}
IdentityData randomIdentity() {
	IdentityData i;
	i.vendor = u16(D); i.type = u16(D); i.product = u16(D); i.major = choose(D, 256); i.minor = choose(D, 256); i.status = u16(D); i.serial = u32(D); i.name = text(D);
	return i;
}
ParamObj randomParam() {
	ParamObj p;
	size_t n = pick<size_t>(D, {2, 1, 4, 8});
	p.value = bytes(D, n); p.min = bytes(D, n); p.max = bytes(D, n); p.def = bytes(D, n);
	p.type = (uint8_t)choose(D, 256);
	p.linkPath = bytes(D, pick<size_t>(D, {0, 0, 4, 6, 20, 255}));
	p.descriptor = u16(D) & ~0x14u;
	if (choose(D, 2)) p.descriptor |= 4;
	if (choose(D, 2)) p.descriptor |= 0x10;
	p.name = text(D); p.units = text(D); p.help = text(D);
	p.mul = 1 + u16(D) % 65535; p.div = 1 + u16(D) % 65535; p.base = 1 + u16(D) % 65535; p.off = (int16_t)u16(D); p.precision = choose(D, 8);
	p.full = true;
	return p;
}
struct Held {                    // a parameter object the user keeps
	Adapter* d; int inst; std::unique_ptr<ParameterObject> p; Bytes value; bool full, scalable; ParamObj was;
	int kind = 0;                // how the user takes the value: 0 unsigned, 1 signed, 2 real
	double mul = 0, div = 1, base = 0, off = 0, pr = 0;   // the scaling in force: announced, or set by the user
	Bytes lim[3]; bool limSet[3] = {};
	std::string name, units, help; bool readOnly = false; int type = 0;
};
// Calls f with a value of the type the user takes the parameter for.
template <class F> auto typed(const Held& h, F f) {
	switch (h.value.size()) {
		case 1: return h.kind == 1 ? f(int8_t()) : f(uint8_t());
		case 2: return h.kind == 1 ? f(int16_t()) : f(uint16_t());
		case 4: return h.kind == 2 ? f(float()) : h.kind == 1 ? f(int32_t()) : f(uint32_t());
		default: return h.kind == 2 ? f(double()) : h.kind == 1 ? f(int64_t()) : f(uint64_t());
	}
}
template <class T> Bytes enc(T v) { Bytes b(sizeof v); memcpy(b.data(), &v, sizeof v); return b; }
double inUnits(const Held& h, double x) { return h.scalable ? (x + h.off) * h.mul * h.base / (h.div * std::pow(10, h.pr)) : x; }
bool near(double a, double b, double scale) { return a == b || !std::isfinite(a) || !std::isfinite(b) || std::abs(a - b) <= 1e-9 * std::max(std::abs(b), scale); }

bool valueIs(const ParameterObject& p, const Bytes& v, const Held& h) {
	return typed(h, [&](auto t) {
		using T = decltype(t);
		T a = p.getActualValue<T>(), want = le<T>(v);
		if (enc(a) != enc(want) && !(a != a && want != want)) return false;
		return near(p.getEngValue<T>(), inUnits(h, (double)want), 0);
	});
}
bool limitsAre(const ParameterObject& p, const Held& h) {
	return typed(h, [&](auto t) {
		using T = decltype(t);
		T v[3] = {p.getMinValue<T>(), p.getMaxValue<T>(), p.getDefaultValue<T>()};
		double e[3] = {p.getEngMinValue<T>(), p.getEngMaxValue<T>(), p.getEngDefaultValue<T>()};
		for (int i = 0; i < 3; i++) {
			T want = le<T>(h.lim[i]);
			if (!(std::is_floating_point_v<T> && h.limSet[i] ? near(v[i], want, std::abs(h.off) * 1e3) : enc(v[i]) == enc(want) || (v[i] != v[i] && want != want))) return false;
			if (!near(e[i], inUnits(h, (double)v[i]), 0)) return false;
		}
		return true;
	});
}

// The properties besides the value and the limits, as announced or set.
bool describedAs(const ParameterObject& p, const Held& h) {
	return p.getName() == h.name && p.getUnits() == h.units && p.getHelp() == h.help && p.isReadOnly() == h.readOnly && (int)p.getType() == h.type && p.isScalable() == h.scalable
		&& p.hasFullAttributes() == h.full && p.getInstanceId() == h.inst && p.getScalingMultiplier() == h.mul && p.getScalingDivisor() == h.div && p.getScalingBase() == h.base
		&& p.getScalingOffset() == h.off && p.getPrecision() == h.pr;
}

// A parameter the user makes, without asking a device.
void doMake(World& w, std::vector<Held>& held) {
	Held h; h.d = &w.devs[choose(W, w.devs.size())]; h.inst = choose(W, 4) ? 1 + choose(W, 6) : u16(W); h.full = choose(W, 2); h.kind = choose(W, 3);
	size_t n = pick<size_t>(W, {2, 1, 4, 8});
	h.was = randomParam(); h.was.value = h.was.min = h.was.max = h.was.def = h.value = h.lim[0] = h.lim[1] = h.lim[2] = Bytes(n, 0);
	h.scalable = false; h.mul = h.div = h.base = 1; h.off = h.pr = 0;
	Outcome o = guard("parameter.made", [&] { h.p = std::make_unique<ParameterObject>(h.inst, h.full, n); });
	if (!o.ok) { if (k.sysfails == o.sysfails0) violate("C19", "made-parameter", "a parameter could not be made by hand: %s", o.what.c_str()); return; }
	h.type = (int)h.p->getType();
	if (!valueIs(*h.p, h.value, h) || !limitsAre(*h.p, h) || !describedAs(*h.p, h)) violate("C19", "made-parameter", "a parameter made by hand is not empty");
	probe("parameter_made");
	held.push_back(std::move(h));
}

// The user describes a parameter by hand: its scaling and its limits in engineering units.
void doUnits(World& w, std::vector<Held>& held) {
	if (held.empty()) return;
	Held& h = held[choose(W, held.size())];
	ParameterObject& p = *h.p;
	(void)w;
	if (choose(W, 3) == 0) {
		std::string words = text(W);
		switch (choose(W, 11)) {
			case 6: p.setName(words); h.name = words; break;
			case 7: p.setUnits(words); h.units = words; break;
			case 8: p.setHelp(words); h.help = words; break;
			case 9: h.readOnly = choose(W, 2); p.setReadOnly(h.readOnly); break;
			case 10: h.type = choose(W, 256); p.setType((cip::CipDataTypes)h.type); break;
			case 0: h.scalable = choose(W, 3) != 2; p.setScalable(h.scalable); break;
			case 1: { uint16_t x = 1 + choose(W, 65535); p.setScalingMultiplier(x); h.mul = x; break; }
			case 2: { uint16_t x = 1 + choose(W, 65535); p.setScalingDivisor(x); h.div = x; break; }
			case 3: { uint16_t x = 1 + choose(W, 65535); p.setScalingBase(x); h.base = x; break; }
			case 4: { int16_t x = (int16_t)u16(W); p.setScalingOffset(x); h.off = x; break; }
			default: { uint8_t x = choose(W, 10); p.setPrecision(x); h.pr = x; break; }
		}
		probe("scaling_set");
	}
	int which = choose(W, 3);
	const char* name[] = {"lower limit", "upper limit", "default"};
	bool stale = typed(h, [&](auto t) {
		using T = decltype(t);
		if (h.scalable && (!h.mul || !h.base)) return false;
		T a;
		if constexpr (std::is_floating_point_v<T>) a = (T)((double)(int32_t)u32(W) / (1 + choose(W, 1000)));
		else { a = le<T>(bytes(W, sizeof(T))); if (sizeof a == 8) a = std::is_signed_v<T> ? a / (T)(1 << 20) : a >> 20; if (choose(W, 2)) a = (T)(a % 100); }
		double eng = inUnits(h, (double)a);
		switch (which) { case 0: p.setEngMinValue<T>(eng); break; case 1: p.setEngMaxValue<T>(eng); break; default: p.setEngDefaultValue<T>(eng); }
		h.lim[which] = enc(a); h.limSet[which] = true;
		T got = which == 0 ? p.getMinValue<T>() : which == 1 ? p.getMaxValue<T>() : p.getDefaultValue<T>();
		bool same = std::is_floating_point_v<T> ? near(got, a, std::abs(h.off) * 1e3) : got == a;
		if (!same) violate("C19", "units-round-trip", "the %s of parameter %d was set to %.17g in engineering units, which is the actual value %.17g, but it is %.17g", name[which], h.inst, eng, (double)a, (double)got);
		double back = which == 0 ? p.getEngMinValue<T>() : which == 1 ? p.getEngMaxValue<T>() : p.getEngDefaultValue<T>();
		if (!near(back, inUnits(h, (double)got), 0)) violate("C19", "units-read-back", "the %s of parameter %d reads %.17g in engineering units, its actual value %.17g makes %.17g", name[which], h.inst, back, (double)got, inUnits(h, (double)got));
		probe("limit_set_in_units");
		return true;
	});
	(void)stale;
	if (!describedAs(p, h)) violate("C19", "property-damaged", "setting one property of parameter %d changed another, or did not take", h.inst);
	if (!valueIs(p, h.value, h)) violate("C19", "units-value", "after its description was changed parameter %d does not report its value in the scaling in force", h.inst);
	bool all = true; for (int i = 0; i < 3; i++) all &= h.limSet[i] || h.lim[i].size() == h.value.size();
	if (all && !violated() && !limitsAre(p, h)) violate("C19", "limit-damaged", "setting one property of parameter %d changed another", h.inst);
}

void doIdentity(World& w, Sess& s) {
	Adapter& d = *s.dev;
	if (choose(W, 2)) d.ident = randomIdentity();
	int inst = choose(W, 4) == 3 ? pick<uint32_t>(W, {2, 3, 100, 65535}) : 1;
	if (inst > 1 && (choose(W, 2) || !d.idents.count(inst))) d.idents[inst] = randomIdentity();
	auto e = maybeError(s, 1, 8);
	std::optional<IdentityObject> id;
	auto c = w.before(s);
	Outcome o = guard("identity", [&] { id.emplace(inst, s.si); });
	w.after(c, o, "reading the identity", "C06", e->hit);
	if (c.tainted0 || s.tainted) return;
	if (!o.ok) { probe("identity_failed"); return; }
	if (e->hit) { violate("C06", "error-hidden", "the device refused to give its identity with status 0x%02x but an identity was reported", e->status); return; }
	const IdentityData& x = inst == 1 ? d.ident : d.idents[inst];
	auto bad = [&](const char* f) { violate("C06", "wrong-identity", "the %s of the identity differs from what the device sent", f); };
	if (id->getVendorId() != x.vendor) bad("vendor");
	else if (id->getDeviceType() != x.type) bad("device type");
	else if (id->getProductCode() != x.product) bad("product code");
	else if (id->getRevision().getMajorRevision() != x.major || id->getRevision().getMinorRevision() != x.minor) bad("revision");
	else if (id->getStatus() != x.status) bad("status");
	else if (id->getSerialNumber() != x.serial) bad("serial number");
	else if (id->getProductName() != x.name) bad("product name");
	probe("identity_read");
}

void doParameter(World& w, Sess& s, std::vector<Held>& held) {
	Adapter& d = *s.dev;
	int inst = choose(W, 4) ? 1 + choose(W, 6) : u16(W);
	if (!d.params.count(inst) && choose(W, 8) != 7) d.params[inst] = randomParam();
	bool exists = d.params.count(inst);
	bool full = choose(W, 3) != 2;
	bool shortAttr = false;
	if (exists && choose(D, 8) == 7) {
		fault("attribute_wrong_size");
		for (auto& n : d.params[inst].attrSize) { n = pick<size_t>(D, {2, 2, 1, 3, 0, 4}); if (n < 2) shortAttr = true; }
		shortAttr = shortAttr && full && (d.params[inst].descriptor & 4);
	}
	auto e = maybeError(s, 6, 6);
	Held h; h.d = &d; h.inst = inst; h.full = full;
	if (exists) { h.was = d.params[inst]; for (auto& n : h.was.attrSize) n = 2; }
	auto c = w.before(s);
	Outcome o = guard("parameter", [&] { h.p = std::make_unique<ParameterObject>(inst, full, s.si); });
	w.after(c, o, "reading a parameter", "C06", e->hit || !exists || shortAttr);
	if (exists) for (auto& n : d.params[inst].attrSize) n = 2;
	if (c.tainted0 || s.tainted) return;
	if (!o.ok) { probe("parameter_failed"); return; }
	if (e->hit || !exists) { violate("C06", "error-hidden", "the device refused part of a parameter but a parameter was reported"); return; }
	if (shortAttr) { violate("C06", "short-attribute", "the device answered a scaling attribute with less than its two bytes but a parameter was reported"); return; }
	const ParamObj& x = h.was;
	h.value = x.value; h.scalable = x.descriptor & 4;
	h.kind = choose(W, 3);
	if (full && h.scalable) { h.mul = x.mul; h.div = x.div; h.base = x.base; h.off = x.off; h.pr = x.precision; } else { h.mul = h.div = h.base = 1; h.off = h.pr = 0; }
	if (full) { h.lim[0] = x.min; h.lim[1] = x.max; h.lim[2] = x.def; }
	auto bad = [&](const char* f) { violate("C06", "wrong-parameter", "the %s of parameter %d differs from what the device sent", f, inst); };
	const ParameterObject& p = *h.p;
	if (p.isScalable() != h.scalable) bad("scalable flag");
	else if (p.isReadOnly() != ((x.descriptor & 0x10) != 0)) bad("read-only flag");
	else if ((uint8_t)p.getType() != x.type) bad("type");
	else if (p.hasFullAttributes() != full) bad("full flag");
	else if (p.getParameter() != inst) bad("number");
	else if (full && (p.getName() != x.name || p.getUnits() != x.units || p.getHelp() != x.help)) bad("text");
	else if (full && h.scalable && (p.getScalingMultiplier() != x.mul || p.getScalingDivisor() != x.div || p.getScalingBase() != x.base || p.getScalingOffset() != x.off || p.getPrecision() != x.precision)) bad("scaling");
	else if (!valueIs(p, x.value, h)) bad("value");
	else if (full && !limitsAre(p, h)) bad("range or default");
	if (full) { h.name = x.name; h.units = x.units; h.help = x.help; }
	h.readOnly = x.descriptor & 0x10; h.type = x.type;
	if (!violated() && !describedAs(p, h)) bad("description");
	probe(full ? "parameter_read_full" : "parameter_read_short");
	held.push_back(std::move(h));
}

void doUpdate(World& w, std::vector<Held>& held) {
	if (held.empty()) return;
	Held& h = held[choose(W, held.size())];
	Adapter& d = *h.d;
	Sess* s = anySession(w, d);
	if (!s) return;
	Bytes now = bytes(D, h.value.size());
	bool gone = choose(D, 12) == 11;
	if (gone) d.params.erase(h.inst);
	else { d.params[h.inst] = h.was; d.params[h.inst].value = now; }
	auto e = maybeError(*s, 1, 6);
	auto c = w.before(*s);
	Outcome o = guard("updateValue", [&] { h.p->updateValue(s->si); });
	w.after(c, o, "updating a parameter value", "C06", e->hit || gone);
	d.params[h.inst] = h.was; d.params[h.inst].value = now;
	if (c.tainted0 || s->tainted) { h = std::move(held.back()); held.pop_back(); return; }
	if (o.ok && (e->hit || gone)) { violate("C06", "error-hidden", "updateValue succeeded although the device refused to give the value"); return; }
	if (o.ok) {
		h.value = now;
		if (!valueIs(*h.p, h.value, h)) violate("C06", "stale-value", "after a successful update parameter %d does not hold the value the device sent", h.inst);
		probe("parameter_updated");
	} else {
		if (!valueIs(*h.p, h.value, h)) violate("C06", "value-damaged", "a failed update changed the value of parameter %d", h.inst);
		probe("parameter_update_failed");
	}
	if (h.full && !violated() && !limitsAre(*h.p, h)) violate("C06 C19", "limit-damaged", "updating the value of parameter %d changed its limits", h.inst);
	if (!violated() && !describedAs(*h.p, h)) violate("C06 C19", "property-damaged", "updating the value of parameter %d changed its description", h.inst);
	for (auto& x : held) if (&x != &h && !valueIs(*x.p, x.value, x)) violate("C06", "value-damaged", "updating parameter %d changed the value held by another object", h.inst);
}

void doDpiObject(World& w, Sess& s) {
	Adapter& d = *s.dev;
	int inst = 1 + choose(W, 10);
	uint16_t code = u16(D); uint8_t port = choose(D, 256), obj = choose(D, 256); Bytes txt = bytes(D, 16); uint32_t lo = u32(D), hi = u32(D); uint16_t flags = u16(D);
	Wr b; b.u16(code).u8(port).u8(obj).raw(txt).u32(lo).u32(hi).u16(flags);
	bool exists = choose(D, 8) != 7;
	d.dpiObjects.clear();
	if (exists) d.dpiObjects[inst] = b.b;
	auto e = maybeError(s, 1, 8);
	std::unique_ptr<pf::DPIFaultObject> f;
	auto c = w.before(s);
	Outcome o = guard("dpiObject", [&] { f = std::make_unique<pf::DPIFaultObject>(inst, s.si); });
	w.after(c, o, "reading a fault record", "C06", e->hit || !exists);
	if (c.tainted0 || s.tainted) return;
	if (!o.ok) { probe("fault_record_failed"); return; }
	if (e->hit || !exists) { violate("C06", "error-hidden", "the device refused to give a fault record but one was reported"); return; }
	auto& x = f->getFullInformation();
	std::string t = x.faultText.toStdString();
	if (x.faultCode != code || x.dsiPort != port || x.dsiDeviceObject != obj || Bytes(t.begin(), t.end()) != txt || x.timerValue != ((uint64_t)hi << 32 | lo)
		|| x.isValidData != ((flags & 1) != 0) || x.isRealTime != ((flags & 2) != 0))
		violate("C06", "wrong-fault-record", "a fault record differs from what the device sent");
	probe("fault_record_read");
}

void setupFaults(World& w, bool garble) {
	if (w.mode == Mode::MALIGN) for (auto& d : w.devs) { addMalignKinds(d, garble); if (choose(W, 2)) d.malign = pick<uint32_t>(W, {1, 2, 4}); if (choose(W, 2)) d.malignKinds.push_back(RF_TRUNC); }
	if (w.mode == Mode::BENIGN && choose(W, 6) == 5) for (auto& d : w.devs) { d.malign = 4; d.malignKinds = {RF_TRICKLE}; }
}

void runObjects() {
	World w;
	w.setup("objects", 1 + choose(W, 2), {Mode::CLEAN, Mode::BENIGN, Mode::MALIGN, Mode::MALIGN, Mode::SYSFAIL});
	w.checkRequests = false;
	setupFaults(w, choose(W, 4) == 3);
	for (auto& d : w.devs) d.ident = randomIdentity();
	std::vector<Held> held;
	int n = 4 + choose(W, 24);
	for (int i = 0; i < n && !violated(); i++) {
		Adapter& d = w.devs[choose(W, w.devs.size())];
		uint32_t op = choose(W, 16);
		if (op == 14 && w.mode == Mode::MALIGN) { idleTrouble(w, d); continue; }
		if (op == 15) { k.advance(range(W, 0, 1000) * MS); continue; }
		if (op >= 8 && op < 12) { doUpdate(w, held); continue; }
		if (op == 13) { if (held.empty() ? choose(W, 2) : choose(W, 4) == 3) doMake(w, held); for (int j = choose(W, 4); j >= 0; j--) doUnits(w, held); continue; }
		Sess* s = anySession(w, d);
		if (!s) continue;
		if (op < 3) doIdentity(w, *s);
		else if (op < 8) doParameter(w, *s, held);
		else doDpiObject(w, *s);
		uint64_t h = mix(op, w.mode == Mode::MALIGN); for (auto& x : held) h = mix(h, x.full << 1 | x.scalable | x.value.size() << 2);
		state(h);
	}
	if (!violated() && w.mode != Mode::CLEAN && choose(W, 2)) {
		w.faultsOff(); k.advance(8 * SEC);
		for (auto& d : w.devs) d.custom = nullptr;
		Sess* s = w.open(w.devs[0], SEC);
		if (!s) violate("C06 C05", "no-recovery", "after all faults stopped a session with a healthy device cannot be opened");
		else { doIdentity(w, *s); doParameter(w, *s, held); doUpdate(w, held); probe("recovered"); }
	}
	held.clear();
	w.finish();
}

// ---- the drive's fault queue ----------------------------------------------------------------------
constexpr int CODE[10] = {7, 8, 9, 604, 605, 606, 607, 608, 609, 610};
const DriveFaultText* faultText(int code) { for (auto& f : FAULTS) if (f.code == code && code) return &f; return nullptr; }

struct DriveFault { uint16_t code, volts, current, freq; bool reported = false; };

struct Drive {
	Adapter* d;
	std::deque<DriveFault> queue;
	int clears = 0, unreportedCleared = 0, otherCommands = 0, passConn = -1; bool stale = false;
	void publish() {
		for (int i = 0; i < 10; i++) {
			bool on = i < (int)queue.size();
			d->rawParams[CODE[i]] = on ? queue[i].code : 0;
			d->rawParams[651 + i] = on ? queue[i].volts : 0;
			d->rawParams[641 + i] = on ? queue[i].current : 0;
			d->rawParams[631 + i] = on ? queue[i].freq : 0;
		}
	}
};

void runDpi() {
	World w;
	w.setup("dpi-manager", 1 + choose(W, 2), {Mode::CLEAN, Mode::BENIGN, Mode::MALIGN, Mode::MALIGN, Mode::SYSFAIL});
	w.checkRequests = false;
	setupFaults(w, choose(W, 5) == 4);
	std::deque<Drive> drives;
	for (auto& d : w.devs) {
		drives.push_back({&d, {}});
		Drive& v = drives.back();
		v.publish();
		d.onRequest = [&v](const Rx& e) {
			if (e.path.cls != 0x97 || e.service != 0x10) return;
			if (e.data.size() != 1) { violate("C16", "bad-command", "a drive command of %zu bytes arrived", e.data.size()); return; }
			if (e.data[0] != 2) { if (e.conn == v.passConn) v.otherCommands++; return; }
			if (e.conn != v.passConn) v.stale = true;      // a command of an earlier pass that was held up by the network
			else v.clears++;
			if (e.reply.status) return;
			if (e.conn == v.passConn) for (auto& f : v.queue) if (!f.reported) v.unreportedCleared++;
			v.queue.clear(); v.publish();
		};
	}
	bool clear = choose(W, 4) != 3, details = choose(W, 2), reset = choose(W, 4) == 3;
	std::optional<pf::DPIFaultManager> made;
	if (clear && !reset && !details && choose(W, 2)) made.emplace(); else made.emplace(clear, reset, details);   // what the one without arguments stands for
	pf::DPIFaultManager& mgr = *made;
	bool tripped = false;
	mgr.setTrippedDeviceListener([&](bool) { tripped = true; });
	struct Listener { Drive* v = nullptr; size_t n = 0; int throwAt = -1; bool det = false; bool garbled = false; bool threwNow = false; std::string thrown; } L;
	L.det = details;
	std::function<void()> listen = [&] { mgr.setNewFaultListener([&L, &listen, guardBytes = Bytes(64, 0x5a)](const pf::DPIFaultParameter& p) { Out out_;
		if (choose(W, 8) == 7) { In in_; listen(); probe("fault_listener_replaced_by_itself"); }
		if (guardBytes.size() != 64 || guardBytes[0] != 0x5a) violate("C12 C05", "listener-corrupted", "a running fault listener was destroyed");
		if (!L.v) { violate("C16 C06", "fault-out-of-the-blue", "a fault was reported outside handleFaultParameters"); return; }
		auto f = p.getFaultDetails();
		auto& i = p.getFullInformation();
		ev("cb.fault", f.faultNumber, f.faultCode);
		if (!L.garbled && !L.v->stale) {
			if (L.n >= L.v->queue.size()) violate("C06 C16", "extra-fault", "a fault (code %d) was reported that the drive does not have", f.faultCode);
			else {
				DriveFault& q = L.v->queue[L.n];
				if (f.faultCode != q.code || f.faultNumber != (int)L.n + 1) violate("C06 C16", "wrong-fault", "fault %zu was reported as number %d code %d, the drive has code %d", L.n + 1, f.faultNumber, f.faultCode, q.code);
				else if (L.det && (std::abs(f.busVoltage - q.volts) > 1e-6 || std::abs(f.current - q.current / 100.0) > 1e-6 || std::abs(f.frequency - q.freq / 100.0) > 1e-6))
					violate("C06", "wrong-fault-details", "fault %zu was reported with %.3f V %.3f A %.3f Hz, the drive has %u, %u/100, %u/100", L.n + 1, f.busVoltage, f.current, f.frequency, q.volts, q.current, q.freq);
				else if (!L.det && (f.busVoltage || f.current || f.frequency)) violate("C06", "wrong-fault-details", "fault %zu was reported with details nobody asked for", L.n + 1);
				auto* t = faultText(q.code);
				auto& x = i.faultDescription;
				if (t && (x.faultText != t->text || x.faultDescription != t->description || x.faultType != t->type))
					violate("C16 C06", "wrong-fault-text", "fault %zu (code %d) was reported as '%s' (type %d), which is '%s' (type %d)", L.n + 1, q.code, x.faultText.c_str(), x.faultType, t->text, t->type);
				if (i.faultDetails.faultCode != f.faultCode || i.faultDetails.faultNumber != f.faultNumber) violate("C16 C06", "wrong-fault", "fault %zu was reported under two codes or numbers", L.n + 1);
			}
		}
		if (L.throwAt == (int)L.n) { L.threwNow = true; fault("listener_throws"); throwSomething("listener failed", L.thrown); }
		if (L.n < L.v->queue.size()) L.v->queue[L.n].reported = true;
		L.n++;
	}); };
	listen();
	int rounds = 3 + choose(W, 12);
	for (int i = 0; i < rounds && !violated(); i++) {
		Drive& v = drives[choose(W, drives.size())];
		Adapter& d = *v.d;
		uint32_t op = choose(W, 12);
		if (op == 10 && w.mode == Mode::MALIGN) { idleTrouble(w, d); continue; }
		if (op == 11) { k.advance(range(W, 0, 1000) * MS); continue; }
		Sess* s = anySession(w, d);
		if (!s) continue;
		bool unknown = false;
		for (int n = choose(W, 5) == 4 ? 10 : choose(W, 4); n > 0 && v.queue.size() < 10; n--) {
			DriveFault f{(uint16_t)FAULTS[1 + choose(D, sizeof FAULTS / sizeof *FAULTS - 1)].code, u16(D), u16(D), u16(D)};
			if (choose(D, 24) == 23) f.code = choose(D, 2) ? 1 + choose(D, 300) : pick<uint16_t>(D, {1, 999, 65535, 258});
			v.queue.push_front(f);
		}
		for (auto& f : v.queue) if (!faultText(f.code)) unknown = true;
		if (unknown) probe("unknown_fault_code");
		v.publish();
		d.dpiCommandStatus = choose(D, 8) == 7 ? 0x0c : 0;
		if (op == 9) {                                      // a command of the user's own
			uint8_t cmd = (uint8_t)pick<uint32_t>(W, {0, 1, 3});
			auto e = maybeError(*s, 1, 8);
			int before = v.otherCommands; v.passConn = s->conn->id;
			auto c = w.before(*s);
			Outcome o = guard("writeCommand", [&] { mgr.writeCommand((pf::DPIFaultManagerCommands)cmd, s->si); });
			v.passConn = -1;
			w.after(c, o, "writing a drive command", "C16", e->hit || d.dpiCommandStatus);
			if (!c.tainted0 && !s->tainted) {
				if (o.ok && (e->hit || d.dpiCommandStatus)) violate("C16 C06", "error-hidden", "writeCommand succeeded although the drive refused the command");
				if (o.ok && v.otherCommands != before + 1) violate("C16", "command-lost", "writeCommand succeeded but the drive received %d commands", v.otherCommands - before);
				if (v.otherCommands > before + 1) violate("C16", "command-twice", "one writeCommand sent %d commands", v.otherCommands - before);
			}
			probe("drive_command");
			continue;
		}
		if (op == 8) {                                      // one entry, read by itself
			int n = choose(W, 6) == 5 ? pick<int>(W, {0, 11, -1, 1000}) : 1 + choose(W, 10);
			bool det = choose(W, 2), none = n < 1 || n > 10;
			auto e = maybeError(*s, 4, 5);
			bool garbled = false;
			for (auto& m : d.malignKinds) if (m == RF_GARBLE && d.malign) garbled = true;
			int clears0 = v.clears, other0 = v.otherCommands;
			v.stale = false; v.passConn = s->conn->id;
			std::unique_ptr<pf::DPIFaultParameter> f;
			auto c = w.before(*s);
			Outcome o = guard("faultParameter", [&] { f = std::make_unique<pf::DPIFaultParameter>(s->si, std::make_shared<MessageRouter>(), n, det); });
			w.after(c, o, "reading a fault of the drive", "C16 C06", e->hit || none);
			v.passConn = -1;
			if (c.tainted0 || s->tainted || garbled || v.stale) continue;
			if (v.clears != clears0 || v.otherCommands != other0) violate("C16", "stray-command", "reading a fault sent a command");
			if (!o.ok) { probe("fault_entry_failed"); continue; }
			if (e->hit || none) { violate("C06 C16", "error-hidden", "entry %d of the fault queue was reported although %s", n, none ? "there is no such entry" : "the drive reported an error"); continue; }
			DriveFault q = n <= (int)v.queue.size() ? v.queue[n - 1] : DriveFault{};
			auto x = f->getFaultDetails();
			bool show = det && q.code;
			if (x.faultNumber != n || x.faultCode != q.code) violate("C06 C16", "wrong-fault", "entry %d of the fault queue was reported as number %d code %d, the drive has code %d", n, x.faultNumber, x.faultCode, q.code);
			else if (std::abs(x.busVoltage - show * q.volts) > 1e-6 || std::abs(x.current - show * q.current / 100.0) > 1e-6 || std::abs(x.frequency - show * q.freq / 100.0) > 1e-6)
				violate("C06", "wrong-fault-details", "entry %d of the fault queue was reported with %.3f V %.3f A %.3f Hz", n, x.busVoltage, x.current, x.frequency);
			probe("fault_entry_read");
			continue;
		}
		auto e = maybeError(*s, 16, 5);
		size_t n = v.queue.size();
		int clears0 = v.clears, other0 = v.otherCommands;
		L.v = &v; L.n = 0; L.threwNow = false; L.garbled = s->tainted; L.throwAt = choose(W, 10) == 9 ? (int)choose(W, 4) : -1;
		bool threw = L.throwAt >= 0 && L.throwAt < (int)n;
		bool refused = d.dpiCommandStatus && clear && n;
		for (auto& m : d.malignKinds) if (m == RF_GARBLE && d.malign) L.garbled = true;
		v.stale = false; v.passConn = s->conn->id;
		auto c = w.before(*s);
		Outcome o = guard("handleFaultParameters", [&] { mgr.handleFaultParameters(s->si); });
		w.after(c, o, "handling the drive's faults", "C16", e->hit || unknown || threw || refused);
		L.v = nullptr; v.passConn = -1;
		int clears = v.clears - clears0;
		if (c.tainted0 || s->tainted || L.garbled || v.stale) { v.unreportedCleared = 0; continue; }
		if (v.unreportedCleared) violate("C16", "cleared-unreported", "the drive's fault queue was cleared although %d of its faults had not been handed to the listener", v.unreportedCleared);
		if (clears > 1) violate("C16", "cleared-twice", "one pass sent %d clear commands", clears);
		if (clears && !clear) violate("C16", "cleared-unasked", "the fault queue was cleared although the user did not ask for that");
		if (clears && !n) violate("C16", "cleared-empty", "an empty fault queue was cleared");
		if (v.otherCommands != other0) violate("C16", "stray-command", "handling faults sent %d other commands", v.otherCommands - other0);
		if (threw && o.ok) violate("C22 C16", "exception-swallowed", "the listener threw for fault %d of %zu, but handling the faults returned as if nothing had happened", L.throwAt + 1, n);
		if (L.threwNow && !o.ok && k.sysfails == o.sysfails0 && o.sig != L.thrown) violate("C22", "exception-replaced", "the listener threw '%s', handling the faults threw '%s'", L.thrown.c_str(), o.sig.c_str());
		if (o.ok) {
			if (e->hit || unknown || refused) violate("C16 C06", "error-hidden", "handling faults succeeded although the drive reported an error or an unknown fault");
			if (L.n != n) violate("C16 C06", "fault-not-reported", "the drive has %zu faults, %zu were reported", n, L.n);
			if (clear && n && clears != 1) violate("C16", "not-cleared", "%zu faults were reported but the queue was not cleared", n);
			probe(n == 10 ? "fault_queue_full" : n ? "faults_handled" : "no_faults");
		} else probe("fault_handling_failed");
		state(mix(n, clears << 1 | o.ok | clear << 3 | details << 4));
	}
	w.finish();
}
}  // namespace

const Scenario scObjects{"objects", runObjects, "identity, parameters and fault records read and refreshed over failing sessions"};
const Scenario scDpiManager{"dpi-manager", runDpi, "reading, reporting and clearing a drive's fault queue while requests fail halfway"};

}  // namespace sim
