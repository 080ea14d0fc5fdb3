#include "device.h"
#include <cerrno>

namespace sim {

Bytes packItems(const std::vector<Item>& v) {
	Wr w; w.u16(v.size());
	for (auto& i : v) w.u16(i.type).u16(i.data.size()).raw(i.data);
	return w.b;
}
Bytes sockaddrBytes(uint32_t ip, uint16_t port) { Wr w; w.be16(2).be16(port).be32(ip).raw(Bytes(8, 0)); return w.b; }

Bytes encodeFrame(uint16_t cmd, uint32_t handle, uint32_t status, const Bytes& ctx, const Bytes& payload) {
	Wr w; w.u16(cmd).u16(payload.size()).u32(handle).u32(status).raw(ctx.size() == 8 ? ctx : Bytes(8, 0)).u32(0).raw(payload);
	return w.b;
}

bool parseItems(const Bytes& b, size_t from, std::vector<Item>& out, bool exact) {
	Rd r(b, from);
	uint32_t n = r.u16();
	for (uint32_t i = 0; i < n && r.ok && (exact || r.left()); i++) { uint32_t t = r.u16(), l = r.u16(); Bytes d = r.raw(l); if (r.ok) out.push_back({(uint16_t)t, d}); }
	return r.ok && (!exact || r.left() == 0);
}

Bytes mutate(Stream s, Bytes b) {
	uint32_t n = 1 + choose(s, 3);
	for (uint32_t i = 0; i < n; i++) {
		switch (choose(s, 7)) {
			case 0: if (!b.empty()) b[choose(s, b.size())] ^= 1u << choose(s, 8); break;
			case 1: if (!b.empty()) b.resize(choose(s, b.size())); break;
			case 2: if (!b.empty()) b[choose(s, b.size())] = pick<uint8_t>(s, {0xff, 0, 0x80, 1, 0x7f}); break;
			case 3: { Bytes x = bytes(s, 1 + choose(s, 40)); b.insert(b.end(), x.begin(), x.end()); break; }
			case 4: if (b.size() > 1) { size_t p = choose(s, b.size() - 1); b[p] = b[p + 1] = pick<uint8_t>(s, {0xff, 0, 0x7f}); } break;
			case 5: b = bytes(s, choose(s, 600)); break;
			default: if (b.size() > 2) { size_t p = choose(s, b.size()), l = 1 + choose(s, 8); b.erase(b.begin() + p, b.begin() + std::min(b.size(), p + l)); } break;
		}
	}
	return b;
}

const char* rfName(int rf) {
	static const char* n[] = {"none", "reply_late", "reply_missing", "close_before_reply", "reset_before_reply", "close_mid_reply", "reset_mid_reply", "stall_mid_reply",
		"encaps_error_status", "wrong_session_handle", "reply_garbled", "reply_truncated", "device_powercycle", "reply_trickle"};
	return n[rf];
}

Bytes IdentityData::pack() const { Wr w; w.u16(vendor).u16(type).u16(product).u8(major).u8(minor).u16(status).u32(serial).str8(name); return w.b; }

Adapter::Adapter(int idx) : name("dev" + std::to_string(idx)), index(idx) { ip = ip4(10, 0, 0, 1 + idx); k.hosts[ip] = this; }

void Adapter::onOpen(TcpConn& c) { stream[c.id].clear(); ev("dev.accept", c.id, index); }

void Adapter::onClosed(TcpConn& c, bool) {
	session.erase(c.id);
	c.hostOpen = false;
}

Rx* Adapter::lastRequest(int conn) {
	for (auto it = ledger.rbegin(); it != ledger.rend(); ++it) if (it->conn == conn && it->isRequest) return &*it;
	return nullptr;
}

void Adapter::onData(TcpConn& c, const Bytes& b) {
	Bytes& s = stream[c.id];
	s.insert(s.end(), b.begin(), b.end());
	while (s.size() >= 24) {
		size_t len = s[2] | s[3] << 8;
		uint16_t cmd = s[0] | s[1] << 8;
		if (cmd != 0x65 && cmd != 0x66 && cmd != 0x6f) {
			violate("C02", "bad-frame", "device received bytes that are not an encapsulation frame: %s", hex(s).c_str());
			s.clear(); k.tcpRst(c, 0, ECONNRESET); return;
		}
		if (s.size() < 24 + len) break;
		Rx rx; rx.conn = c.id; rx.t = k.now;
		rx.frame.assign(s.begin(), s.begin() + 24 + len);
		s.erase(s.begin(), s.begin() + 24 + len);
		onFrame(c, std::move(rx));
		if (!c.hostOpen) return;
	}
}

void Adapter::onFrame(TcpConn& c, Rx rx) {
	Rd r(rx.frame);
	rx.cmd = r.u16(); uint32_t len = r.u16(); rx.handle = r.u32(); uint32_t status = r.u32(); Bytes ctx = r.raw(8); uint32_t opt = r.u32();
	ev("dev.frame", c.id, rx.cmd, rx.handle, len);
	if (status || opt) violate("C02", "bad-frame-header", "request frame with status %u options %u", status, opt);
	if (rx.cmd == 0x65) {
		uint32_t ver = r.u16(), fl = r.u16();
		if (len != 4 || ver != 1 || fl != 0 || rx.handle != 0) violate("C03", "bad-register", "malformed RegisterSession: len %u version %u flags %u handle %u", len, ver, fl, rx.handle);
		if (session.count(c.id)) violate("C03", "double-register", "RegisterSession sent twice on one connection");
		ledger.push_back(rx);
		Rx* p = &ledger.back();
		uint32_t h;
		do { h = u32(D); } while (h == 0 || [&] { for (auto& s : session) if (s.second == h) return true; return false; }());
		int rf = RF_NONE;
		uint32_t st = 0;
		switch (regPolicy) {
			case 1: st = pick<uint32_t>(D, {1, 2, 3, 0x64, 0x65, 0x69, 0x100, 0x01000000}); fault("register_refused"); if (choose(D, 2)) h = 0; break;
			case 2: rf = choose(D, 2) ? RF_FIN_BEFORE : RF_RST_BEFORE; break;
			case 3: rf = RF_NOREPLY; break;
			case 4: rf = RF_GARBLE; break;
			case 5: rf = RF_FIN_MID; break;
			case 6: rf = RF_STALL_MID; break;
			case 7: rf = RF_LATE; break;
			default: break;
		}
		if (regPolicy == 0 && malign && k.faultsOn && chance(D, malign, 128)) rf = malignKinds.empty() ? RF_NONE : malignKinds[choose(D, malignKinds.size())];
		if (rf == RF_WRONG_HANDLE || rf == RF_TRUNC || rf == RF_ENCAPS_STATUS) rf = RF_NOREPLY;
		if (!st) session[c.id] = h;
		sendFrame(c, p, 0x65, h, st, ctx, Wr().u16(1).u16(0).b, rf);
		if (p->alteredContent) garbledGrant.insert(c.id);
		else if (!st && p->replied) grantedReply[c.id] = h;
		return;
	}
	if (rx.cmd == 0x66) {
		ledger.push_back(rx);
		unregistered[c.id]++;
		if (len != 0) violate("C03", "bad-unregister", "UnregisterSession with a body of %u bytes", len);
		auto it = session.find(c.id);
		if (it == session.end()) violate("C03", unregistered[c.id] > 1 ? "double-unregister" : "stray-unregister", "UnregisterSession without a session (count %d)", unregistered[c.id]);
		else if (it->second != rx.handle && !garbledGrant.count(c.id)) violate("C03", "unregister-wrong-handle", "UnregisterSession for handle %u, session has %u", rx.handle, it->second);
		else if (grantedReply.count(c.id)) probe("unregister_ok");
		session.erase(c.id);
		k.tcpFin(c, 0);
		return;
	}
	auto it = session.find(c.id);
	if (it == session.end()) violate("C03", "request-without-session", "request on a connection without a session");
	else if (it->second != rx.handle && !garbledGrant.count(c.id)) violate("C02 C03", "request-wrong-handle", "request carries handle %u but the session is %u", rx.handle, it->second);
	std::string why;
	rx.isRequest = true;
	bool ok = parseRequest(rx, why);
	if (!ok) violate("C02", "bad-request", "malformed SendRRData request: %s: %s", why.c_str(), hex(rx.frame, 96).c_str());
	ledger.push_back(rx);
	Rx& e = ledger.back();
	if (!ok) { sendFrame(c, &e, 0x6f, rx.handle, 3, ctx, {}, RF_NONE); return; }
	int rf = RF_NONE;
	if (nextRf) { rf = *nextRf; nextRf.reset(); }
	else if (malign && k.faultsOn && !malignKinds.empty() && chance(D, malign, 64)) rf = malignKinds[choose(D, malignKinds.size())];
	e.reply = dispatch(c, e);
	if (twist) twist(e);
	if (onRequest) onRequest(e);
	const Reply& rp = e.reply;
	Wr mr; mr.u8(rx.service | 0x80).u8(0).u8(rp.status).u8(rp.addl.size());
	for (auto a : rp.addl) mr.u16(a);
	mr.raw(rp.data);
	std::vector<Item> items{{0, {}}, {0xB2, mr.b}};
	items.insert(items.end(), rp.extra.begin(), rp.extra.end());
	Bytes cpf = packItems(items);
	if (rf == RF_TRUNC) {   // well-framed reply whose CIP content is cut short
		Bytes m = mr.b; m.resize(choose(D, std::max<size_t>(1, m.size())));
		switch (choose(D, 4)) {
			case 0: items[1].data = m; cpf = packItems(items); break;                       // consistent lengths, short content
			case 1: cpf.resize(choose(D, std::max<size_t>(1, cpf.size()))); break;           // item lengths beyond the packet
			case 2: cpf.clear(); break;
			default: items.resize(1); cpf = packItems(items); break;                         // no data item
		}
		e.alteredContent = true; fault(rfName(rf)); garbled++;
	}
	Wr pl; pl.u32(0).u16(choose(D, 4) ? 0 : u16(D)).raw(cpf);
	Bytes payload = pl.b;
	if (e.alteredContent && choose(D, 8) == 7) payload.resize(choose(D, 6));
	sendFrame(c, &e, 0x6f, rx.handle, 0, ctx, payload, rf);
}

bool Adapter::parseRequest(Rx& rx, std::string& why) {
	Rd r(rx.frame, 24);
	uint32_t iface = r.u32(); r.u16();
	if (!r.ok) { why = "short"; return false; }
	if (iface) { why = "interface handle"; return false; }
	if (!parseItems(rx.frame, r.p, rx.items, true)) { why = "CPF items"; return false; }
	if (rx.items.size() < 2) { why = "item count"; return false; }
	if (rx.items[0].type != 0 || !rx.items[0].data.empty()) { why = "address item"; return false; }
	if (rx.items[1].type != 0xB2) { why = "data item type"; return false; }
	Rd m(rx.items[1].data);
	rx.service = m.u8();
	uint32_t words = m.u8();
	Bytes p = m.raw(words * 2);
	if (!m.ok) { why = "path size"; return false; }
	rx.data = m.rest();
	Rd q(p);
	while (q.left()) {
		uint32_t t = q.u8();
		uint32_t v;
		if (t & 1) { if (q.u8()) { why = "path pad"; return false; } v = q.u16(); rx.path.seg16 = true; }
		else { v = q.u8(); rx.path.seg8 = true; }
		if (!q.ok) { why = "path"; return false; }
		int* dst = nullptr;
		switch (t & ~1u) { case 0x20: dst = &rx.path.cls; break; case 0x24: dst = &rx.path.inst; break; case 0x30: dst = &rx.path.attr; break; default: why = "path segment"; return false; }
		if (*dst >= 0) { why = "repeated path segment"; return false; }
		*dst = v;
	}
	return true;
}

// Delivers a frame with the benign variation of this run and, if rf says so, a fault.
void Adapter::sendFrame(TcpConn& c, Rx* rx, uint16_t cmd, uint32_t handle, uint32_t status, const Bytes& ctx, const Bytes& payload, int rf) {
	if (rx) rx->rf = rf;
	if (rf != RF_NONE && rf != RF_TRUNC && rf != RF_TRICKLE) fault(rfName(rf));
	if (rf == RF_ENCAPS_STATUS) status = pick<uint32_t>(D, {1, 2, 3, 0x64, 0x65, 0x69, 0x80000000u, 0x100});
	if (rf == RF_WRONG_HANDLE) {
		uint32_t own = handle;
		switch (choose(D, 4)) {
			case 0: handle = 0; break;
			case 1: handle = uint32_t(-1); break;
			case 2: handle = own + 1 + choose(D, 3); break;
			default: break;
		}
		if (handle == own) handle ^= 1u << choose(D, 32);
	}
	Bytes pl = payload;
	if (rf == RF_ENCAPS_STATUS && choose(D, 2)) pl.clear();
	Bytes f = encodeFrame(cmd, handle, status, ctx, pl);
	int64_t delay = delayMax && k.faultsOn ? range(D, 0, delayMax) : 0;
	std::vector<std::pair<size_t, int64_t>> cuts;
	if (k.faultsOn && k.cfg.segment && chance(N, k.cfg.segment, 64)) {
		fault("tcp_segmentation");
		size_t p = 0;
		int n = 1 + choose(N, 4);
		for (int i = 0; i < n && p < f.size(); i++) {
			size_t len = choose(N, 3) ? 1 + choose(N, f.size() - p) : 1 + choose(N, std::min<size_t>(30, f.size() - p));
			cuts.push_back({len, range(N, 0, k.cfg.segGap)});
			p += len;
		}
		if (p < f.size()) cuts.push_back({f.size() - p, range(N, 0, k.cfg.segGap)});
	}
	bool malign = rf != RF_NONE && rf != RF_TRICKLE;
	if (malign) c.malign++;
	int64_t late = patience + 4 * k.cfg.latMax + 5 * MS;
	switch (rf) {
		case RF_LATE: delay = late + range(D, 0, 2 * patience); break;
		case RF_NOREPLY: return;
		case RF_FIN_BEFORE: session.erase(c.id); k.tcpFin(c, delay); return;
		case RF_RST_BEFORE: session.erase(c.id); k.tcpRst(c, delay, ECONNRESET); return;
		case RF_FIN_MID: case RF_RST_MID: {
			size_t n = choose(D, f.size());
			if (choose(D, 3) == 0) n = std::min<size_t>(n, 24);
			k.tcpToClient(c, Bytes(f.begin(), f.begin() + n), delay, cuts.empty() ? nullptr : &cuts);
			session.erase(c.id);
			if (rf == RF_FIN_MID) k.tcpFin(c, delay); else k.tcpRst(c, delay, ECONNRESET);
			return;
		}
		case RF_STALL_MID: {
			size_t n = 1 + choose(D, f.size() - 1);
			if (choose(D, 3) == 0) n = std::min<size_t>(n, 24);
			cuts = {{n, 0}, {f.size() - n, late + range(D, 0, 2 * patience)}};
			break;
		}
		case RF_TRICKLE: {   // byte by byte, always just in time
			fault(rfName(rf));
			size_t n = f.size(), pieces = std::min<size_t>(n, 4 + choose(D, 8)), per = (n + pieces - 1) / pieces;
			for (size_t p = 0; p < n; p += per) cuts.push_back({per, patience / 2});
			break;
		}
		case RF_GARBLE: {
			garbled++;
			if (rx) rx->alteredContent = true;
			f = mutate(D, f);
			cuts.clear();
			break;
		}
		case RF_POWERCYCLE: powerCycle((int64_t)restartAfterMs * MS); return;
		default: break;
	}
	if (rx) { rx->replied = true; }
	k.tcpToClient(c, f, delay, cuts.empty() ? nullptr : &cuts);
	if (rx) rx->lastByteAt = c.s2cLast;
}

void Adapter::powerCycle(int64_t downtime) {
	ev("dev.crash", index);
	k.hostCrash(*this);
	up = false;
	stream.clear(); session.clear();
	for (auto& c : io) { c->open = false; c->producing = false; }
	for (auto& f : files) f.second.cur = -1;
	k.after(downtime, [this] { up = true; ev("dev.restart", index); });
}

Reply randomReply() {
	Reply r;
	if (choose(D, 4) == 3) { r.status = (uint8_t)pick<uint32_t>(D, {1, 4, 5, 8, 0x0c, 0x13, 0xff, 6}); for (int n = choose(D, 4); n > 0; n--) r.addl.push_back(u16(D)); fault("cip_error_status"); }
	size_t n = 0;
	switch (choose(D, 6)) { case 0: n = choose(D, 9); break; case 1: n = 0; break; case 2: n = choose(D, 500); break; case 3: n = 480 + choose(D, 40); break; case 4: n = choose(D, 4000); break; default: n = choose(D, 64); }
	if (choose(D, 40) == 39) n = pick<size_t>(D, {8170, 16370, 32700, 65200}) + choose(D, 200);
	if (r.status && choose(D, 30) == 29) while (r.addl.size() < 255 && choose(D, 60)) r.addl.push_back((uint16_t)r.addl.size());
	if (n > 65000) { n -= 2 * r.addl.size(); r.data = bytes(D, n); return r; }
	r.data = bytes(D, n);
	if (choose(D, 8) == 7) { int m = 1 + choose(D, 3); for (int i = 0; i < m; i++) r.extra.push_back({pick<uint16_t>(D, {0x8000, 0x8001, 0x0100, 0x8002}), bytes(D, choose(D, 20))}); }
	return r;
}

Reply Adapter::dispatch(TcpConn& c, Rx& rx) {
	if (custom) if (auto r = custom(rx)) return *r;
	auto fail = [](uint8_t s) { Reply r; r.status = s; return r; };
	switch (rx.path.cls) {
		case 0x01:
			if (rx.service == 0x01 && rx.path.inst == 1) { Reply r; r.data = ident.pack(); return r; }
			if (rx.service == 0x01 && idents.count(rx.path.inst)) { Reply r; r.data = idents[rx.path.inst].pack(); return r; }
			return fail(8);
		case 0x06:
			if (rx.service == 0x54) return forwardOpen(rx, false);
			if (rx.service == 0x5B) return forwardOpen(rx, true);
			if (rx.service == 0x4E) return forwardClose(rx);
			return fail(8);
		case 0x0F: return paramService(rx);
		case 0x37: return fileService(rx);
		case 0x97:
			if (rx.service == 0x10 && rx.path.inst <= 0 && rx.path.attr == 3 && rx.data.size() == 1) {
				dpiCommands.push_back(rx.data[0]);
				ev("dpi.command", rx.data[0]);
				return fail(dpiCommandStatus);
			}
			if (rx.service == 0x0E && dpiObjects.count(rx.path.inst)) { Reply r; r.data = dpiObjects[rx.path.inst]; return r; }
			return fail(5);
		default: return randomReply();
	}
}

Reply Adapter::paramService(Rx& rx) {
	Reply r;
	auto raw = rawParams.find(rx.path.inst);
	if (raw != rawParams.end() && rx.service == 0x0E && rx.path.attr == 1) { r.data = Wr().u16(raw->second).b; return r; }
	auto it = params.find(rx.path.inst);
	if (it == params.end()) { r.status = 5; return r; }
	ParamObj& p = it->second;
	if (rx.service == 0x01) {
		Wr w; w.raw(p.value).u8(p.linkPath.size()).raw(p.linkPath).u16(p.descriptor).u8(p.type);
		if (p.full) {
			w.u8(p.value.size()).str8(p.name).str8(p.units).str8(p.help).raw(p.min).raw(p.max).raw(p.def);
			w.u16(p.mul).u16(p.div).u16(p.base).u16((uint16_t)p.off).u16(0).u16(0).u16(0).u16(0).u8(p.precision);
		}
		r.data = w.b;
		return r;
	}
	if (rx.service != 0x0E) { r.status = 8; return r; }
	switch (rx.path.attr) {
		case 1: r.data = p.value; break;
		case 6: r.data = {(uint8_t)p.value.size()}; break;
		case 13: r.data = Wr().u16(p.mul).b; break;
		case 14: r.data = Wr().u16(p.div).b; break;
		case 15: r.data = Wr().u16(p.base).b; break;
		case 16: r.data = Wr().u16((uint16_t)p.off).b; break;
		default: r.status = 0x14;
	}
	if (rx.path.attr >= 13 && rx.path.attr <= 16) r.data.resize(p.attrSize[rx.path.attr - 13]);
	return r;
}

Reply Adapter::fileService(Rx& rx) {
	Reply r;
	auto it = files.find(rx.path.inst);
	if (it == files.end()) { if (rx.service == 0x0E && rx.path.attr == 1) { r.data = {0}; return r; } r.status = 5; return r; }
	FileObj& f = it->second;
	if (rx.service == 0x0E && rx.path.attr == 1) { r.data = {f.state}; return r; }
	if (rx.service == 0x4B && rx.data.size() == 1) {
		if (f.errorAt == -2) { r.status = f.errorStatus; return r; }
		uint8_t ts = std::min(f.transferSize, rx.data[0]);
		if (!ts) { r.status = 0x20; return r; }
		f.transferSize = ts;
		f.cur = 0;
		f.chunks = std::max<int>(1, (f.content.size() + ts - 1) / ts);
		r.data = Wr().u32(f.content.size() + f.lieSize).u8(ts).b;
		return r;
	}
	if (rx.service == 0x4F && rx.data.size() == 1) {
		if (f.cur < 0) { r.status = 0x10; return r; }
		int n = -1;
		if (f.cur < f.chunks && rx.data[0] == (f.cur & 0xff)) n = f.cur;
		else if (f.cur > 0 && rx.data[0] == ((f.cur - 1) & 0xff)) { n = f.cur - 1; probe("file_chunk_resent"); }
		if (n < 0) { r.status = 0x20; probe("file_bad_chunk_request"); return r; }
		if (n == f.errorAt) { r.status = f.errorStatus; if (choose(D, 2)) f.errorAt = -1; return r; }
		f.cur = n + 1;
		bool first = n == 0, last = n == f.chunks - 1;
		size_t a = (size_t)n * f.transferSize, b = std::min(f.content.size(), a + f.transferSize);
		Bytes d(f.content.begin() + a, f.content.begin() + b);
		if (last && f.shortLastBy) d.resize(d.size() - std::min<size_t>(d.size(), f.shortLastBy));
		uint8_t type = first && last ? 4 : first ? 0 : last ? 2 : 1;
		if (n == f.abortAt) type = 3;
		Wr w; w.u8(n == f.wrongNumberAt ? n + 1 + choose(D, 254) : n).u8(type).raw(d);
		if (last) w.u16(0);
		r.data = w.b;
		return r;
	}
	r.status = 8;
	return r;
}

Reply Adapter::forwardOpen(Rx& rx, bool large) {
	Reply r;
	Rd d(rx.data);
	auto c = std::make_unique<IoConn>();
	c->dev = this; c->large = large;
	c->prio = d.u8(); c->ticks = d.u8();
	c->reqO2tId = d.u32(); c->reqT2oId = d.u32();
	c->serial = d.u16(); c->vendor = d.u16(); c->origSerial = d.u32();
	c->mult = d.u8(); d.u8(); d.u8(); d.u8();
	c->o2tRpi = d.u32(); c->o2tParams = large ? d.u32() : d.u16();
	c->t2oRpi = d.u32(); c->t2oParams = large ? d.u32() : d.u16();
	c->trigger = d.u8();
	uint32_t words = d.u8();
	c->path = d.raw(words * 2);
	if (!d.ok || d.left()) {
		violate("C10", "bad-forward-open", "ForwardOpen body of %zu bytes does not parse (path words %u)", rx.data.size(), words);
		r.status = 0x13; return r;
	}
	OpenPolicy p = openPolicy;
	if (p.reject) { r.status = p.status; r.addl = p.addl; r.data = Wr().u16(c->serial).u16(c->vendor).u32(c->origSerial).u8(0).u8(0).b; fault("forward_open_rejected"); return r; }
	int shift = large ? 29 : 13;
	bool p2p = ((c->t2oParams >> shift) & 3) == 2;
	c->t2oId = p.t2oId ? *p.t2oId : p2p ? c->reqT2oId : u32(D);
	c->o2tId = p.o2tId ? *p.o2tId : u32(D);
	c->o2tApi = p.o2tApi ? p.o2tApi : c->o2tRpi;
	c->t2oApi = p.t2oApi ? p.t2oApi : c->t2oRpi;
	c->dstIp = ip; c->dstPort = 2222;
	Wr w; w.u32(c->o2tId).u32(c->t2oId).u16(c->serial).u16(c->vendor).u32(c->origSerial).u32(c->o2tApi).u32(c->t2oApi).u8(p.appReply.size() / 2).u8(0).raw(p.appReply);
	r.data = w.b;
	std::vector<Item> items;
	if (p.sockaddr) { c->dstPort = p.sockPort; if (p.sockaddr == 2) c->dstIp = p.sockIp; items.push_back({0x8000, sockaddrBytes(p.sockaddr == 2 ? p.sockIp : 0, p.sockPort)}); }
	if (p.t2oSockaddr) { Item t{0x8001, sockaddrBytes(CLIENT_IP, 2222)}; if (p.sockFirst) items.insert(items.begin(), t); else items.push_back(t); }
	r.extra = items;
	c->idx = io.size();
	io.push_back(std::move(c));
	if (onIoOpen) onIoOpen(*io.back());
	return r;
}

Reply Adapter::forwardClose(Rx& rx) {
	Reply r;
	Rd d(rx.data);
	d.u8(); d.u8();
	uint16_t serial = d.u16(), vendor = d.u16(); uint32_t os = d.u32();
	uint32_t words = d.u8(); d.u8();
	Bytes path = d.raw(words * 2);
	if (!d.ok || d.left()) { violate("C10", "bad-forward-close", "ForwardClose body of %zu bytes does not parse", rx.data.size()); r.status = 0x13; return r; }
	IoConn* hit = nullptr;
	for (auto& c : io) if (c->open && c->serial == serial && c->vendor == vendor && c->origSerial == os) { hit = c.get(); break; }
	if (!hit) { r.status = 1; r.addl = {0x0107}; return r; }
	if (hit->path != path) { violate("C10", "forward-close-path", "ForwardClose names path %s but the connection was opened with %s", hex(path).c_str(), hex(hit->path).c_str()); }
	if (closeStatus) { r.status = closeStatus; fault("forward_close_rejected"); return r; }
	hit->open = false; hit->producing = false;
	r.data = Wr().u16(serial).u16(vendor).u32(os).u8(0).u8(0).b;
	return r;
}

Bytes Adapter::makeDatagram(uint32_t id, uint32_t seq32, const Bytes& payload) {
	return packItems({{0x8002, Wr().u32(id).u32(seq32).b}, {0xB1, payload}});
}

Bytes Adapter::productionPayload(IoConn& c, uint64_t n, uint32_t& header, uint16_t& seq, Bytes& data) {
	Wr w;
	header = 0; seq = 0;
	if (c.cls1()) { seq = c.seq16; w.u16(seq); }
	if (c.rt) { header = choose(D, 4) ? 1 : u32(D); w.u32(header); }
	size_t size = c.size;
	if (c.variable) size = choose(D, 3) ? c.size : choose(D, c.size + 1);
	data.resize(size);
	uint64_t x = n * 0x9e3779b97f4a7c15ull + c.t2oId * 77 + c.idx;
	for (size_t i = 0; i < size; i++) { if (i % 8 == 0) x = mix(x, i); data[i] = (uint8_t)(x >> (8 * (i % 8))); }
	w.raw(data);
	return w.b;
}

void Adapter::produce(IoConn& c, bool faulty) {
	uint32_t h; uint16_t s; Bytes d;
	c.seq32++; c.seq16++; c.count++;
	Bytes pl = productionPayload(c, c.count, h, s, d);
	if (c.sick == 3) return;
	if (c.sick == 1) {
		fault("wrong_data_size");
		if (choose(D, 2) && !pl.empty()) pl.resize(choose(D, pl.size())); else { Bytes x = bytes(D, 1 + choose(D, 9)); pl.insert(pl.end(), x.begin(), x.end()); }
	}
	if (c.sick == 2) {
		fault("malformed_datagram");
		k.udpToClient(ip, 2222, 2222, mutate(D, makeDatagram(c.t2oId, c.seq32, pl)), c.idx + 1, faulty);
		return;
	}
	k.udpToClient(ip, 2222, 2222, makeDatagram(c.t2oId, c.seq32, pl), c.idx + 1, faulty);
}

void Adapter::startProducing(IoConn& c, int64_t first) {
	c.producing = true;
	IoConn* p = &c;
	auto tick = [this, p](auto self) -> void {
		if (!p->producing || !p->open || !up) { p->producing = false; return; }
		produce(*p);
		k.after(p->period, [self] { self(self); });
	};
	k.after(first, [tick] { tick(tick); });
}

void Adapter::onUdp(const Datagram& d) {
	if (d.dport == 44818 && discovery) discovery(d);
}

}  // namespace sim
