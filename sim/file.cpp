// File uploads: chunks, wrapping transfer numbers, sessions lost halfway, misbehaving devices.
#include "world.h"
#include "scenarios.h"
#include "FileObject.h"
#include "fileObject/FileObjectState.h"

namespace sim {
using namespace eipScanner;

namespace {
struct Upload {
	Adapter* d = nullptr; int inst = 0;
	std::unique_ptr<FileObject> f;
	std::optional<int> calls0;
	int calls = 0; cip::GeneralStatusCodes status{}; Bytes content;
	std::string thrown;
	bool begun = false, running = false, done = false, tainted = false, honest = true;
	int progress = 0, failures = 0, stuck = 0, steps = 0, again = 0;
};

bool honestFile(const FileObj& f) { return f.errorAt == -1 && f.wrongNumberAt == -1 && f.abortAt == -1 && !f.shortLastBy && !f.lieSize; }

FileObj randomFile(bool big, bool naughty) {
	FileObj f;
	f.transferSize = (uint8_t)pick<uint32_t>(D, {200, 1, 2, 7, 64, 128, 255, 254});
	size_t n = 0;
	switch (choose(D, 6)) {
		case 0: n = choose(D, 600); break;
		case 1: n = f.transferSize * choose(D, 6); break;
		case 2: n = f.transferSize * choose(D, 6) + 1; break;
		case 3: n = 0; break;
		case 4: n = choose(D, f.transferSize + 1); break;
		default: n = choose(D, 4000); break;
	}
	if (big) { f.transferSize = (uint8_t)pick<uint32_t>(D, {1, 3, 8}); n = f.transferSize * pick<size_t>(D, {256, 255, 257, 300, 513}) + choose(D, 2); }
	if (big && choose(D, 3) == 2) { f.transferSize = (uint8_t)pick<uint32_t>(D, {255, 200, 254}); n = pick<size_t>(D, {65535, 65536, 65537, 70000, 131072}); }
	if (n / f.transferSize > 600) n = 600 * f.transferSize;
	f.content = bytes(D, n);
	int chunks = std::max<int>(1, (n + f.transferSize - 1) / f.transferSize);
	if (naughty) switch (choose(D, 5)) {
		case 0: f.errorAt = choose(D, chunks + 1) - 1; if (f.errorAt < 0) f.errorAt = -2; f.errorStatus = (uint8_t)pick<uint32_t>(D, {0x0c, 2, 5, 0x10, 0xff, 6}); fault("file_error_status"); break;
		case 1: f.wrongNumberAt = choose(D, chunks); fault("file_wrong_number"); break;
		case 2: f.abortAt = choose(D, chunks); fault("file_abort"); break;
		case 3: if (n) { f.shortLastBy = 1 + choose(D, 3); fault("file_short_last"); } break;
		default: f.lieSize = pick<int>(D, {1, -1, 256, 65536}); if (f.lieSize < 0 && !n) f.lieSize = 1; fault("file_size_lie"); break;
	}
	f.state = (uint8_t)(choose(D, 6) == 5 ? pick<uint32_t>(D, {0, 1, 3, 4, 5, 6, 7, 200}) : 2);
	return f;
}

void check(Upload& u) {
	FileObj& f = u.d->files[u.inst];
	if (u.calls > 1) violate("C13", "completed-twice", "the completion of one upload was signalled %d times", u.calls);
	if (u.calls && u.status == cip::GeneralStatusCodes::SUCCESS) {
		if (u.tainted) return;
		if (u.content != f.content) violate("C13", "wrong-content", "an upload of %zu bytes succeeded with %zu bytes that differ from the file", f.content.size(), u.content.size());
		if (!u.honest && !honestFile(f)) violate("C13", "success-of-failure", "an upload succeeded although the device failed it");
		probe("upload_succeeded");
		if (f.content.size() / f.transferSize > 256) probe("upload_over_256_chunks");
		if (f.content.size() > 65535) probe("upload_over_64_kb");
	} else if (u.calls) {
		if (!u.content.empty()) violate("C13", "content-of-failure", "a failed upload handed over %zu bytes", u.content.size());
		probe("upload_reported_failed");
	}
}

bool exceptionOfHandler(Upload& u, const Outcome& o, const char* name) {
	if (u.thrown.empty()) return false;
	if (o.ok) violate("C22", "exception-swallowed", "the handler of an upload's completion threw, but %s returned as if nothing had happened", name);
	else if (k.sysfails == o.sysfails0 && o.sig != u.thrown) violate("C22", "exception-replaced", "the handler of an upload's completion threw '%s', %s threw '%s'", u.thrown.c_str(), name, o.sig.c_str());
	probe("upload_handler_threw");
	return true;
}

// What may follow the completion of an upload: nothing at all, or another upload with the same object.
bool completed(World& w, Upload& u) {
	if (!u.f || !u.calls) return false;
	if (choose(W, 3) == 2) if (Sess* s = anySession(w, *u.d)) {
		int calls = u.calls; size_t n = u.d->ledger.size(); bool more = false;
		bool threw = !u.thrown.empty();
		auto c = w.before(*s);
		Outcome o = guard("handleTransfers", [&] { more = u.f->handleTransfers(s->si); });
		w.after(c, o, "handling no transfer", "C13", false);
		if (u.calls != calls) violate(threw ? "C13 C22" : "C13", "completed-twice", "an upload that was over signalled completion again");
		else if (more) violate("C13", "never-ends", "handleTransfers continues although the upload is over");
		else if (u.d->ledger.size() != n) violate("C13", "never-ends", "a transfer was requested although the upload is over");
		probe("handled_after_completion");
	}
	if (u.again >= 2 || choose(W, 4) != 3) return false;
	// once more, with the same or another file
	u.again++;
	if (choose(D, 2)) { u.d->files[u.inst] = randomFile(false, choose(D, 4) == 3); u.d->files[u.inst].state = 2; u.honest = honestFile(u.d->files[u.inst]); }
	u.calls = 0; u.status = {}; u.content.clear(); u.thrown.clear(); u.begun = u.running = false; u.failures = u.steps = 0;
	probe("uploaded_again");
	return true;
}

// One step of an upload. Returns false when there is nothing left to do for it.
bool step(World& w, Upload& u) {
	Sess* s = anySession(w, *u.d);
	if (!s) { k.advance(200 * MS); return ++u.stuck < 30; }
	FileObj& f = u.d->files[u.inst];
	bool mayFail = !honestFile(f) || f.state != 2 || u.tainted;
	if (!u.f) {
		bool odd = f.state == 4 || f.state > 5;
		auto c = w.before(*s);
		Outcome o = guard("fileObject", [&] { u.f = std::make_unique<FileObject>(u.inst, s->si); });
		w.after(c, o, "reading a file's state", "C13 C06", odd);
		if (c.tainted0 || s->tainted) u.tainted = true;
		if (!o.ok) { u.f.reset(); return !(odd && !u.tainted) && ++u.stuck < 30; }
		int want = f.state == 3 || f.state == 5 ? 2 : f.state;
		int got = (int)u.f->getState()->getStateCode();
		if (!u.tainted && got != want) violate("C06 C13", "wrong-file-state", "the file is in state %d, reported is %d", want, got);
		return true;
	}
	if (!u.begun) {
		auto c = w.before(*s);
		Upload* p = &u;
		Bytes guardBytes(64, 0x5a);      // captured state: a destroyed handler that is still running touches freed memory
		Outcome o = guard("beginUpload", [&] { u.f->beginUpload(s->si, [p, guardBytes](cip::GeneralStatusCodes st, const std::vector<uint8_t>& b) { Out out_; p->calls++; p->status = st; ev("cb.upload", (int)st, b.size());
			uint32_t x = choose(W, 16);
			if (x == 15) { In in_; p->f.reset(); probe("file_destroyed_by_its_handler"); }
			p->content = b;
			if (guardBytes[0] != 0x5a || guardBytes.size() != 64) violate("C12 C05", "listener-corrupted", "a running completion handler was destroyed");
			if (x >= 13) { fault("listener_throws"); throwSomething("no place for the file", p->thrown); } }); });
		w.after(c, o, "beginning an upload", "C13", mayFail || !u.thrown.empty());
		if (c.tainted0 || s->tainted) u.tainted = true;
		check(u);
		if (exceptionOfHandler(u, o, "beginUpload")) return completed(w, u);
		if (!o.ok) { if (u.calls) violate("C13", "thrown-and-completed", "beginUpload threw after having signalled completion"); return ++u.stuck < 30; }
		u.begun = true;
		bool able = f.state == 2 || f.state == 3 || f.state == 5;
		if (u.calls) {
			if (!u.tainted && u.status == cip::GeneralStatusCodes::SUCCESS) violate("C13", "wrong-content", "beginUpload signalled success before any transfer");
			if (!u.tainted && f.errorAt != -2 && s->current && s->current->reply.status == 0) violate("C13", "failed-without-fault", "beginUpload signalled failure although the device accepted the upload");
			if (!u.tainted && f.errorAt == -2 && (int)u.status != f.errorStatus) violate("C13 C06", "wrong-failure-status", "the device failed the upload with status 0x%02x, 0x%02x was signalled", f.errorStatus, (int)u.status);
			return completed(w, u);
		}
		if (!able) { probe("upload_not_possible"); bool more = false; guard("handleTransfers", [&] { more = u.f->handleTransfers(s->si); }); if (more) violate("C13", "never-ends", "handleTransfers continues although no upload was started"); return false; }
		if (f.errorAt == -2 && !u.tainted) violate("C13", "completion-missing", "the device refused the upload but no completion was signalled");
		u.running = true;
		return true;
	}
	bool more = false;
	int cur0 = f.cur;
	auto c = w.before(*s);
	Outcome o = guard("handleTransfers", [&] { more = u.f->handleTransfers(s->si); });
	w.after(c, o, "transferring a file", "C13", u.tainted || !u.thrown.empty());   // whatever the device does to the upload is signalled, not thrown
	if (c.tainted0 || s->tainted) u.tainted = true;
	// A reply cut short can make the content as long as a device wrongly announced: nothing but the unchecked CRC tells.
	if (s->current && s->current->alteredContent && f.lieSize) u.tainted = true;
	u.steps++;
	check(u);
	if (exceptionOfHandler(u, o, "handleTransfers")) return completed(w, u);
	if (!o.ok) {
		u.failures++;
		if (u.calls) violate("C13", "thrown-and-completed", "handleTransfers threw after having signalled completion");
		return u.failures < 40;
	}
	if (!more) {
		if (f.abortAt >= 0 && u.calls && !u.tainted) probe("upload_aborted_by_device");
		if (!u.calls && !u.tainted) violate("C13", "completion-missing", "the upload ended without its completion being signalled");
		if (!u.tainted && s->current && s->current->reply.status && (int)u.status != s->current->reply.status) violate("C13 C06", "wrong-failure-status", "the device failed the transfer with status 0x%02x, 0x%02x was signalled", s->current->reply.status, (int)u.status);
		if (!u.tainted && u.honest && u.status != cip::GeneralStatusCodes::SUCCESS && s->current && !s->current->reply.status && !s->current->alteredContent && f.cur >= 0)
			violate("C13", "failed-without-fault", "the upload of an intact file was signalled as failed with status 0x%02x", (int)u.status);
		return completed(w, u);
	}
	if (u.calls) violate("C13", "never-ends", "handleTransfers continues after completion was signalled");
	(void)cur0;
	if (!u.tainted && u.steps > f.chunks + u.failures + 5) { violate("C13", "never-ends", "handleTransfers still continues after %d calls for %d chunks", u.steps, f.chunks); return false; }
	return true;
}

void runFile() {
	World w;
	w.setup("file", 1 + choose(W, 2), {Mode::CLEAN, Mode::BENIGN, Mode::MALIGN, Mode::MALIGN, Mode::MALIGN, Mode::SYSFAIL});
	w.checkRequests = false;
	bool garble = choose(W, 5) == 4;
	if (w.mode == Mode::MALIGN) for (auto& d : w.devs) { addMalignKinds(d, garble); if (choose(W, 2)) d.malign = pick<uint32_t>(W, {1, 2, 4}); if (choose(W, 3) == 2) d.malignKinds.push_back(RF_TRUNC); }
	if (w.mode == Mode::BENIGN && choose(W, 6) == 5) for (auto& d : w.devs) { d.malign = 2; d.malignKinds = {RF_TRICKLE}; }
	std::deque<Upload> ups;
	int rounds = 1 + choose(W, 4);
	for (int r = 0; r < rounds && !violated(); r++) {
		ups.clear();
		int n = 1 + choose(W, 3);
		bool big = choose(W, 5) == 4;
		for (int i = 0; i < n; i++) {
			Adapter& d = w.devs[choose(W, w.devs.size())];
			ups.emplace_back();
			Upload& u = ups.back();
			u.d = &d;
			do u.inst = choose(W, 8) == 7 ? u16(W) : 0xC8 + choose(W, 6); while ([&] { for (auto& x : ups) if (&x != &u && x.d == u.d && x.inst == u.inst) return true; return false; }());
			d.files[u.inst] = randomFile(big && i == 0, choose(D, 4) == 3);
			u.honest = honestFile(d.files[u.inst]);
		}
		for (;;) {
			std::vector<Upload*> v;
			for (auto& u : ups) if (!u.done) v.push_back(&u);
			if (v.empty() || violated()) break;
			Upload& u = *v[choose(W, v.size())];
			if (!step(w, u)) u.done = true;
			uint32_t x = choose(W, 64);
			if (x == 63 && w.mode == Mode::MALIGN) idleTrouble(w, *u.d);
			else if (x == 62) k.advance(range(W, 0, 500) * MS);
			else if (x == 61) { if (Sess* s = w.liveSession()) { w.close(*s); probe("session_closed_mid_upload"); } }
			else if (x == 60 && w.mode == Mode::MALIGN) u.d->reachable || (w.partition(*u.d, false), 0);
			state(mix(u.steps > 256 ? 300 : u.steps, u.calls | (u.failures > 3 ? 3 : u.failures) << 1));
		}
	}
	if (!violated() && w.mode != Mode::CLEAN && choose(W, 2)) {
		w.faultsOff(); k.advance(8 * SEC);
		ups.emplace_back();
		Upload& u = ups.back();
		u.d = &w.devs[0]; u.inst = 0xD8; u.again = 2;
		u.d->files[u.inst] = randomFile(false, false); u.d->files[u.inst].state = 2;
		for (int i = 0; i < 3000 && step(w, u); i++) {}
		if (u.thrown.empty() && (u.calls != 1 || u.status != cip::GeneralStatusCodes::SUCCESS)) violate("C13 C05", "no-recovery", "after all faults stopped an intact file cannot be uploaded");
		else probe("recovered");
	}
	ups.clear();
	w.finish();
}
}  // namespace

const Scenario scFile{"file", runFile, "file uploads in parallel over failing sessions, from honest and dishonest devices"};

}  // namespace sim
