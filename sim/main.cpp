// Driver: sweeps of seeds, replay, shrinking.
#include "scenarios.h"
#include <algorithm>
#include <chrono>
#include <csignal>
#include <ctime>
#include <fstream>
#include <iostream>
#include <map>
#include <set>
#include <sstream>
#include <sys/mman.h>
#include <sys/personality.h>
#include <sys/resource.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <fcntl.h>
#include <unistd.h>

extern "C" const char* __asan_default_options() { return "detect_leaks=0:exitcode=77:allocator_may_return_null=0:max_allocation_size_mb=1024:handle_abort=1:quarantine_size_mb=8:malloc_context_size=6:detect_stack_use_after_return=0:print_legend=0:print_full_thread_history=0"; }
extern "C" const char* __ubsan_default_options() { return "print_stacktrace=1:exitcode=77"; }

namespace sim {
const std::vector<Scenario> scenarios = {scExplicit, scSession, scNowhere, scIo, scIoMarathon, scIoReentrant, scIoLifecycle, scIoChaos,
	scFile, scDiscovery, scObjects, scDpiManager, scChaos, scTyped, scLog, scEndurance, scIoThrowing};
}
using namespace sim;
using Clock = std::chrono::steady_clock;

static uint64_t splitmix(uint64_t x) { x += 0x9e3779b97f4a7c15ull; x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9ull; x = (x ^ (x >> 27)) * 0x94d049bb133111ebull; return x ^ (x >> 31); }
static uint64_t hashStr(const std::string& s) { uint64_t h = 0xcbf29ce484222325ull; for (unsigned char c : s) { h ^= c; h *= 0x100000001b3ull; } return h; }

using Streams = std::vector<std::vector<uint32_t>>;   // [NSTREAM]

static int errFd = -1;
static double cpuLimit = 10;

static const Scenario* find(const std::string& n) { for (auto& s : scenarios) if (n == s.name) return &s; return nullptr; }

struct Result { bool crashed = false; std::string crashClass, crashMsg; };

static std::string firstFrame(const std::string& t) {
	std::istringstream in(t); std::string l;
	while (std::getline(in, l)) {
		auto h = l.find("#"); if (h == std::string::npos) continue;
		auto p = l.find("/repo/src/"); if (p == std::string::npos) continue;
		auto a = l.find(" in "); if (a == std::string::npos || a > p) continue;
		std::string fn = l.substr(a + 4, p - a - 5), file = l.substr(p + 10);
		auto par = fn.find('('); if (par != std::string::npos) fn.resize(par);
		auto c = file.find(':'); if (c != std::string::npos) file.resize(c);
		auto co = fn.rfind("::"); if (co != std::string::npos) fn = fn.substr(co + 2);
		return file + ":" + fn;
	}
	return "?";
}

static void classify(int status, Result& r) {
	off_t n = lseek(errFd, 0, SEEK_END);
	std::string t((size_t)std::min<off_t>(n, 60000), 0);
	pread(errFd, t.data(), t.size(), 0);
	r.crashed = true;
	auto lineWith = [&](const char* w) { auto p = t.find(w); if (p == std::string::npos) return std::string(); auto b = t.rfind('\n', p); b = b == std::string::npos ? 0 : b + 1; auto e = t.find('\n', p); return t.substr(b, e - b); };
	std::string l, kind;
	if (WIFSIGNALED(status) && (WTERMSIG(status) == SIGPROF || WTERMSIG(status) == SIGKILL)) { r.crashClass = WTERMSIG(status) == SIGPROF ? "hang" : "killed"; r.crashMsg = WTERMSIG(status) == SIGPROF ? "the library kept computing without ever reaching a system call that waits" : "the run was killed (memory)"; return; }
	if (!(l = lineWith("Assertion `")).empty()) kind = "assert";
	else if (!(l = lineWith("terminate called")).empty()) { kind = "terminate"; auto w = lineWith("what():"); l += " " + w; }
	else if (!(l = lineWith("runtime error:")).empty()) kind = "ubsan";
	else if (!(l = lineWith("ERROR: AddressSanitizer:")).empty()) { auto p = l.find("AddressSanitizer: "); std::string k2 = l.substr(p + 18); k2.resize(std::min(k2.size(), k2.find_first_of(" ("))); kind = "asan-" + k2; }
	else { kind = "exit"; l = "status " + std::to_string(status); }
	std::string where = firstFrame(t);
	if (kind == "assert") { auto p = l.find("/repo/src/"); if (p != std::string::npos) { auto e = l.find(':', p); where = l.substr(p + 10, e - p - 10); } auto q = l.find("Assertion `"); where += ":" + l.substr(q + 11, 24); }
	r.crashClass = "crash:" + kind + "@" + where;
	if (r.crashClass.size() > 110) r.crashClass.resize(110);
	r.crashMsg = l;
	if (r.crashMsg.size() > 500) r.crashMsg.resize(500);
}

static Result execute(const Scenario& sc, uint64_t seed, const Streams* st, bool loud) {
	Result r;
	if (!loud) { ftruncate(errFd, 0); lseek(errFd, 0, SEEK_SET); }
	beginRun(seed, nullptr);
	pid_t pid = fork();
	if (pid == 0) {
		if (!loud) { dup2(errFd, 2); int n = open("/dev/null", O_WRONLY); dup2(n, 1); }
		itimerval iv{}; iv.it_value.tv_sec = (long)cpuLimit; setitimer(ITIMER_PROF, &iv, nullptr);
		signal(SIGPROF, SIG_DFL);
		verbose = loud;
		static std::vector<uint32_t> rep[NSTREAM];
		if (st) for (int i = 0; i < NSTREAM; i++) rep[i] = (*st)[i];
		beginRun(seed, st ? rep : nullptr);
		k.active = true;
		sc.run();
		k.active = false;
		sh->simns = nowNs();
		sh->finished = 1;
		fflush(stderr);
		_exit(0);
	}
	int status = 0;
	while (waitpid(pid, &status, 0) < 0) {}
	if (!sh->finished || !WIFEXITED(status) || WEXITSTATUS(status) != 0) {
		if (loud) { r.crashed = true; r.crashClass = "crash"; r.crashMsg = "see above"; }
		else classify(status, r);
	}
	return r;
}

static Streams recorded() {
	Streams s(NSTREAM);
	for (int i = 0; i < NSTREAM; i++) { s[i].assign(sh->choice[i], sh->choice[i] + sh->nchoice[i]); while (!s[i].empty() && s[i].back() == 0) s[i].pop_back(); }
	return s;
}

struct Found { std::string prop, cls, msg; };
// Violations of this run that concern property `prop`.
static std::vector<Found> relevant(const Result& r, const std::string& prop) {
	std::vector<Found> v;
	for (uint32_t i = 0; i < sh->nviol; i++) { std::string p = sh->viol[i].prop; if (p == "*" || p == prop || prop == "*") v.push_back({p == "*" ? prop : p, sh->viol[i].cls, sh->viol[i].msg}); }
	if (r.crashed) v.push_back({prop, r.crashClass, r.crashMsg});
	return v;
}

static std::string esc(const std::string& s) {
	std::string o;
	for (unsigned char c : s) { if (c == '"' || c == '\\') { o += '\\'; o += c; } else if (c < 32 || c > 126) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); o += b; } else o += c; }
	return o;
}
static std::string oneLine(std::string s) { for (auto& c : s) if (c == '\n' || c == '\r') c = ' '; return s; }

static void writeReplay(const std::string& file, const std::string& scen, uint64_t seed, const Streams& st, const Found& f, uint64_t loghash) {
	std::ofstream o(file);
	o << "eipsim-replay 1\nscenario " << scen << "\nproperty " << f.prop << "\nclass " << oneLine(f.cls) << "\nmessage " << oneLine(f.msg) << "\nseed " << seed << "\nloghash " << std::hex << loghash << std::dec << "\n";
	for (int i = 0; i < NSTREAM; i++) { o << "stream " << i << " " << st[i].size(); for (auto x : st[i]) o << " " << x; o << "\n"; }
}
struct Replay { std::string scen, prop, cls, msg; uint64_t seed = 0, loghash = 0; Streams st = Streams(NSTREAM); };
static bool readReplay(const std::string& file, Replay& r) {
	std::ifstream in(file);
	std::string l;
	if (!std::getline(in, l) || l != "eipsim-replay 1") return false;
	while (std::getline(in, l)) {
		std::istringstream s(l); std::string key; s >> key;
		std::string rest = l.size() > key.size() ? l.substr(key.size() + 1) : "";
		if (key == "scenario") r.scen = rest; else if (key == "property") r.prop = rest; else if (key == "class") r.cls = rest; else if (key == "message") r.msg = rest;
		else if (key == "seed") r.seed = std::stoull(rest); else if (key == "loghash") r.loghash = std::stoull(rest, nullptr, 16);
		else if (key == "stream") { size_t i, n; s >> i >> n; if (i < NSTREAM) { r.st[i].resize(n); for (auto& x : r.st[i]) s >> x; } }
	}
	return find(r.scen) != nullptr;
}

static std::map<std::string, std::string> args;
static std::string arg(const std::string& k, const std::string& d = "") { auto i = args.find(k); return i == args.end() ? d : i->second; }

// Only these properties speak about memory that runs out; the other checks stay clear of it.
static bool memoryMatters(const std::string& prop) { return prop.empty() || prop == "*" || prop == "C15" || prop == "C21"; }

static int sweep() {
	std::string prop = arg("prop"), out = arg("out"), dir = arg("dir", "."), tag = arg("tag", "w");
	allocFaults = memoryMatters(prop);
	uint64_t vseed = std::stoull(arg("seed", "1"));
	uint64_t from = std::stoull(arg("from", "0")), stride = std::stoull(arg("stride", "1")), count = std::stoull(arg("count", "100"));
	double wall = std::stod(arg("wall", "1000"));
	uint64_t detEvery = std::stoull(arg("determinism", "97"));
	size_t maxFound = std::stoul(arg("maxfound", "2"));
	std::vector<std::pair<const Scenario*, int>> mix; int total = 0;
	{ std::istringstream s(arg("mix")); std::string x; while (std::getline(s, x, ',')) { auto c = x.find(':'); auto* sc = find(x.substr(0, c)); if (!sc) { std::cerr << "no scenario " << x << "\n"; return 2; } int n = c == std::string::npos ? 1 : std::stoi(x.substr(c + 1)); mix.push_back({sc, n}); total += n; } }
	std::vector<std::string> known;      // classes listed as known findings of this property
	{ std::istringstream s(arg("known")); std::string x; while (std::getline(s, x, '\x1f')) if (!x.empty()) known.push_back(x); }
	auto t0 = Clock::now();
	std::map<std::string, uint64_t> faults, probes, perScen, knownHits; std::map<std::string, std::string> knownMsg;
	std::vector<uint8_t> states(STATEBITS / 8);
	std::set<uint64_t> sched, logs;
	uint64_t runs = 0, steps = 0, detRuns = 0, detBad = 0, overflow = 0, unfinished = 0, faultRuns = 0, others = 0; double simSec = 0;
	struct Hit { Found f; std::string file; uint64_t seed; std::string scen; };
	std::vector<Hit> hits; std::set<std::string> seenCls; size_t violRuns = 0;
	std::string detNote; bool capped = false;
	std::map<std::string, uint64_t> otherCls;
	for (uint64_t i = 0; i < count; i++) {
		if (std::chrono::duration<double>(Clock::now() - t0).count() > wall) { capped = true; break; }
		uint64_t idx = from + i * stride;
		int pickN = (int)(idx % total); const Scenario* sc = nullptr;
		for (auto& [s, n] : mix) { if (pickN < n) { sc = s; break; } pickN -= n; }
		uint64_t seed = splitmix(splitmix(vseed ^ hashStr(prop)) ^ hashStr(sc->name) ^ splitmix(idx));
		memset(sh->states, 0, sizeof sh->states); sh->nfault = sh->nprobe = 0; memset(sh->faultCount, 0, sizeof sh->faultCount); memset(sh->probeCount, 0, sizeof sh->probeCount);
		Result r = execute(*sc, seed, nullptr, false);
		runs++; perScen[sc->name]++; steps += sh->steps; simSec += sh->simns / 1e9; overflow += sh->overflow; unfinished += r.crashed;
		for (uint32_t j = 0; j < sh->nfault; j++) faults[sh->faultName[j]] += sh->faultCount[j];
		for (uint32_t j = 0; j < sh->nprobe; j++) probes[sh->probeName[j]] += sh->probeCount[j];
		if (sh->nfault) faultRuns++;
		for (size_t j = 0; j < states.size(); j++) states[j] |= sh->states[j];
		sched.insert(sh->schedhash); logs.insert(sh->loghash);
		auto v = relevant(r, prop);
		for (uint32_t j = 0; j < sh->nviol; j++) if (sh->viol[j].prop != prop && strcmp(sh->viol[j].prop, "*")) { others++; std::string key = std::string(sh->viol[j].prop) + " " + sh->viol[j].cls; if (!otherCls[key]++) std::cerr << "other: " << key << " " << sc->name << " " << seed << " " << sh->viol[j].msg << "\n"; }
		uint64_t lh = sh->loghash; Streams rec;
		if (!v.empty()) rec = recorded();
		bool newViol = false;
		for (auto& f : v) {
			bool isKnown = false;
			for (auto& kf : known) if (f.cls == kf) { knownHits[kf]++; knownMsg[kf] = f.msg; isKnown = true; }
			if (isKnown) continue;
			newViol = true;
			if (seenCls.insert(f.cls).second && hits.size() < 6) {
				std::string file = dir + "/" + tag + "-" + std::to_string(hits.size()) + ".replay";
				writeReplay(file, sc->name, seed, rec, f, lh);
				hits.push_back({f, file, seed, sc->name});
			}
		}
		if (detEvery && (idx / stride) % detEvery == detEvery - 1 && !sh->overflow) {
			execute(*sc, seed, nullptr, false);
			detRuns++;
			if (sh->loghash != lh) { detBad++; detNote = std::string(sc->name) + " seed " + std::to_string(seed); }
		}
		if (newViol && ++violRuns >= maxFound) break;
	}
	double secs = std::chrono::duration<double>(Clock::now() - t0).count();
	std::ofstream o(out);
	o << "{\"runs\":" << runs << ",\"wall\":" << secs << ",\"steps\":" << steps << ",\"sim_seconds\":" << simSec << ",\"capped\":" << (capped ? "true" : "false") << ",\"overflow\":" << overflow << ",\"crashed\":" << unfinished << ",\"fault_runs\":" << faultRuns
	  << ",\"determinism_runs\":" << detRuns << ",\"determinism_bad\":" << detBad << ",\"determinism_note\":\"" << esc(detNote) << "\",\"other_property_violations\":" << others;
	auto dump = [&](const char* n, const std::map<std::string, uint64_t>& m) { o << ",\"" << n << "\":{"; bool f = true; for (auto& [a, b] : m) { o << (f ? "" : ",") << "\"" << esc(a) << "\":" << b; f = false; } o << "}"; };
	dump("faults", faults); dump("probes", probes); dump("scenarios", perScen); dump("known", knownHits); dump("others", otherCls);
	o << ",\"known_msg\":{"; { bool f = true; for (auto& [a, b] : knownMsg) { o << (f ? "" : ",") << "\"" << esc(a) << "\":\"" << esc(b) << "\""; f = false; } } o << "}";
	o << ",\"violations\":[";
	for (size_t i = 0; i < hits.size(); i++) o << (i ? "," : "") << "{\"class\":\"" << esc(hits[i].f.cls) << "\",\"message\":\"" << esc(hits[i].f.msg) << "\",\"file\":\"" << esc(hits[i].file) << "\",\"seed\":" << hits[i].seed << ",\"scenario\":\"" << hits[i].scen << "\"}";
	o << "]}\n";
	o.close();
	std::ofstream b(out + ".bin", std::ios::binary);
	b.write((char*)states.data(), states.size());
	uint64_t n = sched.size(); b.write((char*)&n, 8); for (auto x : sched) b.write((char*)&x, 8);
	n = logs.size(); b.write((char*)&n, 8); for (auto x : logs) b.write((char*)&x, 8);
	return 0;
}

static int replay(const std::string& file) {
	Replay r;
	if (!readReplay(file, r)) { std::cerr << "cannot read " << file << "\n"; return 2; }
	bool loud = args.count("verbose");
	allocFaults = memoryMatters(r.prop);
	Result res = execute(*find(r.scen), r.seed, &r.st, loud);
	auto v = relevant(res, r.prop);
	bool hit = false;
	for (auto& f : v) { std::cout << f.prop << " " << f.cls << ": " << f.msg << "\n"; if (f.cls == r.cls) hit = true; }
	if (loud && res.crashed && r.cls.substr(0, 5) == "crash") hit = true;
	std::cout << "loghash " << std::hex << sh->loghash << std::dec << (sh->loghash == r.loghash ? " (identical to the recorded run)" : " (differs from the recorded run)") << "\n";
	std::cout << (hit ? "REPRODUCED" : "NOT REPRODUCED") << " " << r.prop << " " << r.cls << "\n";
	return hit ? 1 : 0;
}

static int shrink(const std::string& file, const std::string& out) {
	Replay r;
	if (!readReplay(file, r)) return 2;
	allocFaults = memoryMatters(r.prop);
	const Scenario& sc = *find(r.scen);
	double budget = std::stod(arg("budget", "45"));
	auto t0 = Clock::now();
	int tries = 0;
	std::string msg; uint64_t lh = 0;
	auto left = [&] { return std::chrono::duration<double>(Clock::now() - t0).count() < budget; };
	auto fails = [&](const Streams& s) {
		tries++;
		Result res = execute(sc, r.seed, &s, false);
		for (auto& f : relevant(res, r.prop)) if (f.cls == r.cls) { msg = f.msg; lh = sh->loghash; return true; }
		return false;
	};
	Streams best = r.st;
	if (!fails(best)) { std::cerr << "does not reproduce\n"; return 3; }
	best = recorded();
	auto accept = [&](const Streams& s) { if (!left()) return false; if (!fails(s)) return false; best = recorded(); return true; };
	bool progress = true;
	while (progress && left()) {
		progress = false;
		auto size = [&] { size_t n = 0; for (auto& s : best) for (auto x : s) n += 1 + (x != 0); return n; };
		size_t before = size();
		for (int i : {2, 1, 3, 0}) {
			{ Streams s = best; s[i].clear(); if (!s[i].empty() || !best[i].empty()) accept(s); }
			for (size_t cut = best[i].size() / 2; cut >= 1 && left(); cut /= 2) while (best[i].size() > cut) { Streams s = best; s[i].resize(s[i].size() - cut); if (!accept(s)) break; }
			for (size_t len = std::max<size_t>(1, best[i].size() / 4); left(); len /= 2) {
				for (size_t p = 0; p < best[i].size() && left();) {
					Streams s = best; size_t e = std::min(s[i].size(), p + len);
					s[i].erase(s[i].begin() + p, s[i].begin() + e);
					if (i == 0 && accept(s)) continue;
					s = best; bool any = false;
					e = std::min(s[i].size(), p + len);
					for (size_t j = p; j < e; j++) { any |= s[i][j] != 0; s[i][j] = 0; }
					if (any) accept(s);
					p += len;
				}
				if (len <= 1) break;
			}
			for (size_t p = 0; p < best[i].size() && left(); p++) {
				if (best[i][p] > 1) { Streams s = best; s[i][p] = 1; if (accept(s)) continue; s = best; if (p < s[i].size()) { s[i][p] /= 2; accept(s); } }
			}
		}
		progress = size() < before;
	}
	fails(best);
	Found f{r.prop, r.cls, msg};
	writeReplay(out, r.scen, r.seed, best, f, lh);
	size_t n = 0, m = 0; for (int i = 0; i < NSTREAM; i++) { n += r.st[i].size(); m += best[i].size(); }
	std::cout << "shrunk " << n << " -> " << m << " choices in " << tries << " runs\n" << msg << "\n";
	return 0;
}

static int one() {
	auto* sc = find(arg("scenario")); if (!sc) return 2;
	allocFaults = memoryMatters(arg("prop"));
	Result r = execute(*sc, std::stoull(arg("seed")), nullptr, args.count("verbose"));
	for (auto& f : relevant(r, "*")) std::cout << f.prop << " " << f.cls << ": " << f.msg << "\n";
	return 0;
}

int main(int argc, char** argv) {
	int pers = personality(0xffffffff);   // the same addresses in every execution, even for code that looks at them
	if (pers != -1 && !(pers & ADDR_NO_RANDOMIZE) && !getenv("EIPSIM_EXEC") && personality(pers | ADDR_NO_RANDOMIZE) != -1) {
		setenv("EIPSIM_EXEC", "1", 1);
		execv("/proc/self/exe", argv);
	}
	std::string mode = argc > 1 ? argv[1] : "";
	std::vector<std::string> pos;
	for (int i = 2; i < argc; i++) { std::string a = argv[i]; if (a.substr(0, 2) == "--") { auto e = a.find('='); args[a.substr(2, e == std::string::npos ? e : e - 2)] = e == std::string::npos ? "1" : a.substr(e + 1); } else pos.push_back(a); }
	cpuLimit = std::stod(arg("cpu", "20"));
	sh = (Shared*)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
	errFd = memfd_create("err", MFD_CLOEXEC);
	if (errFd >= 0 && errFd < 1000) { int f = fcntl(errFd, F_DUPFD_CLOEXEC, 1000); if (f >= 0) { close(errFd); errFd = f; } }
	if (mode == "sweep") return sweep();
	if (mode == "replay" && pos.size() == 1) return replay(pos[0]);
	if (mode == "shrink" && pos.size() == 2) return shrink(pos[0], pos[1]);
	if (mode == "one") return one();
	if (mode == "list") { for (auto& s : scenarios) std::cout << s.name << "\t" << s.what << "\n"; return 0; }
	std::cerr << "usage: eipsim sweep|replay FILE|shrink FILE OUT|one|list\n";
	return 2;
}
