#include "core.h"
#include <unistd.h>
#include <cstdlib>
#include <algorithm>

namespace sim {

Shared* sh = nullptr;
bool verbose = false;
void (*eventHook)() = nullptr;

namespace {
struct Rng {
	uint64_t s[2];
	static uint64_t sm(uint64_t& x) { x += 0x9e3779b97f4a7c15ull; uint64_t z = x; z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull; z = (z ^ (z >> 27)) * 0x94d049bb133111ebull; return z ^ (z >> 31); }
	void seed(uint64_t x) { s[0] = sm(x); s[1] = sm(x); if (!s[0] && !s[1]) s[0] = 1; }
	uint64_t next() { uint64_t a = s[0], b = s[1]; s[0] = b; a ^= a << 23; s[1] = a ^ b ^ (a >> 17) ^ (b >> 26); return s[1] + b; }
};
Rng rng[NSTREAM];
const std::vector<uint32_t>* replayed = nullptr;

inline void h1(uint64_t& h, uint64_t v) { for (int i = 0; i < 8; i++) { h ^= (v >> (8 * i)) & 0xff; h *= 0x100000001b3ull; } }
inline void hs(uint64_t& h, const char* s) { for (; *s; ++s) { h ^= (uint8_t)*s; h *= 0x100000001b3ull; } }
}  // namespace

void beginRun(uint64_t seed, const std::vector<uint32_t>* replay) {
	for (int i = 0; i < NSTREAM; i++) rng[i].seed(seed * 0x9e3779b97f4a7c15ull + 0x1234567ull * (i + 1));
	replayed = replay;
	sh->nviol = 0; sh->loghash = sh->schedhash = 0xcbf29ce484222325ull; sh->steps = 0; sh->simns = 0;
	for (auto& n : sh->nchoice) n = 0;
	sh->overflow = 0; sh->finished = 0; sh->note[0] = 0;
}

static inline uint32_t record(Stream s, uint32_t v) {
	uint32_t& n = sh->nchoice[s];
	if (n < MAXCHOICE) sh->choice[s][n++] = v; else sh->overflow = 1;
	return v;
}

static uint32_t raw(Stream s, uint32_t n) {   // n==0: full 32 bits
	uint32_t v;
	if (replayed) {
		uint32_t pos = sh->nchoice[s];
		v = pos < replayed[s].size() ? replayed[s][pos] : 0;
		if (n) v %= n;
	} else {
		uint64_t r = rng[s].next() >> 16;
		v = n ? (uint32_t)(r % n) : (uint32_t)r;
	}
	return record(s, v);
}

uint32_t choose(Stream s, uint32_t n) { return n <= 1 ? 0 : raw(s, n); }

bool chance(Stream s, uint32_t num, uint32_t den) {
	if (num == 0) return false;
	if (num >= den) return true;
	return choose(s, den) >= den - num;
}

int64_t range(Stream s, int64_t lo, int64_t hi) {
	if (hi <= lo) return lo;
	uint64_t span = (uint64_t)(hi - lo) + 1;
	if (span <= 0xffffffffull) return lo + choose(s, (uint32_t)span);
	uint64_t v = ((uint64_t)raw(s, 0) << 32) | raw(s, 0);
	return lo + (int64_t)(v % span);
}

uint32_t u32(Stream s) {
	switch (choose(s, 8)) {
		case 0: return choose(s, 256);
		case 1: return 0xffffffffu - choose(s, 4);
		case 2: return 0x7fffffffu + choose(s, 4) - 1;
		case 3: return 0xffffu + choose(s, 4) - 1;
		case 4: return 1u << choose(s, 32);
		case 5: return choose(s, 0x10000);
		default: return raw(s, 0);
	}
}

uint16_t u16(Stream s) {
	switch (choose(s, 6)) {
		case 0: return (uint16_t)choose(s, 256);
		case 1: return (uint16_t)(0xffff - choose(s, 3));
		case 2: return (uint16_t)(0x7fff + choose(s, 3));
		case 3: return (uint16_t)(0xff + choose(s, 3));
		default: return (uint16_t)choose(s, 0x10000);
	}
}

Bytes bytes(Stream s, size_t n) {
	Bytes b(n);
	if (!n) return b;
	uint32_t k = raw(s, 0);
	if (k == 0) { for (size_t i = 0; i < n; i++) b[i] = (uint8_t)(i + 1); return b; }
	uint64_t x = k;
	for (size_t i = 0; i < n; i += 8) { uint64_t r = Rng::sm(x); for (size_t j = i; j < n && j < i + 8; j++, r >>= 8) b[j] = (uint8_t)r; }
	return b;
}

void ev(const char* tag, int64_t a, int64_t b, int64_t c, int64_t d) {
	if (eventHook) eventHook();
	uint64_t& h = sh->loghash;
	hs(h, tag); h1(h, (uint64_t)nowNs()); h1(h, a); h1(h, b); h1(h, c); h1(h, d);
	uint64_t& g = sh->schedhash;
	hs(g, tag); h1(g, a);
	if (verbose) fprintf(stderr, "%14.6f  %-18s %lld %lld %lld %lld\n", nowNs() / 1e6, tag, (long long)a, (long long)b, (long long)c, (long long)d);
}

void evData(const char* tag, const uint8_t* p, size_t n) {
	uint64_t& h = sh->loghash;
	hs(h, tag); h1(h, n);
	for (size_t i = 0; i < n; i++) { h ^= p[i]; h *= 0x100000001b3ull; }
	if (verbose) { Bytes b(p, p + n); fprintf(stderr, "                %-18s %zu bytes %s\n", tag, n, hex(b, 80).c_str()); }
}

void say(const char* fmt, ...) {
	if (!verbose) return;
	va_list ap; va_start(ap, fmt);
	fprintf(stderr, "%14.6f  ", nowNs() / 1e6); vfprintf(stderr, fmt, ap); fputc('\n', stderr);
	va_end(ap);
}

static void count(const char* name, uint32_t& n, char* names, size_t w, uint32_t* counts, uint32_t max) {
	for (uint32_t i = 0; i < n; i++) if (!strncmp(names + i * w, name, w - 1)) { counts[i]++; return; }
	if (n < max) { strncpy(names + n * w, name, w - 1); names[n * w + w - 1] = 0; counts[n] = 1; n++; }
}

void fault(const char* name) {
	count(name, sh->nfault, &sh->faultName[0][0], sizeof sh->faultName[0], sh->faultCount, MAXFAULT);
	ev("fault"); evData(name, nullptr, 0);
	hs(sh->schedhash, name);
}
void probe(const char* name) { count(name, sh->nprobe, &sh->probeName[0][0], sizeof sh->probeName[0], sh->probeCount, MAXPROBE); }
void state(uint64_t h) { uint32_t b = (uint32_t)(mix(h, 77) % STATEBITS); sh->states[b / 8] |= 1u << (b % 8); }

bool allocFaults = true;
const char* alsoViolates = "";

void violate(const char* props, const char* cls, const char* fmt, ...) {
	char msg[640];
	va_list ap; va_start(ap, fmt); vsnprintf(msg, sizeof msg, fmt, ap); va_end(ap);
	if (verbose) fprintf(stderr, "%14.6f  **** VIOLATION [%s] %s: %s\n", nowNs() / 1e6, props, cls, msg);
	ev("violation"); evData(cls, nullptr, 0);
	std::string p = props;
	if (*alsoViolates && *props != '*') p += std::string(" ") + alsoViolates;
	size_t i = 0;
	while (i < p.size()) {
		size_t j = p.find(' ', i); if (j == std::string::npos) j = p.size();
		std::string id = p.substr(i, j - i); i = j + 1;
		if (id.empty()) continue;
		bool dup = false;
		for (uint32_t k = 0; k < sh->nviol; k++) if (id == sh->viol[k].prop && !strcmp(cls, sh->viol[k].cls)) dup = true;
		if (dup || sh->nviol >= MAXVIOL) continue;
		ViolationRec& v = sh->viol[sh->nviol];
		snprintf(v.prop, sizeof v.prop, "%s", id.c_str());
		snprintf(v.cls, sizeof v.cls, "%s", cls);
		snprintf(v.msg, sizeof v.msg, "%s", msg);
		v.t = nowNs();
		sh->nviol++;
	}
}

bool violated() { return sh->nviol > 0; }

void abandon() { sh->simns = nowNs(); sh->finished = 1; fflush(stderr); _exit(0); }

std::string hex(const Bytes& b, size_t max) {
	std::string s; char t[4];
	for (size_t i = 0; i < b.size() && i < max; i++) { snprintf(t, sizeof t, "%02x", b[i]); s += t; }
	if (b.size() > max) s += "..";
	return s;
}

}  // namespace sim
