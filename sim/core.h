// Core of the deterministic simulator: choice streams, event log, violations, counters.
#pragma once
#include <cstdint>
#include <cstddef>
#include <cstdarg>
#include <cstdio>
#include <cstring>
#include <string>
#include <vector>
#include <functional>

namespace sim {

using Bytes = std::vector<uint8_t>;

// ---- choice streams -------------------------------------------------------
// Every nondeterministic decision of a run is one draw from one of these streams.
// 0 is always the simplest / fault-free alternative, so that truncating or zeroing a stream simplifies a run.
enum Stream { W = 0 /*workload*/, N /*network*/, S /*system calls, signals*/, D /*devices*/, NSTREAM };

constexpr uint32_t MAXCHOICE = 400000;
constexpr int MAXVIOL = 24;
constexpr int MAXFAULT = 96;
constexpr int MAXPROBE = 160;
constexpr uint32_t STATEBITS = 1u << 16;

struct ViolationRec { char prop[16]; char cls[112]; char msg[640]; int64_t t; };

struct Shared {
	uint32_t nviol;
	ViolationRec viol[MAXVIOL];
	uint64_t loghash;      // every event with all data: determinism witness
	uint64_t schedhash;    // order of event kinds, actors and faults only: interleaving signature
	uint64_t steps;
	int64_t simns;
	uint32_t nfault; char faultName[MAXFAULT][28]; uint32_t faultCount[MAXFAULT];
	uint32_t nprobe; char probeName[MAXPROBE][44]; uint32_t probeCount[MAXPROBE];
	uint8_t states[STATEBITS / 8];
	uint32_t nchoice[NSTREAM];
	uint32_t overflow;
	uint32_t finished;
	char note[512];
	uint32_t choice[NSTREAM][MAXCHOICE];
};

extern Shared* sh;
extern bool verbose;

void beginRun(uint64_t seed, const std::vector<uint32_t>* replay /*[NSTREAM] or null*/);
uint32_t choose(Stream s, uint32_t n);                 // uniform in [0,n)
bool chance(Stream s, uint32_t num, uint32_t den);     // true with probability num/den; draw 0 -> false
int64_t range(Stream s, int64_t lo, int64_t hi);       // uniform in [lo,hi]; draw 0 -> lo
uint32_t u32(Stream s);                                // boundary-biased 32-bit value
uint16_t u16(Stream s);
Bytes bytes(Stream s, size_t n);                       // one draw, then expanded
template <class T> T pick(Stream s, std::initializer_list<T> l) { return *(l.begin() + choose(s, (uint32_t)l.size())); }

// ---- log, coverage --------------------------------------------------------
extern void (*eventHook)();                             // called at every event
void ev(const char* tag, int64_t a = 0, int64_t b = 0, int64_t c = 0, int64_t d = 0);
void evData(const char* tag, const uint8_t* p, size_t n);
void say(const char* fmt, ...) __attribute__((format(printf, 1, 2)));   // verbose text only
void fault(const char* name);
void probe(const char* name);
void state(uint64_t h);
inline uint64_t mix(uint64_t h, uint64_t v) { h ^= v + 0x9e3779b97f4a7c15ull + (h << 6) + (h >> 2); h *= 0xff51afd7ed558ccdull; return h ^ (h >> 33); }

// ---- violations -----------------------------------------------------------
// props: space separated ids; a violation is recorded for each of them.
extern bool allocFaults;           // allocations may be made to fail in this run
extern const char* alsoViolates;   // a property that is violated as well whenever any other is
void violate(const char* props, const char* cls, const char* fmt, ...) __attribute__((format(printf, 3, 4)));
[[noreturn]] void abandon();        // ends the run at once (after a violation that cannot be continued)
bool violated();

int64_t nowNs();                    // simulated time (defined by the kernel)
std::string hex(const Bytes& b, size_t max = 48);

// ---- scenarios ------------------------------------------------------------
struct Scenario { const char* name; void (*run)(); const char* what; };
extern const std::vector<Scenario> scenarios;

}  // namespace sim
