// Logging: the same run is executed twice, once with everything logged and once at levels (and with appenders) that change
// on the way. What happens must be the same, and the messages must be exactly those within the level.
#include "world.h"
#include "scenarios.h"
#include <algorithm>
#include <csignal>
#include <iostream>
#include <sys/mman.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <unistd.h>

namespace sim {
using namespace eipScanner;
using utils::LogLevel;
using utils::Logger;

bool logControlled = false;      // the levels and appenders are not the inner scenario's business

namespace {
struct Msg { int level; uint32_t at; uint64_t hash; uint32_t len; char head[44]; };
constexpr uint32_t MAXMSG = 60000;
struct Reference { uint32_t n, finished, nviol, events; uint64_t loghash; Msg m[MAXMSG]; };
struct Change { uint32_t at; int kind; int level; uint32_t text; };   // kind 0: level, 1: appender, 2: message of the application

Reference* ref = nullptr;
std::vector<Change> changes; size_t nextChange = 0;
std::vector<Msg> got;
uint32_t events = 0;
int levelNow = 3, alive = 0; int current = 0;
bool reference = false, inHook = false;
const char* levelName[] = {"OFF", "ERROR", "WARNING", "INFO", "DEBUG", "TRACE"};

Msg makeMsg(int level, const std::string& s) {
	Msg m{}; m.level = level; m.at = events; m.len = (uint32_t)s.size(); m.hash = 0xcbf29ce484222325ull;
	for (unsigned char c : s) { m.hash ^= c; m.hash *= 0x100000001b3ull; }
	snprintf(m.head, sizeof m.head, "%s", s.c_str());
	return m;
}
void take(int level, const std::string& s) {
	Msg m = makeMsg(level, s);
	if (verbose) fprintf(stderr, "                log %s %s: %s\n", reference ? "(reference)" : "", level >= 0 && level <= 5 ? levelName[level] : "?", s.c_str());
	if (reference) { if (ref->n < MAXMSG) ref->m[ref->n++] = m; }
	else got.push_back(m);
}
size_t failingAppender = 0;
struct Recorder : utils::LogAppenderIf {
	int id;
	explicit Recorder(int id) : id(id) { alive++; }
	~Recorder() override { alive--; }
	void print(LogLevel l, const std::string& s) override {
		Out out_;
		if (id != current) violate("C20", "wrong-appender", "a message went to an appender that was replaced: %s", s.substr(0, 80).c_str());
		take((int)l, s);
		if (failingAppender && !reference && got.size() % failingAppender == 0) { probe("appender_throws"); throw std::runtime_error("no space left for the log"); }
	}
};
void newAppender() {
	current++;
	Logger::setAppender(std::make_unique<Recorder>(current));
	if (alive != 1) violate("C20", "appender-kept", "%d appenders exist after one replaced the other", alive);
}
// The console, as a place where text can be captured or refused.
struct Console : std::streambuf {
	std::string text; bool full = false;
	int overflow(int c) override { if (full) return traits_type::eof(); text.push_back((char)c); return c; }
	std::streamsize xsputn(const char* s, std::streamsize n) override { if (full) return 0; text.append(s, n); return n; }
};
Console console;

void applicationMessage(const Change& c);
void applicationMessages(const Change& c) {
	for (uint32_t i = 0, n = c.text % 5 == 0 ? 2 + c.text % 2 : 1; i < n; i++) applicationMessage(c);       // also the same one again
}
void applicationMessage(const Change& c) {
	size_t before = reference ? ref->n : got.size();
	size_t tb = console.text.size();
	std::string a = "app " + std::string(c.text % 300, 'm');
	{ Logger l((LogLevel)c.level); l << a << ' ' << c.text << " " << 1.5; if (c.text % 3 == 0) l << "|" << (int)c.level; }
	std::string want = a + " " + std::to_string(c.text) + " 1.5" + (c.text % 3 == 0 ? "|" + std::to_string(c.level) : "");
	bool due = levelNow > 0 && c.level <= levelNow;
	if (console.full) return;
	size_t n = (reference ? ref->n : got.size()) - before;
	if (reference && ref->n >= MAXMSG) return;
	if (std::cout.rdbuf() == &console && !reference) {
		std::string t = console.text.substr(tb), w = due ? "[" + std::string(levelName[c.level]) + "] " + want + "\n" : "";
		if (t != w) violate("C20", "wrong-message", "at level %s a message of level %s was printed as \"%s\"", levelName[levelNow], levelName[c.level], t.substr(0, 100).c_str());
		return;
	}
	Msg w = makeMsg(c.level, want);
	const Msg* g = n ? reference ? &ref->m[ref->n - 1] : &got.back() : nullptr;
	if (n != (due ? 1u : 0u)) violate("C20", "wrong-messages", "at level %s a message of level %s was printed %zu times", levelName[levelNow], levelName[c.level], n);
	else if (g && (g->hash != w.hash || g->level != w.level)) violate("C20", "wrong-message", "the message \"%s\" of level %s was printed as \"%s\"", want.substr(0, 60).c_str(), levelName[c.level], g->head);
}

void onEvent() {
	if (inHook) return;
	inHook = true;
	events++;
	while (nextChange < changes.size() && changes[nextChange].at <= events) {
		const Change& c = changes[nextChange++];
		if (c.kind == 0 && !reference) { levelNow = c.level; Logger::setLogLevel((LogLevel)c.level); }
		if (c.kind == 1 && std::cout.rdbuf() != &console) newAppender();
		if (c.kind == 2) applicationMessages(c);
	}
	inHook = false;
}

const Scenario* inner[] = {&scIo, &scExplicit, &scSession, &scIoLifecycle, &scIoChaos, &scDiscovery, &scObjects, &scFile, &scDpiManager, &scChaos, &scTyped};

void runLog() {
	ev("log");
	const Scenario& sc = *inner[choose(W, sizeof inner / sizeof *inner)];
	bool useConsole = choose(W, 5) == 4, consoleFull = useConsole && choose(W, 3) == 2;
	int first = useConsole && choose(W, 2) ? -1 : (int)choose(W, 6);         // -1: as the library starts
	for (int i = 0, n = choose(W, 8); i < n; i++) {
		Change c{}; c.at = 1 + choose(W, 8u << choose(W, 10)); c.kind = (int)choose(W, 3); c.level = (int)choose(W, 6); c.text = choose(W, 1000);
		if (c.kind == 2 && c.level == 0) c.level = 3;
		changes.push_back(c);
	}
	std::stable_sort(changes.begin(), changes.end(), [](auto& a, auto& b) { return a.at != b.at ? a.at < b.at : a.kind < b.kind; });
	if (consoleFull) fault("console_full");
	if (!useConsole && choose(W, 4) == 3) failingAppender = pick<size_t>(W, {3, 1, 7});
	logControlled = true;
	ref = (Reference*)mmap(nullptr, sizeof(Reference), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
	static Shared* saved = (Shared*)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
	size_t part = offsetof(Shared, choice);
	memcpy((void*)saved, sh, part);
	fflush(stderr);
	pid_t pid = fork();
	if (pid < 0) return;
	if (pid == 0) {
		itimerval iv{}; iv.it_value.tv_sec = 20; setitimer(ITIMER_PROF, &iv, nullptr);
		reference = true; levelNow = 5;
		newAppender(); Logger::setLogLevel(LogLevel::TRACE);
		eventHook = onEvent;
		sc.run();
		eventHook = nullptr;
		ref->loghash = sh->loghash; ref->nviol = sh->nviol; ref->events = events;
		ref->finished = 1;
		_exit(0);
	}
	int status = 0;
	while (waitpid(pid, &status, 0) < 0) {}
	memcpy((void*)sh, saved, part);
	if (useConsole) { console.full = consoleFull; std::cout.rdbuf(&console); }
	else newAppender();
	if (first >= 0) { Logger::setLogLevel((LogLevel)first); levelNow = first; } else levelNow = (int)LogLevel::INFO;
	int start = levelNow;
	eventHook = onEvent;
	sc.run();
	eventHook = nullptr;
	if (!ref->finished) {
		if (WIFEXITED(status) && WEXITSTATUS(status) == 0) return;      // ended early by a violation
		violate("C20", "crash-when-logging", "the run fails when everything is logged (status %d), and not when less is logged", status);
		return;
	}
	if (ref->loghash != sh->loghash || ref->nviol != sh->nviol)
		{ violate("C20", "level-changes-behaviour", "what the library does depends on the log level: %u events at TRACE, %u starting at %s", ref->events, events, levelName[start]); return; }
	if (ref->n >= MAXMSG) { probe("log_too_long"); return; }
	std::vector<const Msg*> want;
	size_t ci = 0; int level = start;
	for (uint32_t i = 0; i < ref->n; i++) {
		const Msg& m = ref->m[i];
		while (ci < changes.size() && changes[ci].at <= m.at) { if (changes[ci].kind == 0) level = changes[ci].level; ci++; }
		if (level > 0 && m.level <= level) want.push_back(&m);
	}
	if (!useConsole) {
		size_t n = std::min(want.size(), got.size());
		for (size_t i = 0; i <= n; i++) {
			if (i == n && want.size() == got.size()) break;
			const Msg* a = i < want.size() ? want[i] : nullptr; const Msg* b = i < got.size() ? &got[i] : nullptr;
			if (a && b && a->level == b->level && a->hash == b->hash && a->at == b->at) continue;
			violate("C20", "wrong-messages", "message %zu is \"%s\" (%s), at the levels in force it had to be \"%s\" (%s)", i, b ? b->head : "(none)", b ? levelName[b->level] : "", a ? a->head : "(none)", a ? levelName[a->level] : "");
			break;
		}
	} else if (!consoleFull) {
		size_t lines = 0, p = 0; size_t want_len = 0;
		for (auto* m : want) { want_len += m->len + strlen(levelName[m->level]) + 4; std::string s = console.text.substr(p, m->len + strlen(levelName[m->level]) + 4);
			std::string lead = std::string("[") + levelName[m->level] + "] ";
			Msg x = makeMsg(m->level, s.size() > lead.size() ? s.substr(lead.size(), m->len) : "");
			if (s.compare(0, lead.size(), lead) != 0 || s.back() != '\n' || x.hash != m->hash) { violate("C20", "wrong-messages", "line %zu on the console is \"%s\", it had to be \"%s%s\"", lines, s.substr(0, 100).c_str(), lead.c_str(), m->head); break; }
			p += s.size(); lines++;
		}
		if (!violated() && want_len != console.text.size()) violate("C20", "wrong-messages", "%zu bytes were printed on the console instead of %zu", console.text.size(), want_len);
		probe("console_log_compared");
	}
	probe(got.empty() && console.text.empty() ? "log_empty" : "log_compared");
	if (!changes.empty()) probe("log_level_changed");
}
}  // namespace

const Scenario scLog{"log", runLog, "any other scenario twice: with everything logged, and with changing log levels and appenders"};

}  // namespace sim
