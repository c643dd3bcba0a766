// Common core of the C++ simulators: seeded PRNG, plans, run isolation, logging, statistics, command line.
//
// A *plan* is a text: header lines "!key value" and step lines "op k=v k=v ...". Executing a plan is a pure function of
// the plan and of the code under test: every run happens in a fresh child process forked from a pristine parent.
#pragma once
#include <cstdint>
#include <cstddef>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cstdarg>
#include <string>
#include <vector>
#include <map>
#include <set>
#include <unordered_set>
#include <functional>
#include <algorithm>
#include <fcntl.h>
#include <signal.h>
#include <poll.h>
#include <dirent.h>
#include <errno.h>
#include <sys/mman.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <sys/resource.h>
#include <sys/prctl.h>
#include <time.h>
#include <unistd.h>

namespace sim {

typedef uint8_t u8; typedef uint32_t u32; typedef uint64_t u64;
typedef std::vector<u8> Bytes;

inline u64 mix64(u64 z) {
	z += 0x9E3779B97F4A7C15ull; z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
	z = (z ^ (z >> 27)) * 0x94D049BB133111EBull; return z ^ (z >> 31);
}
inline u64 fnv(const void *p, size_t n, u64 h = 0xCBF29CE484222325ull) {
	const u8 *b = (const u8 *)p;
	for (size_t i = 0; i < n; i++) { h ^= b[i]; h *= 0x100000001B3ull; }
	return h;
}
inline u64 fnv(const std::string &s, u64 h = 0xCBF29CE484222325ull) { return fnv(s.data(), s.size(), h); }

struct Rng {
	u64 s, at = 0, flip = 0, drawn = 0;  // at: the draw that is altered, for near copies of what a seed gives
	explicit Rng(u64 seed = 0) : s(seed) {}
	u64 next() { u64 r = mix64(s); s += 0x9E3779B97F4A7C15ull; if (++drawn == at) r ^= flip; return r; }
	u64 below(u64 n) { return n == 0 ? 0 : next() % n; }
	u64 range(u64 a, u64 b) { return a + below(b - a + 1); }  // inclusive
	bool chance(unsigned num, unsigned den) { return below(den) < num; }
	// Log-uniform-ish value in [1, max]
	u64 logu(u64 max) {
		unsigned bits = 0; while (bits < 63 && (max >> bits) > 1) bits++;
		unsigned b = (unsigned)below(bits + 1);
		u64 v = (1ull << b) + below(1ull << b);
		return v > max ? max : v;
	}
	template <class T> const T &pick(const std::vector<T> &v) { return v[below(v.size())]; }
	void fill(void *p, size_t n) { u8 *b = (u8 *)p; for (size_t i = 0; i < n; i++) b[i] = (u8)next(); }
	Bytes bytes(size_t n) { Bytes v(n); fill(v.data(), n); return v; }
};

inline std::string fmt(const char *f, ...) {
	va_list ap; va_start(ap, f); char *p = nullptr; int n = vasprintf(&p, f, ap); va_end(ap);
	std::string s = n < 0 ? "" : std::string(p, n); free(p); return s;
}
inline std::string hex(const void *p, size_t n) {
	static const char *d = "0123456789abcdef"; std::string s; const u8 *b = (const u8 *)p;
	for (size_t i = 0; i < n; i++) { s += d[b[i] >> 4]; s += d[b[i] & 15]; } return s;
}
inline std::string hex(const Bytes &b) { return hex(b.data(), b.size()); }
inline std::string hex(const std::string &b) { return hex(b.data(), b.size()); }
inline Bytes unhex(const std::string &s) {
	Bytes r; auto v = [](char c) { return c <= '9' ? c - '0' : (c | 32) - 'a' + 10; };
	for (size_t i = 0; i + 1 < s.size(); i += 2) r.push_back((u8)(v(s[i]) << 4 | v(s[i + 1])));
	return r;
}

struct Step {
	std::string op; std::map<std::string, std::string> a;
	static Step parse(const std::string &line) {
		Step s; size_t i = 0; bool first = true;
		while (i < line.size()) {
			while (i < line.size() && line[i] == ' ') i++;
			size_t j = line.find(' ', i); if (j == std::string::npos) j = line.size();
			std::string tok = line.substr(i, j - i); i = j;
			if (tok.empty()) continue;
			if (first) { s.op = tok; first = false; continue; }
			size_t e = tok.find('=');
			if (e == std::string::npos) s.a[tok] = ""; else s.a[tok.substr(0, e)] = tok.substr(e + 1);
		}
		return s;
	}
	bool has(const std::string &k) const { return a.count(k) != 0; }
	std::string str(const std::string &k, const std::string &d = "") const { auto it = a.find(k); return it == a.end() ? d : it->second; }
	u64 num(const std::string &k, u64 d = 0) const { auto it = a.find(k); return it == a.end() ? d : strtoull(it->second.c_str(), nullptr, 0); }
	Bytes bin(const std::string &k) const { return unhex(str(k)); }
};

struct Plan {
	std::map<std::string, std::string> hdr; std::vector<std::string> steps;
	std::string text() const {
		std::string s; for (auto &h : hdr) s += "!" + h.first + " " + h.second + "\n";
		for (auto &l : steps) s += l + "\n"; return s;
	}
	static Plan parse(const std::string &t) {
		Plan p; size_t i = 0;
		while (i < t.size()) {
			size_t j = t.find('\n', i); if (j == std::string::npos) j = t.size();
			std::string l = t.substr(i, j - i); i = j + 1;
			if (l.empty() || l[0] == '#') continue;
			if (l[0] == '!') { size_t e = l.find(' '); p.hdr[l.substr(1, (e == std::string::npos ? l.size() : e) - 1)] = e == std::string::npos ? "" : l.substr(e + 1); }
			else p.steps.push_back(l);
		}
		return p;
	}
	u64 num(const std::string &k, u64 d = 0) const { auto it = hdr.find(k); return it == hdr.end() ? d : strtoull(it->second.c_str(), nullptr, 0); }
	std::string str(const std::string &k, const std::string &d = "") const { auto it = hdr.find(k); return it == hdr.end() ? d : it->second; }
	void add(const std::string &s) { steps.push_back(s); }
};

struct Shared {  // Lives in memory shared between the worker and the run's child process
	volatile int state;  // 0 running, 1 ok, 2 violation
	char cls[64]; char msg[4000];
	u64 hash, steps;
	u32 nstats; struct { char name[48]; u64 v; } stats[300];
	u32 ndist; u64 dist[4096];
};

inline Shared *&sh() { static Shared *p; return p; }
inline bool &verbose() { static bool v = false; return v; }

// ---- What executors use ----
inline void logv(u64 v) { u64 h = sh()->hash; sh()->hash = mix64(h ^ v) + 0x51; }
inline void logs(const std::string &s) { logv(fnv(s)); }
inline void logb(const void *p, size_t n) { logv(fnv(p, n)); }
inline void trace(const char *f, ...) {
	if (!verbose()) return;
	va_list ap; va_start(ap, f); fputs("# ", stdout); vprintf(f, ap); va_end(ap); putchar('\n'); fflush(stdout);
}
[[noreturn]] inline void fail(const std::string &cls, const std::string &msg) {
	Shared *s = sh();
	snprintf(s->cls, sizeof s->cls, "%s", cls.c_str()); snprintf(s->msg, sizeof s->msg, "%s", msg.c_str());
	s->state = 2; _exit(0);
}
inline void stat(const char *name, u64 n = 1) {
	Shared *s = sh();
	for (u32 i = 0; i < s->nstats; i++) if (!strcmp(s->stats[i].name, name)) { s->stats[i].v += n; return; }
	if (s->nstats < 300) { snprintf(s->stats[s->nstats].name, 48, "%s", name); s->stats[s->nstats++].v = n; }
}
inline void stat(const std::string &n, u64 k = 1) { stat(n.c_str(), k); }
inline void distinct(u64 h) { Shared *s = sh(); if (s->ndist < 4096) s->dist[s->ndist++] = h; }
inline void tick(u64 n = 1) { sh()->steps += n; }
inline void check(bool ok, const char *cls, const std::string &msg) { if (!ok) fail(cls, msg); }

struct Prop {
	const char *id;
	std::function<Plan(Rng &, u64 index, bool thorough)> gen;
	std::function<void(const Plan &)> exec;
	unsigned cpuLimit;  // seconds of CPU per run before it is called a hang
};

enum { ASAN_EXIT = 99 };

// Whether all threads of one of our own child processes sleep, and the CPU time they have used so far
inline bool threadsAsleep(pid_t pid, u64 &cpu) {
	DIR *d = opendir(fmt("/proc/%d/task", (int)pid).c_str()); if (!d) return false;
	bool all = true; cpu = 0;
	while (struct dirent *e = readdir(d)) {
		if (e->d_name[0] == '.') continue;
		FILE *f = fopen(fmt("/proc/%d/task/%s/stat", (int)pid, e->d_name).c_str(), "r"); if (!f) continue;
		char b[1024]; size_t n = fread(b, 1, sizeof b - 1, f); fclose(f); b[n] = 0; char *q = strrchr(b, ')'); if (!q) { all = false; continue; }
		char st = 0; unsigned long ut = 0, kt = 0; if (sscanf(q + 1, " %c %*d %*d %*d %*d %*d %*u %*u %*u %*u %*u %lu %lu", &st, &ut, &kt) != 3 || st != 'S') all = false;
		cpu += ut + kt;
	}
	closedir(d); return all;
}

// Runs one plan in a fresh child. Afterwards sh() holds the outcome.
inline void runPlan(const Prop &p, const Plan &plan) {
	Shared *s = sh();
	s->state = 0; s->cls[0] = s->msg[0] = 0; s->hash = 0; s->steps = 0; s->nstats = 0; s->ndist = 0;
	fflush(nullptr);
	int ep[2]; if (pipe(ep) != 0) { perror("pipe"); exit(3); }
	pid_t pid = fork();
	if (pid < 0) { perror("fork"); exit(3); }
	if (pid == 0) {
		prctl(PR_SET_PDEATHSIG, SIGKILL);
		close(ep[0]);
		if (!getenv("SIM_KEEP_STDERR")) { dup2(ep[1], 2); }
		close(ep[1]);
		struct itimerval it; memset(&it, 0, sizeof it); it.it_value.tv_sec = p.cpuLimit ? p.cpuLimit : 20;
		setitimer(ITIMER_PROF, &it, nullptr);
		p.exec(plan);
		s->state = 1;
		_exit(0);
	}
	close(ep[1]);
	std::string err; char buf[4096]; ssize_t k;
	bool blocked = false; int idle = 0; u64 used = 0;
	for (;;) {
		struct pollfd pf = {ep[0], POLLIN, 0}; int pr = poll(&pf, 1, 1000);
		if (pr < 0 && errno == EINTR) continue;
		if (pr == 0) {  // Nothing said for a second: is anything of it still running?
			u64 c = 0; bool asleep = threadsAsleep(pid, c); idle = asleep && c == used ? idle + 1 : 0; used = c;
			if (idle >= 10) { blocked = true; kill(pid, SIGKILL); break; }
			continue;
		}
		if ((k = read(ep[0], buf, sizeof buf)) <= 0) break;
		if (err.size() < 20000) err.append(buf, k);
	}
	close(ep[0]);
	int st = 0; while (waitpid(pid, &st, 0) < 0) {}
	if (s->state == 2) return;
	if (s->state == 1 && WIFEXITED(st) && WEXITSTATUS(st) == 0) return;
	if (blocked) { snprintf(s->cls, sizeof s->cls, "hang"); snprintf(s->msg, sizeof s->msg, "every thread of the program waits for ever"); s->state = 2; return; }
	// The child died: that is a violation of its own kind
	const char *c = "died";
	std::string cls;
	if (WIFSIGNALED(st)) {
		int sig = WTERMSIG(st);
		if (sig == SIGPROF) cls = "hang"; else cls = fmt("crash-signal-%d", sig);
		if (sig == SIGKILL) { fprintf(stderr, "child was killed from outside\n"); exit(3); }
	} else if (WIFEXITED(st) && WEXITSTATUS(st) == ASAN_EXIT) cls = "memory-error";
	else cls = fmt("%s-exit-%d", c, WEXITSTATUS(st));
	snprintf(s->cls, sizeof s->cls, "%s", cls.c_str());
	// Keep only the informative lines of the diagnostics, without addresses, so that they repeat exactly
	std::string keep; size_t i = 0;
	while (i < err.size() && keep.size() < 1500) {
		size_t j = err.find('\n', i); if (j == std::string::npos) j = err.size();
		std::string l = err.substr(i, j - i); i = j + 1;
		if (l.find("Assertion") != std::string::npos || l.find("runtime error") != std::string::npos || l.find("ERROR: AddressSanitizer") != std::string::npos
			|| l.find("    #") == 0 || l.find("terminate") != std::string::npos || l.find("SIM:") == 0) keep += l.substr(0, 200) + " | ";
	}
	snprintf(s->msg, sizeof s->msg, "%s", keep.c_str());
	s->state = 2;
}

inline std::string readFile(const std::string &path) {
	FILE *f = fopen(path.c_str(), "rb"); if (!f) { perror(path.c_str()); exit(3); }
	std::string s; char b[65536]; size_t n; while ((n = fread(b, 1, sizeof b, f)) > 0) s.append(b, n); fclose(f); return s;
}
inline std::string oneLine(std::string s) { for (auto &c : s) if (c == '\n' || c == '\r') c = ' '; return s; }

inline double now() { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }

inline u64 runSeed(u64 seed, const std::string &prop, u64 idx) { return mix64(mix64(seed ^ fnv(prop)) + idx * 0x632BE59BD9B4E019ull); }

inline int simMain(int argc, char **argv, const std::vector<Prop> &props) {
	if (argc < 3) { fprintf(stderr, "usage: sim PROP worker|gen|exec|serve k=v...\n"); return 3; }
	const Prop *p = nullptr; for (auto &q : props) if (!strcmp(q.id, argv[1])) p = &q;
	if (!p) { fprintf(stderr, "unknown property %s\n", argv[1]); return 3; }
	std::map<std::string, std::string> o;
	for (int i = 3; i < argc; i++) { const char *e = strchr(argv[i], '='); if (e) o[std::string(argv[i], e - argv[i])] = e + 1; }
	auto num = [&](const char *k, u64 d) { return o.count(k) ? strtoull(o[k].c_str(), nullptr, 0) : d; };
	sh() = (Shared *)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
	if (sh() == MAP_FAILED) { perror("mmap"); return 3; }
	u64 seed = num("seed", 1); bool thorough = o["tier"] == "thorough";
	auto gen = [&](u64 idx) { Rng r(runSeed(seed, p->id, idx)); Plan pl = p->gen(r, idx, thorough); return Plan::parse(pl.text()); };
	std::string mode = argv[2];
	if (mode == "gen") { fputs(gen(num("idx", 0)).text().c_str(), stdout); return 0; }
	if (mode == "exec" || mode == "serve") {
		verbose() = mode == "exec" && num("verbose", 1);
		auto one = [&](const std::string &path) {
			Plan pl = Plan::parse(readFile(path)); runPlan(*p, pl); Shared *s = sh();
			if (s->state == 2) printf("RESULT violation class=%s hash=%016llx msg=%s\n", s->cls, (unsigned long long)s->hash, oneLine(s->msg).c_str());
			else printf("RESULT ok hash=%016llx\n", (unsigned long long)s->hash);
			fflush(stdout);
			return s->state == 2;
		};
		if (mode == "exec") return one(o["plan"]) ? 1 : 0;
		char line[4096]; while (fgets(line, sizeof line, stdin)) { std::string l(line); while (!l.empty() && l.back() == '\n') l.pop_back(); one(l); }
		return 0;
	}
	// Worker: runs a set of indexes and appends the outcomes to a file
	FILE *out = fopen(o["out"].c_str(), "w"); if (!out) { perror("out"); return 3; }
	std::vector<u64> list;
	if (o.count("idx")) { size_t i = 0; std::string s = o["idx"]; while (i < s.size()) { size_t j = s.find(',', i); if (j == std::string::npos) j = s.size(); list.push_back(strtoull(s.substr(i, j - i).c_str(), 0, 0)); i = j + 1; } }
	u64 start = num("start", 0), step = num("step", 1), end = num("end", 0), maxv = num("maxviol", 5);
	double deadline = now() + (double)num("deadline", 1000000); double t0 = now();
	std::map<std::string, u64> stats; std::unordered_set<u64> dist; u64 steps = 0, nv = 0, runs = 0;
	for (u64 k = 0;; k++) {
		u64 idx = o.count("idx") ? (k < list.size() ? list[k] : ~0ull) : start + k * step;
		if (o.count("idx") ? k >= list.size() : idx >= end) break;
		if (now() > deadline) { stats["sim.deadline_hit"]++; break; }
		Plan pl = gen(idx);
		runPlan(*p, pl); Shared *s = sh(); runs++;
		fprintf(out, "R %llu %016llx %s\n", (unsigned long long)idx, (unsigned long long)s->hash, s->state == 2 ? s->cls : "ok"); fflush(out);
		for (u32 i = 0; i < s->nstats; i++) stats[s->stats[i].name] += s->stats[i].v;
		for (u32 i = 0; i < s->ndist; i++) if (dist.size() < 2000000) dist.insert(s->dist[i]);
		steps += s->steps;
		if (s->state == 2) { fprintf(out, "V %llu %s %s\n", (unsigned long long)idx, s->cls, oneLine(s->msg).c_str()); fflush(out); if (++nv >= maxv) break; }
	}
	for (auto &kv : stats) fprintf(out, "S %s %llu\n", kv.first.c_str(), (unsigned long long)kv.second);
	fprintf(out, "S sim.steps %llu\n", (unsigned long long)steps);
	for (u64 d : dist) fprintf(out, "D %016llx\n", (unsigned long long)d);
	fprintf(out, "E %llu %.3f\n", (unsigned long long)runs, now() - t0);
	fclose(out);
	return 0;
}

}  // namespace sim

// Used when the library is built with AddressSanitizer or UndefinedBehaviorSanitizer
extern "C" __attribute__((used, weak)) const char *__asan_default_options() { return "exitcode=99:detect_leaks=0:detect_stack_use_after_return=0:abort_on_error=0:handle_segv=0:handle_abort=0:handle_sigbus=0:handle_sigfpe=0:symbolize=0:allocator_may_return_null=1"; }
extern "C" __attribute__((used, weak)) const char *__ubsan_default_options() { return "print_stacktrace=0:halt_on_error=1:exitcode=99"; }
