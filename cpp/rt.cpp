#include "rt.hpp"
#include <dlfcn.h>
#include <new>
#include <map>
#include <ucontext.h>
#include <errno.h>
#include <sys/syscall.h>
#include <linux/futex.h>

extern "C" { int __real_sem_wait(sem_t *); int __real_sem_post(sem_t *); int __real_sem_trywait(sem_t *); }

using namespace rt;
namespace rt {
Mode g_mode = OFF; u64 g_events, g_switches, g_hots, g_asmSteps, g_shape; u64 g_cap = 400000000; TraceSink *g_sink; bool g_haveAsm;
static thread_local Thread *cur; std::function<void(const void *)> *g_onPoint; u64 g_onPointIn, g_onInsnIn;
Thread *self() { return cur; }
void setSelf(Thread *t) { cur = t; }

static Thread *th; static int nth; static std::vector<Slice> sl; static size_t sliceAt; static bool sliceHot, roundRobin; static u64 left_; static sem_t mainSem;

extern "C" char __data_start, _end, __executable_start, etext;
static inline bool global(uintptr_t a) { return a >= (uintptr_t)&__data_start && a < (uintptr_t)&_end; }
static inline bool readOnly(uintptr_t a) { return a >= (uintptr_t)&__executable_start && a < (uintptr_t)&etext; }

std::string where(const void *pc) {
	Dl_info i; if (dladdr(pc, &i) && i.dli_sname) return sim::fmt("%s+%ld", i.dli_sname, (long)((char *)pc - (char *)i.dli_saddr));
	return sim::fmt("%p", pc);
}

// ---- Shadow memory: who touched which byte when ----
enum Kind { RD = 0, WR = 1, ARD = 2, AWR = 3 };
struct Rec { u32 clk; u32 mask; const void *pc; const char *what; };
struct Cell { uintptr_t key; int lastWriter; Rec r[MAXT][4]; };
struct Shadow {
	std::vector<Cell> tab; size_t used = 0;
	Shadow() {}
	Cell &get(uintptr_t k, bool *fresh) {
		if (tab.empty()) tab.resize(1 << 14);
		if (used * 2 > tab.size()) grow();
		size_t m = tab.size() - 1, i = (size_t)(k * 0x9E3779B97F4A7C15ull >> 20) & m;
		while (tab[i].key != 0 && tab[i].key != k) i = (i + 1) & m;
		*fresh = tab[i].key == 0;
		if (*fresh) { memset(&tab[i], 0, sizeof(Cell)); tab[i].key = k; tab[i].lastWriter = -1; used++; }
		return tab[i];
	}
	Cell *find(uintptr_t k) { if (tab.empty()) return nullptr; size_t m = tab.size() - 1, i = (size_t)(k * 0x9E3779B97F4A7C15ull >> 20) & m; while (tab[i].key != 0 && tab[i].key != k) i = (i + 1) & m; return tab[i].key ? &tab[i] : nullptr; }
	void grow() { std::vector<Cell> old; old.swap(tab); tab.resize(old.size() * 2); used = 0; bool f; for (auto &c : old) if (c.key) { Cell &n = get(c.key, &f); n = c; } }
};
static Shadow shadow;
void knownInit(const void *p, size_t n) {
	if (!n || shadow.tab.empty()) return; uintptr_t a = (uintptr_t)p >> 3, b = ((uintptr_t)p + n - 1) >> 3;
	if (b - a > 1 << 16) { for (auto &c : shadow.tab) if (c.key && c.key >= a && c.key <= b) { memset(c.r, 0, sizeof c.r); c.lastWriter = -1; } return; }
	for (uintptr_t k = a; k <= b; k++) if (Cell *c = shadow.find(k)) { memset(c->r, 0, sizeof c->r); c->lastWriter = -1; }
}

// ---- Scheduling ----
static bool runnable(int i) { return !th[i].done && !th[i].blockedOn; }
static int nextThread(int me) {  // chooses who runs now; -1: nobody can
	while (!roundRobin) {
		if (sliceAt >= sl.size()) { roundRobin = true; break; }
		Slice &s = sl[sliceAt++]; if (s.t >= nth || !runnable(s.t) || s.n == 0) continue;
		left_ = s.n; sliceHot = s.hot; return s.t;
	}
	sliceHot = false; left_ = 200000;
	for (int k = 1; k <= nth; k++) if (runnable((me + k) % nth)) return (me + k) % nth;
	return -1;
}
static void handTo(Thread *from, int to) {
	if (from && to == from->id) return;
	g_switches++; Thread *t = &th[to]; __real_sem_post(&t->go);
	if (from && !from->done) while (__real_sem_wait(&from->go) != 0 && errno == EINTR) {}
}
static void switchAway(Thread *t, const void *pc) {
	int n = nextThread(t->id); if (n < 0) { std::string s; for (int i = 0; i < nth; i++) s += sim::fmt(" thread %d (%s): %s;", i, th[i].what, th[i].done ? "finished" : "waits"); sim::fail("deadlock", "no thread can go on:" + s); }
	if (n != t->id) { g_shape = sim::mix64(g_shape ^ (u64)(uintptr_t)pc * 31 + n); if (sim::verbose()) sim::trace("switch from thread %d (%s, at %s) to thread %d", t->id, t->what, where(pc).c_str(), n); }
	handTo(t, n);
}
static inline void point(Thread *t, bool hot, const void *pc) {
	t->events++; if (hot) { g_hots++; t->hots++; }
	if (++g_events > g_cap) sim::fail("no-progress", sim::fmt("thread %d (%s) is still running after %llu events", t->id, t->what, (unsigned long long)g_events));
	if (g_onPointIn && --g_onPointIn == 0) (*g_onPoint)(pc);
	if (sliceHot ? hot && --left_ == 0 : --left_ == 0) switchAway(t, pc);
}
static void blockOn(Thread *t, const void *obj, const void *pc) { t->blockedOn = obj; switchAway(t, pc); }
static void wake(const void *obj) { for (int i = 0; i < nth; i++) if (th[i].blockedOn == obj) th[i].blockedOn = nullptr; }

struct Start { int i; const std::function<void(int)> *body; const std::function<void(Thread &)> *setup; };
static void *threadMain(void *v) {
	Start *s = (Start *)v; Thread *t = &th[s->i]; pthread_attr_t at; void *lo = nullptr; size_t n = 0;
	pthread_getattr_np(pthread_self(), &at); pthread_attr_getstack(&at, &lo, &n); pthread_attr_destroy(&at); t->slo = (uintptr_t)lo; t->slen = n;
	while (__real_sem_wait(&t->go) != 0 && errno == EINTR) {}
	cur = t; (*s->body)(s->i); cur = nullptr; t->done = true;
	bool all = true; for (int i = 0; i < nth; i++) all = all && th[i].done;
	if (all) __real_sem_post(&mainSem);
	else { int k = nextThread(t->id); if (k < 0) sim::fail("deadlock", "the remaining threads wait for ever"); g_switches++; __real_sem_post(&th[k].go); }
	return nullptr;
}
void runThreads(int n, const std::vector<Slice> &slices, const std::function<void(int)> &body, const std::function<void(Thread &)> &setup) {
	nth = n; th = new Thread[n]; sl = slices; sliceAt = 0; roundRobin = false; g_events = g_switches = g_hots = g_asmSteps = 0; g_shape = 0; sem_init(&mainSem, 0, 0);
	std::vector<Start> st(n); std::vector<pthread_t> pt(n); pthread_attr_t at; pthread_attr_init(&at); std::vector<void *> stacks;
	for (int i = 0; i < n; i++) { th[i].id = i; th[i].vc[i] = 1; sem_init(&th[i].go, 0, 0); if (setup) setup(th[i]); st[i] = {i, &body, &setup}; }
	g_mode = SCHED;
	for (int i = 0; i < n; i++) {  // stacks at fixed places, so that thread identifiers and addresses repeat
		void *at0 = mmap((void *)(0x7a0000000000ull + i * 0x1000000ull), 1 << 20, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_FIXED_NOREPLACE, -1, 0); if (at0 == MAP_FAILED) { perror("stack"); _exit(3); }
		stacks.push_back(at0); pthread_attr_setstack(&at, at0, 1 << 20);
		if (pthread_create(&pt[i], &at, threadMain, &st[i])) { perror("pthread_create"); _exit(3); }
	}
	int k = nextThread(n - 1); __real_sem_post(&th[k].go);
	while (__real_sem_wait(&mainSem) != 0 && errno == EINTR) {}
	for (int i = 0; i < n; i++) pthread_join(pt[i], nullptr);
	for (void *p : stacks) munmap(p, 1 << 20);
	g_mode = OFF;
}

// ---- Accesses ----
static void race(Thread *t, int u, const Rec &o, int okind, int kind, uintptr_t a, const void *pc) {
	static const char *const K[] = {"read", "write", "atomic read", "atomic write"};
	Dl_info i; std::string obj = global(a) ? "global data" : "memory"; if (global(a) && dladdr((void *)a, &i) && i.dli_sname) obj = i.dli_sname;
	sim::fail("data-race", sim::fmt("%s by thread %d (%s) at %s and %s by thread %d (%s) at %s of the same bytes of %s, with nothing that orders them", K[kind], t->id, t->what, where(pc).c_str(), K[okind], u, o.what, where(o.pc).c_str(), obj.c_str()));
}
static void touch(Thread *t, uintptr_t a, size_t n, int kind, const void *pc) {
	bool isGlobal = global(a), w = kind & 1;
	for (uintptr_t g = a >> 3; g <= (a + n - 1) >> 3; g++) {
		uintptr_t lo = std::max(a, g << 3), hi = std::min(a + n, (g + 1) << 3); u32 mask = ((1u << (hi - lo)) - 1) << (lo & 7);
		bool fresh; Cell *c = &shadow.get(g, &fresh);
		bool hot = kind >= ARD || (isGlobal && (w || c->lastWriter >= 0)) || (c->lastWriter >= 0 && c->lastWriter != t->id) ;
		point(t, hot, pc);
		c = &shadow.get(g, &fresh);  // may have moved while others ran
		for (int u = 0; u < nth; u++) if (u != t->id) for (int k = 0; k < 4; k++) {
			if (!(k & 1) && !w) continue;  // two reads
			if (k >= ARD && kind >= ARD) continue;  // two atomic accesses
			Rec &o = c->r[u][k]; if ((o.mask & mask) && o.clk > t->vc[u]) race(t, u, o, k, kind, lo, pc);
		}
		Rec &m = c->r[t->id][kind]; if (m.clk != t->vc[t->id]) m.mask = 0; m.clk = t->vc[t->id]; m.mask |= mask; m.pc = pc; m.what = t->what;
		if (w) c->lastWriter = t->id;
	}
}
static inline void access(const void *p, size_t n, int kind, const void *pc) {
	Thread *t = cur; if (!t || !n) return; uintptr_t a = (uintptr_t)p;
	if (g_mode == TRACE) { g_sink->rec((u32)(kind | n << 4), (u64)(uintptr_t)pc, a); return; }
	if (g_mode != SCHED || a - t->slo < t->slen || readOnly(a)) return;
	touch(t, a, n, kind, pc);
}

// ---- Synchronisation ----
struct Sync { u32 vc[MAXT] = {0}; Thread *owner = nullptr; int depth = 0, readers = 0; u8 once = 0; };
static std::map<const void *, Sync> *syncs;
static Sync &sy(const void *p) { if (!syncs) syncs = new std::map<const void *, Sync>; return (*syncs)[p]; }
static void acquire(Thread *t, const u32 *v) { for (int i = 0; i < MAXT; i++) t->vc[i] = std::max(t->vc[i], v[i]); }
static void release(Thread *t, u32 *v, bool join) { for (int i = 0; i < MAXT; i++) v[i] = join ? std::max(v[i], t->vc[i]) : t->vc[i]; t->vc[t->id]++; }
static bool live() { return cur && g_mode == SCHED; }

static void lock(const void *m, bool recursive, const void *pc) {
	Thread *t = cur; point(t, true, pc); Sync &s = sy(m);
	if (s.owner == t) { if (recursive) { s.depth++; return; } sim::fail("deadlock", sim::fmt("thread %d (%s) locks a mutex it holds", t->id, t->what)); }
	while (s.owner || s.readers) blockOn(t, m, pc);
	s.owner = t; s.depth = 1; acquire(t, s.vc);
}
static void unlock(const void *m, const void *pc) { Thread *t = cur; point(t, true, pc); Sync &s = sy(m); if (s.owner == t) { if (--s.depth) return; release(t, s.vc, true); s.owner = nullptr; } else if (s.readers > 0) { release(t, s.vc, true); s.readers--; } wake(m); point(t, true, pc); }

// ---- Assembly ----
struct Operand { u64 base; int breg, ireg, scale; long disp; int size, rw; };
static std::map<u64, std::vector<Operand>> asmOps; static u64 asmLo, asmHi;
bool loadAsmTable(const std::string &path) {
	FILE *f = fopen(path.c_str(), "r"); if (!f) return g_haveAsm = false; char line[512];
	while (fgets(line, sizeof line, f)) {
		if (line[0] == 'R') sscanf(line + 1, "%llx %llx", (unsigned long long *)&asmLo, (unsigned long long *)&asmHi);
		else if (line[0] == 'M') { Operand o; unsigned long long at, base; sscanf(line + 1, "%llx %llx %d %d %d %ld %d %d", &at, &base, &o.breg, &o.ireg, &o.scale, &o.disp, &o.size, &o.rw); o.base = base; asmOps[at].push_back(o); }
	}
	fclose(f); return g_haveAsm = asmHi > asmLo;
}
static void onTrap(int, siginfo_t *, void *v) {
	ucontext_t *u = (ucontext_t *)v; greg_t *r = u->uc_mcontext.gregs; u64 ip = (u64)r[REG_RIP]; Thread *t = cur; int e = errno;
	if (!t || !t->stepping) { r[REG_EFL] &= ~0x100; return; }
	if (ip < asmLo || ip >= asmHi) { if (t->entered) { t->stepping = t->entered = false; r[REG_EFL] &= ~0x100; } return; }
	t->entered = true; g_asmSteps++;
	if (g_mode == TRACE) g_sink->rec(100, ip, 0); else { if (g_onInsnIn && --g_onInsnIn == 0) (*g_onPoint)((void *)ip); point(t, false, (void *)ip); }
	auto it = asmOps.find(ip);
	if (it != asmOps.end()) for (Operand &o : it->second) {
		u64 a = o.base + (u64)o.disp; if (o.breg >= 0) a += (u64)r[o.breg]; if (o.ireg >= 0) a += (u64)r[o.ireg] * o.scale;
		if (o.rw & 1) access((void *)a, o.size, RD, (void *)ip); if (o.rw & 2) access((void *)a, o.size, WR, (void *)ip);
	}
	errno = e;
}
static void trapOn() {
	static bool done; if (!done) { done = true; struct sigaction a; memset(&a, 0, sizeof a); a.sa_sigaction = onTrap; a.sa_flags = SA_SIGINFO | SA_NODEFER; sigaction(SIGTRAP, &a, nullptr); }
	asm volatile("lea -128(%%rsp), %%rsp; pushfq; orq $0x100, (%%rsp); popfq; lea 128(%%rsp), %%rsp" ::: "memory", "cc");
}
}

extern "C" __attribute__((used)) void rt_asm_enter(const void *fn) {
	Thread *t = cur; if (!t) return; u64 k = t->asmCalls++;
	if (g_mode == SCHED) point(t, false, fn); else if (g_mode == TRACE) g_sink->rec(101, (u64)(uintptr_t)fn, 0);
	bool step = k >= t->stepFrom && k < t->stepFrom + t->stepCount; for (u64 c : t->stepCalls) step = step || c == k;
	if (step) { t->stepping = true; t->entered = false; trapOn(); }
}

#define PC __builtin_return_address(0)
extern "C" {
void __tsan_init() {}
void __tsan_func_entry(void *) { Thread *t = cur; if (t && g_mode == TRACE) g_sink->rec(102, (u64)(uintptr_t)PC, 0); }
void __tsan_func_exit() {}
void __sanitizer_cov_trace_pc_guard_init(u32 *, u32 *) {}
void __sanitizer_cov_trace_pc_guard(u32 *) { Thread *t = cur; if (t && g_mode == TRACE) g_sink->rec(103, (u64)(uintptr_t)PC, 0); }
#define RW(n) void __tsan_read##n(void *a) { access(a, n, RD, PC); } void __tsan_write##n(void *a) { access(a, n, WR, PC); } \
	void __tsan_read_write##n(void *a) { access(a, n, RD, PC); access(a, n, WR, PC); } \
	void __tsan_volatile_read##n(void *a) { access(a, n, RD, PC); } void __tsan_volatile_write##n(void *a) { access(a, n, WR, PC); }
RW(1) RW(2) RW(4) RW(8) RW(16)
#define URW(n) void __tsan_unaligned_read##n(void *a) { access(a, n, RD, PC); } void __tsan_unaligned_write##n(void *a) { access(a, n, WR, PC); } void __tsan_unaligned_read_write##n(void *a) { access(a, n, RD, PC); access(a, n, WR, PC); } \
	void __tsan_unaligned_volatile_read##n(void *a) { access(a, n, RD, PC); } void __tsan_unaligned_volatile_write##n(void *a) { access(a, n, WR, PC); }
URW(2) URW(4) URW(8) URW(16)
void __tsan_vptr_update(void **a, void *) { access(a, 8, WR, PC); }
void __tsan_vptr_read(void **a) { access(a, 8, RD, PC); }
void __tsan_read_range(void *a, unsigned long n) { access(a, n, RD, PC); }
void __tsan_write_range(void *a, unsigned long n) { access(a, n, WR, PC); }
void __tsan_ignore_thread_begin() {} void __tsan_ignore_thread_end() {}
void *__tsan_memcpy(void *d, const void *s, unsigned long n) { access(s, n, RD, PC); access(d, n, WR, PC); return memcpy(d, s, n); }
void *__tsan_memmove(void *d, const void *s, unsigned long n) { access(s, n, RD, PC); access(d, n, WR, PC); return memmove(d, s, n); }
void *__tsan_memset(void *d, int c, unsigned long n) { access(d, n, WR, PC); return memset(d, c, n); }

static void atomicOp(void *a, size_t n, bool r, bool w, int mo, void *pc) {  // mo: 0 relaxed 1 consume 2 acquire 3 release 4 acq_rel 5 seq_cst
	Thread *t = cur; if (!t) return; if (g_mode != SCHED) { access(a, n, w ? AWR : ARD, pc); return; }
	if ((uintptr_t)a - t->slo < t->slen) return;
	touch(t, (uintptr_t)a, n, w ? AWR : ARD, pc); Sync &s = sy(a);
	if (r) { if (mo == 1 || mo == 2 || mo >= 4) acquire(t, s.vc); else for (int i = 0; i < MAXT; i++) t->pendAcq[i] = std::max(t->pendAcq[i], s.vc[i]); }
	if (w) { if (mo >= 3) release(t, s.vc, r); else if (t->fenced) { for (int i = 0; i < MAXT; i++) s.vc[i] = r ? std::max(s.vc[i], t->relFence[i]) : t->relFence[i]; } else if (!r) memset(s.vc, 0, sizeof s.vc); }
}
#define AT(bits, T) \
	T __tsan_atomic##bits##_load(const volatile T *a, int mo) { atomicOp((void *)a, sizeof(T), true, false, mo, PC); return __atomic_load_n(a, __ATOMIC_SEQ_CST); } \
	void __tsan_atomic##bits##_store(volatile T *a, T v, int mo) { atomicOp((void *)a, sizeof(T), false, true, mo, PC); __atomic_store_n(a, v, __ATOMIC_SEQ_CST); } \
	T __tsan_atomic##bits##_exchange(volatile T *a, T v, int mo) { atomicOp((void *)a, sizeof(T), true, true, mo, PC); return __atomic_exchange_n(a, v, __ATOMIC_SEQ_CST); } \
	T __tsan_atomic##bits##_fetch_add(volatile T *a, T v, int mo) { atomicOp((void *)a, sizeof(T), true, true, mo, PC); return __atomic_fetch_add(a, v, __ATOMIC_SEQ_CST); } \
	T __tsan_atomic##bits##_fetch_sub(volatile T *a, T v, int mo) { atomicOp((void *)a, sizeof(T), true, true, mo, PC); return __atomic_fetch_sub(a, v, __ATOMIC_SEQ_CST); } \
	T __tsan_atomic##bits##_fetch_and(volatile T *a, T v, int mo) { atomicOp((void *)a, sizeof(T), true, true, mo, PC); return __atomic_fetch_and(a, v, __ATOMIC_SEQ_CST); } \
	T __tsan_atomic##bits##_fetch_or(volatile T *a, T v, int mo) { atomicOp((void *)a, sizeof(T), true, true, mo, PC); return __atomic_fetch_or(a, v, __ATOMIC_SEQ_CST); } \
	T __tsan_atomic##bits##_fetch_xor(volatile T *a, T v, int mo) { atomicOp((void *)a, sizeof(T), true, true, mo, PC); return __atomic_fetch_xor(a, v, __ATOMIC_SEQ_CST); } \
	T __tsan_atomic##bits##_fetch_nand(volatile T *a, T v, int mo) { atomicOp((void *)a, sizeof(T), true, true, mo, PC); return __atomic_fetch_nand(a, v, __ATOMIC_SEQ_CST); } \
	int __tsan_atomic##bits##_compare_exchange_strong(volatile T *a, T *c, T v, int mo, int) { atomicOp((void *)a, sizeof(T), true, true, mo, PC); return __atomic_compare_exchange_n(a, c, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); } \
	int __tsan_atomic##bits##_compare_exchange_weak(volatile T *a, T *c, T v, int mo, int) { atomicOp((void *)a, sizeof(T), true, true, mo, PC); return __atomic_compare_exchange_n(a, c, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); } \
	T __tsan_atomic##bits##_compare_exchange_val(volatile T *a, T c, T v, int mo, int) { atomicOp((void *)a, sizeof(T), true, true, mo, PC); __atomic_compare_exchange_n(a, &c, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); return c; }
AT(8, u8) AT(16, uint16_t) AT(32, u32) AT(64, u64)
void __tsan_atomic_thread_fence(int mo) {
	Thread *t = cur; if (!live()) return; point(t, true, PC);
	if (mo == 1 || mo == 2 || mo >= 4) acquire(t, t->pendAcq);
	if (mo == 5) { Sync &s = sy(&g_mode); acquire(t, s.vc); release(t, s.vc, true); }
	if (mo >= 3) { memcpy(t->relFence, t->vc, sizeof t->relFence); t->fenced = true; t->vc[t->id]++; }
}
void __tsan_atomic_signal_fence(int) {}

// Initialisation of function-local statics
int __cxa_guard_acquire(u64 *g) {
	u8 *b = (u8 *)g; if (!live()) { if (*b) return 0; b[1] = 1; return 1; }
	Thread *t = cur; point(t, true, PC);
	for (;;) {
		Sync &s = sy(g);
		if (*b) { acquire(t, s.vc); return 0; }
		if (!b[1]) { b[1] = 1; s.owner = t; return 1; }
		if (s.owner == t) sim::fail("deadlock", sim::fmt("thread %d (%s): the initialisation of a static variable needs itself", t->id, t->what));
		blockOn(t, g, PC);
	}
}
void __cxa_guard_release(u64 *g) { u8 *b = (u8 *)g; *b = 1; b[1] = 0; if (live()) { Sync &s = sy(g); release(cur, s.vc, true); s.owner = nullptr; wake(g); point(cur, true, PC); } }
void __cxa_guard_abort(u64 *g) { u8 *b = (u8 *)g; b[1] = 0; if (live()) { sy(g).owner = nullptr; wake(g); } }

#define REAL(ret, name, ...) ret __real_##name(__VA_ARGS__)
REAL(int, pthread_mutex_lock, pthread_mutex_t *); REAL(int, pthread_mutex_trylock, pthread_mutex_t *); REAL(int, pthread_mutex_unlock, pthread_mutex_t *);
int __wrap_pthread_mutex_lock(pthread_mutex_t *m) { if (!live()) return __real_pthread_mutex_lock(m); lock(m, (m->__data.__kind & 3) == PTHREAD_MUTEX_RECURSIVE, PC); return 0; }
int __wrap_pthread_mutex_trylock(pthread_mutex_t *m) { if (!live()) return __real_pthread_mutex_trylock(m); point(cur, true, PC); Sync &s = sy(m); if (s.owner && s.owner != cur) return EBUSY; if (s.owner == cur && (m->__data.__kind & 3) != PTHREAD_MUTEX_RECURSIVE) return EBUSY; s.owner = cur; s.depth++; acquire(cur, s.vc); return 0; }
int __wrap_pthread_mutex_unlock(pthread_mutex_t *m) { if (!live()) return __real_pthread_mutex_unlock(m); unlock(m, PC); return 0; }
REAL(int, pthread_rwlock_wrlock, pthread_rwlock_t *); REAL(int, pthread_rwlock_rdlock, pthread_rwlock_t *); REAL(int, pthread_rwlock_unlock, pthread_rwlock_t *);
int __wrap_pthread_rwlock_wrlock(pthread_rwlock_t *m) { if (!live()) return __real_pthread_rwlock_wrlock(m); lock(m, false, PC); return 0; }
int __wrap_pthread_rwlock_rdlock(pthread_rwlock_t *m) { if (!live()) return __real_pthread_rwlock_rdlock(m); point(cur, true, PC); while (sy(m).owner) blockOn(cur, m, PC); sy(m).readers++; acquire(cur, sy(m).vc); return 0; }
int __wrap_pthread_rwlock_unlock(pthread_rwlock_t *m) { if (!live()) return __real_pthread_rwlock_unlock(m); unlock(m, PC); return 0; }
REAL(int, pthread_spin_lock, pthread_spinlock_t *); REAL(int, pthread_spin_unlock, pthread_spinlock_t *);
int __wrap_pthread_spin_lock(pthread_spinlock_t *m) { if (!live()) return __real_pthread_spin_lock(m); lock((void *)m, false, PC); return 0; }
int __wrap_pthread_spin_unlock(pthread_spinlock_t *m) { if (!live()) return __real_pthread_spin_unlock(m); unlock((void *)m, PC); return 0; }
REAL(int, pthread_once, pthread_once_t *, void (*)());
int __wrap_pthread_once(pthread_once_t *o, void (*f)()) {
	if (!live()) return __real_pthread_once(o, f);
	Thread *t = cur; point(t, true, PC); if (*o) return 0;  // was run before the threads started
	for (;;) {
		Sync &s = sy(o);
		if (s.once == 2) { acquire(t, s.vc); return 0; }
		if (s.once == 0) { s.once = 1; s.owner = t; f(); Sync &z = sy(o); z.once = 2; z.owner = nullptr; release(t, z.vc, true); wake(o); point(t, true, PC); return 0; }
		if (s.owner == t) sim::fail("deadlock", "a once-only initialisation needs itself");
		blockOn(t, o, PC);
	}
}
static int yieldNow(const void *pc) { Thread *t = cur; if (++g_events > g_cap) sim::fail("no-progress", "threads only wait for each other"); left_ = 1; sliceHot = false; point(t, true, pc); return 0; }
// The simulated threads' own semaphores, condition variables (with spurious wake-ups, as POSIX allows) and futexes
int __wrap_sem_wait(sem_t *s) { if (!live()) return __real_sem_wait(s); point(cur, true, PC); while (__real_sem_trywait(s)) blockOn(cur, s, PC); acquire(cur, sy(s).vc); return 0; }
int __wrap_sem_trywait(sem_t *s) { if (!live()) return __real_sem_trywait(s); point(cur, true, PC); int r = __real_sem_trywait(s); if (!r) acquire(cur, sy(s).vc); return r; }
int __wrap_sem_post(sem_t *s) { if (!live()) return __real_sem_post(s); point(cur, true, PC); release(cur, sy(s).vc, true); int r = __real_sem_post(s); wake(s); point(cur, true, PC); return r; }
static bool spurious() { return (sim::mix64(g_shape ^ g_events) & 7) == 0; }
static int condWait(const void *c, const void *m, bool timed, const void *pc) {
	Thread *t = cur; point(t, true, pc); if (sy(m).owner != t) sim::fail("lock-misuse", sim::fmt("thread %d (%s) waits on a condition with a mutex it does not hold", t->id, t->what));
	int depth = sy(m).depth; { Sync &s = sy(m); release(t, s.vc, true); s.owner = nullptr; s.depth = 0; } wake(m);
	bool early = timed || spurious(); if (early) yieldNow(pc); else blockOn(t, c, pc);
	while (sy(m).owner) blockOn(t, m, pc);
	Sync &s = sy(m); s.owner = t; s.depth = depth; acquire(t, s.vc); return timed ? ETIMEDOUT : 0;
}
static int condWake(const void *c, bool all, const void *pc) {
	point(cur, true, pc);
	if (all) wake(c); else { int n = 0; for (int i = 0; i < nth; i++) n += th[i].blockedOn == c; if (n) { int k = sim::mix64(g_shape + g_events) % n; for (int i = 0; i < nth; i++) if (th[i].blockedOn == c && k-- == 0) th[i].blockedOn = nullptr; } }
	point(cur, true, pc); return 0;
}
REAL(int, pthread_cond_wait, pthread_cond_t *, pthread_mutex_t *); int __wrap_pthread_cond_wait(pthread_cond_t *c, pthread_mutex_t *m) { return live() ? condWait(c, m, false, PC) : __real_pthread_cond_wait(c, m); }
REAL(int, pthread_cond_timedwait, pthread_cond_t *, pthread_mutex_t *, const struct timespec *); int __wrap_pthread_cond_timedwait(pthread_cond_t *c, pthread_mutex_t *m, const struct timespec *d) { return live() ? condWait(c, m, true, PC) : __real_pthread_cond_timedwait(c, m, d); }
REAL(int, pthread_cond_clockwait, pthread_cond_t *, pthread_mutex_t *, clockid_t, const struct timespec *); int __wrap_pthread_cond_clockwait(pthread_cond_t *c, pthread_mutex_t *m, clockid_t k, const struct timespec *d) { return live() ? condWait(c, m, true, PC) : __real_pthread_cond_clockwait(c, m, k, d); }
REAL(int, pthread_cond_signal, pthread_cond_t *); int __wrap_pthread_cond_signal(pthread_cond_t *c) { return live() ? condWake(c, false, PC) : __real_pthread_cond_signal(c); }
REAL(int, pthread_cond_broadcast, pthread_cond_t *); int __wrap_pthread_cond_broadcast(pthread_cond_t *c) { return live() ? condWake(c, true, PC) : __real_pthread_cond_broadcast(c); }
// std::condition_variable starts with the pthread condition, std::unique_lock with the pointer to the mutex
REAL(void, _ZNSt18condition_variable4waitERSt11unique_lockISt5mutexE, void *, void **); void __wrap__ZNSt18condition_variable4waitERSt11unique_lockISt5mutexE(void *c, void **l) { if (live()) condWait(c, *l, false, PC); else __real__ZNSt18condition_variable4waitERSt11unique_lockISt5mutexE(c, l); }
REAL(void, _ZNSt18condition_variable10notify_oneEv, void *); void __wrap__ZNSt18condition_variable10notify_oneEv(void *c) { if (live()) condWake(c, false, PC); else __real__ZNSt18condition_variable10notify_oneEv(c); }
REAL(void, _ZNSt18condition_variable10notify_allEv, void *); void __wrap__ZNSt18condition_variable10notify_allEv(void *c) { if (live()) condWake(c, true, PC); else __real__ZNSt18condition_variable10notify_allEv(c); }
REAL(int, pthread_rwlock_trywrlock, pthread_rwlock_t *); int __wrap_pthread_rwlock_trywrlock(pthread_rwlock_t *m) { if (!live()) return __real_pthread_rwlock_trywrlock(m); point(cur, true, PC); Sync &s = sy(m); if (s.owner || s.readers) return EBUSY; s.owner = cur; s.depth = 1; acquire(cur, s.vc); return 0; }
REAL(int, pthread_rwlock_tryrdlock, pthread_rwlock_t *); int __wrap_pthread_rwlock_tryrdlock(pthread_rwlock_t *m) { if (!live()) return __real_pthread_rwlock_tryrdlock(m); point(cur, true, PC); Sync &s = sy(m); if (s.owner) return EBUSY; s.readers++; acquire(cur, s.vc); return 0; }
REAL(int, pthread_spin_trylock, pthread_spinlock_t *); int __wrap_pthread_spin_trylock(pthread_spinlock_t *m) { if (!live()) return __real_pthread_spin_trylock(m); point(cur, true, PC); Sync &s = sy((const void *)m); if (s.owner) return EBUSY; s.owner = cur; s.depth = 1; acquire(cur, s.vc); return 0; }
long __real_syscall(long, ...); long __wrap_syscall(long n, long a, long b, long c, long d, long e, long f) {
	if (!live() || n != SYS_futex) return __real_syscall(n, a, b, c, d, e, f);
	int op = (int)b & 0x7f; bool timed = d != 0;
	if (op == FUTEX_WAIT || op == FUTEX_WAIT_BITSET) { point(cur, true, PC); if (*(volatile int *)a != (int)c) { errno = EAGAIN; return -1; } if (timed || spurious()) { yieldNow(PC); if (timed) { errno = ETIMEDOUT; return -1; } return 0; } blockOn(cur, (const void *)a, PC); return 0; }
	if (op == FUTEX_WAKE || op == FUTEX_WAKE_BITSET) { int k = 0; for (int i = 0; i < nth && k < (int)c; i++) if (th[i].blockedOn == (const void *)a) { th[i].blockedOn = nullptr; k++; } point(cur, true, PC); return k; }
	return __real_syscall(n, a, b, c, d, e, f);
}
REAL(int, sched_yield, void); int __wrap_sched_yield() { return live() ? yieldNow(PC) : __real_sched_yield(); }
REAL(int, nanosleep, const struct timespec *, struct timespec *); int __wrap_nanosleep(const struct timespec *a, struct timespec *b) { return live() ? yieldNow(PC) : __real_nanosleep(a, b); }
REAL(int, usleep, useconds_t); int __wrap_usleep(useconds_t u) { return live() ? yieldNow(PC) : __real_usleep(u); }

// The allocator orders whatever happened to a block before with whatever happens after
REAL(void *, malloc, size_t); REAL(void *, calloc, size_t, size_t); REAL(void *, realloc, void *, size_t);
void *__wrap_malloc(size_t n) { void *p = __real_malloc(n); if (live()) knownInit(p, n); return p; }
void *__wrap_calloc(size_t a, size_t b) { void *p = __real_calloc(a, b); if (live()) knownInit(p, a * b); return p; }
void *__wrap_realloc(void *q, size_t n) { void *p = __real_realloc(q, n); if (live() && p != q) knownInit(p, n); return p; }

// C library functions the library calls on its callers' memory
size_t __real_strlen(const char *); size_t __wrap_strlen(const char *s) { size_t n = __real_strlen(s); access(s, n + 1, RD, PC); return n; }
int __real_memcmp(const void *, const void *, size_t); int __wrap_memcmp(const void *a, const void *b, size_t n) { if (cur && g_mode == TRACE) { size_t k = 0; while (k < n && ((const u8 *)a)[k] == ((const u8 *)b)[k]) k++; access(a, k < n ? k + 1 : n, RD, PC); access(b, k < n ? k + 1 : n, RD, PC); } else { access(a, n, RD, PC); access(b, n, RD, PC); } return __real_memcmp(a, b, n); }
int __wrap_bcmp(const void *a, const void *b, size_t n) { return __wrap_memcmp(a, b, n); }
char *__real_strchr(const char *, int); char *__wrap_strchr(const char *s, int c) { char *r = __real_strchr(s, c); if (cur) access(s, r ? (size_t)(r - s) + 1 : __real_strlen(s) + 1, RD, PC); return r; }
void *__real_memchr(const void *, int, size_t); void *__wrap_memchr(const void *s, int c, size_t n) { void *r = __real_memchr(s, c, n); if (cur) access(s, r ? (size_t)((char *)r - (char *)s) + 1 : n, RD, PC); return r; }
int __real_strcmp(const char *, const char *); int __wrap_strcmp(const char *a, const char *b) { size_t n = 0; while (a[n] && a[n] == b[n]) n++; access(a, n + 1, RD, PC); access(b, n + 1, RD, PC); return __real_strcmp(a, b); }
int __real_strncmp(const char *, const char *, size_t); int __wrap_strncmp(const char *a, const char *b, size_t m) { size_t n = 0; while (n < m && a[n] && a[n] == b[n]) n++; n = n < m ? n + 1 : m; access(a, n, RD, PC); access(b, n, RD, PC); return __real_strncmp(a, b, m); }
}
void *operator new(size_t n) { void *p = __real_malloc(n ? n : 1); if (!p) abort(); if (live()) knownInit(p, n); return p; }
void *operator new[](size_t n) { return operator new(n); }
void operator delete(void *p) noexcept { free(p); }
void operator delete[](void *p) noexcept { free(p); }
void operator delete(void *p, size_t) noexcept { free(p); }
void operator delete[](void *p, size_t) noexcept { free(p); }
