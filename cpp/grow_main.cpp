// C18: a long-running process. Long histories of calls, equal and ever new, accepted and refused, on one thread and on
// threads that come and go; what stays allocated afterwards is counted.
#include "lib.hpp"
#include "api.hpp"
#include <malloc.h>
#include <dirent.h>
#include <sys/mman.h>
#include <thread>
#include <atomic>

static std::atomic<long> g_live, g_allocs;
static void *in(void *p) { if (p) { g_live += (long)malloc_usable_size(p); g_allocs++; } return p; }
static void gone(void *p) { if (p) g_live -= (long)malloc_usable_size(p); }
extern "C" {
void *__real_malloc(size_t); void *__real_calloc(size_t, size_t); void *__real_realloc(void *, size_t); void __real_free(void *); int __real_posix_memalign(void **, size_t, size_t); void *__real_aligned_alloc(size_t, size_t); char *__real_strdup(const char *);
void *__wrap_malloc(size_t n) { return in(__real_malloc(n)); }
void *__wrap_calloc(size_t a, size_t b) { return in(__real_calloc(a, b)); }
void *__wrap_realloc(void *q, size_t n) { gone(q); return in(__real_realloc(q, n)); }
void __wrap_free(void *p) { gone(p); __real_free(p); }
int __wrap_posix_memalign(void **p, size_t a, size_t n) { int r = __real_posix_memalign(p, a, n); if (!r) in(*p); return r; }
void *__wrap_aligned_alloc(size_t a, size_t n) { return in(__real_aligned_alloc(a, n)); }
char *__wrap_strdup(const char *s) { return (char *)in(__real_strdup(s)); }
// Whole pages count as well: address space is finite too
void *__real_mmap(void *, size_t, int, int, int, off_t); int __real_munmap(void *, size_t);
void *__wrap_mmap(void *a, size_t n, int p, int f, int fd, off_t o) { void *r = __real_mmap(a, n, p, f, fd, o); if (r != MAP_FAILED) { g_live += (long)((n + 4095) / 4096 * 4096); g_allocs++; } return r; }
int __wrap_munmap(void *a, size_t n) { int r = __real_munmap(a, n); if (!r) g_live -= (long)((n + 4095) / 4096 * 4096); return r; }
}
void *operator new(size_t n) { void *p = in(__real_malloc(n ? n : 1)); if (!p) abort(); return p; }
void *operator new[](size_t n) { return operator new(n); }
void *operator new(size_t n, const std::nothrow_t &) noexcept { return in(__real_malloc(n ? n : 1)); }
void *operator new[](size_t n, const std::nothrow_t &) noexcept { return in(__real_malloc(n ? n : 1)); }
void operator delete(void *p) noexcept { gone(p); __real_free(p); }
void operator delete[](void *p) noexcept { gone(p); __real_free(p); }
void operator delete(void *p, size_t) noexcept { gone(p); __real_free(p); }
void operator delete[](void *p, size_t) noexcept { gone(p); __real_free(p); }

namespace growth {
using sim::u64;
const long LIMIT = 65536;  // bytes that may stay on behalf of past calls

// Buffers of a call; gone after it
struct Mem : api::Mem {
	std::vector<void *> mine;
	u8 *mk(const void *p, size_t n, size_t al) { void *r = nullptr; if (__real_posix_memalign(&r, std::max<size_t>(al, 16), n + 16)) abort(); if (n) memcpy(r, p, n); mine.push_back(r); return (u8 *)r; }
	const u8 *in(const void *p, size_t n, size_t al) override { return mk(p, n, al); }
	u8 *out(const void *p, size_t n, size_t al) override { return mk(p, n, al); }
	using api::Mem::in; using api::Mem::out;
	~Mem() { for (void *p : mine) __real_free(p); }
};

static const char *bigOp(Rng &r) { return r.pick(std::vector<const char *>{"sha256", "sha256d", "hmac256", "sha512", "hmac512", "ripemd160", "keccak256", "sha256stream", "sha512stream"}); }
static Plan gen(Rng &r, u64 idx, bool thorough) {
	Plan p; int n = (int)r.range(1, 3); bool heavy = r.chance(1, 5);
	for (int i = 0; i < n; i++) {
		const api::Op &o = api::pickOp(r, heavy && i == 0 ? 1000 : 20); bool th = r.chance(1, 6); u64 k = o.cost > 20 ? (thorough ? 3000 : 1000) : 8000;
		if (r.chance(1, 8)) { p.add(fmt("big op=%s args=%llu n=%llu len=%llu thread=%d", bigOp(r), (unsigned long long)r.below(1000000), (unsigned long long)r.range(2, 8), (unsigned long long)(LIMIT + r.logu(2000000)), (int)th)); continue; }
		if (r.chance(1, 2)) p.add(fmt("repeat op=%s args=%llu n=64 thread=%d", o.name, (unsigned long long)r.below(1000000), (int)th));
		else p.add(fmt("fresh op=%s args=%llu n=%llu thread=%d", o.name, (unsigned long long)r.below(1000000), (unsigned long long)(th ? k / 20 : k), (int)th));
	}
	return p;
}
// The same arguments with a number worked into the values whose range allows it
static void vary(api::Args &a, u64 i) {
	for (auto &b : a.b) for (size_t k = 0; k < b.size() && k < 4; k++) b[k] ^= (u8)(i >> (8 * k));
	for (auto &u : a.u) if (!ref::isz(u) && u.w[3] != ~0ull && u.w[3]) u.w[0] ^= i << 8;
	if (!a.s.empty() && i) a.s[i % a.s.size()] = (char)("123456789ABCDEFGHJKLMNPQRSTUVWXYZabcdefghijkmnopqrstuvwxyz0"[i % 59]);
	if (!a.x.chain.empty()) { a.x.chain[0] ^= (u8)i; a.x.chain[1] ^= (u8)(i >> 8); a.x.index ^= (u32)i; if (a.x.k.w[3] != ~0ull && a.x.k.w[3]) a.x.k.w[0] ^= i << 8; }
}
static long one(const api::Op &o, const api::Args &a, bool thread, bool judge, const std::string &what) {
	Bytes w = judge ? o.want(a) : Bytes(); long before = g_live;
	{ Bytes g; auto f = [&] { Mem m; g = o.run(a, m); }; if (thread) { std::thread t(f); t.join(); } else f(); if (judge) sim::check(g == w, "wrong-result", what + " gave " + hex(g) + " want " + hex(w)); }
	return g_live - before;
}
static size_t fds() { size_t n = 0; if (DIR *d = opendir("/proc/self/fd")) { while (readdir(d)) n++; closedir(d); } return n; }
static size_t tasks() { size_t n = 0; if (DIR *d = opendir("/proc/self/task")) { while (readdir(d)) n++; closedir(d); } return n; }

static void exec(const Plan &p) {
	u64 shape = 0; long total = 0; size_t f0 = fds(), t0 = tasks();
	for (auto &l : p.steps) {
		Step s = Step::parse(l); const api::Op *o = api::find(s.str("op")); if (!o) continue; bool th = s.num("thread") == 1, rep = s.op == "repeat"; u64 n = s.num("n"), grew = 0, suspects = 0; long kept = 0;
		std::vector<api::Args> base; for (int i = 0; i < (rep ? 1 : 6); i++) base.push_back(api::args(*o, s.num("args") + i));
		for (u64 i = 0; i < n; i++) {
			api::Args &f = base[i % base.size()]; if (!rep && !f.p[0].inf && i >= base.size()) { ref::Pt q = ref::add(f.p[0], ref::G()); if (!q.inf) f.p[0] = q; }
			api::Args a = f; if (s.op == "big") { for (auto &b : a.b) if (&b == &a.b[0] || !b.empty()) { Bytes big(s.num("len") - i * 1000 % 60000); for (size_t k = 0; k < big.size(); k++) big[k] = (u8)(k * 251 >> 7); b = big; } sim::stat("probe.big_messages"); } else if (!rep) { if (o->cost <= 60 && i % (o->cost > 20 ? 8 : 2)) a = api::args(*o, s.num("args") + i); else vary(a, i / base.size()); }
			long d = one(*o, a, th, s.op == "big" || rep ? i == 0 || i + 1 == n : i % 97 == 0 && o->cost < 200, l + fmt(" call %llu", (unsigned long long)i)); kept += d; total += d;
			if (!rep && d > 0 && i >= 64 && suspects < 40) {  // the same call again and again: does each one leave something behind?
				suspects++; long more = 0; u64 g = 0, k = 0, cap = o->cost > 20 ? 1500 : 20000; for (; k < cap && g == k; k++) { long e = one(*o, a, th, false, l); more += e; g += e > 0; } kept += more; total += more;
				sim::check(g < cap, "leak", l + fmt(" call %llu: each of %llu equal calls left memory behind, %ld bytes by now", (unsigned long long)i, (unsigned long long)cap, more));
			}
			grew += rep && i >= 16 && d > 0;
			if (rep && i + 1 == n && grew == n - 16 && n < (o->cost > 20 ? 1500 : 20000)) n += o->cost > 20 ? 1436 : 19936;  // ever growing so far: go on
		}
		sim::tick(n); sim::stat(std::string("op.") + o->name, n); sim::stat(rep ? "probe.calls_repeated" : "probe.calls_with_new_arguments", n); if (th) sim::stat("fault.thread_exit", n); sim::logv((u64)kept); sim::logv(n);
		sim::check(!(rep && n > 64 && grew >= n - 16), "leak", l + fmt(": each of %llu equal calls left memory behind, %ld bytes by now", (unsigned long long)n, kept));
		sim::check(kept <= LIMIT, "grows", l + fmt(": %ld bytes are still allocated after %llu calls", kept, (unsigned long long)n));
		shape = sim::mix64(shape ^ sim::fnv(o->name) ^ (u64)rep << 1 ^ (u64)th);
	}
	sim::check(fds() <= f0 + 8, "descriptors", "file descriptors stay open"); sim::check(tasks() <= t0 + 8, "threads", "threads were left running");
	sim::stat("probe.library_and_harness_allocations", (u64)g_allocs.load()); sim::distinct(shape);
}
}

int main(int argc, char **argv) { return sim::simMain(argc, argv, {{"C18", growth::gen, growth::exec, 120}}); }
