// C11: a victim computes with one of several secrets; the attacker stops it at seeded points, sees the clock, the code
// position and the touched memory, and afterwards compares everything the victim did for the different secrets.
#include "lib.hpp"
#include "api.hpp"
#include "rt.hpp"
#include <sys/personality.h>

namespace ct {
using ref::U; using sim::u64;

struct Sec { U u[6]; ref::Pt p[2]; u8 b[2][64]; u32 e[3]; u64 pub[4]; };  // one secret, ready to be used, and the public choices
struct Chunk { u64 n, hash[1 << 16]; u64 last[3]; };
enum { EV = 512 };
struct Rec { u64 kind, pc, addr; };
struct Tape { u64 n, full; u64 h[1 << 16]; Rec win[EV]; };
struct Sink : rt::TraceSink {
	Tape *t; u64 cur = 0x1234567, window = ~0ull;
	void rec(u32 kind, u64 pc, u64 addr) override {
		u64 c = t->n / EV; if (c == window) t->win[t->n % EV] = {kind, pc, addr};
		cur = (cur ^ pc) * 0x9E3779B97F4A7C15ull; cur = (cur ^ (cur >> 29) ^ addr) * 0xBF58476D1CE4E5B9ull; cur ^= cur >> 32; cur += kind;
		if (++t->n % EV == 0) { if (c + 1 < 1 << 16) t->h[c] = cur; else { t->full = 1; } }
	}
	void end() { u64 c = t->n / EV; if (c < 1 << 16) t->h[c] = cur; }
};
static Sink sink; static rt::Thread victim;
template <class F> static void traced(F f) { rt::setSelf(&victim); rt::g_mode = rt::TRACE; f(); rt::g_mode = rt::OFF; rt::setSelf(nullptr); }

alignas(64) static u8 mem[12][1024];
static unsigned off(const Sec &s, int i) { return (unsigned)(s.pub[1] >> (4 * i) & 15) * 4; }
template <class T> static T &at(const Sec &s, int i, const T &v) { return *new (mem[i] + off(s, i) / alignof(T) * alignof(T)) T(v); }
static u8 *raw(const Sec &s, int i, const u8 *p, size_t n) { u8 *r = mem[i] + off(s, i) + (s.pub[2] >> i & 3); memcpy(r, p, n); return r; }
static Uint256 &u(const Sec &s, int i) { return at(s, i, toLib(s.u[i])); }
static FieldInt &f(const Sec &s, int i) { return at(s, i, api::fi(ref::FP().red(s.u[i]))); }
static CurvePoint &p(const Sec &s, int i) { return at(s, i, api::pt(s.p[i], ref::isz(s.u[i]) || !(s.u[i] < ref::FP().m) ? U(1) : s.u[i])); }
static CurvePoint &pn(const Sec &s, int i) { return at(s, i, api::pt(s.p[i], U(1))); }
template <class T> static void cmpAll(const T &a, const T &b, u64 which) {
	volatile bool r; switch (which % 6) { case 0: traced([&] { r = a == b; }); break; case 1: traced([&] { r = a != b; }); break; case 2: traced([&] { r = a < b; }); break; case 3: traced([&] { r = a <= b; }); break; case 4: traced([&] { r = a > b; }); break; default: traced([&] { r = a >= b; }); }
}
enum Need { ANY = 0, POINTS = 1, FIELD = 2, SCALAR = 4, SIGN = 8, HMAC = 16, BELOWMOD = 32 };
struct Op { const char *name; int weight, cost; int need; void (*run)(const Sec &); };
static const Op OPS[] = {
	{"u256.add", 2, 1, ANY, [](const Sec &s) { Uint256 &a = u(s, 0), &b = u(s, 1); u32 e = s.e[0]; traced([&] { a.add(b, e); }); }},
	{"u256.subtract", 2, 1, ANY, [](const Sec &s) { Uint256 &a = u(s, 0), &b = u(s, 1); u32 e = s.e[0]; traced([&] { a.subtract(b, e); }); }},
	{"u256.shiftLeft1", 1, 1, ANY, [](const Sec &s) { Uint256 &a = u(s, 0); traced([&] { a.shiftLeft1(); }); }},
	{"u256.shiftRight1", 1, 1, ANY, [](const Sec &s) { Uint256 &a = u(s, 0); u32 e = s.e[0]; traced([&] { a.shiftRight1(e); }); }},
	{"u256.reciprocal", 2, 15, BELOWMOD, [](const Sec &s) { Uint256 &a = u(s, 0); const Uint256 &m = at(s, 1, toLib((s.pub[0] & 1 ? ref::FN() : ref::FP()).m)); traced([&] { a.reciprocal(m); }); }},
	{"u256.replace", 2, 1, ANY, [](const Sec &s) { Uint256 &a = u(s, 0), &b = u(s, 1); u32 e = s.e[0]; traced([&] { a.replace(b, e); }); }},
	{"u256.swap", 2, 1, ANY, [](const Sec &s) { Uint256 &a = u(s, 0), &b = u(s, 1); u32 e = s.e[0]; traced([&] { a.swap(b, e); }); }},
	{"u256.compare", 4, 1, ANY, [](const Sec &s) { cmpAll(u(s, 0), u(s, 1), s.pub[0]); }},
	{"u256.fromBytes", 2, 1, ANY, [](const Sec &s) { const u8 *b = raw(s, 0, s.b[0], 32); u8 *o = mem[1]; traced([&] { new (o) Uint256(b); }); }},
	{"u256.toBytes", 2, 1, ANY, [](const Sec &s) { Uint256 &a = u(s, 0); u8 *o = raw(s, 1, s.b[0], 32); traced([&] { a.getBigEndianBytes(o); }); }},
	{"u256.fromField", 1, 1, ANY, [](const Sec &s) { FieldInt &a = f(s, 0); u8 *o = mem[1]; traced([&] { new (o) Uint256(a); }); }},
	{"field.fromU256", 2, 1, ANY, [](const Sec &s) { Uint256 &a = u(s, 0); u8 *o = mem[1]; traced([&] { new (o) FieldInt(a); }); }},
	{"field.add", 2, 1, FIELD, [](const Sec &s) { FieldInt &a = f(s, 0), &b = f(s, 1); traced([&] { a.add(b); }); }},
	{"field.subtract", 2, 1, FIELD, [](const Sec &s) { FieldInt &a = f(s, 0), &b = f(s, 1); traced([&] { a.subtract(b); }); }},
	{"field.multiply2", 1, 1, FIELD, [](const Sec &s) { FieldInt &a = f(s, 0); traced([&] { a.multiply2(); }); }},
	{"field.square", 2, 1, FIELD, [](const Sec &s) { FieldInt &a = f(s, 0); traced([&] { a.square(); }); }},
	{"field.multiply", 3, 1, FIELD, [](const Sec &s) { FieldInt &a = f(s, 0), &b = f(s, 1); traced([&] { a.multiply(b); }); }},
	{"field.reciprocal", 2, 15, FIELD, [](const Sec &s) { FieldInt &a = f(s, 0); traced([&] { a.reciprocal(); }); }},
	{"field.replace", 1, 1, FIELD, [](const Sec &s) { FieldInt &a = f(s, 0), &b = f(s, 1); u32 e = s.e[0]; traced([&] { a.replace(b, e); }); }},
	{"field.compare", 3, 1, FIELD, [](const Sec &s) { cmpAll(f(s, 0), f(s, 1), s.pub[0]); }},
	{"field.toBytes", 1, 1, FIELD, [](const Sec &s) { FieldInt &a = f(s, 0); u8 *o = raw(s, 1, s.b[0], 32); traced([&] { a.getBigEndianBytes(o); }); }},
	{"point.make", 1, 1, FIELD, [](const Sec &s) { FieldInt &a = f(s, 0), &b = f(s, 1); u8 *o = mem[2]; traced([&] { new (o) CurvePoint(a, b); }); }},
	{"point.add", 5, 3, POINTS, [](const Sec &s) { CurvePoint &a = p(s, 0), &b = p(s, 1); traced([&] { a.add(b); }); }},
	{"point.twice", 3, 3, POINTS, [](const Sec &s) { CurvePoint &a = p(s, 0); traced([&] { a.twice(); }); }},
	{"point.multiply", 5, 100, POINTS, [](const Sec &s) { CurvePoint &a = p(s, 0); Uint256 &n = u(s, 2); traced([&] { a.multiply(n); }); }},
	{"point.normalize", 3, 15, POINTS, [](const Sec &s) { CurvePoint &a = p(s, 0); traced([&] { a.normalize(); }); }},
	{"point.replace", 2, 1, POINTS, [](const Sec &s) { CurvePoint &a = p(s, 0), &b = p(s, 1); u32 e = s.e[0]; traced([&] { a.replace(b, e); }); }},
	{"point.isOnCurve", 2, 2, POINTS, [](const Sec &s) { CurvePoint &a = pn(s, 0); if (s.e[1]) a.y = api::fi(ref::FP().red(s.u[1])); volatile bool r; traced([&] { r = a.isOnCurve(); }); }},
	{"point.isZero", 2, 1, POINTS, [](const Sec &s) { CurvePoint &a = p(s, 0); volatile bool r; traced([&] { r = a.isZero(); }); }},
	{"point.compare", 2, 1, POINTS, [](const Sec &s) { CurvePoint &a = pn(s, 0), &b = pn(s, 1); volatile bool r; if (s.pub[0] & 1) traced([&] { r = a == b; }); else traced([&] { r = a != b; }); }},
	{"point.compress", 2, 1, POINTS, [](const Sec &s) { CurvePoint &a = pn(s, 0); u8 z[33] = {0}, *o = raw(s, 1, z, 33); traced([&] { a.toCompressedPoint(o); }); }},
	{"publicKey", 4, 100, SCALAR, [](const Sec &s) { Uint256 &k = u(s, 0); u8 *o = mem[1]; traced([&] { new (o) CurvePoint(CurvePoint::privateExponentToPublicPoint(k)); }); }},
	{"sign", 6, 140, SIGN, [](const Sec &s) { Uint256 &d = u(s, 0), &k = u(s, 1); const Sha256Hash &h = at(s, 2, Sha256Hash(s.b[0], 32)); Uint256 &R = at(s, 3, Uint256::ZERO), &S = at(s, 4, Uint256::ZERO); volatile bool r; traced([&] { r = Ecdsa::sign(d, h, k, R, S); }); }},
	{"signWithHmacNonce", 5, 140, HMAC, [](const Sec &s) { Uint256 &d = u(s, 0); const Sha256Hash &h = at(s, 2, Sha256Hash(s.b[0], 32)); Uint256 &R = at(s, 3, Uint256::ZERO), &S = at(s, 4, Uint256::ZERO); volatile bool r; traced([&] { r = Ecdsa::signWithHmacNonce(d, h, R, S); }); }},
	{"hash.fromBytes", 1, 1, ANY, [](const Sec &s) { const u8 *b = raw(s, 0, s.b[0], 32); u8 *o = mem[1]; traced([&] { new (o) Sha256Hash(b, 32); }); }},
	{"hash.compare", 4, 1, ANY, [](const Sec &s) { const Sha256Hash &a = at(s, 0, Sha256Hash(s.b[0], 32)), &b = at(s, 1, Sha256Hash(s.b[1], 32)); volatile bool r; if (s.pub[0] & 1) traced([&] { r = a == b; }); else traced([&] { r = a != b; }); }},
};
static const Op *find(const std::string &n) { for (auto &o : OPS) if (n == o.name) return &o; return nullptr; }

static Sec make(const Op &o, u64 pub, u64 seed) {
	Sec s; memset((void *)s.b, 0, sizeof s.b); Rng q(sim::mix64(pub)); for (auto &x : s.pub) x = q.next();
	Rng r(sim::mix64(seed * 77 + 5)); U base = genU(q);
	for (int i = 0; i < 6; i++) s.u[i] = o.need & FIELD ? genFieldElem(r) : genU(r);
	if (r.chance(1, 5)) { s.u[1] = s.u[0]; if (r.chance(1, 2)) { int k = (int)r.below(256); s.u[1].w[k / 64] ^= 1ull << (k % 64); } }
	if (r.chance(1, 6)) s.u[0] = base;  // secrets that are close to each other
	if (r.chance(1, 6)) { s.u[0] = base; int k = (int)r.below(256); s.u[0].w[k / 64] ^= 1ull << (k % 64); }
	for (int i = 0; i < 2; i++) { Bytes b = r.chance(1, 4) ? ref::toBE(genU(r)) : r.bytes(32); std::copy(b.begin(), b.end(), s.b[i]); }
	if (r.chance(1, 2)) { memcpy(s.b[1], s.b[0], 32); if (r.chance(1, 2)) s.b[1][r.below(32)] ^= (u8)(1 << r.below(8)); }
	for (auto &e : s.e) e = (u32)r.below(2);
	if (o.need & POINTS) { s.p[0] = api::genPt(r); s.p[1] = api::genPt(r); switch (r.below(6)) { case 0: s.p[1] = s.p[0]; break; case 1: s.p[1] = ref::neg(s.p[0]); break; default: break; } if (r.chance(1, 2)) s.u[0] = s.u[1] = U(1); }
	if (o.need & BELOWMOD) s.u[0] = (s.pub[0] & 1 ? ref::FN() : ref::FP()).red(s.u[0]);
	if (o.need & (SCALAR | SIGN | HMAC)) s.u[0] = genKey(r);
	if (o.need & SIGN) for (;;) { s.u[1] = genKey(r); if (ref::sign(s.u[0], Bytes(s.b[0], s.b[0] + 32), s.u[1]).ok) break; }
	return s;
}

static Plan gen(Rng &r, u64 idx, bool thorough) {
	Plan p; int maxCost = r.chance(1, 4) ? 1000 : r.chance(1, 3) ? 20 : 3, tot = 0; const Op *o = &OPS[0];
	for (auto &x : OPS) if (x.cost <= maxCost && (maxCost < 1000 || x.cost >= 15)) tot += x.weight;
	int k = (int)r.below(tot); for (auto &x : OPS) if (x.cost <= maxCost && (maxCost < 1000 || x.cost >= 15)) { k -= x.weight; if (k < 0) { o = &x; break; } }
	p.hdr["op"] = o->name; p.hdr["public"] = std::to_string(r.below(1u << 30));
	int n = (int)r.range(2, o->cost >= 50 ? 3 : thorough ? 12 : 6); for (int i = 0; i < n; i++) p.add(fmt("secret seed=%llu", (unsigned long long)r.below(1u << 30)));
	for (int i = 0; i < 3; i++) p.add(fmt("stop at=%llu", (unsigned long long)r.logu((u64)o->cost * 30000)));
	if (rt::g_haveAsm) { if (o->cost <= 3) p.add("watch from=0 n=400"); else for (int i = 0; i < 3; i++) p.add(fmt("watch from=%llu n=%llu", (unsigned long long)(r.chance(1, 4) ? r.below(100) : r.logu(o->cost >= 50 ? 40000 : 3000)), (unsigned long long)r.range(10, 60))); }
	return p;
}

static void runChild(const Op &o, const Sec &s, Tape *t, u64 window, const std::vector<u64> &steps) {
	fflush(nullptr); pid_t pid = fork(); if (pid < 0) { perror("fork"); _exit(3); }
	if (pid == 0) {
		prctl(PR_SET_PDEATHSIG, SIGKILL); t->n = 0; t->full = 0; sink.t = t; sink.window = window; rt::g_sink = &sink; victim.stepCalls = steps; o.run(s); sink.end(); _exit(0);
	}
	int st = 0; while (waitpid(pid, &st, 0) < 0) {}
	if (WIFSIGNALED(st)) sim::fail(fmt("crash-signal-%d", WTERMSIG(st)), o.name);
	if (WEXITSTATUS(st) != 0) { if (sim::sh()->state != 2) sim::fail("died", o.name); _exit(0); }
}
static std::string kindName(u64 k) { if (k == 100) return "the instruction"; if (k == 101) return "a call of the assembly routine"; if (k == 102) return "entry of the function"; if (k == 103) return "the branch target"; return fmt("a %llu-byte %s at", (unsigned long long)(k >> 4), (k & 3) == 1 || (k & 3) == 3 ? "write" : "read"); }

static void exec(const Plan &p) {
	const Op *o = find(p.str("op")); if (!o) return; std::vector<Sec> secs; std::vector<u64> seeds, stops, steps;
	for (auto &l : p.steps) { Step s = Step::parse(l); if (s.op == "secret") { seeds.push_back(s.num("seed")); secs.push_back(make(*o, p.num("public"), seeds.back())); } else if (s.op == "stop") stops.push_back(s.num("at")); else if (s.op == "watch") for (u64 k = 0; k < std::min<u64>(s.num("n"), 400); k++) steps.push_back(s.num("from") + k); }
	if (secs.size() < 2) return; sim::stat(std::string("op.") + o->name);
	Tape *a = (Tape *)mmap(nullptr, 2 * sizeof(Tape), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0), *b = a + 1;
	runChild(*o, secs[0], a, ~0ull, steps); sim::tick(a->n); sim::stat("probe.trace_events", a->n); sim::logv(a->n);
	for (u64 &s : stops) s = a->n ? s % a->n : 0;
	for (size_t i = 1; i < secs.size(); i++) {
		runChild(*o, secs[i], b, ~0ull, steps); sim::stat("fault.attacker_comparisons"); sim::stat("probe.trace_events", b->n); sim::tick(b->n);
		u64 na = a->n / EV + 1, nb = b->n / EV + 1, c = 0; if (a->n == b->n) { while (c < std::min<u64>(na, 1 << 16) && a->h[c] == b->h[c]) c++; if (c >= std::min<u64>(na, 1 << 16)) continue; }
		else { while (c < std::min(na, nb) && c < (1 << 16) && a->h[c] == b->h[c]) c++; }
		runChild(*o, secs[0], a, c, steps); runChild(*o, secs[i], b, c, steps);
		u64 k = 0, base = c * EV; while (k < EV && base + k < a->n && base + k < b->n && a->win[k].kind == b->win[k].kind && a->win[k].pc == b->win[k].pc && a->win[k].addr == b->win[k].addr) k++;
		sim::logv(base + k); std::string who = fmt("%s: with secret %llu and with secret %llu (same public inputs) ", o->name, (unsigned long long)seeds[0], (unsigned long long)seeds[i]);
		if (k >= EV || base + k >= a->n || base + k >= b->n) sim::fail("length", who + fmt("the victim stops after %llu and %llu steps", (unsigned long long)a->n, (unsigned long long)b->n));
		Rec x = a->win[k], y = b->win[k]; std::string wx = rt::where((void *)x.pc), wy = rt::where((void *)y.pc);
		if (x.kind != y.kind || x.pc != y.pc) sim::fail("code-path", who + fmt("step %llu is %s %s and %s %s", (unsigned long long)(base + k), kindName(x.kind).c_str(), wx.c_str(), kindName(y.kind).c_str(), wy.c_str()));
		sim::fail("memory-address", who + fmt("step %llu, %s %s, touches addresses %lld bytes apart", (unsigned long long)(base + k), kindName(x.kind).c_str(), wx.c_str(), (long long)(y.addr - x.addr)));
	}
	u64 h = sim::fnv(o->name, strlen(o->name)); for (u64 s : stops) { sim::stat("fault.attacker_stop"); h = sim::mix64(h ^ s); }
	for (u64 s : steps) h = sim::mix64(h + s); sim::logv(h); sim::distinct(h);
}
}

int main(int argc, char **argv) {
	if (!getenv("SIM_NOASLR")) { setenv("SIM_NOASLR", "1", 1); if (personality(ADDR_NO_RANDOMIZE) != -1) execv("/proc/self/exe", argv); }
	rt::loadAsmTable(std::string(argv[0]) + ".asmtab");
	return sim::simMain(argc, argv, {{"C11", ct::gen, ct::exec, 60}});
}
