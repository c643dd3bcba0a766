// C01: threads calling the library at the same time, one running at a time under a seeded schedule.
#include "lib.hpp"
#include "api.hpp"
#include "rt.hpp"
#include <setjmp.h>
#include <set>

namespace threads {
using sim::u64; using rt::Slice;

// Inputs of equal calls are the same objects for every thread that makes them
struct Key { std::string k; size_t i; bool operator<(const Key &o) const { return k < o.k || (k == o.k && i < o.i); } };
struct Block { u8 *p; Bytes init; };
static std::map<Key, Block> shared;
struct Off { rt::Thread *t = rt::self(); Off() { rt::setSelf(nullptr); } ~Off() { rt::setSelf(t); } };  // the simulator's own work
struct Mem : api::Mem {
	std::string key; size_t n = 0; std::vector<void *> mine;
	static u8 *mk(const void *p, size_t n, size_t al) { void *r = nullptr; if (posix_memalign(&r, std::max<size_t>(al, 16), n + 16)) abort(); if (n) memcpy(r, p, n); return (u8 *)r; }
	const u8 *in(const void *p, size_t len, size_t al) override {
		Off off; Key k{key, n++}; auto it = shared.find(k);
		if (it == shared.end()) { Block b; b.p = mk(p, len, al); b.init.assign((const u8 *)p, (const u8 *)p + len); rt::knownInit(b.p, len); it = shared.emplace(k, b).first; }
		return it->second.p;
	}
	u8 *out(const void *init, size_t len, size_t al) override { Off off; u8 *r = mk(init, len, al); rt::knownInit(r, len); mine.push_back(r); return r; }
	using api::Mem::in; using api::Mem::out;
	~Mem() { Off off; for (void *p : mine) free(p); }
};

struct Call { int t; const api::Op *op; u64 seed; api::Args args; Bytes want, got; bool finished = false; std::string name; };

static Plan gen(Rng &r, u64 idx, bool thorough) {
	Plan p; int nt = r.chance(2, 3) ? 2 : (int)r.range(3, 4); p.hdr["threads"] = std::to_string(nt); bool heavy = r.chance(1, 5);
	int calls = heavy ? nt : (int)r.range(2, thorough ? 16 : 8); bool same = r.chance(2, 3), one = r.chance(1, 3); std::string op; u64 seed = 0; u64 work = 200;
	for (int i = 0; i < calls; i++) {
		const api::Op *o = &api::pickOp(r, heavy ? 1000 : 20); if (same && !op.empty() && (one || r.chance(3, 4))) o = api::find(op); if (i == 0 || !r.chance(1, 3)) seed = r.below(1000000);
		op = o->name; work += (u64)o->cost * 150; p.add(fmt("call t=%d op=%s args=%llu", i < nt ? i : (int)r.below(nt), op.c_str(), (unsigned long long)seed) + (i && r.chance(1, 3) ? api::genNear(r) : std::string()));
	}
	if (rt::g_haveAsm && r.chance(1, 3)) for (int t = 0; t < 2; t++) { u64 f = r.chance(2, 3) ? 0 : r.logu(heavy ? 20000 : 200); p.add(fmt("step t=%d from=%llu n=%llu", t, (unsigned long long)f, (unsigned long long)r.range(20, 250))); }
	else if (rt::g_haveAsm && r.chance(1, 2)) for (int k = (int)r.range(1, 4); k > 0; k--) p.add(fmt("step t=%d from=%llu n=%llu", (int)r.below(nt), (unsigned long long)(r.chance(1, 2) ? r.below(12) : r.logu(heavy ? 20000 : 200)), (unsigned long long)r.range(1, 6)));
	int style = (int)r.below(7), n = (int)r.range(4, thorough ? 400 : 120);
	for (int i = 0; i < n; i++) {
		u64 k; bool hot = false;
		switch (style) {
			case 0: k = r.logu(std::max<u64>(8, work / 8)); break;
			case 1: k = r.range(1, 6); break;
			case 2: k = i < 4 ? r.logu(work) : work; break;  // one long stall
			case 3: k = r.range(1, 3); hot = true; break;
			case 4: hot = r.chance(1, 2); k = hot ? r.range(1, 4) : r.logu(400); break;
			case 5: k = r.logu(40); break;
			default: k = r.logu(300);
		}
		p.add(fmt("%s t=%d n=%llu", hot ? "hot" : "slice", (int)r.below(nt), (unsigned long long)k));
	}
	return p;
}

// A copy of the process from before anything happened; says what a call returns when run alone
struct Solo {
	int to, from;
	Solo(const std::vector<Call> &calls) {
		int a[2], b[2]; if (pipe(a) || pipe(b)) { perror("pipe"); _exit(3); }
		if (fork() == 0) {
			prctl(PR_SET_PDEATHSIG, SIGKILL); close(a[1]); close(b[0]); u32 i;
			if (read(a[0], &i, 4) != 4) _exit(0);
			Mem m; m.key = "solo"; Bytes g = calls[i].op->run(calls[i].args, m); u32 n = (u32)g.size(); if (write(b[1], &n, 4) < 0 || write(b[1], g.data(), n) < 0) _exit(0);
			_exit(0);
		}
		close(a[0]); close(b[1]); to = a[1]; from = b[0];
	}
	bool run(u32 i, Bytes &out) { signal(SIGPIPE, SIG_IGN); u32 n; if (write(to, &i, 4) != 4 || read(from, &n, 4) != 4) return false; out.resize(n); size_t k = 0; while (k < n) { ssize_t g = read(from, &out[k], n - k); if (g <= 0) return false; k += g; } return true; }
};

static void exec(const Plan &p) {
	int nt = (int)std::min<u64>(rt::MAXT, std::max<u64>(1, p.num("threads", 2))); std::vector<Call> calls; std::vector<Slice> sl; std::vector<std::vector<std::pair<u64, u64>>> steps(nt); u64 shape = nt;
	for (auto &l : p.steps) {
		Step s = Step::parse(l);
		if (s.op == "call") { Call c; c.op = api::find(s.str("op")); if (!c.op) continue; c.t = (int)(s.num("t") % nt); c.seed = s.num("args"); c.args = api::args(*c.op, s); c.want = c.op->want(c.args); c.name = s.str("op") + " " + s.str("args") + (s.has("near") ? " near " + s.str("near") : ""); shape = sim::mix64(shape ^ sim::fnv(s.str("op"))); sim::stat("op." + s.str("op")); calls.push_back(c); }
		else if (s.op == "slice" || s.op == "hot") sl.push_back({(int)(s.num("t") % nt), s.num("n"), s.op == "hot"});
		else if (s.op == "step") steps[s.num("t") % nt].push_back({s.num("from"), s.num("n")});
	}
	std::vector<std::unique_ptr<Solo>> solo; for (size_t i = 0; i < 1; i++) solo.emplace_back(new Solo(calls));
	rt::runThreads(nt, sl, [&](int t) {
		for (auto &c : calls) if (c.t == t) { rt::self()->what = c.op->name; Mem m; m.key = c.name; c.got = c.op->run(c.args, m); c.finished = true; }
		rt::self()->what = "no call";
	}, [&](rt::Thread &t) { for (auto &s : steps[t.id]) for (u64 k = 0; k < std::min<u64>(s.second, 256); k++) t.stepCalls.push_back(s.first + k); });
	sim::tick(rt::g_events); sim::logv(rt::g_events); sim::logv(rt::g_switches); sim::logv(rt::g_shape); sim::stat("fault.preemption", rt::g_switches); sim::stat("probe.hot_points", rt::g_hots); sim::stat("probe.assembly_instructions_stepped", rt::g_asmSteps);
	for (size_t i = 0; i < calls.size(); i++) {
		auto &c = calls[i]; sim::logb(c.got.data(), c.got.size()); sim::trace("thread %d, %s -> %s", c.t, c.name.c_str(), hex(c.got).c_str());
		sim::check(c.finished, "unfinished", c.name);
		if (c.got != c.want) { Bytes alone; bool ok = solo[0]->run((u32)i, alone); if (!ok || alone != c.got) sim::fail("wrong-result", fmt("thread %d, %s gave %s; run alone it gives %s", c.t, c.name.c_str(), hex(c.got).c_str(), ok ? hex(alone).c_str() : "nothing")); sim::stat("probe.differs_from_reference_also_alone"); }
	}
	for (auto &b : shared) sim::check(b.second.init.empty() || !memcmp(b.second.p, b.second.init.data(), b.second.init.size()), "input-modified", b.first.k);
	sim::distinct(sim::mix64(shape ^ rt::g_shape));
}
}

// C17: one thread whose calls are interrupted by handlers that make calls themselves, and abandoned half-way
namespace interrupts {
using threads::Mem; using sim::u64;

static std::string callText(Rng &r, const api::Op *o, u64 seed, bool near) { return fmt("op=%s args=%llu", o->name, (unsigned long long)seed) + (near ? api::genNear(r) : std::string()); }
static Plan gen(Rng &r, u64 idx, bool thorough) {
	Plan p; bool heavy = r.chance(1, 6); int calls = heavy ? (int)r.range(1, 3) : (int)r.range(1, thorough ? 14 : 8); const api::Op *o = nullptr; u64 seed = 0;
	for (int i = 0; i < calls; i++) {
		bool arith = rt::g_haveAsm && r.chance(1, 3);
		if (arith) { static const char *const as[] = {"u256add", "u256sub", "u256shift", "u256swap", "u256cmp", "u256recip", "field", "fieldone", "fieldcmp", "ptadd", "pttwice", "oncurve", "alias"}; o = api::find(as[r.below(13)]); } else if (!o || !r.chance(1, 2)) o = &api::pickOp(r, heavy ? 1000 : 20);
		bool keep = i && r.chance(1, 3); if (!keep) seed = r.below(1000000);
		p.add("call " + callText(r, o, seed, keep && r.chance(1, 2)));
		if (arith) p.add(fmt("step from=%llu n=%llu", (unsigned long long)(r.chance(2, 3) ? 0 : r.below(12)), (unsigned long long)r.range(1, 6)));
		else if (rt::g_haveAsm && r.chance(1, 3)) p.add(fmt("step from=%llu n=%llu", (unsigned long long)(r.chance(2, 3) ? r.below(12) : r.logu(heavy ? 20000 : 200)), (unsigned long long)r.range(1, 12)));
		int n = r.chance(1, 6) ? 0 : (int)r.range(1, 4); bool dense = r.chance(1, 3);
		for (int k = 0; k < n; k++) {
			u64 after = dense ? r.range(1, 12) : r.logu(heavy && o->cost > 20 ? 30000 : o->cost > 3 ? 3000 : 400);
			const char *insn = ""; if (arith && r.chance(2, 3)) { insn = " insn=1"; after = r.chance(2, 3) ? r.range(1, 30) : r.logu(300); }
			if (r.chance(1, 5)) { p.add(fmt("abandon after=%llu%s", (unsigned long long)after, insn)); break; }
			bool same = r.chance(1, 2); const api::Op *h = same && o->cost <= 20 ? o : heavy && r.chance(1, 3) ? &api::pickOp(r, 300) : &api::pickOp(r, 20); bool sa = h == o && r.chance(1, 2);
			p.add(fmt("handler after=%llu%s ", (unsigned long long)after, insn) + callText(r, h, sa ? seed : r.below(1000000), sa && r.chance(2, 3)));
		}
	}
	return p;
}

struct Ev { u64 after; bool insn = false; const api::Op *op; api::Args args; Bytes want; std::string name; u32 solo = 0; };
struct Main { const api::Op *op; api::Args args; Bytes want; std::string name; u32 solo = 0; std::vector<Ev> evs; std::vector<std::pair<u64, u64>> steps; };
static sigjmp_buf out; static int depth, deepest; static u64 shape;
static std::vector<Ev> *evs; static size_t evAt;

static void arm() { bool e = evAt < evs->size(), i = e && (*evs)[evAt].insn; rt::g_onPointIn = e && !i ? (*evs)[evAt].after : 0; rt::g_onInsnIn = i ? (*evs)[evAt].after : 0; }
static threads::Solo *solo;
template <class C> static void judge(const std::string &what, const Bytes &got, const C &c) { sim::trace("%s -> %s", what.c_str(), hex(got).c_str()); sim::logb(got.data(), got.size()); 
	if (got != c.want) { Bytes alone; bool ok = solo->run(c.solo, alone); if (!ok || alone != got) sim::fail("wrong-result", what + " gave " + hex(got) + "; run alone it gives " + (ok ? hex(alone) : "nothing")); sim::stat("probe.differs_from_reference_also_alone"); }
}
static void onPoint(const void *pc) {
	Ev &e = (*evs)[evAt++]; shape = sim::mix64(shape ^ (u64)(uintptr_t)pc * 31 + (e.op ? sim::fnv(e.op->name) : 7)); sim::trace("%s at %s, depth %d", e.op ? e.name.c_str() : "abandon", rt::where(pc).c_str(), depth);
	if (!e.op) { sim::stat("fault.abandoned_call"); rt::g_onPointIn = rt::g_onInsnIn = 0; siglongjmp(out, 1); }
	sim::stat("fault.interruption"); depth++; if (depth > deepest) deepest = depth; arm();
	rt::Thread *t = rt::self(); bool st = t->stepping, en = t->entered; auto sc = t->stepCalls; t->stepping = t->entered = false; t->stepCalls.clear(); const char *w = t->what; t->what = e.op->name;
	Bytes got; { Mem m; m.key = e.name; got = e.op->run(e.args, m); } judge(e.name, got, e);
	t->stepping = st; t->entered = en; t->stepCalls = sc; t->what = w; depth--;
}

static void exec(const Plan &p) {
	std::vector<Main> calls;
	for (auto &l : p.steps) {
		Step s = Step::parse(l); const api::Op *o = s.has("op") ? api::find(s.str("op")) : nullptr; std::string nm = s.str("op") + " " + s.str("args") + (s.has("near") ? " near " + s.str("near") : "");
		if (s.op == "call") { if (!o) continue; Main m; m.op = o; m.args = api::args(*o, s); m.want = o->want(m.args); m.name = nm; calls.push_back(m); sim::stat("op." + s.str("op")); }
		else if (calls.empty()) continue;
		else if (s.op == "handler") { if (!o) continue; Ev e; e.after = std::max<u64>(1, s.num("after")); e.insn = s.num("insn") == 1; e.op = o; e.args = api::args(*o, s); e.want = o->want(e.args); e.name = "handler " + nm; calls.back().evs.push_back(e); sim::stat("op.handler_" + s.str("op")); }
		else if (s.op == "abandon") { Ev e; e.after = std::max<u64>(1, s.num("after")); e.insn = s.num("insn") == 1; e.op = nullptr; calls.back().evs.push_back(e); }
		else if (s.op == "step") calls.back().steps.push_back({s.num("from"), std::min<u64>(64, s.num("n"))});
	}
	std::vector<threads::Call> alone; auto add = [&](auto &c) { c.solo = (u32)alone.size(); threads::Call k; k.op = c.op; k.args = c.args; alone.push_back(k); };
	for (auto &c : calls) { add(c); for (auto &e : c.evs) if (e.op) add(e); }
	solo = new threads::Solo(alone); std::function<void(const void *)> f = onPoint; rt::g_onPoint = &f;
	rt::runThreads(1, {}, [&](int) {
		rt::Thread *t = rt::self(); std::vector<Ev> none; evs = &none;
		// first uses: lazy initialisation is over before anything is interrupted
		{ std::set<const api::Op *> seen; for (auto &c : calls) { std::vector<const api::Op *> ops{c.op}; for (auto &e : c.evs) if (e.op) ops.push_back(e.op); for (auto o : ops) if (seen.insert(o).second) { Mem m; m.key = std::string("warm ") + o->name; api::Args a = api::args(*o, 99991); o->run(a, m); } } }
		// what each call gives here when nothing interrupts it
		for (auto &c : calls) {
			evs = &c.evs; evAt = 0; depth = 0; t->what = c.op->name; t->asmCalls = 0; t->stepping = t->entered = false; t->stepCalls.clear(); for (auto &s : c.steps) for (u64 k = 0; k < s.second; k++) t->stepCalls.push_back(s.first + k);
			if (sigsetjmp(out, 1) == 0) { arm(); Bytes got; { Mem m; m.key = c.name; got = c.op->run(c.args, m); } rt::g_onPointIn = rt::g_onInsnIn = 0; judge(c.name, got, c); sim::stat("outcome.finished"); }
			else { rt::setSelf(t); t->stepping = t->entered = false; sim::logv(0xABA); sim::stat("outcome.abandoned"); }
			t->stepCalls.clear();
		}
		evs = &none; rt::g_onPointIn = rt::g_onInsnIn = 0;
		for (auto &c : calls) { Mem m; m.key = c.name; Bytes got = c.op->run(c.args, m); judge(c.name + " afterwards", got, c); }
	}, nullptr);
	sim::tick(rt::g_events); sim::logv(rt::g_events); sim::stat("probe.assembly_instructions_stepped", rt::g_asmSteps); sim::stat(fmt("probe.nesting_depth_%d", deepest));
	for (auto &b : threads::shared) sim::check(b.second.init.empty() || !memcmp(b.second.p, b.second.init.data(), b.second.init.size()), "input-modified", b.first.k);
	sim::distinct(shape);
}
}

int main(int argc, char **argv) {
	rt::loadAsmTable(std::string(argv[0]) + ".asmtab");
	return sim::simMain(argc, argv, {{"C01", threads::gen, threads::exec, 60}, {"C17", interrupts::gen, interrupts::exec, 60}});
}
