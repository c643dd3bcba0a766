// C14: a memory manager that write-protects inputs, puts inaccessible pages around everything, and reuses, scribbles or
// unmaps the memory as soon as a call has returned, over histories of arbitrary calls.
#pragma once
#include "api.hpp"
#include <memory>

namespace memsim {

struct Region { std::unique_ptr<Guard> g; };

struct GuardMem : api::Mem {
	// Fixed places, so that later calls meet the same addresses with other contents
	enum { SLOTS = 12, CAP = 8192 };
	std::vector<std::unique_ptr<Guard>> slot; std::vector<size_t> used; Rng r; std::string mode; size_t nIn = 0;
	struct Rec { size_t slot; u8 *p; size_t n; bool input; Bytes init; }; std::vector<Rec> recs;
	GuardMem() : r(0) { for (int i = 0; i < SLOTS; i++) slot.emplace_back(new Guard(CAP)); }
	void begin(u64 seed, const std::string &mo) { r = Rng(seed); mode = mo; recs.clear(); used.clear(); }
	u8 *place(const void *init, size_t n, size_t al, bool input) {
		size_t k = r.below(SLOTS), tries = 0; while (std::find(used.begin(), used.end(), k) != used.end()) { k = (k + 1) % SLOTS; if (++tries > SLOTS) { fprintf(stderr, "SIM: out of slots\n"); abort(); } }
		used.push_back(k); Guard &g = *slot[k]; g.prot(PROT_READ | PROT_WRITE); if (n > g.len) { fprintf(stderr, "SIM: argument too large\n"); abort(); }
		memset(g.lo(), 0x3C, g.len); bool hi = r.chance(2, 3); size_t off = hi ? (g.len - n) / al * al : 0;  // objects need their alignment, bytes touch the end exactly
		u8 *p = g.lo() + off; if (n) memcpy(p, init, n); recs.push_back({k, p, n, input, Bytes((const u8 *)init, (const u8 *)init + n)}); if (input) { g.prot(PROT_READ); nIn++; } return p;
	}
	const u8 *in(const void *p, size_t n, size_t al) override { return place(p, n, al, true); }
	u8 *out(const void *init, size_t n, size_t al) override { return place(init, n, al, false); }
	using api::Mem::in; using api::Mem::out;
	u64 junk() override { u64 v = r.chance(1, 8) ? 0 : r.next() >> 32; return v << 32; }
	void end(const std::string &ctx) {
		for (auto &q : recs) {
			Guard &g = *slot[q.slot];
			for (u8 *b = g.lo(); b < g.lo() + g.len; b++) if (b < q.p || b >= q.p + q.n) { if (*b != 0x3C) sim::fail("write-outside-buffer", ctx + fmt(" wrote %ld bytes %s a %s of %zu bytes", b < q.p ? (long)(q.p - b) : (long)(b - q.p - q.n + 1), b < q.p ? "before" : "after", q.input ? "input" : "output", q.n)); }
			if (q.input && q.n && memcmp(q.p, q.init.data(), q.n)) sim::fail("input-modified", ctx);
			if (mode == "unmap") g.prot(PROT_NONE); else if (mode == "scribble") { g.prot(PROT_READ | PROT_WRITE); memset(g.lo(), (int)r.below(256), g.len); }
		}
	}
};

inline Plan gen(Rng &r, u64 idx, bool thorough) {
	Plan p; int n = (int)r.range(4, thorough ? 60 : 30); bool faults = r.chance(7, 8); struct Past { std::string name; u64 seed; int place; }; std::vector<Past> past;
	int budget = thorough ? 4000 : 1500;
	for (int i = 0; i < n; i++) {
		const api::Op &o = api::pickOp(r, budget > 300 ? 1000 : 20); budget -= o.cost; std::string name = o.name; u64 seed = r.below(1000000);
		int place = (int)r.below(r.chance(1, 2) ? 3 : 10000); std::string near;
		if (!past.empty() && r.chance(1, 3)) {  // the same call again, the same with a small difference (also at the same addresses), or another call of the same function
			Past q = r.chance(1, 2) ? past.back() : r.pick(past); name = q.name; if (r.chance(2, 3)) { seed = q.seed; if (r.chance(2, 3)) place = q.place; if (r.chance(2, 3)) near = api::genNear(r); }
		}
		past.push_back({name, seed, place});
		p.add(fmt("call op=%s args=%llu place=%d after=%s", name.c_str(), (unsigned long long)seed, place, faults ? r.pick(std::vector<std::string>{"keep", "scribble", "unmap"}).c_str() : "keep") + near);
		if (r.chance(1, 6)) p.add(fmt("object kind=%s args=%llu junk=%d", r.pick(std::vector<std::string>{"hash", "hashstr", "xkey", "stream", "stream512", "point", "uint"}).c_str(), (unsigned long long)r.below(100000), (int)r.below(256)));
		if (r.chance(1, 8)) p.add(fmt("check"));
	}
	p.add("check"); return p;
}

// Objects that outlive the buffers they were made from
struct Kept { std::string kind; std::unique_ptr<Sha256Hash> h; std::unique_ptr<ExtendedPrivateKey> x; std::unique_ptr<Sha256> s; std::unique_ptr<Sha512> s5; std::unique_ptr<CurvePoint> c; std::unique_ptr<Uint256> u; Bytes want; };

// Leaves seeded rubbish (or zeros) where the next call's stack frames will be
__attribute__((noinline, no_sanitize("address", "undefined"))) inline void dirtyStack(Rng &r) {
	volatile u8 a[40000]; u64 v = r.next(); int mode = (int)r.below(4);
	for (size_t i = 0; i < sizeof a; i++) { if (mode == 0) a[i] = 0; else if (mode == 1) a[i] = (u8)v; else { if (i % 8 == 0) v = v * 6364136223846793005ull + 1442695040888963407ull; a[i] = (u8)(v >> (8 * (i % 8))); } }
}

inline void exec(const Plan &p) {
	GuardMem m; std::vector<std::unique_ptr<Kept>> kept; u64 shape = 0;
	auto checkKept = [&](bool fin) {
		for (auto &k : kept) {
			Bytes got; if (k->h) got = bytesOf(*k->h); else if (k->x) got = bytesOf(*k->x); else if (k->c) got = bytesOf(*k->c); else if (k->u) got = bytesOf(*k->u); else if (k->s) { Sha256 t(*k->s); got = bytesOf(t.getHash()); } else if (k->s5) { Sha512 t(*k->s5); got.resize(64); t.getHash(got.data()); }
			sim::check(got == k->want, "object-changed", k->kind + " made earlier is now " + hex(got) + " want " + hex(k->want)); sim::stat("probe.kept_object_checked");
		}
	};
	for (auto &l : p.steps) {
		Step st = Step::parse(l); sim::tick();
		if (st.op == "call") {
			const api::Op *o = api::find(st.str("op")); if (!o) continue; api::Args a = api::args(*o, st); Bytes w = o->want(a);
			m.begin(st.num("place") + 1, st.str("after")); dirtyStack(m.r); Bytes g = o->run(a, m); std::string c = l;
			sim::logb(g.data(), g.size()); sim::trace("%s -> %s", l.c_str(), hex(g).c_str());
			sim::check(g == w, "wrong-result", c + " gave " + hex(g) + " want " + hex(w)); m.end(c);
			sim::stat(std::string("op.") + o->name); sim::stat("fault.memory_" + st.str("after")); shape = sim::mix64(shape ^ sim::fnv(st.str("op") + st.str("after")));
		} else if (st.op == "object") {
			Rng r(st.num("args")); std::unique_ptr<Kept> k(new Kept); k->kind = st.str("kind"); Guard g(4096); size_t n = 32; Bytes d = r.bytes(200);
			if (k->kind == "hash") { u8 *b = g.at(n, true); memcpy(b, d.data(), 32); g.prot(PROT_READ); k->h.reset(new Sha256Hash(b, 32)); k->want.assign(d.begin(), d.begin() + 32); }
			else if (k->kind == "hashstr") { Bytes h(d.begin(), d.begin() + 32); std::string s = api::rev(h, r.chance(1, 2)); char *b = (char *)g.at(65, true); memcpy(b, s.c_str(), 65); g.prot(PROT_READ); k->h.reset(new Sha256Hash(b)); k->want = h; }
			else if (k->kind == "xkey") { ref::XKey x = codec::genX(r); u8 *b = g.at(36, true); memcpy(b, x.chain.data(), 32); memcpy(b + 32, x.fp.data(), 4); g.prot(PROT_READ); Uint256 key = toLib(x.k); k->x.reset(new ExtendedPrivateKey(key, b, (u8)x.depth, x.index, b + 32)); key = Uint256(); k->want = bytesOf(x); }
			else if (k->kind == "stream" || k->kind == "stream512") { n = r.below(200); u8 *b = g.at(n, true); memcpy(b, d.data(), n); g.prot(PROT_READ); d.resize(n); if (k->kind == "stream") { k->s.reset(new Sha256()); k->s->append(b, n); k->want = ref::sha256(d); } else { k->s5.reset(new Sha512()); k->s5->append(b, n); k->want = ref::sha512(d); } }
			else if (k->kind == "point") { ref::Pt q = ref::mul(ref::G(), genKey(r)); FieldInt x = api::fi(q.x), y = api::fi(q.y); k->c.reset(new CurvePoint(x, y)); x = y = FieldInt(Uint256::ONE); k->want = bytesOf(q); }
			else { ref::U q = genU(r); Bytes be = ref::toBE(q); u8 *b = g.at(32, true); memcpy(b, be.data(), 32); g.prot(PROT_READ); k->u.reset(new Uint256(b)); k->want = be; }
			g.prot(PROT_READ | PROT_WRITE); memset(g.lo(), (int)st.num("junk"), g.len);  // then unmapped at the end of this scope
			kept.push_back(std::move(k)); sim::stat("op.object_" + st.str("kind"));
		} else if (st.op == "check") checkKept(false);
	}
	checkKept(true); sim::distinct(shape);
}
}
