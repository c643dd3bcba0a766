// C03: streaming hashers fed by an unreliable source.
#pragma once
#include "lib.hpp"
#include <new>
#include <type_traits>
#include <memory>

namespace stream {

struct Slot {
	bool used = false, is512 = false; Bytes model; u8 *mem = nullptr;
	Sha256 *h256() { return (Sha256 *)mem; } Sha512 *h512() { return (Sha512 *)mem; }
};

inline Plan gen(Rng &r, u64 idx, bool thorough) {
	Plan p; int nslots = (int)r.range(1, 4); p.hdr["kind"] = "streams";
	int mode = (int)r.below(3);  // 0: sha256 only, 1: sha512 only, 2: mixed
	std::vector<int> kind(8, 0); std::vector<u64> len(8, 0);
	int nsteps = (int)r.range(4, thorough ? 120 : 60);
	bool faults = r.chance(4, 5);
	auto open = [&](int s) { kind[s] = mode == 0 ? 256 : mode == 1 ? 512 : r.chance(1, 2) ? 256 : 512; len[s] = 0; p.add(fmt("open s=%d kind=%d junk=%llu", s, kind[s], (unsigned long long)r.below(256))); };
	for (int s = 0; s < nslots; s++) open(s);
	for (int i = 0; i < nsteps; i++) {
		int s = (int)r.below(nslots); int bl = kind[s] == 512 ? 128 : 64;
		int w = (int)r.below(faults ? 20 : 12);
		if (kind[s] == 0) { open(s); continue; }
		if (w < 11) {
			u64 n = genLen(r, bl);
			if (r.chance(1, 3)) { u64 target = r.pick(std::vector<u64>{0, 1, (u64)bl - 1, (u64)bl - 8, (u64)bl - 9, (u64)bl - 16, (u64)bl - 17, (u64)bl - 10, (u64)bl - 2, (u64)bl - 7, (u64)bl - 15}); n = (target + bl - len[s] % bl) % bl + (r.chance(1, 4) ? bl * r.below(3) : 0); }
			p.add(fmt("append s=%d n=%llu data=%llu pat=%d hi=%d after=%s chain=%d", s, (unsigned long long)n, (unsigned long long)r.below(1000000), (int)r.below(4), (int)r.below(2),
				faults ? r.pick(std::vector<std::string>{"keep", "scribble", "unmap"}).c_str() : "keep", (int)r.below(4) == 0));
			len[s] += n;
		} else if (w == 11) { p.add(fmt("finish s=%d", s)); kind[s] = 0; }
		else if (w == 12) p.add(fmt("empty s=%d null=%d", s, (int)r.below(2)));
		else if (w <= 14) { int t = (int)r.range(4, 7); p.add(fmt("checkpoint s=%d to=%d how=%s junk=%d", s, t, r.pick(std::vector<std::string>{"copy", "assign", "bytes"}).c_str(), (int)r.below(256))); kind[t] = kind[s]; len[t] = len[s]; }
		else if (w == 15) { int t = (int)r.range(4, 7); if (kind[t]) { p.add(fmt("crash s=%d restore=%d", s, t)); kind[s] = kind[t]; len[s] = len[t]; } }
		else if (w == 16) { int t = (int)r.range(4, 7); if (kind[t] == 0) continue; u64 n = genLen(r, bl); p.add(fmt("append s=%d n=%llu data=%llu pat=0 hi=1 after=scribble chain=0", t, (unsigned long long)n, (unsigned long long)r.below(1000000))); len[t] += n; }
		else if (w == 17) p.add(fmt("other what=%s data=%llu n=%llu", r.pick(std::vector<std::string>{"hash", "hmac", "sha512", "hmac512", "double", "finishtwin"}).c_str(), (unsigned long long)r.below(100000), (unsigned long long)genLen(r, bl)));
		else if (w == 18) { int t = (int)r.range(4, 7); if (kind[t]) { p.add(fmt("finish s=%d", t)); kind[t] = 0; } }
		else p.add(fmt("bytewise s=%d n=%llu data=%llu", s, (unsigned long long)r.below(2 * bl + 2), (unsigned long long)r.below(100000)));
	}
	for (int s = 0; s < 8; s++) if (kind[s] && r.chance(9, 10)) p.add(fmt("finish s=%d", s));
	return p;
}

inline Bytes data(u64 seed, u64 n, int pat) {
	Rng r(seed * 77 + 5); Bytes b = r.bytes(n);
	if (pat == 1) std::fill(b.begin(), b.end(), 0); else if (pat == 2) std::fill(b.begin(), b.end(), 0xFF); else if (pat == 3) for (size_t i = 0; i < b.size(); i++) b[i] = (u8)i;
	return b;
}

enum { SLOT = 4096 };
static_assert(sizeof(Sha256) <= SLOT && sizeof(Sha512) <= SLOT, "slot size");

inline void exec(const Plan &p) {
	Slot slots[8];
	for (auto &s : slots) { s.mem = (u8 *)aligned_alloc(64, SLOT);  }
	u64 shape = 0; bool sawFault = false;
	auto digest = [&](Slot &s) {
		Bytes got;
		if (s.is512) { got.assign(64, 0xAA); s.h512()->getHash(got.data()); } else got = bytesOf(s.h256()->getHash());
		return got;
	};
	for (size_t i = 0; i < p.steps.size(); i++) {
		Step st = Step::parse(p.steps[i]); sim::tick();
		int si = (int)st.num("s") & 7; Slot &s = slots[si];
		shape = sim::mix64(shape ^ sim::fnv(st.op) ^ si);
		if (st.op == "open") {
			memset(s.mem, (int)st.num("junk"), SLOT); s.used = true; s.is512 = st.num("kind") == 512; s.model.clear();
			if (s.is512) new (s.mem) Sha512(); else new (s.mem) Sha256();
			sim::stat("op.open");
		} else if (st.op == "append") {
			if (!s.used) continue;
			u64 n = st.num("n"); if (n > 100000) n = 100000; Bytes d = data(st.num("data"), n, (int)st.num("pat"));
			Guard g(n); u8 *at = g.at(n, st.num("hi")); if (n) memcpy(at, d.data(), n);
			g.prot(PROT_READ);  // the source's buffer must not be written
			bool chain = st.num("chain") != 0; size_t h = chain ? n / 2 : n;
			if (s.is512) { Sha512 &q = s.h512()->append(at, h); sim::check(&q == s.h512(), "append-return", "append did not return the object"); if (chain) q.append(at + h, n - h); }
			else { Sha256 &q = s.h256()->append(at, h); sim::check(&q == s.h256(), "append-return", "append did not return the object"); if (chain) q.append(at + h, n - h); }
			std::string after = st.str("after");
			if (after == "scribble") { g.prot(PROT_READ | PROT_WRITE); memset(g.lo(), 0x5A, g.len); sim::stat("fault.buffer_reused_after_append"); sawFault = true; }
			else if (after == "unmap") { sim::stat("fault.buffer_unmapped_after_append"); sawFault = true; }
			s.model.insert(s.model.end(), d.begin(), d.end());
			shape = sim::mix64(shape ^ s.model.size() % (s.is512 ? 128 : 64)); sim::stat("op.append"); sim::stat("fault.short_read", n < 64);
		} else if (st.op == "empty") {
			if (!s.used) continue; u8 dummy = 7; const u8 *q = st.num("null") ? nullptr : &dummy;
			if (s.is512) s.h512()->append(q, 0); else s.h256()->append(q, 0);
			sim::stat("fault.empty_read"); sawFault = true;
		} else if (st.op == "bytewise") {
			if (!s.used) continue; Bytes d = data(st.num("data"), std::min<u64>(st.num("n"), 1000), 0);
			for (u8 b : d) { u8 t = b; if (s.is512) s.h512()->append(&t, 1); else s.h256()->append(&t, 1); t = 0; }
			s.model.insert(s.model.end(), d.begin(), d.end()); sim::stat("fault.one_byte_reads", d.size()); sawFault = true;
		} else if (st.op == "checkpoint") {
			int t = (int)st.num("to") & 7; if (!s.used || t == si) continue; Slot &c = slots[t]; std::string how = st.str("how");
			if (how == "assign" && c.used && c.is512 == s.is512) { if (s.is512) *c.h512() = *s.h512(); else *c.h256() = *s.h256(); }
			else {
				memset(c.mem, (int)st.num("junk"), SLOT);
				if (how == "bytes" && std::is_trivially_copyable<Sha256>::value && std::is_trivially_copyable<Sha512>::value) memcpy(c.mem, s.mem, s.is512 ? sizeof(Sha512) : sizeof(Sha256));  // both are plain values
				else if (s.is512) new (c.mem) Sha512(*s.h512()); else new (c.mem) Sha256(*s.h256());
			}
			c.used = true; c.is512 = s.is512; c.model = s.model; sim::stat("op.checkpoint");
		} else if (st.op == "crash") {
			int t = (int)st.num("restore") & 7; Slot &c = slots[t]; if (!c.used || t == si) continue;
			memset(s.mem, 0xDD, SLOT);  // the live object is gone; only the checkpoint survives
			if (c.is512) new (s.mem) Sha512(*c.h512()); else new (s.mem) Sha256(*c.h256());
			s.used = true; s.is512 = c.is512; s.model = c.model; sim::stat("fault.crash_restore"); sawFault = true;
		} else if (st.op == "other") {  // unrelated work between two appends of a stream
			std::string w = st.str("what"); u64 n = std::min<u64>(st.num("n"), 5000); Bytes m = data(st.num("data"), n, 0), k = data(st.num("data") + 1, n % 150, 0); Bytes got, want;
			if (w == "hash") { got = bytesOf(Sha256::getHash(m.data(), n)); want = ref::sha256(m); }
			else if (w == "double") { got = bytesOf(Sha256::getDoubleHash(m.data(), n)); want = ref::sha256d(m); }
			else if (w == "hmac") { got = bytesOf(Sha256::getHmac(k.data(), k.size(), m.data(), n)); want = ref::hmac256(k, m); }
			else if (w == "sha512") { got.resize(64); Sha512::getHash(m.data(), n, got.data()); want = ref::sha512(m); }
			else if (w == "hmac512") { got.resize(64); Sha512::getHmac(k.data(), k.size(), m.data(), n, got.data()); want = ref::hmac512(k, m); }
			else { Sha256 a; a.append(m.data(), n); Sha256 b(a); got = bytesOf(a.getHash()); want = ref::sha256(m); sim::check(bytesOf(b.getHash()) == want, "digest-mismatch", "copy disturbed by finishing the original"); }
			sim::check(got == want, "other-result", "interleaved " + w + " gave " + hex(got) + " want " + hex(want));
			sim::stat("op.other");
		} else if (st.op == "finish") {
			if (!s.used) continue;
			Bytes want = s.is512 ? ref::sha512(s.model) : ref::sha256(s.model);
			Bytes got = digest(s); s.used = false;
			sim::logb(got.data(), got.size()); sim::stat("op.finish"); sim::trace("finish s=%d len=%zu -> %s", si, s.model.size(), hex(got).c_str());
			sim::check(got == want, "digest-mismatch", fmt("stream %d sha%d after %zu bytes: got %s want %s", si, s.is512 ? 512 : 256, s.model.size(), hex(got).c_str(), hex(want).c_str()));
			if (sawFault) sim::stat("probe.finish_after_fault");
			size_t bl = s.is512 ? 128 : 64, rem = s.model.size() % bl;
			if (rem >= bl - (s.is512 ? 16 : 8)) sim::stat("probe.padding_spills_to_extra_block");
			if (rem == 0) sim::stat("probe.message_ends_on_block");
			if (s.model.size() > 100000) sim::stat("probe.long");
		}
	}
	sim::distinct(shape);
}

// ---- Very long streams (built without sanitizers) ----
// The message is the fixed 1 MiB pattern repeated. Digests of its prefixes were computed with Python's hashlib (tools/longvec.py).
struct LongVec { u64 len; const char *d256; const char *d512; };
extern const LongVec LONGVECS[];
extern const int NLONGVECS;

inline Plan genLong(Rng &r, u64 idx, bool thorough) {
	Plan p; p.hdr["kind"] = idx % 2 ? "512" : "256";
	u64 limit = (idx / 2) % 2 ? (1ull << 29) + 200 : (1ull << 32) + 300;
	std::vector<u64> marks; for (int i = 0; i < NLONGVECS; i++) if (LONGVECS[i].len <= limit) marks.push_back(LONGVECS[i].len);
	u64 pos = 0; bool single = (idx / 2) % 4 == 0;
	for (u64 m : marks) {
		while (pos < m) { u64 n = single ? m - pos : std::min<u64>(m - pos, r.logu(400u << 20)); p.add(fmt("append n=%llu", (unsigned long long)n)); pos += n; }
		p.add("checkpoint-finish");
	}
	if (single) { p.steps.clear(); u64 last = marks.back(); p.add(fmt("append n=%llu", (unsigned long long)last)); p.add("checkpoint-finish"); }
	return p;
}
inline void execLong(const Plan &p) {
	const u64 PAT = 1 << 20, SPAN = (1ull << 32) + (4 << 20);
	int fd = memfd_create("pattern", 0); if (fd < 0 || ftruncate(fd, PAT) != 0) { perror("memfd"); abort(); }
	u8 *base = (u8 *)mmap(nullptr, SPAN, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
	for (u64 o = 0; o < SPAN; o += PAT) if (mmap(base + o, PAT, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_FIXED, fd, 0) == MAP_FAILED) { perror("mmap"); abort(); }
	for (u64 i = 0; i < PAT; i++) base[i] = (u8)((i * i + 31 * i + (i >> 8) * 7 + (i >> 16) * 13) ^ (i >> 4));
	bool is512 = p.str("kind") == "512"; Sha256 a; Sha512 b; u64 pos = 0;
	for (auto &l : p.steps) {
		Step st = Step::parse(l);
		if (st.op == "append") { u64 n = st.num("n"); if (pos + n > SPAN - PAT) continue; if (is512) b.append(base + pos, n); else a.append(base + pos, n); pos += n; sim::tick(); sim::stat("op.append"); sim::stat("long.mebibytes", n >> 20); }
		else {
			const LongVec *v = nullptr; for (int i = 0; i < NLONGVECS; i++) if (LONGVECS[i].len == pos) v = &LONGVECS[i];
			if (!v) continue;
			Bytes got; if (is512) { Sha512 c(b); got.resize(64); c.getHash(got.data()); } else { Sha256 c(a); got = bytesOf(c.getHash()); }
			std::string want = is512 ? v->d512 : v->d256; sim::logb(got.data(), got.size()); sim::stat("probe.long_digest_checked"); sim::distinct(pos * 2 + is512);
			sim::check(hex(got) == want, "long-digest-mismatch", fmt("sha%s of %llu bytes: got %s want %s", p.str("kind").c_str(), (unsigned long long)pos, hex(got).c_str(), want.c_str()));
		}
	}
}
}
