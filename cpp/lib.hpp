// Glue between the simulators and the library under test.
#pragma once
#include "simcore.hpp"
#include "ref.hpp"
#include "Base58Check.hpp"
#include "CurvePoint.hpp"
#include "Ecdsa.hpp"
#include "ExtendedPrivateKey.hpp"
#include "FieldInt.hpp"
#include "Keccak256.hpp"
#include "Ripemd160.hpp"
#include "Sha256.hpp"
#include "Sha256Hash.hpp"
#include "Sha512.hpp"
#include "Uint256.hpp"
#include "Utils.hpp"

using sim::u8; using sim::u32; using sim::u64; using sim::Bytes; using sim::Rng; using sim::Plan; using sim::Step; using sim::fmt; using sim::hex;

inline Uint256 toLib(const ref::U &a) { Bytes b = ref::toBE(a); return Uint256(b.data()); }
inline Uint256 toLib(const Bytes &b) { return Uint256(b.data()); }
inline Bytes bytesOf(const Uint256 &a) { Bytes r(32); for (int i = 0; i < 32; i++) r[i] = (u8)(a.value[(31 - i) / 4] >> (8 * ((31 - i) % 4))); return r; }
inline Bytes bytesOf(const FieldInt &a) { Bytes r(32); for (int i = 0; i < 32; i++) r[i] = (u8)(a.value[(31 - i) / 4] >> (8 * ((31 - i) % 4))); return r; }
inline ref::U toRef(const Uint256 &a) { return ref::fromBE(bytesOf(a)); }
inline ref::U toRef(const FieldInt &a) { return ref::fromBE(bytesOf(a)); }
inline Bytes bytesOf(const Sha256Hash &h) { return Bytes(h.value, h.value + 32); }
inline Bytes bytesOf(const CurvePoint &p) { Bytes a = bytesOf(p.x), b = bytesOf(p.y), c = bytesOf(p.z); a.insert(a.end(), b.begin(), b.end()); a.insert(a.end(), c.begin(), c.end()); return a; }
inline Bytes bytesOf(const ref::Pt &p) { ref::U x, y(1), z; if (!p.inf) { x = p.x; y = p.y; z = ref::U(1); } Bytes a = ref::toBE(x), b = ref::toBE(y), c = ref::toBE(z); a.insert(a.end(), b.begin(), b.end()); a.insert(a.end(), c.begin(), c.end()); return a; }
inline Bytes bytesOf(const ExtendedPrivateKey &k) {
	Bytes r = bytesOf(k.privateKey), p = bytesOf(k.publicKey); r.insert(r.end(), p.begin(), p.end()); r.insert(r.end(), k.chainCode, k.chainCode + 32);
	r.push_back(k.depth); for (int i = 0; i < 4; i++) r.push_back((u8)(k.index >> (24 - 8 * i))); r.insert(r.end(), k.parentPubkeyHash, k.parentPubkeyHash + 4); return r;
}
inline Bytes bytesOf(const ref::XKey &k) {  // what the library object must look like
	Bytes r = ref::toBE(k.k), p = bytesOf(k.ok ? ref::mul(ref::G(), k.k) : ref::Pt()); r.insert(r.end(), p.begin(), p.end()); r.insert(r.end(), k.chain.begin(), k.chain.end());
	r.push_back((u8)k.depth); for (int i = 0; i < 4; i++) r.push_back((u8)(k.index >> (24 - 8 * i))); r.insert(r.end(), k.fp.begin(), k.fp.end()); return r;
}

// Scalars: uniformly random ones and ones near the boundaries
inline ref::U genU(Rng &r) {
	using ref::U;
	switch (r.below(10)) {
		case 0: { static const std::vector<U> e = {U(0), U(1), U(2), U(3), U(7), U(~0ull, ~0ull, ~0ull, ~0ull), U(1ull << 63, 0, 0, 0), U(0, 0, 0, ~0ull), U(0, 0, 1, 0), U(0, 1, 0, 0), U(1, 0, 0, 0), U(0, 0, 0, 0xFFFFFFFFu), U(0, 0, 0, 0x100000000ull)}; return r.pick(e); }
		case 1: { U u = ref::FN().m; u64 d = r.below(4); if (r.chance(1, 2)) ref::addc(u, U(d)); else ref::subb(u, U(d)); return u; }
		case 2: { U u = ref::FP().m; u64 d = r.below(4); if (r.chance(1, 2)) ref::addc(u, U(d)); else ref::subb(u, U(d)); return u; }
		case 3: { U u = ref::shr1(ref::FN().m); u64 d = r.below(3); if (r.chance(1, 2)) ref::addc(u, U(d)); else ref::subb(u, U(d)); return u; }
		case 4: { U u; for (int i = 0; i < 4; i++) { u64 w = 0; for (int h = 0; h < 2; h++) { static const u32 k[] = {0, 0xFFFFFFFFu, 1, 0x80000000u, 0x7FFFFFFFu, 0xFFFFFFFEu}; w = w << 32 | (r.chance(1, 4) ? (u32)r.next() : k[r.below(6)]); } u.w[i] = w; } return u; }
		case 5: { U u; int n = (int)r.below(257); for (int i = 0; i < n; i++) { int b = i; u.w[b / 64] |= 1ull << (b % 64); } int k = (int)r.below(257); U m; for (int i = 0; i < k; i++) m.w[i / 64] |= 1ull << (i % 64); for (int i = 0; i < 4; i++) u.w[i] ^= m.w[i]; return u; }
		case 6: { U u; Bytes b = r.bytes(r.range(1, 31)); Bytes c(32, 0); std::copy(b.begin(), b.end(), c.end() - b.size()); return ref::fromBE(c); }
		default: return U(r.next(), r.next(), r.next(), r.next());
	}
}
inline ref::U genKey(Rng &r) { for (;;) { ref::U u = genU(r); if (!ref::isz(u) && u < ref::FN().m) return u; } }
inline ref::U genFieldElem(Rng &r) { for (;;) { ref::U u = genU(r); if (u < ref::FP().m) return u; } }
inline size_t genLen(Rng &r, size_t bl) {
	switch (r.below(6)) {
		case 0: return r.below(4);
		case 1: case 2: { u64 base = bl * r.below(4); u64 d = r.below(20); return r.chance(1, 2) ? base + d : base > d ? base - d : 0; }
		case 3: return r.below(bl);
		case 4: return r.below(400);
		default: return r.logu(3000);
	}
}

// Memory with inaccessible pages at both ends. Data can be pushed against either end.
struct Guard {
	u8 *base; size_t pages; size_t len;
	explicit Guard(size_t maxLen) {
		len = (maxLen + 4095) / 4096 * 4096; if (len == 0) len = 4096;
		base = (u8 *)mmap(nullptr, len + 8192, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
		if (base == MAP_FAILED) { perror("mmap"); abort(); }
		mprotect(base + 4096, len, PROT_READ | PROT_WRITE);
	}
	~Guard() { munmap(base, len + 8192); }
	u8 *lo() { return base + 4096; }
	u8 *at(size_t n, bool high) { return high ? base + 4096 + len - n : base + 4096; }  // place n bytes
	void prot(int p) { mprotect(base + 4096, len, p); }
	Guard(const Guard &) = delete;
};
