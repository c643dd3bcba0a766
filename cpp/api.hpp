// The public C++ API as a table of operations: arguments from a seed, a call through a memory provider, and the
// answer the reference model gives. Used wherever whole histories of arbitrary calls are simulated (C01, C12, C14).
#pragma once
#include "lib.hpp"
#include "eng_codec.hpp"

namespace api {

// Where a call's inputs and outputs live. Inputs are read-only to the callee; outputs start with given contents.
struct Mem {
	virtual ~Mem() {}
	virtual const u8 *in(const void *p, size_t n, size_t align) = 0;
	virtual u8 *out(const void *init, size_t n, size_t align) = 0;
	const u8 *in(const Bytes &b) { return in(b.data(), b.size(), 1); }
	const char *str(const std::string &s) { return (const char *)in(s.c_str(), s.size() + 1, 1); }
	u8 *out(size_t n) { Bytes z(n, 0xC3); return out(z.data(), n, 1); }
	// What the upper half of a register holds when a 32-bit argument is passed in it: the calling convention leaves it
	// unspecified, and compilers do leave rubbish there after narrowing a 64-bit value
	virtual u64 junk() { return 0x5A5A5A5A00000000ull; }
	template <class T> const T &cobj(const T &v) { return *(const T *)in(&v, sizeof(T), alignof(T)); }
	template <class T> T &obj(const T &v) { return *(T *)out(&v, sizeof(T), alignof(T)); }
};

struct Args { Bytes b[5]; ref::U u[5]; ref::Pt p[3]; ref::U z[3]; u64 n[6] = {0, 0, 0, 0, 0, 0}; std::string s; ref::XKey x; };

struct Op {
	const char *name; int weight; int cost;  // cost: rough work, 1 = a hash, 100 = a curve multiplication
	void (*gen)(Rng &, Args &);
	Bytes (*run)(const Args &, Mem &);
	Bytes (*want)(const Args &);
};

inline Bytes cat(std::initializer_list<Bytes> l) { Bytes r; for (auto &b : l) r.insert(r.end(), b.begin(), b.end()); return r; }
inline Bytes one(u64 v) { Bytes r; for (int i = 0; i < 8; i++) r.push_back((u8)(v >> (8 * i))); return r; }
inline Bytes txt(const std::string &s) { return Bytes(s.begin(), s.end()); }
inline FieldInt fi(const ref::U &u) { return FieldInt(toLib(u)); }
inline std::string upHex(const ref::U &u, bool up) { std::string h = hex(ref::toBE(u)); if (up) for (auto &c : h) if (c >= 'a') c -= 32; return h; }

// A library point that represents p with the projective factor z (nonzero)
inline CurvePoint pt(const ref::Pt &p, const ref::U &z) {
	CurvePoint r(CurvePoint::ZERO); const ref::Mod &F = ref::FP();
	if (p.inf) { r.y = fi(z); return r; }
	r.x = fi(F.mul(p.x, z)); r.y = fi(F.mul(p.y, z)); r.z = fi(z); return r;
}
inline Bytes canon(const CurvePoint &p) {  // the point as a mathematical value
	ref::U x = toRef(p.x), y = toRef(p.y), z = toRef(p.z); const ref::Mod &F = ref::FP();
	if (!(x < F.m) || !(y < F.m) || !(z < F.m)) return txt("coordinates out of range " + hex(bytesOf(p)));
	if (ref::isz(z)) { if (ref::isz(x) && !ref::isz(y)) return bytesOf(ref::Pt()); return txt("not a point " + hex(bytesOf(p))); }
	ref::U i = F.inv(z); return bytesOf(ref::Pt(F.mul(x, i), F.mul(y, i)));
}
inline Bytes canon(const ref::Pt &p) { return bytesOf(p); }
inline ref::U genZ(Rng &r) { for (;;) { ref::U u = r.chance(1, 3) ? ref::U(1) : genFieldElem(r); if (!ref::isz(u)) return u; } }
inline ref::Pt genPt(Rng &r, bool zeroOk = true) {
	switch (r.below(12)) {
		case 0: if (zeroOk) return ref::Pt(); return ref::G();
		case 1: return ref::G();
		case 2: return ref::neg(ref::G());
		case 3: return ref::mul(ref::G(), ref::U(r.range(1, 40)));
		case 4: case 5: { ref::Pt p; for (int i = 0; i < 60; i++) if (ref::liftX(genFieldElem(r), r.chance(1, 2), p)) return p; return ref::G(); }
		default: return ref::mul(ref::G(), genKey(r));
	}
}
inline Bytes genMsg(Rng &r) { size_t n = genLen(r, r.pick(std::vector<size_t>{64, 128, 136})); Bytes b = r.bytes(n); if (r.chance(1, 8)) std::fill(b.begin(), b.end(), r.chance(1, 2) ? 0 : 0xFF); return b; }
inline Bytes genSmallKey(Rng &r) { static const std::vector<u64> e = {0, 1, 31, 32, 33, 63, 64, 65, 66, 127, 128, 129, 130, 200}; return r.bytes(r.chance(1, 2) ? r.pick(e) : r.below(300)); }
inline Bytes b2(bool v) { return Bytes{(u8)v}; }
inline std::string rev(const Bytes &b, bool up) { Bytes c(b.rbegin(), b.rend()); std::string h = hex(c); if (up) for (auto &x : h) if (x >= 'a') x -= 32; return h; }
inline u8 cmpBits(const ref::U &a, const ref::U &b) { int c = ref::cmp(a, b); return (u8)((c == 0) | (c != 0) << 1 | (c < 0) << 2 | (c <= 0) << 3 | (c > 0) << 4 | (c >= 0) << 5); }
template <class T> u8 libCmp(const T &a, const T &b) { return (u8)((a == b) | (a != b) << 1 | (a < b) << 2 | (a <= b) << 3 | (a > b) << 4 | (a >= b) << 5); }
inline void genPair(Rng &r, Args &a, bool field) { a.u[0] = field ? genFieldElem(r) : genU(r); a.u[1] = field ? genFieldElem(r) : genU(r); if (r.chance(1, 5)) { a.u[1] = a.u[0]; if (r.chance(1, 2)) { int i = (int)r.below(256); a.u[1].w[i / 64] ^= 1ull << (i % 64); if (field && !(a.u[1] < ref::FP().m)) a.u[1] = a.u[0]; } } a.n[0] = r.below(4) != 0; }
inline ref::U shl1(const ref::U &a) { ref::U r = a; ref::addc(r, a); return r; }
inline Bytes sigBytes(bool ok, const Uint256 &r, const Uint256 &s) { return cat({b2(ok), bytesOf(r), bytesOf(s)}); }

// Signature triples for verification: honest, or altered
inline void genVerify(Rng &r, Args &a) {
	ref::U d = genKey(r); Bytes h = r.chance(1, 4) ? ref::toBE(genU(r)) : r.bytes(32); ref::Pt q = ref::mul(ref::G(), d); ref::U k = r.chance(1, 4) ? genKey(r) : ref::U(r.next(), r.next(), r.next(), r.next()); k = ref::FN().red(k);
	ref::Sig g = ref::sign(d, h, k); if (!g.ok) { g.r = ref::U(1); g.s = ref::U(1); }
	switch (r.below(10)) {
		case 0: g.s = ref::FN().neg(g.s); break;
		case 1: g.r.w[r.below(4)] ^= 1ull << r.below(64); break;
		case 2: g.s.w[r.below(4)] ^= 1ull << r.below(64); break;
		case 3: h[r.below(32)] ^= (u8)(1 << r.below(8)); break;
		case 4: q = genPt(r); break;
		case 5: { ref::U t = g.r; if (!ref::addc(t, ref::FN().m)) g.r = t; else g.r = genU(r); break; }
		case 6: g.s = genU(r); break;
		default: break;
	}
	a.p[0] = q; a.b[0] = h; a.u[0] = g.r; a.u[1] = g.s;
}

inline std::string genImport(Rng &r, int kind) { std::string tag; std::vector<std::string> prev; return codec::genString(r, kind, tag, r.chance(1, 2), prev); }
inline Bytes impWant(const std::string &api, const std::string &s) { codec::Outcome o = codec::want(api, s); Bytes r = b2(o.ok); if (o.ok) { if (api == "addr") { r.insert(r.end(), o.pkh.begin(), o.pkh.end()); r.push_back((u8)o.ver); } else if (api == "wif") { r.insert(r.end(), o.key.begin(), o.key.end()); r.push_back((u8)o.ver); r.push_back((u8)o.comp); } else r.insert(r.end(), o.x.begin(), o.x.end()); } return r; }
inline std::string cstr(const char *p, size_t cap) { const void *z = memchr(p, 0, cap); return z ? std::string(p) : "unterminated"; }
inline ExtendedPrivateKey libX(const ref::XKey &x) { return ExtendedPrivateKey(toLib(x.k), x.chain.data(), (u8)x.depth, x.index, x.fp.data()); }

// Calls x.f(y, enable) with the given bits above the enable argument
template <class R, class C, class O, class E, class Y> __attribute__((no_sanitize("undefined"))) R wide(C &x, R (C::*f)(O, E), Y &y, u64 enable) {
	R (*p)(C *, const void *, u64); memcpy(&p, &f, sizeof p); return p(&x, &y, enable);
}
template <class R, class C, class E> __attribute__((no_sanitize("undefined"))) R wide1(C &x, R (C::*f)(E), u64 enable) {
	R (*p)(C *, u64); memcpy(&p, &f, sizeof p); return p(&x, enable);
}

#define GEN [](Rng &r, Args &a)
#define RUN [](const Args &a, Mem &m) -> Bytes
#define WANT [](const Args &a) -> Bytes

inline const std::vector<Op> &ops() {
	static const std::vector<Op> t = {
		// ---- Hashing ----
		{"sha256", 3, 1, GEN { a.b[0] = genMsg(r); }, RUN { return bytesOf(Sha256::getHash(m.in(a.b[0]), a.b[0].size())); }, WANT { return ref::sha256(a.b[0]); }},
		{"sha256d", 2, 1, GEN { a.b[0] = genMsg(r); }, RUN { return bytesOf(Sha256::getDoubleHash(m.in(a.b[0]), a.b[0].size())); }, WANT { return ref::sha256d(a.b[0]); }},
		{"hmac256", 3, 2, GEN { a.b[0] = genSmallKey(r); a.b[1] = genMsg(r); }, RUN { const u8 *k = m.in(a.b[0]), *q = m.in(a.b[1]); return bytesOf(Sha256::getHmac(k, a.b[0].size(), q, a.b[1].size())); }, WANT { return ref::hmac256(a.b[0], a.b[1]); }},
		{"sha256stream", 3, 2, GEN { a.b[0] = genMsg(r); a.b[1] = genMsg(r); a.n[0] = r.next(); }, RUN {
			Sha256 &s = m.obj(Sha256()); s.append(m.in(a.b[0]), a.b[0].size()); Sha256 c(s); s.append(m.in(a.b[1]), a.b[1].size()); Bytes x = bytesOf(s.getHash()); return cat({x, bytesOf(c.getHash())}); },
			WANT { return cat({ref::sha256(cat({a.b[0], a.b[1]})), ref::sha256(a.b[0])}); }},
		{"sha256compress", 1, 1, GEN { a.b[0] = r.bytes(64); a.b[1] = r.bytes(32); }, RUN {
			u32 st[8]; for (int i = 0; i < 8; i++) st[i] = (u32)a.b[1][4 * i] << 24 | (u32)a.b[1][4 * i + 1] << 16 | (u32)a.b[1][4 * i + 2] << 8 | a.b[1][4 * i + 3];
			u32 *o = (u32 *)m.out(st, 32, 4); Sha256::compress(o, m.in(a.b[0])); Bytes x; for (int i = 0; i < 8; i++) for (int k = 3; k >= 0; k--) x.push_back((u8)(o[i] >> (8 * k))); return x; },
			WANT { ref::Sha256 s; for (int i = 0; i < 8; i++) s.h[i] = (u32)a.b[1][4 * i] << 24 | (u32)a.b[1][4 * i + 1] << 16 | (u32)a.b[1][4 * i + 2] << 8 | a.b[1][4 * i + 3]; s.block(a.b[0].data()); Bytes x; for (int i = 0; i < 8; i++) for (int k = 3; k >= 0; k--) x.push_back((u8)(s.h[i] >> (8 * k))); return x; }},
		{"sha512", 3, 1, GEN { a.b[0] = genMsg(r); }, RUN { u8 *o = m.out(64); Sha512::getHash(m.in(a.b[0]), a.b[0].size(), o); return Bytes(o, o + 64); }, WANT { return ref::sha512(a.b[0]); }},
		{"hmac512", 3, 2, GEN { a.b[0] = genSmallKey(r); a.b[1] = genMsg(r); }, RUN { u8 *o = m.out(64); const u8 *k = m.in(a.b[0]), *q = m.in(a.b[1]); Sha512::getHmac(k, a.b[0].size(), q, a.b[1].size(), o); return Bytes(o, o + 64); }, WANT { return ref::hmac512(a.b[0], a.b[1]); }},
		{"sha512stream", 2, 2, GEN { a.b[0] = genMsg(r); a.b[1] = genMsg(r); }, RUN {
			Sha512 &s = m.obj(Sha512()); u8 *o = m.out(64), *o2 = m.out(64); s.append(m.in(a.b[0]), a.b[0].size()); Sha512 c(s); s.append(m.in(a.b[1]), a.b[1].size()); s.getHash(o); c.getHash(o2); return cat({Bytes(o, o + 64), Bytes(o2, o2 + 64)}); },
			WANT { return cat({ref::sha512(cat({a.b[0], a.b[1]})), ref::sha512(a.b[0])}); }},
		{"ripemd160", 3, 1, GEN { a.b[0] = genMsg(r); }, RUN { u8 *o = m.out(20); Ripemd160::getHash(m.in(a.b[0]), a.b[0].size(), o); return Bytes(o, o + 20); }, WANT { return ref::ripemd160(a.b[0]); }},
		{"keccak256", 3, 1, GEN { a.b[0] = genMsg(r); }, RUN { u8 *o = m.out(32); Keccak256::getHash(m.in(a.b[0]), a.b[0].size(), o); return Bytes(o, o + 32); }, WANT { return ref::keccak256(a.b[0]); }},
		{"hashobj", 2, 1, GEN { a.b[0] = r.bytes(32); a.b[1] = a.b[0]; a.n[0] = r.below(3); if (a.n[0]) a.b[1][r.below(32)] ^= (u8)(1 << r.below(8)); a.n[1] = r.below(2); }, RUN {
			const Sha256Hash &x = m.cobj(Sha256Hash(m.in(a.b[0]), 32)); const Sha256Hash &y = m.cobj(Sha256Hash(m.str(rev(a.b[1], a.n[1] != 0)))); return cat({bytesOf(x), bytesOf(y), b2(x == y), b2(x != y)}); },
			WANT { return cat({a.b[0], a.b[1], b2(a.b[0] == a.b[1]), b2(a.b[0] != a.b[1])}); }},
		// ---- 256-bit integers ----
		{"u256conv", 2, 1, GEN { a.u[0] = genU(r); a.n[0] = r.below(2); a.u[1] = genFieldElem(r); }, RUN {
			Bytes be = ref::toBE(a.u[0]); const Uint256 &x = m.cobj(Uint256(m.in(be))); const Uint256 &y = m.cobj(Uint256(m.str(upHex(a.u[0], a.n[0] != 0)))); const FieldInt &f = m.cobj(FieldInt(m.str(upHex(a.u[1], a.n[0] == 0)))); Uint256 z(f); u8 *o = m.out(32); x.getBigEndianBytes(o); u8 *o2 = m.out(32); f.getBigEndianBytes(o2); return cat({bytesOf(x), bytesOf(y), bytesOf(z), Bytes(o, o + 32), Bytes(o2, o2 + 32)}); },
			WANT { Bytes x = ref::toBE(a.u[0]), f = ref::toBE(a.u[1]); return cat({x, x, f, x, f}); }},
		{"u256add", 2, 1, GEN { genPair(r, a, false); }, RUN { Uint256 &x = m.obj(toLib(a.u[0])); const Uint256 &y = m.cobj(toLib(a.u[1])); u32 c = wide(x, &Uint256::add, y, a.n[0] | m.junk()); return cat({bytesOf(x), b2(c != 0), one(c)}); }, WANT { ref::U x = a.u[0]; u64 c = 0; if (a.n[0]) c = ref::addc(x, a.u[1]); return cat({ref::toBE(x), b2(c != 0), one(c)}); }},
		{"u256sub", 2, 1, GEN { genPair(r, a, false); }, RUN { Uint256 &x = m.obj(toLib(a.u[0])); const Uint256 &y = m.cobj(toLib(a.u[1])); u32 c = wide(x, &Uint256::subtract, y, a.n[0] | m.junk()); return cat({bytesOf(x), one(c)}); }, WANT { ref::U x = a.u[0]; u64 c = 0; if (a.n[0]) c = ref::subb(x, a.u[1]); return cat({ref::toBE(x), one(c)}); }},
		{"u256shift", 1, 1, GEN { genPair(r, a, false); }, RUN { Uint256 &x = m.obj(toLib(a.u[0])); u32 c = x.shiftLeft1(); Uint256 &y = m.obj(toLib(a.u[1])); wide1(y, &Uint256::shiftRight1, a.n[0] | m.junk()); return cat({bytesOf(x), one(c), bytesOf(y)}); }, WANT { return cat({ref::toBE(shl1(a.u[0])), one(a.u[0].w[3] >> 63), ref::toBE(a.n[0] ? ref::shr1(a.u[1]) : a.u[1])}); }},
		{"u256swap", 1, 1, GEN { genPair(r, a, false); a.n[1] = r.below(2); }, RUN { Uint256 &x = m.obj(toLib(a.u[0])), &y = m.obj(toLib(a.u[1])); wide(x, &Uint256::swap, y, a.n[0] | m.junk()); Bytes p = cat({bytesOf(x), bytesOf(y)}); const Uint256 &z = m.cobj(toLib(a.u[1])); Uint256 &w = m.obj(toLib(a.u[0])); wide(w, &Uint256::replace, z, a.n[1] | m.junk()); return cat({p, bytesOf(w)}); }, WANT { Bytes x = ref::toBE(a.u[0]), y = ref::toBE(a.u[1]); return cat({a.n[0] ? y : x, a.n[0] ? x : y, a.n[1] ? y : x}); }},
		{"u256cmp", 2, 1, GEN { genPair(r, a, false); }, RUN { const Uint256 &x = m.cobj(toLib(a.u[0])), &y = m.cobj(toLib(a.u[1])); return Bytes{libCmp(x, y), libCmp(y, x)}; }, WANT { return Bytes{cmpBits(a.u[0], a.u[1]), cmpBits(a.u[1], a.u[0])}; }},
		{"u256recip", 1, 15, GEN { a.n[0] = r.below(2); const ref::Mod &M = a.n[0] ? ref::FN() : ref::FP(); a.u[0] = M.red(genU(r)); }, RUN { Uint256 &x = m.obj(toLib(a.u[0])); const Uint256 &M = m.cobj(toLib((a.n[0] ? ref::FN() : ref::FP()).m)); x.reciprocal(M); return bytesOf(x); }, WANT { return ref::toBE((a.n[0] ? ref::FN() : ref::FP()).inv(a.u[0])); }},
		// ---- Field ----
		{"field", 4, 1, GEN { genPair(r, a, true); }, RUN {
			const FieldInt &y = m.cobj(fi(a.u[1])); FieldInt &x = m.obj(fi(a.u[0])); Bytes o; auto put = [&]() { o = cat({o, bytesOf(x)}); };
			x.multiply(y); put(); x.square(); put(); x.add(y); put(); x.multiply2(); put(); x.subtract(y); put(); wide(x, &FieldInt::replace, y, a.n[0] | m.junk()); put(); x.multiply(fi(a.u[0])); put(); return o; },
			WANT { const ref::Mod &F = ref::FP(); Bytes o; ref::U x = a.u[0], y = a.u[1]; auto put = [&]() { o = cat({o, ref::toBE(x)}); }; x = F.mul(x, y); put(); x = F.mul(x, x); put(); x = F.add(x, y); put(); x = F.add(x, x); put(); x = F.sub(x, y); put(); if (a.n[0]) x = y; put(); x = F.mul(x, a.u[0]); put(); return o; }},
		{"fieldone", 3, 1, GEN { genPair(r, a, true); a.n[1] = r.below(5); }, RUN { FieldInt &x = m.obj(fi(a.u[0])); const FieldInt &y = m.cobj(fi(a.u[1])); switch (a.n[1]) { case 0: x.add(y); break; case 1: x.subtract(y); break; case 2: x.multiply(y); break; case 3: x.square(); break; default: x.multiply2(); } return bytesOf(x); },
			WANT { const ref::Mod &F = ref::FP(); ref::U x = a.u[0], y = a.u[1]; switch (a.n[1]) { case 0: x = F.add(x, y); break; case 1: x = F.sub(x, y); break; case 2: x = F.mul(x, y); break; case 3: x = F.mul(x, x); break; default: x = F.add(x, x); } return ref::toBE(x); }},
		{"fieldcmp", 1, 1, GEN { genPair(r, a, true); a.u[2] = genU(r); }, RUN { const FieldInt &x = m.cobj(fi(a.u[0])), &y = m.cobj(fi(a.u[1])); const Uint256 &w = m.cobj(toLib(a.u[2])); FieldInt z(w); return cat({Bytes{libCmp(x, y), libCmp(y, x)}, bytesOf(z)}); }, WANT { return cat({Bytes{cmpBits(a.u[0], a.u[1]), cmpBits(a.u[1], a.u[0])}, ref::toBE(ref::FP().red(a.u[2]))}); }},
		{"fieldrecip", 1, 15, GEN { a.u[0] = genFieldElem(r); }, RUN { FieldInt &x = m.obj(fi(a.u[0])); x.reciprocal(); return bytesOf(x); }, WANT { return ref::toBE(ref::FP().inv(a.u[0])); }},
		// ---- Curve ----
		{"ptadd", 2, 2, GEN { a.p[0] = genPt(r); a.p[1] = genPt(r); switch (r.below(5)) { case 0: a.p[1] = a.p[0]; break; case 1: a.p[1] = ref::neg(a.p[0]); break; default: break; } a.z[0] = genZ(r); a.z[1] = genZ(r); }, RUN { CurvePoint &x = m.obj(pt(a.p[0], a.z[0])); const CurvePoint &y = m.cobj(pt(a.p[1], a.z[1])); x.add(y); return cat({canon(x), b2(x.isZero())}); }, WANT { ref::Pt p = ref::add(a.p[0], a.p[1]); return cat({canon(p), b2(p.inf)}); }},
		{"pttwice", 1, 2, GEN { a.p[0] = genPt(r); a.z[0] = genZ(r); }, RUN { CurvePoint &x = m.obj(pt(a.p[0], a.z[0])); bool z = x.isZero(); x.twice(); return cat({canon(x), b2(z)}); }, WANT { return cat({canon(ref::add(a.p[0], a.p[0])), b2(a.p[0].inf)}); }},
		{"ptmul", 2, 100, GEN { a.p[0] = genPt(r); a.z[0] = genZ(r); a.u[0] = genU(r); }, RUN { CurvePoint &x = m.obj(pt(a.p[0], a.z[0])); const Uint256 &n = m.cobj(toLib(a.u[0])); x.multiply(n); return canon(x); }, WANT { return canon(ref::mul(a.p[0], a.u[0])); }},
		{"ptnorm", 2, 15, GEN { a.p[0] = genPt(r); a.z[0] = genZ(r); a.p[1] = genPt(r); a.n[0] = r.below(2); }, RUN {
			CurvePoint &x = m.obj(pt(a.p[0], a.z[0])); x.normalize(); Bytes o = bytesOf(x); const CurvePoint &c = m.cobj(x); bool on = c.isOnCurve(); const CurvePoint &y = m.cobj(pt(a.p[1], ref::U(1))); bool eq = c == y, ne = c != y; u8 *q = m.out(33); if (!a.p[0].inf) c.toCompressedPoint(q); CurvePoint &w = m.obj(c); wide(w, &CurvePoint::replace, y, a.n[0] | m.junk()); return cat({o, b2(on), b2(eq), b2(ne), a.p[0].inf ? Bytes() : Bytes(q, q + 33), bytesOf(w)}); },
			WANT { ref::Pt p = a.p[0], y = a.p[1]; return cat({bytesOf(p), b2(!p.inf), b2(p == y), b2(!(p == y)), p.inf ? Bytes() : ref::compress(p), bytesOf(a.n[0] ? y : p)}); }},
		{"oncurve", 1, 2, GEN { a.p[0] = genPt(r, false); a.u[0] = a.p[0].x; a.u[1] = a.p[0].y; if (r.chance(2, 3)) { int i = (int)r.below(255); a.u[r.below(2)].w[i / 64] ^= 1ull << (i % 64); } a.u[0] = ref::FP().red(a.u[0]); a.u[1] = ref::FP().red(a.u[1]); }, RUN { const CurvePoint &x = m.cobj(CurvePoint(fi(a.u[0]), fi(a.u[1]))); const char *sx = m.str(upHex(a.u[0], true)), *sy = m.str(upHex(a.u[1], false)); CurvePoint y(sx, sy); return cat({bytesOf(x), b2(x.isOnCurve()), b2(y == x)}); }, WANT { return cat({bytesOf(ref::Pt(a.u[0], a.u[1])), b2(ref::onCurve(a.u[0], a.u[1])), b2(true)}); }},
		{"pubkey", 3, 100, GEN { a.u[0] = genKey(r); }, RUN { const Uint256 &k = m.cobj(toLib(a.u[0])); return bytesOf(CurvePoint::privateExponentToPublicPoint(k)); }, WANT { return bytesOf(ref::mul(ref::G(), a.u[0])); }},
		// ---- ECDSA ----
		{"sign", 3, 140, GEN { a.u[0] = genKey(r); a.b[0] = r.chance(1, 4) ? ref::toBE(genU(r)) : r.bytes(32); a.u[1] = r.chance(1, 5) ? genU(r) : genKey(r); }, RUN {
			const Uint256 &d = m.cobj(toLib(a.u[0])), &k = m.cobj(toLib(a.u[1])); const Sha256Hash &h = m.cobj(Sha256Hash(a.b[0].data(), 32)); Uint256 &R = m.obj(Uint256::ONE), &S = m.obj(Uint256::ZERO); bool ok = Ecdsa::sign(d, h, k, R, S); return sigBytes(ok, R, S); },
			WANT { ref::Sig g = ref::sign(a.u[0], a.b[0], a.u[1]); return g.ok ? cat({b2(true), ref::toBE(g.r), ref::toBE(g.s)}) : cat({b2(false), ref::toBE(ref::U(1)), ref::toBE(ref::U())}); }},
		{"signhmac", 3, 140, GEN { a.u[0] = genKey(r); a.b[0] = r.bytes(32); }, RUN {
			const Uint256 &d = m.cobj(toLib(a.u[0])); const Sha256Hash &h = m.cobj(Sha256Hash(a.b[0].data(), 32)); Uint256 &R = m.obj(Uint256::ONE), &S = m.obj(Uint256::ZERO); bool ok = Ecdsa::signWithHmacNonce(d, h, R, S); return sigBytes(ok, R, S); },
			WANT { ref::U k = ref::fromBE(ref::hmac256(ref::toBE(a.u[0]), a.b[0])); ref::Sig g = ref::sign(a.u[0], a.b[0], k); return g.ok ? cat({b2(true), ref::toBE(g.r), ref::toBE(g.s)}) : cat({b2(false), ref::toBE(ref::U(1)), ref::toBE(ref::U())}); }},
		{"verify", 4, 260, GEN { genVerify(r, a); }, RUN { const CurvePoint &q = m.cobj(pt(a.p[0], ref::U(1))); const Sha256Hash &h = m.cobj(Sha256Hash(a.b[0].data(), 32)); const Uint256 &R = m.cobj(toLib(a.u[0])), &S = m.cobj(toLib(a.u[1])); return b2(Ecdsa::verify(q, h, R, S)); }, WANT { return b2(!a.p[0].inf && ref::verify(a.p[0], a.b[0], a.u[0], a.u[1])); }},
		// ---- Base58Check and extended keys ----
		{"addrenc", 3, 3, GEN { a.b[0] = codec::genHash20(r); a.n[0] = codec::genVer(r); }, RUN { char *o = (char *)m.out(36); Base58Check::pubkeyHashToBase58Check(m.in(a.b[0]), (u8)a.n[0], o); return txt(cstr(o, 36)); }, WANT { return txt(ref::b58check(cat({Bytes{(u8)a.n[0]}, a.b[0]}))); }},
		{"wifenc", 3, 3, GEN { a.u[0] = genU(r); a.n[0] = codec::genVer(r); a.n[1] = r.below(2); }, RUN { char *o = (char *)m.out(53); const Uint256 &k = m.cobj(toLib(a.u[0])); Base58Check::privateKeyToBase58Check(k, (u8)a.n[0], a.n[1] != 0, o); return txt(cstr(o, 53)); }, WANT { return txt(ref::b58check(cat({Bytes{(u8)a.n[0]}, ref::toBE(a.u[0]), a.n[1] ? Bytes{1} : Bytes()}))); }},
		{"xprvenc", 2, 105, GEN { a.x = codec::genX(r); }, RUN { char *o = (char *)m.out(112); const ExtendedPrivateKey &k = m.cobj(libX(a.x)); Base58Check::extendedPrivateKeyToBase58Check(k, o); return txt(cstr(o, 112)); }, WANT { return txt(ref::b58check(ref::xpayload(a.x))); }},
		{"addrdec", 3, 3, GEN { a.s = genImport(r, 0); }, RUN { u8 *h = m.out(20), *v = m.out(1); bool ok = Base58Check::pubkeyHashFromBase58Check(m.str(a.s), h, v); Bytes o = b2(ok); if (ok) o = cat({o, Bytes(h, h + 20), Bytes(v, v + 1)}); return o; }, WANT { return impWant("addr", a.s); }},
		{"wifdec", 3, 3, GEN { a.s = genImport(r, 1); }, RUN { Uint256 &k = m.obj(Uint256::ZERO); u8 *v = m.out(1); bool &c = m.obj(false); bool ok = Base58Check::privateKeyFromBase58Check(m.str(a.s), k, v, &c); Bytes o = b2(ok); if (ok) o = cat({o, bytesOf(k), Bytes(v, v + 1), b2(c)}); return o; }, WANT { return impWant("wif", a.s); }},
		{"xprvdec", 2, 60, GEN { a.s = genImport(r, 2); }, RUN { ExtendedPrivateKey &k = m.obj(ExtendedPrivateKey()); bool ok = Base58Check::extendedPrivateKeyFromBase58Check(m.str(a.s), k); return cat({b2(ok), ok ? bytesOf(k) : Bytes()}); }, WANT { return impWant("xprv", a.s); }},
		{"xchild", 3, 205, GEN { a.x = codec::genX(r); a.n[0] = r.chance(1, 2) ? r.below(4) | r.below(2) << 31 : (u32)r.next(); }, RUN {
			const Uint256 &k = m.cobj(toLib(a.x.k)); const u8 *c = m.in(a.x.chain), *f = m.in(a.x.fp); const ExtendedPrivateKey &x = m.cobj(ExtendedPrivateKey(k, c, (u8)a.x.depth, a.x.index, f)); return bytesOf(x.getChildKey((u32)a.n[0])); },
			WANT { return bytesOf(ref::ckd(a.x, (u32)a.n[0])); }},
		{"xdeep", 1, 1, GEN { a.x = codec::genX(r); a.n[0] = (u32)r.next(); }, RUN {  // refused: the child's depth is not representable
			ExtendedPrivateKey v; v.privateKey = toLib(a.x.k); v.publicKey = CurvePoint::G; memcpy(v.chainCode, a.x.chain.data(), 32); v.depth = 255; v.index = a.x.index; memcpy(v.parentPubkeyHash, a.x.fp.data(), 4); const ExtendedPrivateKey &x = m.cobj(v); return bytesOf(x.getChildKey((u32)a.n[0])); },
			WANT { ref::XKey x = a.x; x.depth = 255; return bytesOf(ref::ckd(x, (u32)a.n[0])); }},
		// ---- Utilities ----
		{"alias", 1, 3, GEN { a.u[0] = genU(r); a.u[1] = genFieldElem(r); a.p[0] = genPt(r); a.z[0] = genZ(r); a.n[0] = r.below(2); }, RUN {  // an operand that is the object itself
			Uint256 &z = m.obj(toLib(a.u[0])), &w = m.obj(toLib(a.u[0])); u32 en = (u32)a.n[0]; z.swap(z, en); w.replace(w, en);
			Bytes o = cat({bytesOf(z), bytesOf(w), Bytes{libCmp(w, w)}});
			FieldInt &g = m.obj(fi(a.u[1])), &h = m.obj(fi(a.u[1])); g.multiply(g); h.replace(h, en); o = cat({o, bytesOf(g), bytesOf(h), Bytes{libCmp(h, h)}});
			CurvePoint &p = m.obj(pt(a.p[0], a.z[0])), &q = m.obj(pt(a.p[0], a.z[0])); p.add(p); q.replace(q, en); return cat({o, canon(p), canon(q), b2(q == q)}); },
			WANT { const ref::Mod &F = ref::FP(); ref::U e = a.u[1]; return cat({ref::toBE(a.u[0]), ref::toBE(a.u[0]), Bytes{cmpBits(a.u[0], a.u[0])}, ref::toBE(F.mul(e, e)), ref::toBE(e), Bytes{cmpBits(e, e)}, canon(ref::add(a.p[0], a.p[0])), canon(a.p[0]), b2(true)}); }},
		{"overlap", 1, 1, GEN { a.b[0] = r.bytes(r.below(200)); u64 l = a.b[0].size(); a.n[0] = r.below(l + 1); a.n[1] = r.chance(1, 2) ? r.below(l + 1) : std::min<u64>(l, a.n[0] + r.below(9)); a.n[2] = r.below(l - std::max(a.n[0], a.n[1]) + 1); }, RUN { u8 *d = m.out(a.b[0].data(), a.b[0].size(), 1); Utils::copyBytes(d + a.n[0], d + a.n[1], a.n[2]); Utils::copyBytes(nullptr, nullptr, 0); return Bytes(d, d + a.b[0].size()); },
			WANT { Bytes d = a.b[0]; for (u64 i = 0; i < a.n[2]; i++) d[a.n[0] + i] = a.b[0][a.n[1] + i]; return d; }},
		{"utils", 1, 1, GEN { a.n[0] = r.next(); a.b[0] = r.bytes(r.below(70)); a.n[1] = r.chance(1, 4) ? r.next() : r.below(256); }, RUN { u8 *o = m.out(4); Utils::storeBigUint32((u32)a.n[0], o); u8 *d = m.out(a.b[0].size()); Utils::copyBytes(d, m.in(a.b[0]), a.b[0].size()); return cat({Bytes(o, o + 4), Bytes(d, d + a.b[0].size()), one((u64)Utils::parseHexDigit((int)a.n[1]))}); }, WANT {
			u32 v = (u32)a.n[0]; int c = (int)a.n[1], h = c >= '0' && c <= '9' ? c - '0' : c >= 'a' && c <= 'f' ? c - 'a' + 10 : c >= 'A' && c <= 'F' ? c - 'A' + 10 : -1; return cat({Bytes{(u8)(v >> 24), (u8)(v >> 16), (u8)(v >> 8), (u8)v}, a.b[0], one((u64)h)}); }},
	};
	return t;
}
#undef GEN
#undef RUN
#undef WANT

inline const Op *find(const std::string &n) { for (auto &o : ops()) if (n == o.name) return &o; return nullptr; }
inline const Op &pickOp(Rng &r, int maxCost) {
	int tot = 0; for (auto &o : ops()) if (o.cost <= maxCost) tot += o.weight;
	int k = (int)r.below(tot); for (auto &o : ops()) if (o.cost <= maxCost) { k -= o.weight; if (k < 0) return o; } return ops()[0];
}
// near: draw * 256 + kind; the arguments of that seed with one random draw altered (a bit, or all of it)
inline Args args(const Op &o, u64 seed, u64 near = 0) {
	Rng r(sim::mix64(seed ^ sim::fnv(o.name, strlen(o.name)))); u64 k = near & 255; r.at = near >> 8; r.flip = k < 64 ? 1ull << k : sim::mix64(near); Args a; o.gen(r, a); return a;
}
inline Args args(const Op &o, const sim::Step &s) { return args(o, s.num("args"), s.num("near")); }
inline std::string genNear(Rng &r) { return fmt(" near=%llu", (unsigned long long)(r.logu(300) << 8 | (r.chance(1, 2) ? r.below(8) : r.below(96)))); }

}  // namespace api
