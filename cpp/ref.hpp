// Independent reference model, written from the standards: SHA-2, RIPEMD-160, Keccak, HMAC, Base58Check, secp256k1, ECDSA, BIP-32.
// Shares no code and no algorithms with the library under test (Jacobian coordinates, 64-bit limbs, computed round constants where possible).
#pragma once
#include <cstdint>
#include <cstddef>
#include <cstring>
#include <string>
#include <vector>

namespace ref {

typedef uint8_t u8; typedef uint32_t u32; typedef uint64_t u64; typedef unsigned __int128 u128;
typedef std::vector<u8> Bytes;

// ---- SHA-2 (round constants computed from the primes) ----
inline u64 icbrt_frac(u64 p) {  // floor(2^64 * frac(cbrt(p)))
	// Find the largest x (in units of 2^-64) with x^3 <= p, by bitwise search on 67-bit x, using 256-bit arithmetic on 32-bit digits
	typedef std::vector<u64> V;
	auto mul = [](const V &a, const V &b) { V r(a.size() + b.size()); for (size_t i = 0; i < a.size(); i++) { u64 c = 0; for (size_t j = 0; j < b.size(); j++) { u64 t = r[i + j] + a[i] * b[j] + c; r[i + j] = t & 0xffffffffu; c = t >> 32; } r[i + b.size()] += c; } return r; };
	V x(3, 0);
	for (int bit = 67; bit >= 0; bit--) {
		V t = x; t[bit / 32] |= 1ull << (bit % 32);
		V c = mul(mul(t, t), t);  // in units of 2^-192
		V q(c.size(), 0); q[6] = p & 0xffffffffu;
		bool le = true; for (size_t i = c.size(); i-- > 0;) if (c[i] != q[i]) { le = c[i] < q[i]; break; }
		if (le) x = t;
	}
	return x[0] | x[1] << 32;
}
inline const u64 *sha2k() {
	static u64 k[80]; static bool done = false;
	if (!done) { int n = 0; for (u64 p = 2; n < 80; p++) { bool pr = true; for (u64 d = 2; d * d <= p; d++) if (p % d == 0) pr = false; if (pr) k[n++] = icbrt_frac(p); } done = true; }
	return k;
}
inline u32 ror32(u32 x, int n) { return x >> n | x << (32 - n); }
inline u64 ror64(u64 x, int n) { return x >> n | x << (64 - n); }

struct Sha256 {
	u32 h[8] = {0x6a09e667, 0xbb67ae85, 0x3c6ef372, 0xa54ff53a, 0x510e527f, 0x9b05688c, 0x1f83d9ab, 0x5be0cd19};
	u8 b[64]; u64 n = 0;
	void block(const u8 *p) {
		const u64 *k = sha2k(); u32 w[64];
		for (int i = 0; i < 16; i++) w[i] = (u32)p[4 * i] << 24 | (u32)p[4 * i + 1] << 16 | (u32)p[4 * i + 2] << 8 | p[4 * i + 3];
		for (int i = 16; i < 64; i++) { u32 a = w[i - 15], c = w[i - 2]; w[i] = w[i - 16] + w[i - 7] + (ror32(a, 7) ^ ror32(a, 18) ^ a >> 3) + (ror32(c, 17) ^ ror32(c, 19) ^ c >> 10); }
		u32 v[8]; memcpy(v, h, 32);
		for (int i = 0; i < 64; i++) {
			u32 t1 = v[7] + (ror32(v[4], 6) ^ ror32(v[4], 11) ^ ror32(v[4], 25)) + ((v[4] & v[5]) ^ (~v[4] & v[6])) + (u32)(k[i] >> 32) + w[i];
			u32 t2 = (ror32(v[0], 2) ^ ror32(v[0], 13) ^ ror32(v[0], 22)) + ((v[0] & v[1]) ^ (v[0] & v[2]) ^ (v[1] & v[2]));
			memmove(v + 1, v, 28); v[4] += t1; v[0] = t1 + t2;
		}
		for (int i = 0; i < 8; i++) h[i] += v[i];
	}
	void add(const void *p0, size_t len) {
		const u8 *p = (const u8 *)p0;
		while (len > 0) {
			size_t at = n & 63, k = 64 - at < len ? 64 - at : len;
			if (k == 64) block(p); else { memcpy(b + at, p, k); if (at + k == 64) block(b); }
			n += k; p += k; len -= k;
		}
	}
	Bytes fin() const {
		Sha256 t = *this; u64 bits = t.n * 8; u8 z[72] = {0x80}; size_t pad = (t.n % 64 < 56 ? 56 : 120) - t.n % 64;
		t.add(z, pad); u8 l[8]; for (int i = 0; i < 8; i++) l[i] = (u8)(bits >> (56 - 8 * i)); t.add(l, 8);
		Bytes r(32); for (int i = 0; i < 32; i++) r[i] = (u8)(t.h[i / 4] >> (24 - 8 * (i % 4))); return r;
	}
};
struct Sha512 {
	u64 h[8] = {0x6a09e667f3bcc908ull, 0xbb67ae8584caa73bull, 0x3c6ef372fe94f82bull, 0xa54ff53a5f1d36f1ull, 0x510e527fade682d1ull, 0x9b05688c2b3e6c1full, 0x1f83d9abfb41bd6bull, 0x5be0cd19137e2179ull};
	u8 b[128]; u64 n = 0;
	void block(const u8 *p) {
		const u64 *k = sha2k(); u64 w[80];
		for (int i = 0; i < 16; i++) { w[i] = 0; for (int j = 0; j < 8; j++) w[i] = w[i] << 8 | p[8 * i + j]; }
		for (int i = 16; i < 80; i++) { u64 a = w[i - 15], c = w[i - 2]; w[i] = w[i - 16] + w[i - 7] + (ror64(a, 1) ^ ror64(a, 8) ^ a >> 7) + (ror64(c, 19) ^ ror64(c, 61) ^ c >> 6); }
		u64 v[8]; memcpy(v, h, 64);
		for (int i = 0; i < 80; i++) {
			u64 t1 = v[7] + (ror64(v[4], 14) ^ ror64(v[4], 18) ^ ror64(v[4], 41)) + ((v[4] & v[5]) ^ (~v[4] & v[6])) + k[i] + w[i];
			u64 t2 = (ror64(v[0], 28) ^ ror64(v[0], 34) ^ ror64(v[0], 39)) + ((v[0] & v[1]) ^ (v[0] & v[2]) ^ (v[1] & v[2]));
			memmove(v + 1, v, 56); v[4] += t1; v[0] = t1 + t2;
		}
		for (int i = 0; i < 8; i++) h[i] += v[i];
	}
	void add(const void *p0, size_t len) {
		const u8 *p = (const u8 *)p0;
		while (len > 0) {
			size_t at = n & 127, k = 128 - at < len ? 128 - at : len;
			if (k == 128) block(p); else { memcpy(b + at, p, k); if (at + k == 128) block(b); }
			n += k; p += k; len -= k;
		}
	}
	Bytes fin() const {
		Sha512 t = *this; u64 hi = t.n >> 61, lo = t.n << 3; u8 z[136] = {0x80}; size_t pad = (t.n % 128 < 112 ? 112 : 240) - t.n % 128;
		t.add(z, pad); u8 l[16]; for (int i = 0; i < 8; i++) { l[i] = (u8)(hi >> (56 - 8 * i)); l[8 + i] = (u8)(lo >> (56 - 8 * i)); } t.add(l, 16);
		Bytes r(64); for (int i = 0; i < 64; i++) r[i] = (u8)(t.h[i / 8] >> (56 - 8 * (i % 8))); return r;
	}
};
inline Bytes sha256(const Bytes &m) { Sha256 s; s.add(m.data(), m.size()); return s.fin(); }
inline Bytes sha256d(const Bytes &m) { return sha256(sha256(m)); }
inline Bytes sha512(const Bytes &m) { Sha512 s; s.add(m.data(), m.size()); return s.fin(); }
template <class H> Bytes hmacT(size_t bl, Bytes key, const Bytes &m) {
	if (key.size() > bl) { H h; h.add(key.data(), key.size()); key = h.fin(); }
	key.resize(bl, 0); Bytes ki = key, ko = key; for (auto &x : ki) x ^= 0x36; for (auto &x : ko) x ^= 0x5c;
	H a; a.add(ki.data(), bl); a.add(m.data(), m.size()); Bytes in = a.fin(); H b; b.add(ko.data(), bl); b.add(in.data(), in.size()); return b.fin();
}
inline Bytes hmac256(const Bytes &k, const Bytes &m) { return hmacT<Sha256>(64, k, m); }
inline Bytes hmac512(const Bytes &k, const Bytes &m) { return hmacT<Sha512>(128, k, m); }

// ---- RIPEMD-160 ----
inline Bytes ripemd160(const Bytes &m) {
	static const u8 r0[16] = {0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15}, rho[16] = {7, 4, 13, 1, 10, 6, 15, 3, 12, 0, 9, 5, 2, 14, 11, 8};
	static const u8 sh[5][16] = {{11, 14, 15, 12, 5, 8, 7, 9, 11, 13, 14, 15, 6, 7, 9, 8}, {12, 13, 11, 15, 6, 9, 9, 7, 12, 15, 11, 13, 7, 8, 7, 7},
		{13, 15, 14, 11, 7, 7, 6, 8, 13, 14, 13, 12, 5, 5, 6, 9}, {14, 11, 12, 14, 8, 6, 5, 5, 15, 12, 15, 14, 9, 9, 8, 6}, {15, 12, 13, 13, 9, 5, 8, 6, 14, 11, 12, 11, 8, 6, 5, 5}};
	static const u32 kl[5] = {0, 0x5a827999, 0x6ed9eba1, 0x8f1bbcdc, 0xa953fd4e}, kr[5] = {0x50a28be6, 0x5c4dd124, 0x6d703ef3, 0x7a6d76e9, 0};
	u8 rl[5][16], rr[5][16];
	for (int i = 0; i < 16; i++) { rl[0][i] = r0[i]; rr[0][i] = (u8)((9 * i + 5) % 16); }
	for (int k = 1; k < 5; k++) for (int i = 0; i < 16; i++) { rl[k][i] = rho[rl[k - 1][i]]; rr[k][i] = rho[rr[k - 1][i]]; }
	auto f = [](int j, u32 x, u32 y, u32 z) -> u32 { switch (j) { case 0: return x ^ y ^ z; case 1: return (x & y) | (~x & z); case 2: return (x | ~y) ^ z; case 3: return (x & z) | (y & ~z); default: return x ^ (y | ~z); } };
	auto rol = [](u32 x, int n) { return x << n | x >> (32 - n); };
	Bytes p = m; p.push_back(0x80); while (p.size() % 64 != 56) p.push_back(0);
	u64 bits = (u64)m.size() * 8; for (int i = 0; i < 8; i++) p.push_back((u8)(bits >> (8 * i)));
	u32 h[5] = {0x67452301, 0xefcdab89, 0x98badcfe, 0x10325476, 0xc3d2e1f0};
	for (size_t o = 0; o < p.size(); o += 64) {
		u32 x[16]; for (int i = 0; i < 16; i++) x[i] = p[o + 4 * i] | p[o + 4 * i + 1] << 8 | p[o + 4 * i + 2] << 16 | (u32)p[o + 4 * i + 3] << 24;
		u32 L[5], R[5]; memcpy(L, h, 20); memcpy(R, h, 20);
		for (int j = 0; j < 80; j++) {
			int k = j / 16, i = j % 16;
			u32 t = rol(L[0] + f(k, L[1], L[2], L[3]) + x[rl[k][i]] + kl[k], sh[k][rl[k][i]]) + L[4]; L[0] = L[4]; L[4] = L[3]; L[3] = rol(L[2], 10); L[2] = L[1]; L[1] = t;
			t = rol(R[0] + f(4 - k, R[1], R[2], R[3]) + x[rr[k][i]] + kr[k], sh[k][rr[k][i]]) + R[4]; R[0] = R[4]; R[4] = R[3]; R[3] = rol(R[2], 10); R[2] = R[1]; R[1] = t;
		}
		u32 t = h[1] + L[2] + R[3]; h[1] = h[2] + L[3] + R[4]; h[2] = h[3] + L[4] + R[0]; h[3] = h[4] + L[0] + R[1]; h[4] = h[0] + L[1] + R[2]; h[0] = t;
	}
	Bytes r(20); for (int i = 0; i < 20; i++) r[i] = (u8)(h[i / 4] >> (8 * (i % 4))); return r;
}
inline Bytes hash160(const Bytes &m) { return ripemd160(sha256(m)); }

// ---- Keccak-256 (original padding) ----
inline Bytes keccak256(const Bytes &m) {
	u64 s[25] = {};
	auto perm = [&]() {
		u8 lf = 1;
		for (int r = 0; r < 24; r++) {
			u64 c[5]; for (int x = 0; x < 5; x++) c[x] = s[x] ^ s[x + 5] ^ s[x + 10] ^ s[x + 15] ^ s[x + 20];
			for (int x = 0; x < 5; x++) { u64 d = c[(x + 4) % 5] ^ ror64(c[(x + 1) % 5], 63); for (int y = 0; y < 25; y += 5) s[x + y] ^= d; }
			u64 t = s[1]; int x = 1, y = 0;
			for (int i = 0; i < 24; i++) { int Y = (2 * x + 3 * y) % 5; x = y; y = Y; int o = (i + 1) * (i + 2) / 2 % 64; u64 n = s[x + 5 * y]; s[x + 5 * y] = o ? ror64(t, 64 - o) : t; t = n; }
			for (int yy = 0; yy < 25; yy += 5) { u64 a[5]; memcpy(a, s + yy, 40); for (int i = 0; i < 5; i++) s[yy + i] = a[i] ^ (~a[(i + 1) % 5] & a[(i + 2) % 5]); }
			for (int j = 0; j < 7; j++) { if (lf & 1) s[0] ^= 1ull << ((1 << j) - 1); lf = (u8)((lf << 1) ^ (lf & 0x80 ? 0x71 : 0)); }
		}
	};
	Bytes p = m; p.push_back(1); while (p.size() % 136) p.push_back(0); p.back() |= 0x80;
	for (size_t o = 0; o < p.size(); o += 136) { for (int i = 0; i < 136; i++) s[i / 8] ^= (u64)p[o + i] << (8 * (i % 8)); perm(); }
	Bytes r(32); for (int i = 0; i < 32; i++) r[i] = (u8)(s[i / 8] >> (8 * (i % 8))); return r;
}

// ---- Base58 ----
static const char *const B58 = "123456789ABCDEFGHJKLMNPQRSTUVWXYZabcdefghijkmnopqrstuvwxyz";
inline std::string b58enc(const Bytes &d) {
	std::vector<u8> dig;  // little-endian base-58 digits
	for (u8 b : d) { u32 c = b; for (auto &x : dig) { c += (u32)x << 8; x = c % 58; c /= 58; } while (c) { dig.push_back(c % 58); c /= 58; } }
	std::string s; for (u8 b : d) { if (b) break; s += '1'; }
	for (size_t i = dig.size(); i-- > 0;) s += B58[dig[i]];
	return s;
}
inline bool b58dec(const std::string &s, Bytes &out) {
	std::vector<u8> by;  // little-endian bytes
	for (char ch : s) { const char *p = ch ? strchr(B58, ch) : nullptr; if (!p) return false; u32 c = (u32)(p - B58); for (auto &x : by) { c += (u32)x * 58; x = (u8)c; c >>= 8; } while (c) { by.push_back((u8)c); c >>= 8; } }
	out.clear(); for (char ch : s) { if (ch != '1') break; out.push_back(0); }
	for (size_t i = by.size(); i-- > 0;) out.push_back(by[i]);
	return true;
}
inline Bytes withCheck(Bytes p) { Bytes h = sha256d(p); p.insert(p.end(), h.begin(), h.begin() + 4); return p; }
inline std::string b58check(const Bytes &p) { return b58enc(withCheck(p)); }
inline bool b58checkDec(const std::string &s, Bytes &payload) {
	Bytes d; if (!b58dec(s, d) || d.size() < 4) return false;
	Bytes p(d.begin(), d.end() - 4); if (withCheck(p) != d) return false; payload = p; return true;
}

// ---- 256-bit numbers ----
struct U { u64 w[4]; U() : w{0, 0, 0, 0} {} explicit U(u64 a) : w{a, 0, 0, 0} {} U(u64 d, u64 c, u64 b, u64 a) : w{a, b, c, d} {} };
inline int cmp(const U &a, const U &b) { for (int i = 3; i >= 0; i--) if (a.w[i] != b.w[i]) return a.w[i] < b.w[i] ? -1 : 1; return 0; }
inline bool operator==(const U &a, const U &b) { return cmp(a, b) == 0; }
inline bool operator!=(const U &a, const U &b) { return cmp(a, b) != 0; }
inline bool operator<(const U &a, const U &b) { return cmp(a, b) < 0; }
inline bool isz(const U &a) { return !(a.w[0] | a.w[1] | a.w[2] | a.w[3]); }
inline u64 addc(U &a, const U &b) { u128 c = 0; for (int i = 0; i < 4; i++) { c += (u128)a.w[i] + b.w[i]; a.w[i] = (u64)c; c >>= 64; } return (u64)c; }
inline u64 subb(U &a, const U &b) { u64 br = 0; for (int i = 0; i < 4; i++) { u128 t = (u128)a.w[i] - b.w[i] - br; a.w[i] = (u64)t; br = (u64)(t >> 64) & 1; } return br; }
inline U fromBE(const u8 *p) { U r; for (int i = 0; i < 32; i++) r.w[(31 - i) / 8] |= (u64)p[i] << (8 * ((31 - i) % 8)); return r; }
inline U fromBE(const Bytes &b) { return fromBE(b.data()); }
inline Bytes toBE(const U &a) { Bytes r(32); for (int i = 0; i < 32; i++) r[i] = (u8)(a.w[(31 - i) / 8] >> (8 * ((31 - i) % 8))); return r; }
inline int bit(const U &a, int i) { return (int)(a.w[i / 64] >> (i % 64)) & 1; }
inline U shr1(const U &a, u64 top = 0) { U r; for (int i = 0; i < 4; i++) r.w[i] = a.w[i] >> 1 | (i < 3 ? a.w[i + 1] : top) << 63; return r; }

struct Mod {  // arithmetic modulo m = 2^256 - c
	U m, c;
	explicit Mod(const U &mm) : m(mm) { c = U(); subb(c, m); }
	U red(const U &a) const { U r = a; while (!(r < m)) subb(r, m); return r; }
	U add(const U &a, const U &b) const { U r = a; u64 k = addc(r, b); if (k || !(r < m)) subb(r, m); return r; }
	U sub(const U &a, const U &b) const { U r = a; if (subb(r, b)) addc(r, m); return r; }
	U neg(const U &a) const { return sub(U(), a); }
	U mul(const U &a, const U &b) const {
		u64 t[8] = {};
		for (int i = 0; i < 4; i++) { u128 k = 0; for (int j = 0; j < 4; j++) { k += (u128)a.w[i] * b.w[j] + t[i + j]; t[i + j] = (u64)k; k >>= 64; } t[i + 4] = (u64)k; }
		while (t[4] | t[5] | t[6] | t[7]) {
			u64 n[8] = {t[0], t[1], t[2], t[3], 0, 0, 0, 0};
			for (int i = 0; i < 4; i++) {
				u128 k = 0; for (int j = 0; j < 4; j++) { k += (u128)t[4 + i] * c.w[j] + n[i + j]; n[i + j] = (u64)k; k >>= 64; }
				for (int q = i + 4; k && q < 8; q++) { k += n[q]; n[q] = (u64)k; k >>= 64; }
			}
			memcpy(t, n, sizeof t);
		}
		U r(t[3], t[2], t[1], t[0]); return red(r);
	}
	U pow(U b, const U &e) const { U r(1); for (int i = 0; i < 256; i++) { if (bit(e, i)) r = mul(r, b); b = mul(b, b); } return r; }
	U inv(const U &a) const { U e = m; subb(e, U(2)); return pow(a, e); }
};
inline const Mod &FP() { static const Mod m(U(~0ull, ~0ull, ~0ull, 0xFFFFFFFEFFFFFC2Full)); return m; }
inline const Mod &FN() { static const Mod m(U(~0ull, 0xFFFFFFFFFFFFFFFEull, 0xBAAEDCE6AF48A03Bull, 0xBFD25E8CD0364141ull)); return m; }

struct Pt { U x, y; bool inf; Pt() : inf(true) {} Pt(const U &a, const U &b) : x(a), y(b), inf(false) {} };
inline bool operator==(const Pt &a, const Pt &b) { return a.inf ? b.inf : !b.inf && a.x == b.x && a.y == b.y; }
inline const Pt &G() { static const Pt g(U(0x79BE667EF9DCBBACull, 0x55A06295CE870B07ull, 0x029BFCDB2DCE28D9ull, 0x59F2815B16F81798ull), U(0x483ADA7726A3C465ull, 0x5DA4FBFC0E1108A8ull, 0xFD17B448A6855419ull, 0x9C47D08FFB10D4B8ull)); return g; }
struct Jac { U x, y, z; };  // affine (x/z^2, y/z^3); z = 0 is infinity
inline Jac jdbl(const Jac &p) {
	const Mod &F = FP(); if (isz(p.z) || isz(p.y)) return Jac();
	U a = F.mul(p.x, p.x), b = F.mul(p.y, p.y), c = F.mul(b, b), t = F.add(p.x, b);
	U d = F.sub(F.sub(F.mul(t, t), a), c); d = F.add(d, d); U e = F.add(F.add(a, a), a), f = F.mul(e, e);
	Jac r; r.x = F.sub(f, F.add(d, d)); U c8 = F.add(c, c); c8 = F.add(c8, c8); c8 = F.add(c8, c8);
	r.y = F.sub(F.mul(e, F.sub(d, r.x)), c8); r.z = F.mul(p.y, p.z); r.z = F.add(r.z, r.z); return r;
}
inline Jac jadd(const Jac &p, const Jac &q) {
	const Mod &F = FP(); if (isz(p.z)) return q; if (isz(q.z)) return p;
	U z1 = F.mul(p.z, p.z), z2 = F.mul(q.z, q.z), u1 = F.mul(p.x, z2), u2 = F.mul(q.x, z1), s1 = F.mul(F.mul(p.y, q.z), z2), s2 = F.mul(F.mul(q.y, p.z), z1);
	if (u1 == u2) return s1 == s2 ? jdbl(p) : Jac();
	U h = F.sub(u2, u1), r = F.sub(s2, s1), h2 = F.mul(h, h), h3 = F.mul(h2, h), v = F.mul(u1, h2);
	Jac o; o.x = F.sub(F.sub(F.mul(r, r), h3), F.add(v, v)); o.y = F.sub(F.mul(r, F.sub(v, o.x)), F.mul(s1, h3)); o.z = F.mul(F.mul(p.z, q.z), h); return o;
}
inline Jac jac(const Pt &p) { Jac j; if (!p.inf) { j.x = p.x; j.y = p.y; j.z = U(1); } return j; }
inline Pt aff(const Jac &j) { const Mod &F = FP(); if (isz(j.z)) return Pt(); U i = F.inv(j.z), i2 = F.mul(i, i); return Pt(F.mul(j.x, i2), F.mul(j.y, F.mul(i2, i))); }
inline Jac jmul(const Pt &p, const U &k) { Jac r, b = jac(p); for (int i = 255; i >= 0; i--) { r = jdbl(r); if (bit(k, i)) r = jadd(r, b); } return r; }
inline Pt mul(const Pt &p, const U &k) { return aff(jmul(p, k)); }
inline Pt add(const Pt &a, const Pt &b) { return aff(jadd(jac(a), jac(b))); }
inline Pt neg(const Pt &a) { Pt r = a; if (!r.inf) r.y = FP().neg(r.y); return r; }
inline bool onCurve(const U &x, const U &y) { const Mod &F = FP(); if (!(x < F.m) || !(y < F.m)) return false; return F.mul(y, y) == F.add(F.mul(F.mul(x, x), x), U(7)); }
inline bool liftX(const U &x, bool odd, Pt &out) {  // point with this x
	const Mod &F = FP(); if (!(x < F.m)) return false; U v = F.add(F.mul(F.mul(x, x), x), U(7)); U e = F.m; addc(e, U(1)); e = shr1(shr1(e));
	U y = F.pow(v, e); if (F.mul(y, y) != v) return false; if ((y.w[0] & 1) != (odd ? 1u : 0u)) y = F.neg(y); out = Pt(x, y); return true;
}
inline Bytes compress(const Pt &p) { Bytes r = toBE(p.x); r.insert(r.begin(), (u8)(2 + (p.y.w[0] & 1))); return r; }

// ---- ECDSA ----
struct Sig { bool ok; U r, s; };
inline Sig sign(const U &d, const Bytes &hash, const U &k) {
	const Mod &N = FN(); Sig g; g.ok = false;
	if (isz(k) || !(k < N.m)) return g;
	g.r = N.red(mul(G(), k).x); if (isz(g.r)) return g;
	U z = N.red(fromBE(hash)); g.s = N.mul(N.inv(k), N.add(z, N.mul(g.r, d))); if (isz(g.s)) return g;
	U n = N.neg(g.s); if (n < g.s) g.s = n; g.ok = true; return g;
}
inline bool verify(const Pt &q, const Bytes &hash, const U &r, const U &s) {  // q must be on the curve, not infinity
	const Mod &N = FN(); if (isz(r) || isz(s) || !(r < N.m) || !(s < N.m)) return false;
	U w = N.inv(s), u1 = N.mul(N.red(fromBE(hash)), w), u2 = N.mul(r, w);
	Pt p = aff(jadd(jmul(G(), u1), jmul(q, u2))); if (p.inf) return false;
	return N.red(p.x) == r;
}

// ---- BIP-32 ----
struct XKey { bool ok = false; U k; Bytes chain = Bytes(32, 0); u32 depth = 0, index = 0; Bytes fp = Bytes(4, 0); };
inline Bytes xpayload(const XKey &x) {
	Bytes p = {0x04, 0x88, 0xAD, 0xE4, (u8)x.depth}; p.insert(p.end(), x.fp.begin(), x.fp.end());
	for (int i = 0; i < 4; i++) p.push_back((u8)(x.index >> (24 - 8 * i)));
	p.insert(p.end(), x.chain.begin(), x.chain.end()); p.push_back(0); Bytes k = toBE(x.k); p.insert(p.end(), k.begin(), k.end()); return p;
}
inline Bytes ckdMessage(const XKey &x, const Pt &pub, u32 idx) {
	Bytes m; if (idx >> 31) { m = toBE(x.k); m.insert(m.begin(), 0); } else m = compress(pub);
	for (int i = 0; i < 4; i++) m.push_back((u8)(idx >> (24 - 8 * i))); return m;
}
inline XKey ckd(const XKey &x, u32 idx, const Bytes *forced = nullptr) {
	const Mod &N = FN(); XKey r; if (x.depth >= 255) return r;
	Pt pub = mul(G(), x.k); Bytes I = forced ? *forced : hmac512(x.chain, ckdMessage(x, pub, idx));
	U l = fromBE(I.data()); if (!(l < N.m)) return r; U c = N.add(l, x.k); if (isz(c)) return r;
	r.ok = true; r.k = c; r.chain.assign(I.begin() + 32, I.end()); r.depth = x.depth + 1; r.index = idx; Bytes h = hash160(compress(pub)); r.fp.assign(h.begin(), h.begin() + 4); return r;
}

}  // namespace ref
