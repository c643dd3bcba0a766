// A network node's library calls: one shared object per implementation, opened by cpp/nethost.cpp.
#include "lib.hpp"
#include <stdexcept>

static FieldInt fe(const u8 *b) { return FieldInt(Uint256(b)); }
static CurvePoint point(const u8 *b) { CurvePoint q(fe(b), fe(b + 32)); q.z = fe(b + 64); return q; }
static void put(u8 *o, const Uint256 &a) { Bytes b = bytesOf(a); memcpy(o, b.data(), 32); }

static int run(int op, const u8 *const *a, const int *len, u8 *out) {
	switch (op) {
		case 0: out[0] = Ecdsa::verify(point(a[0]), Sha256Hash(a[1], 32), Uint256(a[2]), Uint256(a[3])); return 1;
		case 1: { Uint256 r, s; out[0] = Ecdsa::sign(Uint256(a[0]), Sha256Hash(a[1], 32), Uint256(a[2]), r, s); put(out + 1, r); put(out + 33, s); return out[0] ? 65 : 1; }
		case 2: { Uint256 r, s; out[0] = Ecdsa::signWithHmacNonce(Uint256(a[0]), Sha256Hash(a[1], 32), r, s); put(out + 1, r); put(out + 33, s); return out[0] ? 65 : 1; }
		case 3: { Bytes b = bytesOf(CurvePoint::privateExponentToPublicPoint(Uint256(a[0]))); memcpy(out, b.data(), 96); return 96; }
		case 4: memcpy(out, Sha256::getHash(a[0], (size_t)len[0]).value, 32); return 32;
		case 5: memcpy(out, Sha256::getDoubleHash(a[0], (size_t)len[0]).value, 32); return 32;
		case 6: Sha512::getHash(a[0], (size_t)len[0], out); return 64;
		case 7: Ripemd160::getHash(a[0], (size_t)len[0], out); return 20;
		case 8: Keccak256::getHash(a[0], (size_t)len[0], out); return 32;
		case 9: memcpy(out, Sha256::getHmac(a[0], (size_t)len[0], a[1], (size_t)len[1]).value, 32); return 32;
		case 10: Sha512::getHmac(a[0], (size_t)len[0], a[1], (size_t)len[1], out); return 64;
		case 11: { char t[36]; Base58Check::pubkeyHashToBase58Check(a[0], a[1][0], t); int n = (int)strnlen(t, 36); memcpy(out, t, n); return n; }
		case 12: { std::string s((const char *)a[0], (size_t)len[0]); out[0] = Base58Check::pubkeyHashFromBase58Check(s.c_str(), out + 2, out + 1); return out[0] ? 22 : 1; }
		case 13: { char t[53]; Base58Check::privateKeyToBase58Check(Uint256(a[0]), a[1][0], a[1][1] != 0, t); int n = (int)strnlen(t, 53); memcpy(out, t, n); return n; }
		case 14: { std::string s((const char *)a[0], (size_t)len[0]); Uint256 k; bool c = false; u8 v = 0; out[0] = Base58Check::privateKeyFromBase58Check(s.c_str(), k, &v, &c); out[1] = v; out[2] = c; put(out + 3, k); return out[0] ? 35 : 1; }
		case 15: { Sha256 h; int n = len[0], m = len[1] ? n * a[1][0] / 256 : 0; h.append(a[0], (size_t)m); h.append(a[0] + m, (size_t)(n - m)); memcpy(out, h.getHash().value, 32); return 32; }
		case 16: { Sha512 h; int n = len[0], m = len[1] ? n * a[1][0] / 256 : 0; h.append(a[0], (size_t)m); h.append(a[0] + m, (size_t)(n - m)); h.getHash(out); return 64; }
	}
	return -2;
}

extern "C" __attribute__((visibility("default"))) int node_call(int op, const u8 *const *a, const int *len, u8 *out) {
	try { return run(op, a, len, out); } catch (...) { return -1; }
}
extern "C" __attribute__((visibility("default"))) int node_long(int op, const u8 *m, size_t n, const u8 *k, size_t kn, u8 *out) {
	try {
		switch (op) {
			case 4: memcpy(out, Sha256::getHash(m, n).value, 32); return 32;
			case 5: memcpy(out, Sha256::getDoubleHash(m, n).value, 32); return 32;
			case 6: Sha512::getHash(m, n, out); return 64;
			case 7: Ripemd160::getHash(m, n, out); return 20;
			case 8: Keccak256::getHash(m, n, out); return 32;
			case 9: memcpy(out, Sha256::getHmac(k, kn, m, n).value, 32); return 32;
			case 10: Sha512::getHmac(k, kn, m, n, out); return 64;
		}
	} catch (...) {}
	return -1;
}
