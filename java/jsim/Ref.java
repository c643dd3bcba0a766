package jsim;

import java.math.BigInteger;
import java.security.MessageDigest;
import java.util.*;
import javax.crypto.Mac;
import javax.crypto.spec.SecretKeySpec;

/** The reference model in Java, on top of BigInteger and the JDK's digests; shares nothing with the code under test. */
public final class Ref {
	public static final BigInteger P = new BigInteger("FFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFEFFFFFC2F", 16);
	public static final BigInteger N = new BigInteger("FFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFEBAAEDCE6AF48A03BBFD25E8CD0364141", 16);
	public static final BigInteger R = BigInteger.ONE.shiftLeft(256);
	static final BigInteger ZERO = BigInteger.ZERO, ONE = BigInteger.ONE, SEVEN = BigInteger.valueOf(7);
	public static BigInteger b(long v) { return BigInteger.valueOf(v); }

	/** An affine point, or infinity. */
	public static final class Pt {
		public final BigInteger x, y; public final boolean inf;
		public Pt(BigInteger x, BigInteger y) { this.x = x; this.y = y; inf = false; }
		Pt() { x = y = null; inf = true; }
		public Pt neg() { return inf ? this : new Pt(x, P.subtract(y).mod(P)); }
		public boolean equals(Object o) { Pt q = (Pt)o; return inf ? q.inf : !q.inf && x.equals(q.x) && y.equals(q.y); }
		public int hashCode() { return inf ? 0 : x.hashCode(); }
	}
	public static final Pt INF = new Pt(), G = new Pt(new BigInteger("79BE667EF9DCBBAC55A06295CE870B07029BFCDB2DCE28D959F2815B16F81798", 16), new BigInteger("483ADA7726A3C4655DA4FBFC0E1108A8FD17B448A68554199C47D08FFB10D4B8", 16));

	public static Pt add(Pt a, Pt c) {
		if (a.inf) return c; if (c.inf) return a;
		BigInteger l;
		if (a.x.equals(c.x)) {
			if (a.y.add(c.y).mod(P).signum() == 0) return INF;
			l = a.x.multiply(a.x).multiply(b(3)).multiply(a.y.shiftLeft(1).modInverse(P)).mod(P);
		} else l = c.y.subtract(a.y).multiply(c.x.subtract(a.x).mod(P).modInverse(P)).mod(P);
		BigInteger x = l.multiply(l).subtract(a.x).subtract(c.x).mod(P);
		return new Pt(x, l.multiply(a.x.subtract(x)).subtract(a.y).mod(P));
	}
	// Jacobian double-and-add, one inversion at the end
	public static Pt mul(Pt p, BigInteger k) {
		if (p.inf || k.signum() == 0) return INF;
		BigInteger X = null, Y = null, Z = null;  // null = infinity
		for (int i = k.bitLength() - 1; i >= 0; i--) {
			if (Z != null) {
				if (Y.signum() == 0) { Z = null; }
				else {
					BigInteger A = X.multiply(X).mod(P), B = Y.multiply(Y).mod(P), C = B.multiply(B).mod(P), D = X.multiply(B).shiftLeft(2).mod(P), E = A.multiply(b(3));
					BigInteger X3 = E.multiply(E).subtract(D.shiftLeft(1)).mod(P); Z = Y.multiply(Z).shiftLeft(1).mod(P); Y = E.multiply(D.subtract(X3)).subtract(C.shiftLeft(3)).mod(P); X = X3;
				}
			}
			if (k.testBit(i)) {
				if (Z == null) { X = p.x; Y = p.y; Z = ONE; continue; }
				BigInteger zz = Z.multiply(Z).mod(P), U = p.x.multiply(zz).mod(P), S = p.y.multiply(zz).multiply(Z).mod(P), H = U.subtract(X).mod(P), r = S.subtract(Y).mod(P);
				if (H.signum() == 0) {
					if (r.signum() == 0) { Pt q = aff(X, Y, Z); q = add(q, q); if (q.inf) Z = null; else { X = q.x; Y = q.y; Z = ONE; } } else Z = null;
					continue;
				}
				BigInteger hh = H.multiply(H).mod(P), hhh = hh.multiply(H).mod(P), V = X.multiply(hh).mod(P);
				BigInteger X3 = r.multiply(r).subtract(hhh).subtract(V.shiftLeft(1)).mod(P); Y = r.multiply(V.subtract(X3)).subtract(Y.multiply(hhh)).mod(P); X = X3; Z = Z.multiply(H).mod(P);
			}
		}
		return Z == null ? INF : aff(X, Y, Z);
	}
	static Pt aff(BigInteger X, BigInteger Y, BigInteger Z) { BigInteger i = Z.modInverse(P), i2 = i.multiply(i).mod(P); return new Pt(X.multiply(i2).mod(P), Y.multiply(i2).multiply(i).mod(P)); }
	public static boolean onCurve(BigInteger x, BigInteger y) { return x.multiply(x).multiply(x).add(SEVEN).subtract(y.multiply(y)).mod(P).signum() == 0; }
	public static Pt liftX(BigInteger x, boolean odd) {
		BigInteger v = x.multiply(x).multiply(x).add(SEVEN).mod(P), y = v.modPow(P.add(ONE).shiftRight(2), P);
		if (!y.multiply(y).mod(P).equals(v)) return null;
		if (y.testBit(0) != odd) y = P.subtract(y).mod(P);
		return new Pt(x, y);
	}

	public static BigInteger sqrt(BigInteger v) { v = v.mod(P); BigInteger y = v.modPow(P.add(ONE).shiftRight(2), P); return y.multiply(y).mod(P).equals(v) ? y : null; }
	public static Pt liftY(BigInteger y) { BigInteger c = y.multiply(y).subtract(SEVEN).mod(P), x = c.modPow(P.add(b(2)).divide(b(9)), P); return x.modPow(b(3), P).equals(c) ? new Pt(x, y) : null; }
	/** A point with a coordinate whose square, divided by the prime, gives a quotient with runs of zeros or ones. */
	static Pt genQuotient(Sim.Rng r) {
		BigInteger q = new BigInteger(1, r.bytes(32)); int low = 32 * r.range(1, 6); BigInteger top = q.shiftRight(low), u = b(r.below(0x500) - (r.chance(1, 2) ? 0x400 : 0));
		switch (r.below(3)) { case 0: q = top.shiftLeft(low).add(u); break; case 1: q = top.shiftLeft(low).subtract(u); break; default: q = top.shiftLeft(low).add(q.shiftRight(224)).add(u); }
		if (q.signum() < 0 || q.compareTo(P) >= 0) return null;
		BigInteger v = q.multiply(P).sqrt().add(b(r.below(2))); if (v.compareTo(P) >= 0) return null;
		Pt p = r.chance(1, 2) ? liftX(v, r.chance(1, 2)) : liftY(v); return p != null && onCurve(p.x, p.y) ? p : null;
	}
	/** A point with a coordinate, or the square of one, that is unusual to compute with. */
	public static Pt genExtreme(Sim.Rng r) {
		for (int i = 0; i < 200; i++) {
			if (r.chance(1, 4)) { Pt q = genQuotient(r); if (q != null) return q; continue; }
			BigInteger v = JApi.genF(r); if (r.chance(1, 5)) v = P.subtract(b(1 + r.below(1000))); if (r.chance(1, 3)) { v = sqrt(v); if (v == null) continue; if (r.chance(1, 2)) v = P.subtract(v).mod(P); }
			Pt q = r.chance(1, 2) ? liftX(v, r.chance(1, 2)) : liftY(v); if (q != null && onCurve(q.x, q.y)) return q;
		}
		return G;
	}

	// ---- Signatures ----
	/** {r, s}, or null when the nonce cannot be used. */
	public static BigInteger[] sign(BigInteger d, byte[] h, BigInteger k) {
		if (k.signum() <= 0 || k.compareTo(N) >= 0) return null;
		BigInteger r = mul(G, k).x.mod(N); if (r.signum() == 0) return null;
		BigInteger s = k.modInverse(N).multiply(new BigInteger(1, h).add(r.multiply(d))).mod(N); if (s.signum() == 0) return null;
		return new BigInteger[]{r, s.min(N.subtract(s))};
	}
	public static boolean verify(Pt q, byte[] h, BigInteger r, BigInteger s) {
		if (q.inf || !onCurve(q.x, q.y) || r.signum() <= 0 || s.signum() <= 0 || r.compareTo(N) >= 0 || s.compareTo(N) >= 0) return false;
		BigInteger w = s.modInverse(N), u1 = new BigInteger(1, h).multiply(w).mod(N), u2 = r.multiply(w).mod(N);
		Pt p = add(mul(G, u1), mul(q, u2));
		return !p.inf && p.x.mod(N).equals(r);
	}

	// ---- Bytes ----
	public static byte[] be(BigInteger v, int n) { byte[] t = v.toByteArray(), r = new byte[n]; for (int i = 0; i < n && i < t.length; i++) r[n - 1 - i] = t[t.length - 1 - i]; return r; }
	public static byte[] be(BigInteger v) { return be(v, 32); }
	public static byte[] cat(byte[]... a) { int n = 0; for (byte[] x : a) n += x.length; byte[] r = new byte[n]; n = 0; for (byte[] x : a) { System.arraycopy(x, 0, r, n, x.length); n += x.length; } return r; }

	// ---- Hashes ----
	static byte[] md(String alg, byte[] m) { try { return MessageDigest.getInstance(alg).digest(m); } catch (Exception e) { throw new Error(e); } }
	public static byte[] sha256(byte[] m) { return md("SHA-256", m); }
	public static byte[] sha512(byte[] m) { return md("SHA-512", m); }
	public static byte[] sha256d(byte[] m) { return sha256(sha256(m)); }
	static byte[] hmac(String alg, int block, byte[] k, byte[] m) {
		if (k.length > block) k = md(alg, k);
		byte[] a = Arrays.copyOf(k, block), o = a.clone(); for (int i = 0; i < block; i++) { a[i] ^= 0x36; o[i] ^= 0x5C; }
		return md(alg, cat(o, md(alg, cat(a, m))));
	}
	public static byte[] hmac256(byte[] k, byte[] m) { return hmac("SHA-256", 64, k, m); }
	public static byte[] hmac512(byte[] k, byte[] m) { return hmac("SHA-512", 128, k, m); }

	public static byte[] keccak256(byte[] m) {
		int n = (m.length / 136 + 1) * 136; byte[] q = Arrays.copyOf(m, n); q[m.length] ^= 1; q[n - 1] ^= (byte)0x80;
		long[] A = new long[25];
		for (int o = 0; o < n; o += 136) {
			for (int i = 0; i < 136; i++) A[i / 8] ^= (q[o + i] & 0xFFL) << (i % 8 * 8);
			int lfsr = 1;
			for (int rnd = 0; rnd < 24; rnd++) {
				long[] C = new long[5], B = new long[25];
				for (int x = 0; x < 5; x++) C[x] = A[x] ^ A[x + 5] ^ A[x + 10] ^ A[x + 15] ^ A[x + 20];
				for (int x = 0; x < 5; x++) { long d = C[(x + 4) % 5] ^ Long.rotateLeft(C[(x + 1) % 5], 1); for (int y = 0; y < 5; y++) A[x + 5 * y] ^= d; }
				int x = 1, y = 0; B[0] = A[0];
				for (int t = 0; t < 24; t++) { int ny = (2 * x + 3 * y) % 5; B[y + 5 * ny] = Long.rotateLeft(A[x + 5 * y], (t + 1) * (t + 2) / 2 % 64); x = y; y = ny; }
				for (int i = 0; i < 25; i++) A[i] = B[i] ^ (~B[i / 5 * 5 + (i + 1) % 5] & B[i / 5 * 5 + (i + 2) % 5]);
				for (int j = 0; j < 7; j++) { if ((lfsr & 1) != 0) A[0] ^= 1L << ((1 << j) - 1); lfsr = lfsr << 1 ^ ((lfsr & 0x80) != 0 ? 0x171 : 0); }
			}
		}
		byte[] r = new byte[32]; for (int i = 0; i < 32; i++) r[i] = (byte)(A[i / 8] >>> (i % 8 * 8)); return r;
	}

	private static final int[] PERM = {7, 4, 13, 1, 10, 6, 15, 3, 12, 0, 9, 5, 2, 14, 11, 8};
	private static final String[] ROT = {"11 14 15 12 5 8 7 9 11 13 14 15 6 7 9 8", "12 13 11 15 6 9 9 7 12 15 11 13 7 8 7 7", "13 15 14 11 7 7 6 8 13 14 13 12 5 5 6 9", "14 11 12 14 8 6 5 5 15 12 15 14 9 9 8 6", "15 12 13 13 9 5 8 6 14 11 12 11 8 6 5 5"};
	public static byte[] ripemd160(byte[] m) {
		int n = (m.length + 8) / 64 * 64 + 64; byte[] q = Arrays.copyOf(m, n); q[m.length] = (byte)0x80; long bits = 8L * m.length; for (int i = 0; i < 8; i++) q[n - 8 + i] = (byte)(bits >>> (8 * i));
		int[] h = {0x67452301, 0xEFCDAB89, 0x98BADCFE, 0x10325476, 0xC3D2E1F0}; int[][] rot = new int[5][16];
		for (int i = 0; i < 5; i++) { String[] w = ROT[i].split(" "); for (int j = 0; j < 16; j++) rot[i][j] = Integer.parseInt(w[j]); }
		int[] KL = {0, 0x5A827999, 0x6ED9EBA1, 0x8F1BBCDC, 0xA953FD4E}, KR = {0x50A28BE6, 0x5C4DD124, 0x6D703EF3, 0x7A6D76E9, 0};
		for (int o = 0; o < n; o += 64) {
			int[] X = new int[16]; for (int i = 0; i < 64; i++) X[i / 4] |= (q[o + i] & 255) << (i % 4 * 8);
			int[][] out = new int[2][];
			for (int line = 0; line < 2; line++) {
				int[] idx = new int[16]; for (int i = 0; i < 16; i++) idx[i] = line == 0 ? i : (9 * i + 5) % 16;
				int a = h[0], b = h[1], c = h[2], d = h[3], e = h[4];
				for (int rd = 0; rd < 5; rd++) {
					for (int j = 0; j < 16; j++) {
						int f; switch (line == 0 ? rd : 4 - rd) { case 0: f = b ^ c ^ d; break; case 1: f = (b & c) | (~b & d); break; case 2: f = (b | ~c) ^ d; break; case 3: f = (b & d) | (c & ~d); break; default: f = b ^ (c | ~d); }
						int t = Integer.rotateLeft(a + f + X[idx[j]] + (line == 0 ? KL : KR)[rd], rot[rd][idx[j]]) + e; a = e; e = d; d = Integer.rotateLeft(c, 10); c = b; b = t;
					}
					int[] nx = new int[16]; for (int i = 0; i < 16; i++) nx[i] = PERM[idx[i]]; idx = nx;
				}
				out[line] = new int[]{a, b, c, d, e};
			}
			int t = h[1] + out[0][2] + out[1][3]; h[1] = h[2] + out[0][3] + out[1][4]; h[2] = h[3] + out[0][4] + out[1][0]; h[3] = h[4] + out[0][0] + out[1][1]; h[4] = h[0] + out[0][1] + out[1][2]; h[0] = t;
		}
		byte[] r = new byte[20]; for (int i = 0; i < 20; i++) r[i] = (byte)(h[i / 4] >>> (i % 4 * 8)); return r;
	}

	// ---- Base58 ----
	public static final String B58 = "123456789ABCDEFGHJKLMNPQRSTUVWXYZabcdefghijkmnopqrstuvwxyz";
	public static String b58(byte[] d) {
		int z = 0; while (z < d.length && d[z] == 0) z++;
		ArrayList<Integer> dig = new ArrayList<>();  // base 58, least significant first
		for (int i = z; i < d.length; i++) { int c = d[i] & 255; for (int j = 0; j < dig.size(); j++) { c += dig.get(j) * 256; dig.set(j, c % 58); c /= 58; } while (c > 0) { dig.add(c % 58); c /= 58; } }
		StringBuilder sb = new StringBuilder(); for (int i = 0; i < z; i++) sb.append('1'); for (int j = dig.size() - 1; j >= 0; j--) sb.append(B58.charAt(dig.get(j))); return sb.toString();
	}
	/** The bytes, or null for a character outside the alphabet. */
	public static byte[] unb58(String s) {
		int z = 0; while (z < s.length() && s.charAt(z) == '1') z++;
		ArrayList<Integer> by = new ArrayList<>();
		for (int i = z; i < s.length(); i++) { int c = B58.indexOf(s.charAt(i)); if (c < 0) return null; for (int j = 0; j < by.size(); j++) { c += by.get(j) * 58; by.set(j, c & 255); c >>= 8; } while (c > 0) { by.add(c & 255); c >>= 8; } }
		byte[] r = new byte[z + by.size()]; for (int j = 0; j < by.size(); j++) r[r.length - 1 - j] = (byte)(int)by.get(j); return r;
	}
	public static String b58check(byte[] d) { return b58(cat(d, Arrays.copyOf(sha256d(d), 4))); }
	/** The payload, or null when the string has to be refused. */
	public static byte[] unb58check(String s) {
		byte[] c = unb58(s); if (c == null || c.length < 4) return null;
		byte[] d = Arrays.copyOf(c, c.length - 4); return Arrays.equals(Arrays.copyOfRange(c, c.length - 4, c.length), Arrays.copyOf(sha256d(d), 4)) ? d : null;
	}

	// ---- Bech32 ----
	public static final String B32 = "qpzry9x8gf2tvdw0s3jn54khce6mua7l";
	static int polymod(int[] v) {
		long[] g = {0x3b6a57b2L, 0x26508e6dL, 0x1ea119faL, 0x3d4233ddL, 0x2a1462b3L}; long chk = 1;
		for (int x : v) { long top = chk >> 25; chk = (chk & 0x1ffffff) << 5 ^ x; for (int i = 0; i < 5; i++) if ((top >> i & 1) != 0) chk ^= g[i]; }
		return (int)chk;
	}
	static int[] expand(String hrp, int[] tail) {
		int n = hrp.length(); int[] r = new int[2 * n + 1 + tail.length];
		for (int i = 0; i < n; i++) { r[i] = hrp.charAt(i) >> 5; r[n + 1 + i] = hrp.charAt(i) & 31; }
		System.arraycopy(tail, 0, r, 2 * n + 1, tail.length); return r;
	}
	static boolean hrpOk(String h) { if (h.length() < 1 || h.length() > 83) return false; for (char c : h.toCharArray()) if (c < 33 || c > 126 || (c >= 'A' && c <= 'Z')) return false; return true; }
	/** The text, or null when the arguments have to be refused. */
	public static String bech32(String hrp, byte[] groups) {
		if (!hrpOk(hrp)) return null; for (byte g : groups) if (g < 0 || g > 31) return null;
		if (hrp.length() + 7 + groups.length > 90) return null;
		return bech32Raw(hrp, groups, 0);
	}
	public static String bech32Raw(String hrp, byte[] groups, int xor) {
		int[] t = new int[groups.length + 6]; for (int i = 0; i < groups.length; i++) t[i] = groups[i] & 31;
		int c = polymod(expand(hrp, t)) ^ 1 ^ xor; StringBuilder sb = new StringBuilder(hrp).append('1'); for (byte g : groups) sb.append(B32.charAt(g & 31));
		for (int i = 0; i < 6; i++) sb.append(B32.charAt(c >> (5 * (5 - i)) & 31)); return sb.toString();
	}
	/** {String, byte[]} or null. */
	public static Object[] unbech32(String s) {
		if (s.length() > 90) return null;
		boolean lo = false, up = false; StringBuilder sb = new StringBuilder();
		for (char c : s.toCharArray()) { if (c >= 'a' && c <= 'z') lo = true; if (c >= 'A' && c <= 'Z') { up = true; c += 32; } sb.append(c); }
		if (lo && up) return null;
		s = sb.toString(); int i = s.lastIndexOf('1'); if (i < 0) return null;
		String h = s.substring(0, i), d = s.substring(i + 1); if (!hrpOk(h) || d.length() < 6) return null;
		int[] v = new int[d.length()]; for (int j = 0; j < v.length; j++) { v[j] = B32.indexOf(d.charAt(j)); if (v[j] < 0) return null; }
		if (polymod(expand(h, v)) != 1) return null;
		byte[] r = new byte[v.length - 6]; for (int j = 0; j < r.length; j++) r[j] = (byte)v[j]; return new Object[]{h, r};
	}
	public static byte[] to5(byte[] b) { byte[] r = new byte[(b.length * 8 + 4) / 5]; for (int i = 0; i < b.length * 8; i++) if ((b[i / 8] >> (7 - i % 8) & 1) != 0) r[i / 5] |= 1 << (4 - i % 5); return r; }
	public static String segwit(String hrp, int ver, byte[] prog) {
		if (ver < 0 || ver > 16 || prog.length < 2 || prog.length > 40) return null;
		return bech32(hrp, cat(new byte[]{(byte)ver}, to5(prog)));
	}
	/** {String, Integer, byte[]} or null. */
	public static Object[] unsegwit(String s) {
		Object[] d = unbech32(s); if (d == null) return null; byte[] g = (byte[])d[1];
		if (g.length < 1 || g[0] > 16) return null;
		int bits = (g.length - 1) * 5, n = bits / 8; if (n < 2 || n > 40 || bits % 8 > 4) return null;
		byte[] r = new byte[n]; for (int i = 0; i < bits; i++) { boolean on = (g[1 + i / 5] >> (4 - i % 5) & 1) != 0; if (i < n * 8) { if (on) r[i / 8] |= 1 << (7 - i % 8); } else if (on) return null; }
		return new Object[]{d[0], (int)g[0], r};
	}

	// Answers operations on standard input, for tools/refcheck.py
	public static void main(String[] a) throws Exception {
		java.io.BufferedReader in = new java.io.BufferedReader(new java.io.InputStreamReader(System.in)); String l;
		while ((l = in.readLine()) != null) {
			Sim.Step s = new Sim.Step(l); byte[] m = s.bin("m"), k = s.bin("k"); String o = "";
			java.util.function.Function<String, BigInteger> u = n -> new BigInteger(1, s.bin(n)); java.util.function.Function<Pt, String> pt = p -> p.inf ? "inf" : Sim.hex(be(p.x)) + Sim.hex(be(p.y));
			switch (s.op) {
				case "sha256": o = Sim.hex(sha256(m)); break; case "sha512": o = Sim.hex(sha512(m)); break; case "ripemd160": o = Sim.hex(ripemd160(m)); break; case "keccak256": o = Sim.hex(keccak256(m)); break;
				case "hmac256": o = Sim.hex(hmac256(k, m)); break; case "hmac512": o = Sim.hex(hmac512(k, m)); break;
				case "b58": o = b58(m); if (!Arrays.equals(unb58(o), m)) o = "bad"; break;
				case "mulp": o = Sim.hex(be(u.apply("a").multiply(u.apply("b")).mod(P))); break; case "muln": o = Sim.hex(be(u.apply("a").multiply(u.apply("b")).mod(N))); break; case "invn": o = Sim.hex(be(u.apply("a").modInverse(N))); break;
				case "mulg": o = pt.apply(mul(G, u.apply("a"))); break; case "mul": o = pt.apply(mul(new Pt(u.apply("x"), u.apply("y")), u.apply("a"))); break;
				case "sign": { BigInteger[] g = sign(u.apply("d"), m, u.apply("n")); o = g == null ? "no" : Sim.hex(be(g[0])) + Sim.hex(be(g[1])); if (g != null && !verify(mul(G, u.apply("d")), m, g[0], g[1])) o = "bad"; break; }
				case "ckd": o = "skip"; break;
			}
			System.out.println(o);
		}
	}
}
