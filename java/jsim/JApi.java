package jsim;

import java.math.BigInteger;
import java.util.*;
import jsim.Sim.Rng;

/** The public Java API as a table of operations: arguments from a seed, a call, and the answer of the reference model. */
public final class JApi {
	/** Where a call's arrays live. */
	public static class Env {
		final List<Object[]> snaps = new ArrayList<>();
		byte[] in(byte[] b) { byte[] c = b.clone(); snaps.add(new Object[]{c, b.clone()}); return c; }
		int[] in(int[] b) { int[] c = b.clone(); snaps.add(new Object[]{c, b.clone()}); return c; }
		int[] out(int[] init) { return init.clone(); }
		Object hash(Lib lib, byte[] b) { return lib.hash(b); }
		/** Whether every input still has its value. */
		String modified() {
			for (Object[] s : snaps) if (s[0] instanceof byte[] ? !Arrays.equals((byte[])s[0], (byte[])s[1]) : !Arrays.equals((int[])s[0], (int[])s[1])) return "an input array was modified";
			return null;
		}
	}
	public interface Fin { String of(Object ret); }
	public static final class Inv {
		public String fn; public Object[] a; public Fin fin; public Object ret; public Env env; boolean threw; String raw = "";
		Inv(Env env, String fn, Fin fin, Object... a) { this.env = env; this.fn = fn; this.a = a; this.fin = fin; }
		/** The call's outcome as text: a value, "!kind" for an exception. */
		public String run(Lib lib) {
			String r;
			try { ret = lib.call(fn, a); r = fin.of(ret); }
			catch (Sched.Abort e) { throw e; }
			catch (Throwable t) { threw = true; ret = null; r = "!" + kind(t) + fin.of(null); }
			String m = env.modified(); return m == null ? r : r + " and " + m;
		}
	}
	public static String kind(Throwable t) {
		if (t instanceof IllegalArgumentException) return "IllegalArgument";  // with subclasses
		if (t instanceof NullPointerException) return "NullPointer";
		if (t instanceof OutOfMemoryError) return "OutOfMemory";
		return t.getClass().getSimpleName();
	}
	public static abstract class Op {
		public final String name; public final int weight, cost;  // cost: 1 = a hash, 100 = a point multiplication
		Op(String name, int weight, int cost) { this.name = name; this.weight = weight; this.cost = cost; }
		abstract Object[] gen(Rng r);
		abstract Inv inv(Lib lib, Env env, Object[] a);
		abstract String want(Object[] a);
	}

	static final Fin TEXT = r -> r == null ? "" : text(r);
	static String text(Object r) {
		if (r instanceof byte[]) return Sim.hex((byte[])r);
		if (r instanceof int[]) return Sim.hex(bytes((int[])r));
		if (r instanceof Object[]) { StringBuilder sb = new StringBuilder(); for (Object x : (Object[])r) sb.append(text(x)).append(','); return sb.toString(); }
		if (r.getClass().getName().endsWith("Sha256Hash")) return "H" + r;  // byte-reversed text
		return r.toString();
	}
	static String H(byte[] h) { byte[] b = h.clone(); for (int i = 0; i < 16; i++) { byte t = b[i]; b[i] = b[31 - i]; b[31 - i] = t; } return "H" + Sim.hex(b); }
	static byte[] bytes(int[] w) { byte[] b = new byte[w.length * 4]; for (int i = 0; i < b.length; i++) b[i] = (byte)(w[i / 4] >>> (i % 4 * 8)); return b; }

	// ---- Numbers and words ----
	public static int[] words(BigInteger v) { int[] w = new int[8]; for (int i = 0; i < 8; i++) w[i] = v.shiftRight(32 * i).intValue(); return w; }
	static BigInteger num(int[] w, int off) { BigInteger v = BigInteger.ZERO; for (int i = 7; i >= 0; i--) v = v.shiftLeft(32).or(BigInteger.valueOf(w[off + i] & 0xFFFFFFFFL)); return v; }
	public static BigInteger rnd(Rng r) { return new BigInteger(1, r.bytes(32)); }
	public static BigInteger genU(Rng r) {
		switch (r.below(8)) {
			case 0: return BigInteger.valueOf(r.below(4));
			case 1: return Ref.R.subtract(BigInteger.valueOf(1 + r.below(4)));
			case 2: return r.pick(Ref.P, Ref.N).add(BigInteger.valueOf(r.range(-3, 3)));
			case 3: return BigInteger.ONE.shiftLeft(r.below(257)).subtract(BigInteger.ONE.shiftLeft(r.below(257))).mod(Ref.R);
			case 4: { byte[] b = r.bytes(32); for (int i = 0; i < 8; i++) { int k = r.below(3); if (k < 2) Arrays.fill(b, 4 * i, 4 * i + 4, (byte)-k); } return new BigInteger(1, b); }
			case 5: return r.pick(Ref.P, Ref.N).shiftRight(1).add(BigInteger.valueOf(r.range(-2, 2)));
			default: return rnd(r);
		}
	}
	public static BigInteger genF(Rng r) { return genU(r).mod(Ref.P); }
	public static BigInteger genKey(Rng r) { BigInteger k = genU(r).mod(Ref.N); return k.signum() == 0 ? BigInteger.ONE : k; }
	public static Ref.Pt genPt(Rng r, boolean zeroOk) {
		switch (r.below(10)) {
			case 0: return zeroOk ? Ref.INF : Ref.G;
			case 1: return Ref.G;
			case 2: return Ref.G.neg();
			case 3: return Ref.mul(Ref.G, BigInteger.valueOf(r.range(1, 40)));
			case 4: case 5: for (int i = 0; i < 60; i++) { Ref.Pt p = Ref.liftX(genF(r), r.chance(1, 2)); if (p != null) return p; } return Ref.G;
			default: return Ref.mul(Ref.G, genKey(r));
		}
	}
	static BigInteger genZ(Rng r) { for (;;) { BigInteger z = r.chance(1, 3) ? BigInteger.ONE : genF(r); if (z.signum() != 0) return z; } }
	static byte[] genMsg(Rng r) { int b = r.pickI(64, 128, 136), n = r.chance(1, 2) ? Math.max(0, b * r.below(4) + r.range(-10, 3)) : r.below(r.chance(1, 4) ? 600 : 150); byte[] m = r.bytes(n); if (r.chance(1, 8)) Arrays.fill(m, (byte)-r.below(2)); return m; }
	static byte[] genKeyBytes(Rng r) { return r.bytes(r.chance(1, 2) ? r.pickI(0, 1, 31, 32, 33, 63, 64, 65, 66, 127, 128, 129, 130, 200) : r.below(300)); }
	static int[] point(Ref.Pt p, BigInteger z) { int[] w = new int[24]; BigInteger x = p.inf ? BigInteger.ZERO : p.x.multiply(z).mod(Ref.P), y = p.inf ? z : p.y.multiply(z).mod(Ref.P); System.arraycopy(words(x), 0, w, 0, 8); System.arraycopy(words(y), 0, w, 8, 8); if (!p.inf) System.arraycopy(words(z), 0, w, 16, 8); return w; }
	static String ptText(Ref.Pt p) { return p.inf ? "infinity" : Sim.hex(Ref.be(p.x)) + ":" + Sim.hex(Ref.be(p.y)); }
	static String canon(int[] w, int o) {
		BigInteger x = num(w, o), y = num(w, o + 8), z = num(w, o + 16);
		if (x.compareTo(Ref.P) >= 0 || y.compareTo(Ref.P) >= 0 || z.compareTo(Ref.P) >= 0) return "coordinates out of range";
		if (z.signum() == 0) return x.signum() == 0 && y.signum() != 0 ? "infinity" : "not a point";
		BigInteger i = z.modInverse(Ref.P); return ptText(new Ref.Pt(x.multiply(i).mod(Ref.P), y.multiply(i).mod(Ref.P)));
	}

	// ---- Operations on a word array: blocks of 8 or 24 words at chosen offsets ----
	interface Sem { Object[] of(BigInteger[] u, Ref.Pt[] p, int en); }  // the values of the output blocks in order, then the return value (or nothing)
	static final class ValOp extends Op {
		final String kinds; final int[] outs; final int temp; final boolean en; final int aliases; final Sem sem;
		// kinds: one letter per block given as an offset. u, f: number or field element; m: modulus; p: point; n: normalised point or arbitrary affine triple; z: output block
		// aliases: 0 none, 1 an output may coincide with any u/f block, 2 with block 0 only; outs: blocks that are written
		ValOp(String name, int weight, int cost, String kinds, int[] outs, int temp, boolean en, int aliases, Sem sem) { super(name, weight, cost); this.kinds = kinds; this.outs = outs; this.temp = temp; this.en = en; this.aliases = aliases; this.sem = sem; }
		Object[] gen(Rng r) {
			int n = kinds.length(); BigInteger[] u = new BigInteger[n]; Ref.Pt[] p = new Ref.Pt[n]; BigInteger[] z = new BigInteger[n];
			BigInteger mod = r.chance(1, 2) ? Ref.P : r.chance(3, 4) ? Ref.N : rnd(r).setBit(0).setBit(r.range(2, 255));
			for (int i = 0; i < n; i++) switch (kinds.charAt(i)) {
				case 'u': u[i] = name.equals("reciprocal") ? genU(r).mod(mod) : genU(r); if (i > 0 && u[0] != null && r.chance(1, 5)) { u[i] = u[0]; if (r.chance(1, 2)) u[i] = u[0].flipBit(r.below(256)); } break;
				case 'f': u[i] = genF(r); if (i > 0 && u[0] != null && r.chance(1, 6)) u[i] = u[0]; break;
				case 'm': while (u[0].signum() != 0 && !u[0].gcd(mod).equals(BigInteger.ONE)) u[0] = rnd(r).mod(mod); u[i] = mod; break;
				case 'p': p[i] = genPt(r, true); z[i] = genZ(r); if (i > 0 && p[0] != null && r.chance(1, 4)) p[i] = r.chance(1, 2) ? p[0] : p[0].neg(); break;
				case 'n': z[i] = BigInteger.ONE; p[i] = genPt(r, true); if (!p[i].inf && r.chance(1, 2)) p[i] = new Ref.Pt(p[i].x, p[i].y.flipBit(r.below(255)).mod(Ref.P)); break;
			}
			return new Object[]{u, p, z, r.below(2), r.next()};
		}
		Inv inv(Lib lib, Env env, Object[] a) {
			BigInteger[] u = (BigInteger[])a[0]; Ref.Pt[] p = (Ref.Pt[])a[1]; BigInteger[] z = (BigInteger[])a[2]; Rng r = new Rng((Long)a[4]);
			int n = kinds.length(), nb = n + (temp > 0 ? 1 : 0); int[] off = new int[nb]; boolean[] placed = new boolean[nb]; int[] alias = new int[nb]; Arrays.fill(alias, -1);
			for (int i = 0; i < n; i++) if (kinds.charAt(i) == 'z' && aliases > 0 && r.chance(1, 2)) alias[i] = aliases == 2 ? 0 : r.below(i);
			boolean share = r.chance(1, 2); if (share && aliases == 1 && n > 2 && u[1] != null && u[1].equals(u[0])) alias[1] = 0;
			int pos = 8 * r.below(3);
			for (int left = nb; left > 0; left--) {
				int k = r.below(left), i = 0; for (;; i++) if (!placed[i] && k-- == 0) break;
				placed[i] = true; if (alias[i] >= 0) continue;
				off[i] = pos; pos += i == n ? temp : size(i); if (r.chance(1, 2)) pos += 8 * r.range(1, 2);
			}
			for (int i = 0; i < n; i++) if (alias[i] >= 0) off[i] = off[alias[i]];
			// A temporary area is documented by its length only, so it may be the end of the array
			int[] v = new int[pos]; for (int i = 0; i < pos; i++) v[i] = (int)r.next();
			for (int i = 0; i < n; i++) if (u[i] != null) System.arraycopy(words(u[i]), 0, v, off[i], 8); else if (p[i] != null) System.arraycopy(point(p[i], z[i]), 0, v, off[i], 24);
			int[] before = v.clone(); boolean[] may = new boolean[pos]; for (int i : outs) Arrays.fill(may, off[i], off[i] + size(i), true); if (temp > 0) Arrays.fill(may, off[n], off[n] + temp, true);
			int[] val = env.out(v);
			Inv[] me = new Inv[1];
			return me[0] = new Inv(env, name, ret -> {
				StringBuilder rs = new StringBuilder(); for (int i : outs) rs.append(Sim.hex(bytes(Arrays.copyOfRange(val, off[i], off[i] + size(i))))); me[0].raw = rs.toString();
				StringBuilder sb = new StringBuilder(); for (int i : outs) sb.append(size(i) == 24 ? (name.equals("normalize") ? Sim.hex(bytes(Arrays.copyOfRange(val, off[i], off[i] + 24))) : canon(val, off[i])) : num(val, off[i]).toString(16)).append(' ');
				if (ret != null) sb.append("returns ").append(ret);
				for (int i = 0; i < before.length; i++) if (!may[i] && val[i] != before[i]) { sb.append(" and word ").append(i).append(" outside the outputs was modified"); break; }
				return sb.toString();
			}, val, off, a[3]);
		}
		int size(int i) { char c = kinds.charAt(i); return c == 'p' || c == 'n' ? 24 : 8; }
		String want(Object[] a) {
			Object[] o = sem.of((BigInteger[])a[0], (Ref.Pt[])a[1], (Integer)a[3]); StringBuilder sb = new StringBuilder(); int k = 0;
			for (int i : outs) { Object x = o[k++]; sb.append(x instanceof BigInteger ? ((BigInteger)x).toString(16) : name.equals("normalize") ? Sim.hex(bytes(point((Ref.Pt)x, BigInteger.ONE))) : ptText((Ref.Pt)x)).append(' '); }
			if (k < o.length) sb.append("returns ").append(o[k]);
			return sb.toString();
		}
	}

	interface Gen { Object[] of(Rng r); }
	interface Mk { Inv of(Lib lib, Env env, Object[] a); }
	interface Want { String of(Object[] a); }
	static Op op(String name, int weight, int cost, Gen g, Mk m, Want w) { return new Op(name, weight, cost) { Object[] gen(Rng r) { return g.of(r); } Inv inv(Lib l, Env e, Object[] a) { return m.of(l, e, a); } String want(Object[] a) { return w.of(a); } }; }
	static byte[] B(Object o) { return (byte[])o; }
	static BigInteger U(Object o) { return (BigInteger)o; }
	static int i(boolean b) { return b ? 1 : 0; }
	static Object[] O(Object... a) { return a; }
	static Fin sig(int[] r, int[] s) { return ret -> ret + " " + num(r, 0).toString(16) + " " + num(s, 0).toString(16); }
	static final int[] R0 = {1, 2, 3, 4, 5, 6, 7, 8}, S0 = {9, 8, 7, 6, 5, 4, 3, 2};
	static String sigWant(BigInteger[] g) { return g == null ? "false " + num(R0, 0).toString(16) + " " + num(S0, 0).toString(16) : "true " + g[0].toString(16) + " " + g[1].toString(16); }

	static Object[] genVerify(Rng r) {
		BigInteger d = genKey(r), k = r.chance(1, 4) ? genKey(r) : rnd(r).mod(Ref.N); byte[] h = r.chance(1, 4) ? Ref.be(genU(r)) : r.bytes(32); Ref.Pt q = Ref.mul(Ref.G, d); BigInteger z = BigInteger.ONE;
		BigInteger[] g = Ref.sign(d, h, k); if (g == null) g = new BigInteger[]{BigInteger.ONE, BigInteger.ONE};
		switch (r.below(11)) {
			case 0: g[1] = Ref.N.subtract(g[1]); break;
			case 1: g[0] = g[0].flipBit(r.below(256)); break;
			case 2: g[1] = g[1].flipBit(r.below(256)); break;
			case 3: h[r.below(32)] ^= 1 << r.below(8); break;
			case 4: q = genPt(r, true); break;
			case 5: { BigInteger t = g[0].add(Ref.N); g[0] = t.bitLength() > 256 ? genU(r) : t; break; }
			case 6: g[1] = genU(r); break;
			case 7: z = genZ(r); break;
		}
		return O(q, z, h, g[0], g[1]);
	}

	public static final List<Op> OPS = new ArrayList<>();
	static {
		String[] hn = {"sha256", "sha256d", "sha512", "ripemd160", "keccak256"};
		for (String n : hn) OPS.add(op(n, 3, 1, r -> O(genMsg(r)), (l, e, a) -> new Inv(e, n, TEXT, e.in(B(a[0]))), a -> hashWant(n, B(a[0]))));
		OPS.add(op("hmac256", 3, 2, r -> O(genKeyBytes(r), genMsg(r)), (l, e, a) -> new Inv(e, "hmac256", TEXT, e.in(B(a[0])), e.in(B(a[1]))), a -> H(Ref.hmac256(B(a[0]), B(a[1])))));
		OPS.add(op("hmac512", 3, 2, r -> O(genKeyBytes(r), genMsg(r)), (l, e, a) -> new Inv(e, "hmac512", TEXT, e.in(B(a[0])), e.in(B(a[1]))), a -> Sim.hex(Ref.hmac512(B(a[0]), B(a[1])))));
		OPS.add(op("hashNew", 1, 1, r -> O(r.bytes(r.chance(1, 8) ? r.below(40) : 32)), (l, e, a) -> new Inv(e, "hashNew", TEXT, e.in(B(a[0]))), a -> B(a[0]).length == 32 ? H(B(a[0])) : "!IllegalArgument"));
		OPS.add(op("hashParse", 2, 1, r -> O(hexText(r)), (l, e, a) -> new Inv(e, "hashParse", TEXT, a[0]), a -> ((String)a[0]).matches("[0-9a-fA-F]{64}") ? "H" + ((String)a[0]).toLowerCase() : "!IllegalArgument"));
		OPS.add(op("hashBytes", 2, 1, r -> O(r.bytes(32)), (l, e, a) -> new Inv(e, "hashBytes", TEXT, e.hash(l, B(a[0]))), a -> Sim.hex(B(a[0]))));
		OPS.add(op("hashText", 2, 1, r -> O(r.bytes(32)), (l, e, a) -> new Inv(e, "hashText", TEXT, e.hash(l, B(a[0]))), a -> H(B(a[0])).substring(1)));
		OPS.add(op("hashCode", 1, 1, r -> O(r.bytes(32)), (l, e, a) -> new Inv(e, "hashCode", TEXT, e.hash(l, B(a[0]))), a -> { byte[] h = B(a[0]); return "" + ((h[0] & 255) | (h[1] & 255) << 8 | (h[2] & 255) << 16 | h[3] << 24); }));
		OPS.add(op("hashEquals", 2, 1, JApi::twoHashes, (l, e, a) -> new Inv(e, "hashEquals", TEXT, e.hash(l, B(a[0])), e.hash(l, B(a[1]))), a -> "" + Arrays.equals(B(a[0]), B(a[1]))));
		OPS.add(op("hashCompare", 2, 1, JApi::twoHashes, (l, e, a) -> new Inv(e, "hashCompare", ret -> ret == null ? "" : "" + Integer.signum((Integer)ret), e.hash(l, B(a[0])), e.hash(l, B(a[1]))), a -> "" + H(B(a[0])).compareTo(H(B(a[1]))) / Math.max(1, Math.abs(H(B(a[0])).compareTo(H(B(a[1])))))));
		OPS.add(op("b58enc", 3, 2, r -> O(Codec.payload(r)), (l, e, a) -> new Inv(e, "b58enc", TEXT, e.in(B(a[0]))), a -> Ref.b58check(B(a[0]))));
		OPS.add(op("b58dec", 3, 2, r -> O(Codec.b58String(r)), (l, e, a) -> new Inv(e, "b58dec", TEXT, a[0]), a -> { byte[] d = Ref.unb58check((String)a[0]); return d == null ? "!IllegalArgument" : Sim.hex(d); }));
		OPS.add(op("segenc", 2, 1, r -> O(Codec.hrp(r), r.chance(1, 10) ? r.range(-2, 20) : r.range(0, 16), r.bytes(r.chance(1, 10) ? r.below(60) : r.range(2, 40))), (l, e, a) -> new Inv(e, "segenc", TEXT, a[0], a[1], e.in(B(a[2]))), a -> orIAE(Ref.segwit((String)a[0], (Integer)a[1], B(a[2])))));
		OPS.add(op("segdec", 3, 1, r -> O(Codec.bechString(r, true)), (l, e, a) -> new Inv(e, "segdec", TEXT, a[0]), a -> orIAE(Ref.unsegwit((String)a[0]))));
		OPS.add(op("bgenc", 2, 1, r -> { byte[] g = r.bytes(r.below(80)); for (int i = 0; i < g.length; i++) g[i] &= 31; if (g.length > 0 && r.chance(1, 10)) g[r.below(g.length)] = (byte)r.next(); return O(Codec.hrp(r), g); }, (l, e, a) -> new Inv(e, "bgenc", TEXT, a[0], e.in(B(a[1]))), a -> orIAE(Ref.bech32((String)a[0], B(a[1])))));
		OPS.add(op("bgdec", 3, 1, r -> O(Codec.bechString(r, false)), (l, e, a) -> new Inv(e, "bgdec", TEXT, a[0]), a -> orIAE(Ref.unbech32((String)a[0]))));
		OPS.add(op("hexToUint", 2, 1, r -> O(hexText(r), r.next()), (l, e, a) -> conv(e, "hexToUint", a), a -> ((String)a[0]).matches("[0-9a-fA-F]{64}") ? new BigInteger((String)a[0], 16).toString(16) : "!IllegalArgument"));
		OPS.add(op("bytesToUint", 2, 1, r -> O(r.bytes(r.chance(1, 8) ? r.below(40) : 32), r.next()), (l, e, a) -> conv(e, "bytesToUint", a), a -> B(a[0]).length == 32 ? new BigInteger(1, B(a[0])).toString(16) : "!IllegalArgument"));
		OPS.add(op("uintToHex", 2, 1, r -> O(genU(r), r.below(3) * 8), (l, e, a) -> new Inv(e, "uintToHex", TEXT, e.in(place(U(a[0]), (Integer)a[1])), a[1]), a -> Sim.hex(Ref.be(U(a[0])))));
		OPS.add(op("uintToBytes", 2, 1, r -> O(genU(r), r.below(3) * 8), (l, e, a) -> new Inv(e, "uintToBytes", TEXT, e.in(place(U(a[0]), (Integer)a[1])), a[1]), a -> Sim.hex(Ref.be(U(a[0])))));
		OPS.add(op("basePoint", 1, 1, r -> O(), (l, e, a) -> new Inv(e, "basePoint", TEXT), a -> Sim.hex(bytes(point(Ref.G, BigInteger.ONE)))));
		OPS.add(op("sign", 3, 110, r -> O(genKey(r), r.chance(1, 3) ? Ref.be(genU(r)) : r.bytes(32), r.chance(1, 3) ? genU(r) : rnd(r).mod(Ref.N)), (l, e, a) -> { int[] x = e.out(R0), y = e.out(S0); return new Inv(e, "sign", sig(x, y), e.in(words(U(a[0]))), e.hash(l, B(a[1])), e.in(words(U(a[2]))), x, y); }, a -> sigWant(Ref.sign(U(a[0]), B(a[1]), U(a[2])))));
		OPS.add(op("signHmac", 3, 112, r -> O(genKey(r), r.chance(1, 3) ? Ref.be(genU(r)) : r.bytes(32)), (l, e, a) -> { int[] x = e.out(R0), y = e.out(S0); return new Inv(e, "signHmac", sig(x, y), e.in(words(U(a[0]))), e.hash(l, B(a[1])), x, y); }, a -> sigWant(Ref.sign(U(a[0]), B(a[1]), new BigInteger(1, Ref.hmac256(Ref.be(U(a[0])), B(a[1])))))));
		OPS.add(op("verify", 3, 310, JApi::genVerify, (l, e, a) -> new Inv(e, "verify", TEXT, e.in(point((Ref.Pt)a[0], U(a[1]))), e.hash(l, B(a[2])), e.in(words(U(a[3]))), e.in(words(U(a[4])))), a -> "" + (U(a[1]).equals(BigInteger.ONE) && Ref.verify((Ref.Pt)a[0], B(a[2]), U(a[3]), U(a[4])))));
		BigInteger R = Ref.R, P = Ref.P; int[] o2 = {2}, o1 = {1}, o0 = {0}, none = {};
		OPS.add(new ValOp("uintAdd", 1, 1, "uuz", o2, 0, true, 1, (u, p, e) -> { BigInteger t = e == 1 ? u[0].add(u[1]) : u[0]; return O(t.mod(R), i(t.bitLength() > 256)); }));
		OPS.add(new ValOp("uintSubtract", 1, 1, "uuz", o2, 0, true, 1, (u, p, e) -> { BigInteger t = e == 1 ? u[0].subtract(u[1]) : u[0]; return O(t.mod(R), i(t.signum() < 0)); }));
		OPS.add(new ValOp("uintShiftLeft1", 1, 1, "uz", o1, 0, false, 1, (u, p, e) -> O(u[0].shiftLeft(1).mod(R), i(u[0].testBit(255)))));
		OPS.add(new ValOp("uintShiftRight1", 1, 1, "uz", o1, 0, true, 1, (u, p, e) -> O(e == 1 ? u[0].shiftRight(1) : u[0])));
		OPS.add(new ValOp("reciprocal", 1, 4, "umz", o2, 48, false, 2, (u, p, e) -> O(u[0].signum() == 0 ? BigInteger.ZERO : u[0].modInverse(u[1]))));
		OPS.add(new ValOp("fieldAdd", 1, 1, "ffz", o2, 8, false, 1, (u, p, e) -> O(u[0].add(u[1]).mod(P))));
		OPS.add(new ValOp("fieldSubtract", 1, 1, "ffz", o2, 8, false, 1, (u, p, e) -> O(u[0].subtract(u[1]).mod(P))));
		OPS.add(new ValOp("fieldMultiply2", 1, 1, "fz", o1, 8, false, 1, (u, p, e) -> O(u[0].shiftLeft(1).mod(P))));
		OPS.add(new ValOp("fieldSquare", 1, 1, "fz", o1, 40, false, 1, (u, p, e) -> O(u[0].multiply(u[0]).mod(P))));
		OPS.add(new ValOp("fieldMultiply", 2, 1, "ffz", o2, 40, false, 1, (u, p, e) -> O(u[0].multiply(u[1]).mod(P))));
		OPS.add(new ValOp("copy", 1, 1, "uz", o1, 0, false, 0, (u, p, e) -> O(u[0])));
		OPS.add(new ValOp("replace", 1, 1, "uu", o0, 0, true, 0, (u, p, e) -> O(u[e])));
		OPS.add(new ValOp("swap", 1, 1, "uu", new int[]{0, 1}, 0, true, 0, (u, p, e) -> O(u[e], u[1 - e])));
		OPS.add(new ValOp("equalTo", 1, 1, "uu", none, 0, false, 0, (u, p, e) -> O(i(u[0].equals(u[1])))));
		OPS.add(new ValOp("lessThan", 1, 1, "uu", none, 0, false, 0, (u, p, e) -> O(i(u[0].compareTo(u[1]) < 0))));
		OPS.add(new ValOp("twice", 1, 2, "p", o0, 64, false, 0, (u, p, e) -> O(Ref.add(p[0], p[0]))));
		OPS.add(new ValOp("add", 2, 2, "pp", o0, 112, false, 0, (u, p, e) -> O(Ref.add(p[0], p[1]))));
		OPS.add(new ValOp("multiply", 1, 100, "pu", o0, 520, false, 0, (u, p, e) -> O(Ref.mul(p[0], u[1]))));
		OPS.add(new ValOp("normalize", 1, 4, "p", o0, 72, false, 0, (u, p, e) -> O(p[0])));
		OPS.add(new ValOp("pointReplace", 1, 1, "pp", o0, 0, true, 0, (u, p, e) -> O(p[e])));
		OPS.add(new ValOp("isOnCurve", 1, 2, "n", none, 56, false, 0, (u, p, e) -> O(i(!p[0].inf && Ref.onCurve(p[0].x, p[0].y)))));
		OPS.add(new ValOp("pointIsZero", 1, 1, "p", none, 0, false, 0, (u, p, e) -> O(i(p[0].inf))));
	}
	static Object[] twoHashes(Rng r) { byte[] a = r.bytes(32), b = r.chance(1, 3) ? r.bytes(32) : a.clone(); if (r.chance(1, 2)) b[r.below(32)] ^= 1 << r.below(8); return O(a, b); }
	static String hexText(Rng r) {
		char[] c = Sim.hex(Ref.be(genU(r))).toCharArray(); for (int i = 0; i < c.length; i++) if (r.chance(1, 3)) c[i] = Character.toUpperCase(c[i]);
		if (r.chance(1, 6)) c[r.below(64)] = r.pick('g', '+', '-', ' ', '\u0661', 'G', '/', ':', '@', '`', '\0', '\n'); String s = new String(c);
		return r.chance(1, 10) ? s.substring(r.below(3)) + r.pick("", "0", "\n", " ") : s;
	}
	static String hashWant(String n, byte[] m) { switch (n) { case "sha256": return H(Ref.sha256(m)); case "sha256d": return H(Ref.sha256d(m)); case "sha512": return Sim.hex(Ref.sha512(m)); case "ripemd160": return Sim.hex(Ref.ripemd160(m)); default: return Sim.hex(Ref.keccak256(m)); } }
	static String orIAE(Object o) { return o == null ? "!IllegalArgument" : text(o); }
	static int[] place(BigInteger v, int off) { int[] w = new int[off + 16]; Arrays.fill(w, 0x5A5A5A5A); System.arraycopy(words(v), 0, w, off, 8); return w; }
	static Inv conv(Env e, String fn, Object[] a) {
		int off = 8 * (int)((Long)a[1] & 1); int[] init = new int[24]; Arrays.fill(init, 0x77777777); int[] v = e.out(init);
		return new Inv(e, fn, new Fin() { public String of(Object ret) {
			for (int i = 0; i < 24; i++) if ((i < off || i >= off + 8) && v[i] != 0x77777777) return "word " + i + " outside the output was modified";
			return Arrays.equals(v, init) ? "" : num(v, off).toString(16);
		} }, a[0] instanceof String ? a[0] : e.in(B(a[0])), v, off);
	}

	static final Map<String, Op> BY = new HashMap<>(); static { for (Op o : OPS) BY.put(o.name, o); }
	public static Op find(String n) { Op o = BY.get(n); if (o == null) throw new IllegalArgumentException(n); return o; }
	public static Op pick(Rng r, int maxCost) { int t = 0; for (Op o : OPS) if (o.cost <= maxCost) t += o.weight; int k = r.below(t); for (Op o : OPS) if (o.cost <= maxCost && (k -= o.weight) < 0) return o; return OPS.get(0); }
	public static Object[] rawArgs(Op o, long seed) { return o.gen(new Rng(Sim.mix64(seed ^ Sim.fnv(o.name)))); }
	/** The arguments of a seed; bits 40 and up say which random draw is altered, and how. */
	public static Object[] args(Op o, long seed) {
		Rng r = new Rng(Sim.mix64((seed & (1L << 40) - 1) ^ Sim.fnv(o.name))); long near = seed >>> 40, k = near & 255; r.at = near >> 8; r.flip = k < 64 ? 1L << k : Sim.mix64(near); return o.gen(r);
	}
	/** A seed whose arguments differ from those of sd in one random draw. */
	static String near(Rng r, String sd) { return "" + ((Long.parseLong(sd) & (1L << 40) - 1) | (r.logu(300) << 8 | (r.chance(1, 2) ? r.below(8) : r.below(96))) << 40); }
}
