package jsim;

import java.math.BigInteger;
import java.util.*;
import jsim.Sim.*;

/** C19: a node that keeps an index by hash and trades hashes and numbers as text with peers over a bad channel. */
final class Index {
	static final String HEX = "0123456789abcdef";
	static byte[] rev(byte[] b) { byte[] r = new byte[b.length]; for (int i = 0; i < b.length; i++) r[i] = b[b.length - 1 - i]; return r; }
	static boolean isHex64(String s) { if (s.length() != 64) return false; for (int i = 0; i < 64; i++) { char c = s.charAt(i); if (!(c >= '0' && c <= '9' || c >= 'a' && c <= 'f' || c >= 'A' && c <= 'F')) return false; } return true; }
	static byte[] unhex(String s) { byte[] b = new byte[32]; for (int i = 0; i < 32; i++) b[i] = (byte)(dig(s.charAt(2 * i)) << 4 | dig(s.charAt(2 * i + 1))); return b; }
	static int dig(char c) { return c <= '9' ? c - '0' : (c | 32) - 'a' + 10; }
	/** A value: any, or close to an earlier one (same head, same tail, one bit apart), or made of runs. */
	static byte[] value(Rng r, List<byte[]> had) {
		if (!had.isEmpty() && r.chance(2, 3)) {
			byte[] b = r.pick(had.toArray(new byte[0][])).clone();
			switch (r.below(8)) {
				case 0: return b;
				case 1: b[r.below(32)] ^= 1 << r.below(8); return b;
				case 2: for (int i = r.range(1, 31); i < 32; i++) b[i] = (byte)r.next(); return b;
				case 3: for (int i = r.range(0, 30); i >= 0; i--) b[i] = (byte)r.next(); return b;
				case 4: { int i = r.below(31); byte t = b[i]; b[i] = b[i + 1]; b[i + 1] = t; return b; }
				case 5: { int i = r.below(31); b[i]++; b[i + 1] -= 31; return b; }  // the same weighted sum
				case 6: return rev(b);
				default: { int i = 4 * r.below(8); for (int k = 0; k < 4; k++) b[i + k] ^= 0x80; return b; }
			}
		}
		byte[] b = JApi.genU(r).equals(BigInteger.ZERO) ? new byte[32] : Ref.be(JApi.genU(r)); if (r.chance(1, 6)) for (int i = 0; i < 32; i++) b[i] = (byte)r.pickI(0, 0, 0x7f, 0x80, 0xff, 1, 0x0a, 0x90); return b;
	}
	static String text(Rng r, byte[] b) { StringBuilder s = new StringBuilder(Sim.hex(b)); int c = r.below(3); for (int i = 0; i < 64; i++) if (c == 1 || c == 2 && r.chance(1, 2)) s.setCharAt(i, Character.toUpperCase(s.charAt(i))); return s.toString(); }
	static String spoil(Rng r, String s, String[] tag, String prev) {
		if (r.chance(1, 3)) { tag[0] = "honest"; return s; }
		if (r.chance(1, 3)) {
			tag[0] = "honest"; StringBuilder sb = new StringBuilder(s); int i = r.below(64);
			switch (r.below(7)) {
				case 0: sb.setCharAt(i, r.pick('+', '-', 'x', 'g', 'G', '/', ':', '@', '`', 'f', '0', '#', 'L', '.', '_', ' ')); tag[0] += "+neighbour"; break;
				case 1: sb.setCharAt(0, r.pick('+', '-', '0', ' ')); tag[0] += "+sign"; break;
				case 2: for (int k = 0; k < 64; k++) { int d = dig(s.charAt(k)); if (r.chance(1, 8)) sb.setCharAt(k, (char)((d < 10 ? r.pickI(0x660, 0x966, 0xff10, 0xe50) : r.chance(1, 2) ? 0xff41 - 10 : 0xff21 - 10) + d)); } tag[0] += "+other_digits"; break;
				case 3: sb.setLength(r.pickI(63, 62, 56, 32, 0)); tag[0] += "+truncate"; break;
				case 4: sb.append(r.pick("0", "00", "\n", "\r\n", "\0", " ", "f")); tag[0] += "+longer"; break;
				case 5: sb.insert(0, r.pick("0x", "0X", "#", "0", "00", "+", " ", "\ufeff")); if (r.chance(1, 2)) sb.setLength(64); tag[0] += "+prefix"; break;
				default: sb.setCharAt(8 * r.below(8), r.pick('+', '-')); tag[0] += "+sign";
			}
			return sb.toString();
		}
		return Codec.damage(r, s, HEX, r.range(1, 3), tag, prev);
	}

	static final Prop C19 = new Prop() {
		public List<String> gen(Rng r, long idx, boolean thorough) {
			List<String> p = new ArrayList<>(); List<byte[]> had = new ArrayList<>(); String prev = null; int n = r.range(20, thorough ? 160 : 80);
			for (int i = 0; i < n; i++) {
				byte[] v = value(r, had); had.add(v); String[] tag = {"honest"};
				switch (r.below(8)) {
					case 0: case 1: p.add("put d=" + Sim.hex(v)); break;
					case 2: case 3: { String s = spoil(r, text(r, v), tag, prev); prev = s; p.add("hear s=" + Sim.encS(s) + " tag=" + tag[0]); break; }
					case 4: { String s = spoil(r, text(r, v), tag, prev); prev = s; p.add("number s=" + Sim.encS(s) + " off=" + 8 * r.below(3) + " tag=" + tag[0]); break; }
					case 5: p.add("bytes d=" + Sim.hex(r.chance(1, 6) ? r.bytes(r.pickI(0, 1, 31, 33, 64, 32)) : v) + " off=" + 8 * r.below(3)); break;
					case 6: p.add(r.chance(1, 3) ? "restart" : "sort seed=" + r.below(1000000)); break;
					default: p.add("make d=" + Sim.hex(r.bytes(r.pickI(0, 1, 20, 31, 33, 64))) + " s=" + r.below(4)); break;
				}
			}
			return p;
		}
		public void exec(Plan p) {
			Lib lib = Codec.lib(); Map<Object, String> index = new HashMap<>(); List<Object> objs = new ArrayList<>(); List<byte[]> vals = new ArrayList<>(); Set<String> ref = new HashSet<>(); List<String> disk = new ArrayList<>(); long shape = 0;
			for (Step st : p.steps) {
				Sim.tick(1); Sim.stat("op." + st.op);
				switch (st.op) {
					case "put": { byte[] d = st.bin("d"); if (d.length != 32) break; Object h = lib.hash(d.clone()); enter(lib, index, objs, vals, ref, disk, h, d, "made from bytes"); shape = Sim.mix64(shape ^ 1); break; }
					case "hear": {
						String s = Sim.decS(st.str("s")); boolean ok = isHex64(s); Object h = null; String got; try { h = lib.call("hashParse", s); got = "H"; } catch (Throwable t) { got = "!" + JApi.kind(t); }
						faults(st, ok); Sim.log(got); Sim.check(got.equals(ok ? "H" : "!IllegalArgument"), ok ? "refused-good" : got.equals("H") ? "accepted-damaged" : "wrong-failure", st.str("tag") + " " + Sim.quote(s) + " gave " + got); Sim.trace(Sim.quote(s) + " -> " + got);
						if (ok) enter(lib, index, objs, vals, ref, disk, h, rev(unhex(s)), "made from the text " + s); shape = Sim.mix64(shape ^ Sim.fnv(st.str("tag") + ok)); Sim.distinct(Sim.fnv(st.str("tag") + ok)); break;
					}
					case "number": {
						String s = Sim.decS(st.str("s")); boolean ok = isHex64(s); int off = st.i("off") & 24; int[] v = new int[32]; for (int i = 0; i < 32; i++) v[i] = i * 0x01010101 ^ 0x5a5a5a5a; int[] was = v.clone(); String got = Codec.call1(lib, "hexToUint", s, v, off);
						faults(st, ok); Sim.log(got); Sim.check(got.equals(ok ? "" : "!IllegalArgument"), ok ? "refused-good" : got.equals("") ? "accepted-damaged" : "wrong-failure", "number " + st.str("tag") + " " + Sim.quote(s) + " gave " + got);
						if (ok) { BigInteger w = new BigInteger(s, 16); Sim.check(JApi.num(v, off).equals(w), "wrong-number", s + " read as " + JApi.num(v, off).toString(16)); for (int i = 0; i < 8; i++) was[off + i] = v[off + i]; String back = Codec.call1(lib, "uintToHex", v, off); Sim.check(back.equals(Sim.hex(Ref.be(w))), "wrong-text", s + " was written as " + Sim.quote(back)); }
						Sim.check(Arrays.equals(v, was), "touched-others", "number " + Sim.quote(s)); Sim.distinct(Sim.fnv("n" + st.str("tag") + ok)); break;
					}
					case "bytes": {
						byte[] d = st.bin("d"), keep = d.clone(); int off = st.i("off") & 24; int[] v = new int[32]; for (int i = 0; i < 32; i++) v[i] = i * 0x01010101 ^ 0x5a5a5a5a; int[] was = v.clone(); String got = Codec.call1(lib, "bytesToUint", d, v, off), want = d.length == 32 ? "" : "!IllegalArgument";
						Sim.log(got); Sim.check(got.equals(want), "wrong-outcome", d.length + " bytes gave " + got); Sim.check(Arrays.equals(d, keep), "input-modified", Sim.hex(keep));
						if (d.length == 32) { BigInteger w = new BigInteger(1, d); Sim.check(JApi.num(v, off).equals(w), "wrong-number", Sim.hex(d)); for (int i = 0; i < 8; i++) was[off + i] = v[off + i]; String b = Codec.call1(lib, "uintToBytes", v, off), x = Codec.call1(lib, "uintToHex", v, off); Sim.check(b.equals(Sim.hex(d)) && x.equals(Sim.hex(d)), "lost-in-round-trip", Sim.hex(d) + " gave " + b + " and " + Sim.quote(x)); }
						Sim.check(Arrays.equals(v, was), "touched-others", "bytes " + Sim.hex(keep)); break;
					}
					case "make": {  // bytes of a wrong number: refused
						byte[] d = st.bin("d"); String got; try { lib.hash(d.clone()); got = ""; } catch (Throwable t) { got = JApi.kind(t); } Sim.check(got.equals("IllegalArgument"), "accepted-damaged", "a hash of " + d.length + " bytes: " + got); Sim.stat("fault.wrong_length"); break;
					}
					case "restart": {  // the process starts again and reads its index from the texts it stored
						lib = Codec.lib(); index.clear(); objs.clear(); vals.clear(); ref.clear(); List<String> old = new ArrayList<>(disk); disk.clear(); Sim.stat("fault.restart");
						for (String s : old) { Object h; try { h = lib.call("hashParse", s); } catch (Throwable t) { throw new Violation("refused-good", "the stored text " + Sim.quote(s) + " gave " + JApi.kind(t)); } enter(lib, index, objs, vals, ref, disk, h, rev(unhex(s)), "read back from " + s); }
						break;
					}
					case "sort": sort(objs, vals, new Rng(st.num("seed"))); Sim.stat("probe.sorts"); break;
				}
				Sim.check(index.size() == ref.size(), "index-differs", "the index has " + index.size() + " entries for " + ref.size() + " values"); Sim.log(index.size());
			}
			sort(objs, vals, new Rng(7)); Sim.distinct(shape);
		}
		void faults(Step st, boolean ok) { for (String t : st.str("tag").split("\\+")) if (!t.equals("honest")) Sim.stat("fault." + t); Sim.stat(ok ? "outcome.accepted" : "outcome.refused"); }
		void enter(Lib lib, Map<Object, String> index, List<Object> objs, List<byte[]> vals, Set<String> ref, List<String> disk, Object h, byte[] d, String how) {
			String t = Sim.hex(rev(d)), x = Sim.hex(d), what = "hash " + x + ", " + how + ", "; Sim.check(t.equals(h.toString()), "wrong-text", what + "gave the text " + Sim.quote(h.toString()));
			String b = Codec.call1(lib, "hashBytes", h); Sim.check(b.equals(x), "wrong-bytes", what + "gave " + b);
			String known = index.get(h); Sim.check(known == null ? !ref.contains(x) : known.equals(x), "index-differs", what + "found " + known + " in an index that has" + (ref.contains(x) ? "" : " not") + " got it");
			if (known == null) { index.put(h, x); ref.add(x); if (disk.size() < 40) disk.add(h.toString()); }
			for (int i = Math.max(0, objs.size() - 12); i < objs.size(); i++) pair(h, d, objs.get(i), vals.get(i));
			Sim.check(!h.equals(null) && !h.equals(t) && h.equals(h), "wrong-equality", what + "equals null or a text, or not itself"); objs.add(h); vals.add(d);
		}
		@SuppressWarnings("unchecked") void pair(Object g, byte[] a, Object h, byte[] b) {
			int w = new BigInteger(1, rev(a)).compareTo(new BigInteger(1, rev(b))), c = Integer.signum(((Comparable<Object>)g).compareTo(h)), e = Integer.signum(((Comparable<Object>)h).compareTo(g)); String what = Sim.hex(a) + " and " + Sim.hex(b);
			Sim.check(c == w && e == -w, "wrong-order", what + " compare as " + c + " and " + e + ", their numbers as " + w);
			Sim.check(g.equals(h) == (w == 0) && h.equals(g) == (w == 0), "wrong-equality", what); Sim.check(w != 0 || g.hashCode() == h.hashCode(), "wrong-hash-code", what);
		}
		@SuppressWarnings({"unchecked", "rawtypes"}) void sort(List<Object> objs, List<byte[]> vals, Rng r) {
			List<Object> l = new ArrayList<>(objs); for (int i = l.size() - 1; i > 0; i--) Collections.swap(l, i, r.below(i + 1));
			try { Collections.sort((List)l); } catch (IllegalArgumentException e) { Sim.fail("wrong-order", "sorting: " + e.getMessage()); }
			List<String> w = new ArrayList<>(); for (byte[] v : vals) w.add(Sim.hex(rev(v))); Collections.sort(w);
			for (int i = 0; i < w.size(); i++) Sim.check(l.get(i).toString().equals(w.get(i)), "wrong-order", "place " + i + " has " + l.get(i) + " and should have " + w.get(i));
		}
	};
}
