package jsim;

import java.math.BigInteger;
import java.util.*;
import jsim.Sim.*;

/** The channel and its peers for the text codecs: C06 (Base58Check) and C07 (Bech32 and segwit). */
public final class Codec {
	static byte[] payload(Rng r) {
		int n = r.pickI(0, 1, 20, 21, 33, 34, 78, r.below(120)); if (r.chance(1, 40)) n = (int)r.logu(3000); byte[] b = r.bytes(n);
		if (r.chance(1, 3)) for (int i = 0, z = r.below(n + 1); i < z; i++) b[i] = 0;
		if (r.chance(1, 6)) Arrays.fill(b, (byte)-r.below(2));
		return b;
	}
	static String b58String(Rng r) { String[] t = new String[1]; return damage(r, source58(r, t), Ref.B58, r.chance(1, 2) ? 0 : r.range(1, 2), t, null); }
	static String hrp(Rng r) {
		if (r.chance(2, 3)) return r.pick("bc", "tb", "bcrt", "a", "test1", "1", "11qq");
		int n = r.chance(1, 8) ? r.below(90) : r.range(1, 20); StringBuilder sb = new StringBuilder(); for (int i = 0; i < n; i++) { char c = (char)r.range(33, 126); if (!r.chance(1, 40)) c = Character.toLowerCase(c); if (r.chance(1, 100)) c = r.pick(' ', '\u007f', '\u0080', '\u0131', '\u00e9', '\0'); sb.append(c); } return sb.toString();
	}
	static String hrpOf(Rng r, int n) { StringBuilder sb = new StringBuilder(); for (int i = 0; i < n; i++) sb.append(Character.toLowerCase((char)r.range(33, 126))); return sb.toString(); }
	static String bechString(Rng r, boolean seg) { String[] t = new String[1]; return damage(r, sourceBech(r, seg, t), Ref.B32, r.chance(1, 2) ? 0 : r.range(1, 4), t, null); }

	// ---- Peers: an honest one and one that forges ----
	/** Changes two neighbouring bytes so that the sum of byte * w^position stays the same, for a multiplier w of some common weak hash. */
	static void weak(Rng r, byte[] c, int at) {
		int w = r.pickI(31, 31, 33, 37, 2, 3, 5, 17, 131, 255), k = r.chance(1, 2) ? 1 : r.range(1, Math.max(1, 255 / w)); boolean signed = r.chance(1, 2);
		int x = signed ? c[at] : c[at] & 0xFF, y = signed ? c[at + 1] : c[at + 1] & 0xFF, lo = signed ? -128 : 0, hi = lo + 255; if (r.chance(1, 2)) k = -k;
		if (x + k < lo || x + k > hi || y - k * w < lo || y - k * w > hi) k = -k;
		c[at] = (byte)(x + k); c[at + 1] = (byte)(y - k * w);
	}
	static String source58(Rng r, String[] tag) {
		byte[] p = payload(r); BigInteger R8;
		switch (r.below(12)) {
			case 0: tag[0] = "short_data"; return Ref.b58(r.bytes(r.below(5)));
			case 1: tag[0] = "bad_checksum"; { byte[] c = Arrays.copyOf(Ref.sha256d(p), 4); int a = r.below(4), b = r.below(4), d = 1 + r.below(255); switch (r.below(7)) { case 5: case 6: weak(r, c, r.below(3)); break; case 0: c[a] ^= 1 << r.below(8); break; case 1: c[a] += d; if (a != b) c[b] -= d; break; case 2: c[a] ^= d; if (a != b) c[b] ^= d; break; case 3: { byte x = c[a]; c[a] = c[b]; c[b] = x; break; } default: for (int q = 0; q < 4; q++) if (q != a) c[q] = (byte)r.next(); } return Ref.b58(Ref.cat(p, c)); }
			case 2: tag[0] = "single_hash_checksum"; return Ref.b58(Ref.cat(p, Arrays.copyOf(Ref.sha256(p), 4)));
			case 3: tag[0] = "zero_checksum"; return Ref.b58(Ref.cat(p, new byte[4]));
			case 4: tag[0] = "extra_leading_one"; return "1" + Ref.b58check(p);
			case 5: tag[0] = "random_text"; { StringBuilder sb = new StringBuilder(); int n = r.below(60); for (int i = 0; i < n; i++) sb.append(Ref.B58.charAt(r.below(58))); return sb.toString(); }
			case 6: tag[0] = "only_ones"; { char[] c = new char[r.below(12)]; Arrays.fill(c, '1'); return new String(c); }
			case 7: tag[0] = "checksum_of_nothing"; return r.pick("3QJmnh", "13QJmnh", "", "1", "1Wh4bh");
			default: tag[0] = "honest"; return Ref.b58check(p);
		}
	}
	static String sourceBech(Rng r, boolean seg, String[] tag) {
		String h = r.pick("bc", "tb", "bcrt", "a", "1q1", hrp(r)); int ver = r.range(0, 16); byte[] prog = r.bytes(r.chance(1, 2) ? r.pickI(20, 32, 2, 40) : r.range(2, 40)); String s = null;
		if (r.chance(1, 8)) Arrays.fill(prog, (byte)-r.below(2));
		switch (r.below(15)) {
			case 10: { tag[0] = "at_the_length_limits"; String q = hrpOf(r, r.chance(1, 3) ? r.range(80, 84) : r.range(1, 83)); byte[] g = r.bytes(Math.max(0, r.range(82, 84) - q.length())); for (int i = 0; i < g.length; i++) g[i] &= 31; s = Ref.bech32Raw(q, g, 0); break; }
			case 0: tag[0] = "bad_version"; s = Ref.bech32Raw(h, Ref.cat(new byte[]{(byte)r.range(17, 31)}, Ref.to5(prog)), 0); break;
			case 1: tag[0] = "bad_length"; s = Ref.bech32Raw(h, Ref.cat(new byte[]{(byte)ver}, Ref.to5(r.bytes(r.pickI(0, 1, 41, 42, 43, 44)))), 0); break;
			case 2: { tag[0] = "nonzero_padding"; byte[] g = Ref.to5(prog); int pad = g.length * 5 - prog.length * 8; if (pad > 0) g[g.length - 1] |= 1 << r.below(pad); s = Ref.bech32Raw(h, Ref.cat(new byte[]{(byte)ver}, g), 0); break; }
			case 3: { tag[0] = "excess_padding"; byte[] g = Ref.to5(prog); s = Ref.bech32Raw(h, Ref.cat(new byte[]{(byte)ver}, g, new byte[r.range(1, 2)]), 0); break; }
			case 4: tag[0] = "no_version"; s = Ref.bech32Raw(h, new byte[0], 0); break;
			case 5: tag[0] = "bech32m_checksum"; s = Ref.bech32Raw(h, Ref.cat(new byte[]{(byte)ver}, Ref.to5(prog)), 0x2bc830a3 ^ 1); break;
			case 6: { tag[0] = "arbitrary_groups"; byte[] g = r.bytes(r.below(84)); for (int i = 0; i < g.length; i++) g[i] &= 31; s = Ref.bech32Raw(h, g, 0); break; }
			case 7: { tag[0] = "too_long"; byte[] g = r.bytes(r.range(76, 90)); for (int i = 0; i < g.length; i++) g[i] &= 31; s = Ref.bech32Raw(h, g, 0); break; }
			case 8: { tag[0] = "checksum_off_by_constant"; s = Ref.bech32Raw(h, Ref.cat(new byte[]{(byte)ver}, Ref.to5(prog)), 1 << r.below(30)); break; }
			case 9: { tag[0] = "bad_prefix"; String q = r.pick("", "A b", "\u0080a", "Bc", "\u007f", "a\u00ff", new String(new char[84]).replace('\0', 'x')); s = Ref.bech32Raw(q, r.bytes(0), 0); break; }
			default: tag[0] = "honest"; s = Ref.segwit("bc", ver, prog); if (h.length() + 60 < 90 && Ref.segwit(h, ver, prog) != null) s = Ref.segwit(h, ver, prog); if (!seg && r.chance(1, 2)) { byte[] g = r.bytes(r.below(70)); for (int i = 0; i < g.length; i++) g[i] &= 31; s = Ref.bech32("bc", g); }
		}
		if (r.chance(1, 5)) s = s.toUpperCase(Locale.ROOT);
		return s;
	}

	// ---- The channel: k damages, each noted. prev: an earlier string for splicing ----
	static String damage(Rng r, String s, String alphabet, int k, String[] tag, String prev) {
		for (int j = 0; j < k; j++) {
			int n = s.length(); StringBuilder sb = new StringBuilder(s); int w = n == 0 ? 9 : r.below(prev == null ? 17 : 18);
			switch (w) {
				case 0: case 1: case 2: { int i = r.below(n); sb.setCharAt(i, alphabet.charAt(r.below(alphabet.length()))); tag[0] += "+subst"; break; }
				case 3: { int i = r.below(n); sb.deleteCharAt(i); tag[0] += "+drop"; break; }
				case 4: { int i = r.below(n + 1); sb.insert(i, alphabet.charAt(r.below(alphabet.length()))); tag[0] += "+insert"; break; }
				case 5: { if (n < 2) break; int i = r.below(n - 1); char c = sb.charAt(i); sb.setCharAt(i, sb.charAt(i + 1)); sb.setCharAt(i + 1, c); tag[0] += "+swap"; break; }
				case 6: { sb.setLength(r.below(n)); tag[0] += "+truncate"; break; }
				case 7: { int i = r.below(n); sb.setCharAt(i, flipCase(sb.charAt(i))); tag[0] += "+case"; break; }
				case 8: { int i = r.below(n); sb.setCharAt(i, (char)(sb.charAt(i) ^ 1 << r.below(8))); tag[0] += "+bitflip"; break; }
				case 9: { int i = r.below(n + 1); sb.insert(i, r.pick('\0', ' ', '0', 'O', 'I', 'l', 'b', '1', '\u00e9', '\uff11', '\ud800', '\u212a', '\u0130', '\n', 'i', 'o')); tag[0] += "+alien"; break; }
				case 10: { String[] sp = {" " + s, s + " ", "\n" + s, s + "\0", "1" + s, s + "1", s + s}; sb = new StringBuilder(sp[r.below(sp.length)]); tag[0] += "+frame"; break; }
				case 11: { int i = r.below(n), l = Math.min(n - i, 1 + r.below(4)); String d = sb.substring(i, i + l); sb.insert(i, d); tag[0] += "+dup"; break; }
				case 12: { int i = r.below(n), l = Math.min(n - i, 1 + r.below(5)); String d = new StringBuilder(sb.substring(i, i + l)).reverse().toString(); sb.replace(i, i + l, d); tag[0] += "+reverse"; break; }
				case 13: { sb = new StringBuilder(); for (char c : s.toCharArray()) sb.append(flipCase(c)); tag[0] += "+all_case"; break; }
				case 14: { int i = r.below(n); if (r.chance(1, 2)) for (int q = 0; q < n; q++) if ("kKsSiI".indexOf(s.charAt(q)) >= 0 && r.chance(1, 2)) { i = q; break; } char c = s.charAt(i); char h = (char)(c + r.pickI(0x80, 0x100, 0x2000, 0xFEE0, 0xD800, 0x8000)); if (r.chance(2, 3)) h = (c | 32) == 'k' ? '\u212a' : (c | 32) == 's' ? '\u017f' : (c | 32) == 'i' ? r.pick('\u0130', '\u0131') : c >= '0' && c <= '9' ? (char)(r.pickI(0xFF10, 0x660, 0x6F0, 0x966) + c - '0') : h; sb.setCharAt(i, h); tag[0] += "+lookalike"; break; }
				case 15: { String f = r.pick("\n", "\r\n", "\r", " ", "\t", "\u00a0", "\ufeff", "\"", "'", "bitcoin:", "\u200b", "\u2028", "\u0001", "\u007f", "?", ".", "\0"); int q = r.below(5); if (q == 4) { StringBuilder t = new StringBuilder(); int g = r.range(1, 12); for (int i = 0; i < n; i++) { if (i > 0 && i % g == 0) t.append(f.charAt(0)); t.append(s.charAt(i)); } sb = t; tag[0] += "+grouped"; break; } if (q != 1) sb.append(f); if (q == 1 || q == 2) sb.insert(0, f); tag[0] += "+frame"; break; }
				case 16: { String[] look = {"1lI|!", "oO0", "LlI1", "iI1", "l1I", "0oO", "D0O", "B8", "8b", "Z2", "z2", "S5", "5S"}; int from = r.below(n); boolean all = r.chance(1, 2), done = false; for (int q = 0; q < n && (all || !done); q++) { int at = (from + q) % n; for (String l : look) if (s.charAt(at) == l.charAt(0)) { sb.setCharAt(at, l.charAt(r.range(1, l.length() - 1))); done = true; break; } } tag[0] += "+lookalike"; break; }
				default: { int i = r.below(n), m = r.below(prev.length() + 1); sb = new StringBuilder(s.substring(0, i) + prev.substring(m)); tag[0] += "+splice"; }
			}
			s = sb.toString();
		}
		return s;
	}
	static char flipCase(char c) { return c >= 'a' && c <= 'z' ? (char)(c - 32) : c >= 'A' && c <= 'Z' ? (char)(c + 32) : c; }

	static Lib lib() { return RunLoader.fresh(0); }
	static String call(Lib lib, String fn, Object... a) {
		try { return JApi.text(lib.call(fn, a)); } catch (Throwable t) { return "!" + JApi.kind(t); }
	}

	static String call1(Lib lib, String fn, Object... a) {
		try { Object o = lib.call(fn, a); return o == null ? "" : JApi.text(o); } catch (Throwable t) { return "!" + JApi.kind(t); }
	}

	// ---- C06 ----
	static final Prop C06 = new Prop() {
		public List<String> gen(Rng r, long idx, boolean thorough) {
			List<String> p = new ArrayList<>(); String prev = null; int n = r.range(20, thorough ? 160 : 80);
			for (int i = 0; i < n; i++) {
				if (r.chance(1, 4)) { p.add("send d=" + Sim.hex(payload(r))); continue; }
				String[] tag = new String[1]; String s = damage(r, source58(r, tag), Ref.B58, r.chance(1, 3) ? 0 : r.range(1, 3), tag, prev); p.add("deliver s=" + Sim.encS(s) + " tag=" + tag[0]); prev = s;
			}
			return p;
		}
		public void exec(Plan p) {
			Lib lib = lib();
			for (Step st : p.steps) {
				Sim.tick(1);
				if (st.op.equals("send")) {
					byte[] d = st.bin("d"), keep = d.clone(); String want = Ref.b58check(d), got = call(lib, "b58enc", (Object)d); Sim.log(got); Sim.stat("op.encode"); Sim.distinct(d.length * 31L + (d.length > 0 ? Math.min(d[0] & 255, 2) : 3));
					Sim.check(Arrays.equals(d, keep), "input-modified", st.str("d")); Sim.check(got.equals(want), "wrong-text", Sim.hex(keep) + " gave " + got + " want " + want);
					String back = call(lib, "b58dec", got); Sim.check(back.equals(Sim.hex(keep)), "lost-in-round-trip", got + " gave " + back);
				} else if (st.op.equals("deliver")) {
					String s = Sim.decS(st.str("s")); byte[] w = Ref.unb58check(s); String want = w == null ? "!IllegalArgument" : Sim.hex(w), got = call(lib, "b58dec", s);
					Sim.log(got); for (String t : st.str("tag").split("\\+")) if (!t.equals("honest")) Sim.stat("fault." + t); Sim.stat(w == null ? "outcome.refused" : "outcome.accepted"); Sim.distinct(Sim.fnv(st.str("tag") + (w == null) + s.length()));
					Sim.trace(Sim.quote(s) + " -> " + got);
					Sim.check(got.equals(want), w == null ? got.startsWith("!") ? "wrong-failure" : "accepted-damaged" : "refused-good", st.str("tag") + " " + Sim.quote(s) + " gave " + got + " want " + want);
					if (w != null) Sim.check(Ref.b58check(w).equals(s), "not-canonical", s);
				}
			}
		}
	};

	// ---- C07 ----
	static final Prop C07 = new Prop() {
		public List<String> gen(Rng r, long idx, boolean thorough) {
			List<String> p = new ArrayList<>(); String prev = null; int n = r.range(20, thorough ? 160 : 80);
			for (int i = 0; i < n; i++) switch (r.below(8)) {
				case 0: { byte[] pr = r.bytes(r.chance(1, 6) ? r.below(60) : r.range(2, 40)); if (r.chance(1, 6)) Arrays.fill(pr, (byte)-r.below(2)); p.add("sendseg h=" + Sim.encS(hrp(r)) + " v=" + (r.chance(1, 6) ? r.range(-3, 40) : r.range(0, 16)) + " d=" + Sim.hex(pr)); break; }
				case 1: { byte[] g = r.bytes(r.chance(1, 5) ? r.range(60, 90) : r.below(70)); String h = hrp(r); if (r.chance(1, 4)) { h = hrpOf(r, r.chance(1, 3) ? r.range(78, 85) : r.range(1, 83)); g = r.bytes(Math.max(0, r.range(82, 84) - h.length())); }  // at the limits of what fits
					for (int j = 0; j < g.length; j++) g[j] &= 31; if (g.length > 0 && r.chance(1, 6)) g[r.below(g.length)] = (byte)r.next(); p.add("send h=" + Sim.encS(h) + " d=" + Sim.hex(g)); break; }
				case 2: case 3: { // damage of at most four characters of an accepted text, never changing its length or only its case
					boolean seg = r.chance(1, 2); String s; String[] tag = new String[1]; do s = sourceBech(r, seg, tag); while ((seg ? Ref.unsegwit(s) : (Object)Ref.unbech32(s)) == null);
					if (r.chance(1, 4)) s = s.toUpperCase(Locale.ROOT); p.add("small s=" + Sim.encS(s) + " seg=" + (seg ? 1 : 0) + " seed=" + r.below(1000000) + " n=" + r.range(1, 4)); break; }
				default: { String[] tag = new String[1]; boolean seg = r.chance(2, 3); String s = damage(r, sourceBech(r, seg, tag), Ref.B32, r.chance(1, 3) ? 0 : r.range(1, 3), tag, prev); p.add("deliver s=" + Sim.encS(s) + " seg=" + (seg ? 1 : 0) + " tag=" + tag[0]); prev = s; }
			}
			return p;
		}
		public void exec(Plan p) {
			Lib lib = lib(); Map<String, String> seen = new HashMap<>();
			for (Step st : p.steps) {
				Sim.tick(1); boolean seg = st.num("seg") != 0; String s;
				if (st.op.equals("sendseg") || st.op.equals("send")) {
					String h = Sim.decS(st.str("h")); byte[] d = st.bin("d"), keep = d.clone(); boolean sg = st.op.equals("sendseg"); int v = st.i("v");
					String want = sg ? Ref.segwit(h, v, d) : Ref.bech32(h, d), got = sg ? call(lib, "segenc", h, v, d) : call(lib, "bgenc", h, d);
					if (want == null) want = "!IllegalArgument"; Sim.log(got); Sim.stat(want.startsWith("!") ? "outcome.encode_refused" : "op.encode"); Sim.distinct(Sim.fnv("e" + sg + want.startsWith("!") + d.length + "," + h.length()));
					Sim.check(Arrays.equals(d, keep), "input-modified", st.op); Sim.check(got.equals(want), got.startsWith("!") && want.startsWith("!") ? "wrong-failure" : "wrong-text", Sim.quote(h) + " " + v + " " + Sim.hex(keep) + " gave " + got + " want " + want);
					if (want.startsWith("!")) continue;
					s = got; seg = sg;
				} else if (st.op.equals("small")) {
					s = Sim.decS(st.str("s")); Rng r = new Rng(st.num("seed")); int n = st.i("n"); StringBuilder sb = new StringBuilder(s); boolean up = !s.equals(s.toLowerCase(Locale.ROOT)); HashSet<Integer> at = new HashSet<>();
					int sep = s.lastIndexOf('1');
					// Bech32's guarantee is for substitutions within the data part (the separator stays where it is)
					for (int i = 0; i < n; i++) { int k = sep + 1 + r.below(s.length() - sep - 1); if (!at.add(k)) continue; char c; do { c = Ref.B32.charAt(r.below(32)); if (up) c = Character.toUpperCase(c); } while (c == s.charAt(k)); sb.setCharAt(k, c); }
					s = sb.toString(); Sim.stat("fault.small_damage_" + at.size()); String got = call(lib, seg ? "segdec" : "bgdec", s); Sim.log(got); Sim.distinct(Sim.fnv("s" + at.size() + "," + s.length()));
					if (!at.isEmpty()) Sim.check(got.equals("!IllegalArgument"), got.startsWith("!") ? "wrong-failure" : "small-damage-accepted", Sim.quote(s) + " gave " + got);
				} else if (st.op.equals("deliver")) {
					s = Sim.decS(st.str("s")); for (String t : st.str("tag").split("\\+")) if (!t.equals("honest")) Sim.stat("fault." + t);
				} else continue;
				Object[] w = seg ? Ref.unsegwit(s) : Ref.unbech32(s); String want = JApi.orIAE(w), got = call(lib, seg ? "segdec" : "bgdec", s); Sim.log(got);
				Sim.trace(Sim.quote(s) + " -> " + got); Sim.stat(w == null ? "outcome.refused" : "outcome.accepted"); Sim.distinct(Sim.fnv(st.str("tag") + seg + (w == null) + s.length()));
				Sim.check(got.equals(want), w == null ? got.startsWith("!") ? "wrong-failure" : "accepted-damaged" : "refused-good", st.str("tag") + " " + Sim.quote(s) + " gave " + got + " want " + want);
				if (seg && w != null) { String o = seen.put(got, s.toLowerCase(Locale.ROOT)); Sim.check(o == null || o.equals(s.toLowerCase(Locale.ROOT)), "two-texts-one-output", Sim.quote(s) + " and " + Sim.quote(o) + " both give " + got); }
			}
		}
	};
}
