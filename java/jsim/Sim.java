package jsim;

import java.io.*;
import java.nio.charset.StandardCharsets;
import java.nio.file.*;
import java.util.*;

/**
 * Core of the Java simulators: plans, the seeded random generator, logging, statistics and the command line.
 * The protocol and the plan format are those of the C++ core (cpp/simcore.hpp).
 */
public final class Sim {

	public static final class Violation extends RuntimeException {
		public final String cls;
		public Violation(String cls, String msg) { super(msg, null, false, false); this.cls = cls; }
	}

	public interface Prop {
		List<String> gen(Rng r, long idx, boolean thorough);
		void exec(Plan p) throws Throwable;
	}

	// ---- Seeded random numbers (splitmix64, as in the C++ core) ----
	public static long mix64(long z) {
		z += 0x9E3779B97F4A7C15L; z = (z ^ (z >>> 30)) * 0xBF58476D1CE4E5B9L;
		z = (z ^ (z >>> 27)) * 0x94D049BB133111EBL; return z ^ (z >>> 31);
	}
	public static long fnv(byte[] b) { long h = 0xCBF29CE484222325L; for (byte x : b) { h ^= x & 0xFF; h *= 0x100000001B3L; } return h; }
	public static long fnv(String s) { return fnv(s.getBytes(StandardCharsets.UTF_8)); }

	public static final class Rng {
		long s, at, flip, drawn;  // at: the draw that is altered, for near copies of what a seed gives
		public Rng(long seed) { s = seed; }
		public long next() { long r = mix64(s); s += 0x9E3779B97F4A7C15L; if (++drawn == at) r ^= flip; return r; }
		public long below(long n) { return n <= 0 ? 0 : Long.remainderUnsigned(next(), n); }
		public int below(int n) { return (int)below((long)n); }
		public int range(int a, int b) { return a + below(b - a + 1); }
		public boolean chance(int num, int den) { return below(den) < num; }
		public long logu(long max) { int bits = 63 - Long.numberOfLeadingZeros(Math.max(1, max)); int b = below(bits + 1); long v = (1L << b) + below(1L << b); return Math.min(v, max); }
		public byte[] bytes(int n) { byte[] b = new byte[n]; for (int i = 0; i < n; i++) b[i] = (byte)next(); return b; }
		@SafeVarargs public final <T> T pick(T... v) { return v[below(v.length)]; }
		public int pickI(int... v) { return v[below(v.length)]; }
	}

	// ---- Plans ----
	public static final class Step {
		public final String op; final Map<String, String> a = new LinkedHashMap<>();
		public Step(String line) {
			String[] w = line.trim().split(" +"); op = w[0];
			for (int i = 1; i < w.length; i++) { int e = w[i].indexOf('='); if (e < 0) a.put(w[i], ""); else a.put(w[i].substring(0, e), w[i].substring(e + 1)); }
		}
		public boolean has(String k) { return a.containsKey(k); }
		public String str(String k, String d) { String v = a.get(k); return v == null ? d : v; }
		public String str(String k) { return str(k, ""); }
		public long num(String k, long d) { String v = a.get(k); if (v == null) return d; try { return Long.parseLong(v); } catch (NumberFormatException e) { return d; } }
		public long num(String k) { return num(k, 0); }
		public int i(String k) { return (int)num(k, 0); }
		public byte[] bin(String k) { return unhex(str(k)); }
	}
	public static final class Plan {
		public final Map<String, String> hdr = new LinkedHashMap<>(); public final List<Step> steps = new ArrayList<>(); public final List<String> lines = new ArrayList<>();
		public Plan(List<String> in) {
			for (String l : in) {
				if (l.isEmpty() || l.startsWith("#")) continue;
				if (l.startsWith("!")) { int e = l.indexOf(' '); if (e < 0) hdr.put(l.substring(1), ""); else hdr.put(l.substring(1, e), l.substring(e + 1)); }
				else { steps.add(new Step(l)); lines.add(l); }
			}
		}
		public long num(String k, long d) { String v = hdr.get(k); return v == null ? d : Long.parseLong(v); }
		public String str(String k, String d) { String v = hdr.get(k); return v == null ? d : v; }
	}

	// ---- What executors use ----
	static long hash, steps;
	static TreeMap<String, Long> stats = new TreeMap<>();
	static LinkedHashSet<Long> dist = new LinkedHashSet<>();
	public static boolean verbose;
	public static void log(long v) { hash = mix64(hash ^ v) + 0x51; }
	public static void log(String s) { log(fnv(s)); }
	public static void log(byte[] b) { log(fnv(b)); }
	public static void stat(String n) { stat(n, 1); }
	public static void stat(String n, long k) { stats.merge(n, k, Long::sum); }
	public static void distinct(long h) { if (dist.size() < 4096) dist.add(h); }
	public static void tick(long n) { steps += n; }
	public static void trace(String s) { if (verbose) System.out.println("# " + s); }
	public static Violation fail(String cls, String msg) { throw new Violation(cls, msg); }
	public static void check(boolean ok, String cls, String msg) { if (!ok) fail(cls, msg); }

	public static String hex(byte[] b) { StringBuilder sb = new StringBuilder(b.length * 2); for (byte x : b) { sb.append(Character.forDigit((x >> 4) & 15, 16)); sb.append(Character.forDigit(x & 15, 16)); } return sb.toString(); }
	public static byte[] unhex(String s) { byte[] b = new byte[s.length() / 2]; for (int i = 0; i < b.length; i++) b[i] = (byte)(Character.digit(s.charAt(2 * i), 16) << 4 | Character.digit(s.charAt(2 * i + 1), 16)); return b; }
	// Arbitrary strings in plans: UTF-16 code units in hex
	public static String encS(String s) { StringBuilder sb = new StringBuilder(); for (int i = 0; i < s.length(); i++) { String h = Integer.toHexString(s.charAt(i)); sb.append("0000".substring(h.length())).append(h); } return sb.toString(); }
	public static String decS(String h) { StringBuilder sb = new StringBuilder(); for (int i = 0; i + 4 <= h.length(); i += 4) sb.append((char)Integer.parseInt(h.substring(i, i + 4), 16)); return sb.toString(); }
	public static String quote(String s) { if (s == null) return "null"; StringBuilder sb = new StringBuilder("\""); for (char c : s.toCharArray()) if (c < 32 || c > 126) sb.append("\\u").append(encS(String.valueOf(c))); else sb.append(c); return sb.append('"').toString(); }

	static String outCls, outMsg;

	// ---- The process environment a run meets: default locale and character set ----
	static final String[] LOCALES = {"en-US", "tr-TR", "ar-EG-u-nu-arab", "th-TH-u-nu-thai", "hi-IN-u-nu-deva", "lt-LT", "az-AZ"}, CHARSETS = {"UTF-8", "US-ASCII", "ISO-8859-1", "UTF-16", "UTF-16LE", "IBM1047"};
	static List<String> withEnv(List<String> plan, Rng r) {
		List<String> l = new ArrayList<>(plan); if (r.chance(1, 2)) return l;
		l.add(0, "!env " + r.pick(LOCALES) + " " + r.pick(CHARSETS)); return l;
	}
	static java.lang.reflect.Field charset;
	static void setEnv(String env) {
		String[] e = env.split(" "); Locale.setDefault(Locale.forLanguageTag(e[0]));
		try {
			if (charset == null) { charset = java.nio.charset.Charset.class.getDeclaredField("defaultCharset"); charset.setAccessible(true); }
			charset.set(null, java.nio.charset.Charset.isSupported(e[1]) ? java.nio.charset.Charset.forName(e[1]) : StandardCharsets.UTF_8);
		} catch (ReflectiveOperationException x) { throw new IllegalStateException(x); }
	}

	static boolean runPlan(Prop p, Plan pl) {
		String env = pl.str("env", null); if (env == null) return run1(p, pl);
		setEnv(env); try { boolean ok = run1(p, pl); String[] e = env.split(" "); stat("env.locale_" + e[0]); stat("env.charset_" + e[1]); return ok; } finally { setEnv("en-US UTF-8"); }
	}
	static boolean run1(Prop p, Plan pl) {
		hash = 0; steps = 0; stats = new TreeMap<>(); dist = new LinkedHashSet<>(); outCls = null; outMsg = null;
		try { p.exec(pl); return true; }
		catch (Violation v) { outCls = v.cls; outMsg = v.getMessage(); }
		catch (Throwable t) {
			outCls = "harness-" + t.getClass().getSimpleName(); StringBuilder sb = new StringBuilder(String.valueOf(t));
			for (int i = 0; i < Math.min(8, t.getStackTrace().length); i++) sb.append(" | ").append(t.getStackTrace()[i]);
			outMsg = sb.toString();
		}
		return false;
	}
	static String one(String s) { return s == null ? "" : s.replace('\n', ' ').replace('\r', ' '); }
	static long runSeed(long seed, String prop, long idx) { return mix64(mix64(seed ^ fnv(prop)) + idx * 0x632BE59BD9B4E019L); }

	public static void main(String[] argv, Map<String, Prop> props) throws Exception {
		String id = argv[0], mode = argv[1]; Prop p = props.get(id);
		if (p == null) { System.err.println("unknown property " + id); System.exit(3); }
		Map<String, String> o = new HashMap<>();
		for (int i = 2; i < argv.length; i++) { int e = argv[i].indexOf('='); if (e > 0) o.put(argv[i].substring(0, e), argv[i].substring(e + 1)); }
		long seed = Long.parseLong(o.getOrDefault("seed", "1")); boolean thorough = "thorough".equals(o.get("tier"));
		if (mode.equals("gen")) { long ix = Long.parseLong(o.get("idx")), rs = runSeed(seed, id, ix); for (String l : withEnv(p.gen(new Rng(rs), ix, thorough), new Rng(mix64(rs ^ 0xE4)))) System.out.println(l); System.exit(0); }
		if (mode.equals("exec") || mode.equals("serve")) {
			verbose = mode.equals("exec"); BufferedReader in = new BufferedReader(new InputStreamReader(System.in)); int rc = 0;
			for (;;) {
				String path = mode.equals("exec") ? o.get("plan") : in.readLine(); if (path == null) break;
				boolean ok = runPlan(p, new Plan(Files.readAllLines(Paths.get(path.trim()))));
				if (ok) System.out.printf("RESULT ok hash=%016x%n", hash); else { System.out.printf("RESULT violation class=%s hash=%016x msg=%s%n", outCls, hash, one(outMsg)); rc = 1; }
				System.out.flush();
				if (mode.equals("exec")) break;
			}
			Runtime.getRuntime().halt(rc);
		}
		PrintWriter out = new PrintWriter(new BufferedWriter(new OutputStreamWriter(new FileOutputStream(o.get("out")), StandardCharsets.UTF_8)), false);
		List<Long> list = null;
		if (o.containsKey("idx")) { list = new ArrayList<>(); for (String s : o.get("idx").split(",")) list.add(Long.parseLong(s)); }
		long start = Long.parseLong(o.getOrDefault("start", "0")), step = Long.parseLong(o.getOrDefault("step", "1")), end = Long.parseLong(o.getOrDefault("end", "0")), maxv = Long.parseLong(o.getOrDefault("maxviol", "5"));
		long t0 = System.nanoTime(), limit = Long.parseLong(o.getOrDefault("deadline", "1000000")) * 1000000000L; long runs = 0, nv = 0, all = 0;
		TreeMap<String, Long> tot = new TreeMap<>(); HashSet<Long> d = new HashSet<>();
		for (int k = 0;; k++) {
			if (list != null ? k >= list.size() : start + k * step >= end) break;
			long idx = list != null ? list.get(k) : start + k * step;
			if (System.nanoTime() - t0 > limit) { tot.merge("sim.deadline_hit", 1L, Long::sum); break; }
			out.println("B " + idx); out.flush();
			boolean ok = runPlan(p, new Plan(withEnv(p.gen(new Rng(runSeed(seed, id, idx)), idx, thorough), new Rng(mix64(runSeed(seed, id, idx) ^ 0xE4))))); runs++;
			out.printf("R %d %016x %s%n", idx, hash, ok ? "ok" : outCls);
			for (Map.Entry<String, Long> e : stats.entrySet()) tot.merge(e.getKey(), e.getValue(), Long::sum);
			if (d.size() < 1000000) d.addAll(dist);
			all += steps;
			if (!ok) { out.println("V " + idx + " " + outCls + " " + one(outMsg)); out.flush(); if (++nv >= maxv) break; }
		}
		for (Map.Entry<String, Long> e : tot.entrySet()) out.println("S " + e.getKey().replace(' ', '_') + " " + e.getValue());
		out.println("S sim.steps " + all);
		for (long x : d) out.printf("D %016x%n", x);
		out.printf("E %d %.3f%n", runs, (System.nanoTime() - t0) / 1e9);
		out.close();
		Runtime.getRuntime().halt(0);
	}
}
