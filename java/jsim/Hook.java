package jsim;

import java.math.BigInteger;
import java.util.*;

/** Called by instrumented library code. Everything is off until a simulator switches it on. */
public final class Hook {
	// ---- Scheduling (C02) ----
	static volatile Sched sched;
	public static void y() { Sched s = sched; if (s != null) s.step(false); }
	public static void hot() { Sched s = sched; if (s != null) s.step(true); }
	public static void st(Object a) { Sched s = sched; if (s != null) s.step(s.isMarked(a)); }
	public static void mark(Object a) { Sched s = sched; if (s != null) s.mark(a); }
	public static void init(String c) { Sched s = sched; if (s != null) s.init(c); }
	public static void initDone(String c) { Sched s = sched; if (s != null) s.initDone(c); else preInited.add(c); }
	static final Set<String> preInited = new HashSet<>();
	public static void monEnter(Object o) { Sched s = sched; if (s != null) s.monEnter(o); }
	public static void monExit(Object o) { Sched s = sched; if (s != null) s.monExit(o); }

	// Re-entrant locks are monitors to the scheduler; other kinds of lock block for real, which the scheduler notices
	public static void lock(java.util.concurrent.locks.Lock l) { Sched s = sched; boolean m = s != null && l instanceof java.util.concurrent.locks.ReentrantLock; if (m) s.monEnter(l); l.lock(); }
	public static void unlock(java.util.concurrent.locks.Lock l) { Sched s = sched; boolean m = s != null && l instanceof java.util.concurrent.locks.ReentrantLock; l.unlock(); if (m) s.monExit(l); }
	public static boolean tryLock(java.util.concurrent.locks.Lock l) { Sched s = sched; if (s == null || !(l instanceof java.util.concurrent.locks.ReentrantLock)) return l.tryLock(); return s.monTry(l) && l.tryLock(); }

	// ---- Allocation failure (C13) ----
	static long allocs, failAt; static boolean failing, stack;
	public static void alloc() { if (failing && (stack ? deepCall() : ++allocs == failAt)) { failing = false; throw stack ? new StackOverflowError("injected") : new OutOfMemoryError("injected"); } }
	public static void frame() { if (failing && stack && ++allocs == failAt) { failing = false; throw new StackOverflowError("injected"); } }
	// A call into the JDK needs a frame, too
	private static boolean deepCall() { return ++allocs == failAt; }

	// ---- Keyed hash replacement (C09) ----
	static byte[] hmac; static boolean hmacFired;
	public static byte[] hmacOverride() { byte[] r = hmac; if (r != null) { hmac = null; hmacFired = true; } return r; }

	// ---- Traces (C15) ----
	static boolean tracing; static long th, tn; static int[] rec; static int recN;
	static long nextStop; static Runnable atStop;
	static void ev(int a, int b) {
		if (!tracing) return;
		th = (th ^ (a * 0x9E3779B97F4A7C15L + b)) * 0xFF51AFD7ED558CCDL; th ^= th >>> 29; tn++;
		if (rec != null) { if (recN + 2 > rec.length) rec = Arrays.copyOf(rec, rec.length * 2); rec[recN++] = a; rec[recN++] = b; }
		if (tn == nextStop) atStop.run();
	}
	public static void enter(int site) { ev(site, 0); }
	public static void branch(int site) { ev(site, 1); }
	public static void index(int i, int site) { ev(site, i); }
	public static void store(Object a, int i, int site) { ev(site, i); }
	public static void divide(int x, int y, int site) { ev(site, x); ev(site, y); }
	public static void long1(long x, int site) { ev(site, (int)x); ev(site, (int)(x >>> 32)); }
	public static void big(BigInteger x, int site) { ev(site, x == null ? -1 : x.bitLength()); }
	public static void arrays(Object a, Object b, int site) {
		int r = -2;
		if (a instanceof int[] && b instanceof int[]) r = Arrays.mismatch((int[])a, (int[])b); else if (a instanceof byte[] && b instanceof byte[]) r = Arrays.mismatch((byte[])a, (byte[])b); else if (a instanceof long[] && b instanceof long[]) r = Arrays.mismatch((long[])a, (long[])b);
		ev(site, r);
	}
	static Object aSrc, aDst; static int aSo, aDo, aN;
	public static void arraycopy(Object s, int so, Object d, int dof, int n, int site) { aSrc = s; aSo = so; aDst = d; aDo = dof; aN = n; ev(site, so); }
	public static Object acSrc() { return aSrc; }
	public static Object acDst() { Object d = aDst; aSrc = aDst = null; return d; }
	public static int acSo() { return aSo; }
	public static int acDo() { return aDo; }
	public static int acN() { return aN; }
}
