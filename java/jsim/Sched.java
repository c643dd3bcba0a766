package jsim;

import java.util.*;
import java.util.concurrent.locks.LockSupport;

/**
 * Runs real threads one at a time. Instrumented code calls in before every memory access, call, class initialisation
 * and monitor operation; a list of slices decides which thread continues and for how long.
 */
public final class Sched {
	static final class T {
		int id; Thread th; Runnable body; boolean done, started; volatile boolean go; Object waits; boolean stuck; Throwable died; int noYield; long intr;
	}
	final T[] ts; final long[] sl; int next;  // slices: thread, count, kind (0 steps, 1 hot points)
	T cur; long budget; boolean hotMode;
	public long total, switches, hots, realBlocks; public final long limit; public long shape;
	volatile String verdict; volatile boolean over;
	final Map<String, T> init = new HashMap<>(); final Set<String> inited = new HashSet<>();
	final IdentityHashMap<Object, T> mon = new IdentityHashMap<>(); final IdentityHashMap<Object, int[]> monN = new IdentityHashMap<>();
	final Map<Thread, T> byThread = new HashMap<>();
	Object[] marked = new Object[64]; int nMarked;
	static final class Abort extends Error { Abort() { super("abort", null, false, false); } }

	final ClassLoader loader;
	public Sched(ClassLoader loader, Runnable[] bodies, long[] slices, long limit) {
		this.loader = loader; inited.addAll(Hook.preInited);
		ts = new T[bodies.length]; sl = slices; this.limit = limit;
		for (int i = 0; i < ts.length; i++) { T t = ts[i] = new T(); t.id = i; t.body = bodies[i]; }
	}

	/** Returns null, or a description of why the threads did not all finish. */
	public String run() {
		Hook.sched = this; Thread main = Thread.currentThread();
		for (T t : ts) {
			t.th = new Thread(null, () -> {
				await(t);
				try { t.body.run(); } catch (Abort e) { } catch (Throwable e) { t.died = e; }
				finish(t);
				if (over) LockSupport.unpark(main);
			}, "sim-" + t.id, 1 << 20);
			t.th.setDaemon(true); byThread.put(t.th, t);
		}
		for (T t : ts) t.th.start();
		cur = null; pickNext();
		int idle = 0; long last = -1; T lastCur = null;
		while (!over) {
			LockSupport.parkNanos(10_000_000);
			if (over) break;
			// A thread that waits on something outside the simulator (a JDK lock) would stop the simulation: let another one run
			T c = cur; Thread.State st = c == null ? null : c.th.getState();
			if (c != null && c == lastCur && total == last && (st == Thread.State.BLOCKED || st == Thread.State.WAITING || st == Thread.State.TIMED_WAITING) && c.go) idle++; else idle = 0;
			last = total; lastCur = c;
			if (idle >= 3) { synchronized (this) { if (cur == c && !over) { c.stuck = true; c.go = false; realBlocks++; if (realBlocks > 300 || !pickOther()) { verdict = "deadlock: " + states(); over = true; } } } idle = 0; }
		}
		Hook.sched = null;
		for (T t : ts) { t.go = true; LockSupport.unpark(t.th); }
		for (T t : ts) try { t.th.join(verdict == null ? 5000 : 200); } catch (InterruptedException e) { }
		if (verdict == null) for (T t : ts) if (t.died != null) { StringBuilder sb = new StringBuilder("thread " + t.id + " died: " + t.died); for (int i = 0; i < Math.min(5, t.died.getStackTrace().length); i++) sb.append(" | ").append(t.died.getStackTrace()[i]); verdict = sb.toString(); }
		return verdict;
	}
	String states() { StringBuilder sb = new StringBuilder(); for (T t : ts) sb.append(" thread ").append(t.id).append(t.done ? " finished" : t.stuck ? " blocked in the JDK" : t.waits != null ? " waits for " + (t.waits instanceof String ? "initialisation of " + t.waits : "the monitor of " + t.waits.getClass().getName()) : " runnable").append(','); return sb.toString(); }
	void await(T t) { boolean i = false; while (!t.go) { LockSupport.park(this); i |= Thread.interrupted(); } if (i) Thread.currentThread().interrupt(); if (over) throw new Abort(); }
	/** The current thread is interrupted after so many of its steps (0: now, less: no more). */
	public void interruptAfter(long n) { T t = byThread.get(Thread.currentThread()); t.intr = n <= 0 ? 0 : n; if (n == 0) t.th.interrupt(); }

	boolean runnable(T t) {
		if (t.done || t.stuck) return false;
		if (t.waits == null) return true;
		if (t.waits instanceof String) return !init.containsKey(t.waits); else return !mon.containsKey(t.waits);
	}
	synchronized void finish(T t) {
		t.done = true; for (Iterator<T> it = mon.values().iterator(); it.hasNext();) if (it.next() == t) it.remove();
		if (over) return;
		if (cur != t) { t.stuck = false; if (cur != null) return; }
		boolean all = true; for (T x : ts) all &= x.done;
		if (all) { over = true; return; }
		pickNext();
	}
	boolean pickOther() {
		boolean any = false; for (T x : ts) any |= runnable(x);
		if (!any) { for (T x : ts) if (!x.done && x.stuck) { cur = null; return true; } return false; }
		pickNext(); return true;
	}
	/** Chooses the next thread and lets it go. */
	synchronized void pickNext() {
		T pick = null;
		while (next < sl.length) {
			T c = ts[(int)(sl[next] % ts.length)]; long n = sl[next + 1]; boolean hot = sl[next + 2] != 0; next += 3;
			if (runnable(c)) { pick = c; budget = Math.max(1, n); hotMode = hot; break; }
		}
		if (pick == null) {  // no schedule left: everyone finishes, starting with the thread after the current one
			hotMode = false; budget = Long.MAX_VALUE / 2; int b = cur == null ? 0 : cur.id;
			if (cur != null && runnable(cur)) pick = cur; else for (int i = 1; i <= ts.length && pick == null; i++) { T c = ts[(b + i) % ts.length]; if (runnable(c)) pick = c; }
		}
		if (pick == null) { boolean all = true; for (T x : ts) all &= x.done; if (!all) { for (T x : ts) if (x.stuck) { cur = null; return; } verdict = "deadlock:" + states(); } over = true; return; }
		if (pick != cur) { switches++; shape = Sim.mix64(shape ^ pick.id ^ total << 3); }
		cur = pick; pick.go = true; LockSupport.unpark(pick.th);
	}
	public void step(boolean hot) {
		T t = cur;
		if (t == null || Thread.currentThread() != t.th) { foreign(); return; }
		total++; if (hot) hots++;
		if (t.intr > 0 && --t.intr == 0) t.th.interrupt();
		if (total > limit) { synchronized (this) { verdict = "no-progress: " + total + " steps," + states(); over = true; } throw new Abort(); }
		if (over) throw new Abort();
		if (hotMode) { if (!hot || --budget > 0) return; } else if (--budget > 0) return;
		handOver(t);
	}
	void handOver(T t) {
		t.go = false; pickNext();
		if (over) throw new Abort();
		if (cur != t) await(t); else t.go = true;
	}
	// A thread that was blocked in the JDK came back, or a thread that is not simulated
	void foreign() {
		T t; synchronized (this) { t = byThread.get(Thread.currentThread()); if (t == null || over) { if (t != null) throw new Abort(); return; } t.stuck = false; if (cur == null) { cur = t; t.go = true; return; } t.go = cur == t; }
		await(t);
	}
	void block(T t, Object on) { t.waits = on; while (!runnable(t)) handOver(t); t.waits = null; }

	public void init(String c) {
		if (inited.contains(c)) { return; }
		T t = byThread.get(Thread.currentThread()); if (t == null) return;
		step(true);
		if (inited.contains(c) || init.get(c) == t) return;
		if (!RunLoader.has(c)) { inited.add(c); return; }
		block(t, c);
		if (inited.contains(c)) return;
		if (!HasInit.of(c)) { inited.add(c); return; }
		init.put(c, t);
		try { Class.forName(c.replace('/', '.'), true, loader); } catch (Abort e) { throw e; } catch (Throwable e) { /* the instruction itself will report it */ }
		initDone(c);
	}
	public void initDone(String c) { inited.add(c); init.remove(c); }
	public void monEnter(Object o) {
		T t = byThread.get(Thread.currentThread()); if (t == null) return;
		step(true);
		if (mon.get(o) == t) { monN.get(o)[0]++; return; }
		block(t, o);
		mon.put(o, t); monN.put(o, new int[]{1});
	}
	public boolean monTry(Object o) {
		T t = byThread.get(Thread.currentThread()); if (t == null) return true;
		step(true);
		T w = mon.get(o); if (w == t) { monN.get(o)[0]++; return true; } if (w != null) return false;
		mon.put(o, t); monN.put(o, new int[]{1}); return true;
	}
	public void monExit(Object o) {
		T t = byThread.get(Thread.currentThread()); if (t == null || mon.get(o) != t) return;
		if (--monN.get(o)[0] == 0) { mon.remove(o); step(true); }
	}

	// ---- Arrays reachable from static fields: stores to them are interesting points ----
	void mark(Object a) {
		if (a == null || isMarked(a)) return;
		if (nMarked * 2 >= marked.length) { Object[] old = marked; marked = new Object[old.length * 2]; nMarked = 0; for (Object x : old) if (x != null) put(x); }
		put(a);
		if (a instanceof Object[]) for (Object x : (Object[])a) if (x != null && x.getClass().isArray()) mark(x);
	}
	void put(Object a) { int m = marked.length - 1, i = System.identityHashCode(a) & m; while (marked[i] != null) i = (i + 1) & m; marked[i] = a; nMarked++; }
	boolean isMarked(Object a) { int m = marked.length - 1, i = System.identityHashCode(a) & m; while (marked[i] != null) { if (marked[i] == a) return true; i = (i + 1) & m; } return false; }

	/** Whether a class has a static initialiser (looked up in its bytes). */
	static final class HasInit {
		static final Map<String, Boolean> m = new HashMap<>();
		static synchronized boolean of(String c) {
			return m.computeIfAbsent(c, k -> {
				boolean[] r = new boolean[1]; byte[] b; synchronized (RunLoader.raw) { b = RunLoader.read(k.replace('/', '.')); }
				new jdk.internal.org.objectweb.asm.ClassReader(b).accept(new jdk.internal.org.objectweb.asm.ClassVisitor(jdk.internal.org.objectweb.asm.Opcodes.ASM8) {
					public jdk.internal.org.objectweb.asm.MethodVisitor visitMethod(int a, String n, String d, String s, String[] e) { if (n.equals("<clinit>")) r[0] = true; return null; }
				}, 7);
				return r[0];
			});
		}
	}
}
