package jsim;

import java.io.File;
import java.math.BigInteger;
import java.util.*;
import jsim.Sim.*;

/** The other Java worlds: threads (C02), signer (C09), memory exhaustion (C13), caller memory (C14), attacker (C15). */
public final class Worlds {
	static String seedOf(Rng r) { return "" + r.below(1L << 40); }

	// ---- C02: threads under a seeded scheduler, starting with the very first use of the library ----
	static final Prop C02 = new Prop() {
		public List<String> gen(Rng r, long idx, boolean thorough) {
			List<String> p = new ArrayList<>(); int nt = r.chance(2, 3) ? 2 : r.range(3, 4); p.add("!threads " + nt); boolean heavy = r.chance(1, 12);
			int calls = heavy ? nt : r.range(2, thorough ? 16 : 8); boolean same = r.chance(2, 3); String op = null; String sd = null;
			long work = 400;
			for (int i = 0; i < calls; i++) {
				JApi.Op o = same && op != null && r.chance(3, 4) ? JApi.find(op) : heavy ? JApi.pick(r, 400) : JApi.pick(r, 4); if (sd == null || !r.chance(1, 3)) sd = seedOf(r); else if (r.chance(1, 2)) sd = JApi.near(r, sd);
				op = o.name; work += o.cost * 3000L; p.add("call t=" + (i < nt ? i : r.below(nt)) + " op=" + op + " seed=" + sd + (r.chance(1, 6) ? " intr=" + (r.chance(1, 3) ? 0 : r.chance(1, 2) ? r.logu(work) : r.range(1, 30)) : ""));
			}
			int style = r.below(6), n = r.range(4, thorough ? 400 : 120);
			for (int i = 0; i < n; i++) {
				int t = r.below(nt); long k; boolean hot = false;
				switch (style) {
					case 0: k = r.logu(Math.max(8, work / 8)); break;  // any length
					case 1: k = r.range(1, 6); break;  // very fine
					case 2: k = i < 4 ? r.logu(work) : work; break;  // one long stall
					case 3: k = r.range(1, 3); hot = true; break;  // switch at accesses to shared state
					case 4: hot = r.chance(1, 2); k = hot ? r.range(1, 4) : r.logu(400); break;
					default: k = r.logu(300);
				}
				p.add((hot ? "hot t=" : "slice t=") + t + " n=" + k);
			}
			return p;
		}
		public void exec(Plan p) {
			int nt = (int)Math.max(1, Math.min(8, p.num("threads", 2))); Hook.preInited.clear();
			RunLoader ld = new RunLoader(Weave.YIELD, true); Lib lib = ld.lib(); Map<String, Object[]> args = new HashMap<>(); Map<String, JApi.Env> envs = new HashMap<>();
			List<List<Object[]>> todo = new ArrayList<>(); for (int i = 0; i < nt; i++) todo.add(new ArrayList<>());
			List<Object[]> all = new ArrayList<>(); List<Long> sl = new ArrayList<>(); long shape = nt;
			// Equal calls share one set of input arrays and hash objects, also across threads
			for (Step s : p.steps) {
				if (s.op.equals("call")) {
					String key = s.str("op") + " " + s.str("seed"); JApi.Op o = JApi.find(s.str("op")); Object[] a = args.computeIfAbsent(key, k -> JApi.args(o, s.num("seed"))); shape = Sim.mix64(shape ^ Sim.fnv(o.name));
					JApi.Env env = envs.computeIfAbsent(key, k -> new JApi.Env() {
						final Map<Object, Object> by = new IdentityHashMap<>();
						byte[] in(byte[] b) { return (byte[])by.computeIfAbsent(b, x -> super.in(b)); }
						Object hash(Lib l, byte[] b) { return new Late(b); }
					});
					Object[] c = {o, a, env, null, key, s.i("t") % nt, s.num("intr", -1), null}; todo.get(s.i("t") % nt).add(c); all.add(c); Sim.stat("op." + o.name);
				} else if (s.op.equals("slice") || s.op.equals("hot")) { sl.add(s.num("t") % nt); sl.add(s.num("n")); sl.add(s.op.equals("hot") ? 1L : 0L); }
			}
			long[] slices = new long[sl.size()]; for (int i = 0; i < slices.length; i++) slices[i] = sl.get(i);
			Map<String, Object> hashes = new HashMap<>();
			Runnable[] bodies = new Runnable[nt];
			for (int t = 0; t < nt; t++) { List<Object[]> mine = todo.get(t); bodies[t] = () -> { for (Object[] c : mine) {
				JApi.Inv v = ((JApi.Op)c[0]).inv(lib, (JApi.Env)c[2], (Object[])c[1]); late(v, lib, hashes, (String)c[4]); long in = (Long)c[6]; if (in >= 0) Hook.sched.interruptAfter(in); c[3] = v.run(lib) + " raw " + v.raw; if (in >= 0) { Sched.T me = Hook.sched.byThread.get(Thread.currentThread()); boolean due = me.intr == 0; me.intr = 0; c[7] = due ? Thread.interrupted() ? "kept" : "lost" : "not due"; } } }; }
			Sched sc = new Sched(ld, bodies, slices, 400_000_000L); String bad = sc.run();
			Sim.tick(sc.total); Sim.log(sc.total); Sim.log(sc.switches); Sim.stat("fault.preemption", sc.switches); Sim.stat("probe.hot_points", sc.hots); if (sc.realBlocks > 0) Sim.stat("probe.blocked_in_jdk", sc.realBlocks); Sim.distinct(shape ^ sc.shape);
			Sim.trace(sc.total + " steps, " + sc.switches + " switches, " + sc.hots + " hot points");
			if (bad != null) Sim.fail(bad.substring(0, bad.indexOf(':') < 0 ? bad.length() : bad.indexOf(':')).replace(' ', '-').replaceAll("-\\d+", ""), bad);
			Lib solo = RunLoader.fresh(0); Map<String, String> want = new HashMap<>();
			for (Object[] c : all) {
				JApi.Op o = (JApi.Op)c[0]; Object[] a = (Object[])c[1]; String key = (String)c[4], got = (String)c[3]; Sim.log(got);
				String w = want.computeIfAbsent(key, k -> { JApi.Inv v = o.inv(solo, new JApi.Env(), a); String alone = v.run(solo); Sim.check(alone.equals(o.want(a)), "wrong-alone", key + " gave " + alone + " want " + o.want(a)); return alone + " raw " + v.raw; });
				Sim.trace("thread " + c[5] + " " + key + " -> " + got);
				if (c[7] != null) { Sim.log((String)c[7]); if (!c[7].equals("not due")) Sim.stat("fault.interrupt"); Sim.check(!c[7].equals("lost"), "interrupt-lost", "thread " + c[5] + ", " + key + ": the thread was interrupted before or during the call, and after it no longer is"); }
				Sim.check(got.equals(w), "wrong-result", "thread " + c[5] + ", " + key + " gave " + got + " want " + w);
			}
		}
	};
	/** A hash object that is made by the first thread that needs it. */
	static final class Late { final byte[] b; Late(byte[] b) { this.b = b; } }
	static void late(JApi.Inv v, Lib lib, Map<String, Object> hashes, String key) {
		for (int i = 0; i < v.a.length; i++) if (v.a[i] instanceof Late) { String k = key + i; Object h = hashes.get(k); if (h == null) { h = lib.hash(((Late)v.a[i]).b.clone()); Object o = hashes.get(k); if (o == null) hashes.put(k, h); else h = o; } v.a[i] = h; }
	}

	// ---- C09, Java: the world of cpp/eng_wallet.hpp ----
	static final Prop C09 = new Prop() {
		public List<String> gen(Rng r, long idx, boolean thorough) {
			List<String> p = new ArrayList<>(); int n = r.range(2, thorough ? 10 : 5); boolean faults = r.chance(5, 6); BigInteger d = JApi.genKey(r), N = Ref.N, lastK = BigInteger.ONE;
			for (int i = 0; i < n; i++) {
				BigInteger k = faults ? JApi.genU(r) : JApi.genKey(r), z = faults ? JApi.genU(r) : JApi.rnd(r); String tag = "plain"; if (r.chance(1, 3)) d = JApi.genKey(r);
				if (faults) switch (r.below(14)) {
					case 0: k = BigInteger.ZERO; tag = "nonce_zero"; break;
					case 1: k = N.add(BigInteger.valueOf(r.below(5))); tag = "nonce_not_below_order"; break;
					case 2: k = Ref.R.subtract(BigInteger.valueOf(1 + r.below(5))); tag = "nonce_stuck_high"; break;
					case 3: k = BigInteger.valueOf(r.range(1, 20)); tag = "nonce_small"; break;
					case 4: k = N.subtract(BigInteger.valueOf(r.range(1, 20))); tag = "nonce_near_order"; break;
					case 5: case 6: case 7: { // choose the hash so that s is special for this nonce
						k = JApi.genKey(r); BigInteger rr = Ref.mul(Ref.G, k).x.mod(N), half = N.shiftRight(1), s; int w = r.below(8);
						s = w == 0 ? BigInteger.ZERO : w == 1 ? half : w == 2 ? half.add(BigInteger.ONE) : w == 3 ? BigInteger.ONE : w == 4 ? N.subtract(BigInteger.ONE) : w == 5 ? half.subtract(BigInteger.ONE) : w == 6 ? half.add(BigInteger.TWO) : JApi.rnd(r).mod(N);
						z = s.multiply(k).subtract(rr.multiply(d)).mod(N); tag = "s_case_" + w; if (r.chance(1, 3) && z.add(N).bitLength() <= 256) { z = z.add(N); tag += "_unreduced"; } break; }
					case 8: case 9: case 10: { // the sum of the reduced product and the hash is special before reduction
						k = JApi.genKey(r); BigInteger rr = Ref.mul(Ref.G, k).x.mod(N), t; int w = r.below(6), v = r.below(5);
						t = w == 0 ? N.subtract(BigInteger.ONE) : w == 1 ? N.subtract(BigInteger.valueOf(r.range(1, 1000))) : w == 2 ? BigInteger.ZERO : w == 3 ? BigInteger.ONE : w == 4 ? Ref.R.subtract(N).add(BigInteger.valueOf(r.below(3))) : JApi.genU(r).mod(N);
						BigInteger dd = t.multiply(rr.modInverse(N)).mod(N); if (dd.signum() != 0) d = dd;
						z = v == 0 ? Ref.R.subtract(BigInteger.valueOf(1 + r.below(3))) : v == 1 ? N.add(BigInteger.valueOf(r.below(3))) : v == 2 ? Ref.R.subtract(t).mod(Ref.R) : v == 3 ? Ref.R.subtract(t).subtract(BigInteger.ONE).mod(Ref.R) : N.subtract(t).mod(N); tag = "sum_case_" + w + "_" + v; break; }
					case 11: tag = "nonce_stuck"; k = lastK; break;
					default: k = JApi.genKey(r); tag = "boundary_operands";
				}
				lastK = k; String hd = " d=" + Sim.hex(Ref.be(d)) + " h=" + Sim.hex(Ref.be(z));
				if (r.chance(1, 4)) p.add("hmacsign" + hd + (faults && r.chance(1, 2) ? " inject=" + Sim.hex(Ref.be(k)) : "") + " tag=" + tag); else p.add("sign" + hd + " k=" + Sim.hex(Ref.be(k)) + " tag=" + tag);
			}
			p.add("retry d=" + Sim.hex(Ref.be(d)) + " h=" + Sim.hex(r.bytes(32)) + " seed=" + r.below(1000000) + " bad=" + (faults ? r.below(4) : 0));
			return p;
		}
		Lib lib; int[] R, S; String model;
		public void exec(Plan p) {
			lib = RunLoader.fresh(Weave.HMAC); R = JApi.R0.clone(); S = JApi.S0.clone(); model = Sim.hex(JApi.bytes(R)) + Sim.hex(JApi.bytes(S)); long shape = 0; Hook.hmac = null;
			for (Step st : p.steps) {
				Sim.tick(1); BigInteger d = new BigInteger(1, Arrays.copyOf(st.bin("d"), 32)); byte[] h = Arrays.copyOf(st.bin("h"), 32); if (d.signum() == 0 || d.compareTo(Ref.N) >= 0) continue;
				if (st.has("tag")) { Sim.stat("fault." + st.str("tag")); shape = Sim.mix64(shape ^ Sim.fnv(st.op + st.str("tag"))); }
				if (st.op.equals("sign")) one(d, h, new BigInteger(1, Arrays.copyOf(st.bin("k"), 32)), null, p.lines.get(p.steps.indexOf(st)));
				else if (st.op.equals("hmacsign")) one(d, h, null, st.bin("inject"), p.lines.get(p.steps.indexOf(st)));
				else if (st.op.equals("retry")) {
					Rng r = new Rng(st.num("seed")); long bad = st.num("bad"), tries = 0; boolean ok = false;
					while (!ok && tries < bad + 2) { BigInteger k = tries < bad ? r.pick(BigInteger.ZERO, Ref.N, Ref.R.subtract(BigInteger.valueOf(1 + r.below(1000)))) : JApi.genKey(r); ok = one(d, h, k, null, "retry"); tries++; Sim.tick(1); }
					Sim.check(ok && tries == bad + 1, "no-progress-after-recovery", "retry"); Ref.Pt q = Ref.mul(Ref.G, d);
					String v; try { v = "" + lib.call("verify", JApi.point(q, BigInteger.ONE), lib.hash(h), R, S); } catch (Throwable t) { v = "!" + JApi.kind(t); } Sim.check(v.equals("true"), "own-signature-refused", v); Sim.stat("probe.recovered_and_verified");
				}
			}
			Sim.distinct(shape);
		}
		boolean one(BigInteger d, byte[] h, BigInteger k, byte[] inject, String what) {
			int[] D = JApi.words(d), K = k == null ? null : JApi.words(k); Object H = lib.hash(h); Object ok; BigInteger nonce = k; boolean fired = false;
			if (inject != null && inject.length == 32) { Hook.hmac = inject.clone(); Hook.hmacFired = false; }
			try { ok = k != null ? lib.call("sign", D, H, K, R, S) : lib.call("signHmac", D, H, R, S); } catch (Throwable t) { ok = "!" + JApi.kind(t); }
			if (inject != null && inject.length == 32) { fired = Hook.hmacFired; Hook.hmac = null; if (fired) Sim.stat("fault.keyed_hash_replaced"); }
			if (k == null) nonce = new BigInteger(1, fired ? inject : Ref.hmac256(Ref.be(d), h));
			BigInteger[] w = Ref.sign(d, h, nonce); String got = Sim.hex(JApi.bytes(R)) + Sim.hex(JApi.bytes(S)); Sim.log(ok + got);
			Sim.check(Arrays.equals(D, JApi.words(d)) && (K == null || Arrays.equals(K, JApi.words(k))) && H.toString().equals(JApi.H(h).substring(1)), "input-modified", what);
			Sim.check(ok.equals(w != null), ok.equals(true) ? "signed-unusable-nonce" : "refused-good-nonce", what + " returned " + ok);
			if (w != null) model = Sim.hex(JApi.bytes(JApi.words(w[0]))) + Sim.hex(JApi.bytes(JApi.words(w[1])));
			Sim.stat(w != null ? "outcome.signed" : "outcome.refused"); Sim.check(got.equals(model), w != null ? "wrong-signature" : "output-changed-on-refusal", what + " gave (words) " + got + " want " + model); return w != null;
		}
	};

	static void warm(ClassLoader ld) {  // initialise every library class
		File[] fs = new File(RunLoader.dir, "io/nayuki/bitcoin/crypto").listFiles(); Arrays.sort(fs);
		for (File f : fs) if (f.getName().endsWith(".class")) try { Class.forName("io.nayuki.bitcoin.crypto." + f.getName().replace(".class", ""), true, ld); } catch (Throwable t) { /* reported by the first call */ }
	}

	// ---- C13: allocation failures inside calls ----
	static final Prop C13 = new Prop() {
		public List<String> gen(Rng r, long idx, boolean thorough) {
			List<String> p = new ArrayList<>(); int n = r.range(3, thorough ? 40 : 20); boolean heavy = r.chance(1, 10); if (heavy) n = r.range(2, 4); String last = null, ls = null; p.add("!pool " + r.below(1000000));
			for (int i = 0; i < n; i++) {
				JApi.Op o = heavy && r.chance(1, 2) ? JApi.pick(r, 400) : JApi.pick(r, 4); if (last != null && r.chance(1, 2)) o = JApi.find(last); String sd = last != null && last.equals(o.name) && r.chance(1, 3) ? JApi.near(r, ls) : seedOf(r); last = o.name; ls = sd; String s = "call op=" + o.name + " seed=" + sd;
				if (r.chance(2, 3)) s += (r.chance(1, 3) ? " deep=1" : "") + " fail=" + (r.chance(3, 4) ? r.range(1, 8) : r.logu(200)); if (r.chance(1, 6)) s += " thread=1"; if (o.cost < 20 && r.chance(1, 5)) s += " times=" + r.range(2, 40); p.add(s);
				if (r.chance(1, 10)) p.add("null op=" + r.pick("sha256", "sha512", "hmac256", "ripemd160", "keccak256", "segenc", "bgdec", "sign") + " seed=" + seedOf(r) + " arg=" + r.below(2));
			}
			return p;
		}
		public void exec(Plan p) {
			RunLoader ld = new RunLoader(Weave.ALLOC, true); Hook.failing = false; Lib lib = ld.lib(); if (p.num("warm", 1) == 1) warm(ld); Rng pr = new Rng(p.num("pool", 1)); Object[] pool = new Object[4]; byte[][] pv = new byte[4][]; long shape = 0;
			for (int i = 0; i < 4; i++) { pv[i] = pr.bytes(32); pool[i] = lib.hash(pv[i].clone()); }
			for (Step st : p.steps) {
				Sim.tick(1); JApi.Op o = JApi.find(st.str("op")); Object[] a = JApi.args(o, st.num("seed")); String what = st.op + " " + o.name + " seed=" + st.str("seed") + " fail=" + st.str("fail", "0") + (st.num("deep") == 1 ? " deep" : "");
				// hash arguments come from the pool: they have to survive failures
				JApi.Env env = new JApi.Env() { final Map<Object, Integer> at = new IdentityHashMap<>(); Object hash(Lib l, byte[] b) { int i = at.computeIfAbsent(b, x -> b[0] & 7); if (i < 4 && o.cost < 100) { System.arraycopy(pv[i], 0, b, 0, 32); return pool[i]; } return l.hash(b); } };
				JApi.Inv v = o.inv(lib, env, a); long fail = st.num("fail");
				if (st.op.equals("null")) {
					int k = st.i("arg") % v.a.length; if (v.a[k] == null || v.a[k] instanceof Integer) continue; v.a[k] = null; String got; try { Object ret = lib.call(v.fn, v.a); got = JApi.text(ret); } catch (Throwable t) { got = "!" + JApi.kind(t); }
					Sim.log(got); Sim.stat("fault.null_argument"); Sim.check(got.equals("!NullPointer"), "null-accepted", what + " gave " + got); shape = Sim.mix64(shape ^ 77); continue;
				}
				String[] got = new String[1]; boolean[] hit = new boolean[1];
				Runnable run = () -> { Hook.allocs = 0; Hook.failAt = fail; Hook.stack = st.num("deep") == 1; Hook.failing = fail > 0; try { got[0] = v.run(lib); } finally { hit[0] = fail > 0 && !Hook.failing; Hook.failing = false; } };
				if (st.num("thread") == 1) { Thread t = new Thread(run); t.start(); try { t.join(); } catch (InterruptedException e) { } Sim.stat("fault.other_thread"); } else run.run();
				boolean fired = hit[0]; String want = o.want(a); Sim.log(got[0]); Sim.stat("op." + o.name); shape = Sim.mix64(shape ^ Sim.fnv(o.name) ^ (fired ? fail : 0)); Sim.trace(what + " -> " + got[0]);
				if (fired) {
					boolean deep = st.num("deep") == 1; Sim.stat(deep ? "fault.stack_exhausted" : "fault.allocation_failed"); boolean oom = got[0].startsWith(deep ? "!StackOverflow" : "!OutOfMemory");
					Sim.check(oom || got[0].equals(want), deep ? "wrong-after-exhausted-stack" : "wrong-after-failed-allocation", what + " gave " + got[0] + " want " + (deep ? "StackOverflowError" : "OutOfMemoryError") + " or " + want);
					Sim.check(!got[0].contains("an input array was modified"), "input-modified", what + " " + got[0]);
					for (int k = 1; k < st.num("times"); k++) { JApi.Inv w = o.inv(lib, env, a); Hook.allocs = 0; Hook.failAt = Math.max(1, fail - k % 2); Hook.stack = deep; Hook.failing = true; String g; try { g = w.run(lib); } finally { Hook.failing = false; } Sim.stat("fault.failed_again"); Sim.check(g.equals(want) || g.startsWith(deep ? "!StackOverflow" : "!OutOfMemory"), "wrong-after-repeated-failures", what + " failing again gave " + g); }
					JApi.Inv again = o.inv(lib, env, a); String g2 = again.run(lib); Sim.log(g2); Sim.check(g2.equals(want), "retry-wrong", "after " + what + " the same call gave " + g2 + " want " + want); Sim.stat("probe.retry");
				} else Sim.check(got[0].equals(want), "later-call-wrong", what + " gave " + got[0] + " want " + want);
			}
			for (int i = 0; i < 4; i++) Sim.check(pool[i].toString().equals(JApi.H(pv[i]).substring(1)), "hash-object-changed", "pool " + i);
			Sim.distinct(shape);
		}
	};

	// ---- C18, Java: a long-running process ----
	static final Prop C18 = new Prop() {
		static final long LIMIT = 65536, SLACK = 65536;  // bytes that may stay on behalf of past calls; what the JVM itself may keep
		public List<String> gen(Rng r, long idx, boolean thorough) {
			List<String> p = new ArrayList<>(); int n = r.range(1, 3); boolean heavy = r.chance(1, 5);
			for (int i = 0; i < n; i++) { JApi.Op o = JApi.pick(r, heavy && i == 0 ? 400 : 4); boolean th = r.chance(1, 6); if (r.chance(1, 8)) { p.add("big op=" + r.pick("sha256", "sha256d", "hmac256", "sha512", "hmac512", "ripemd160", "keccak256") + " args=" + r.below(1000000) + " n=8 len=" + (200000 + r.below(1000000)) + " thread=" + (th ? 1 : 0)); continue; } p.add((r.chance(1, 3) ? "repeat" : "fresh") + " op=" + o.name + " args=" + r.below(1000000) + " n=" + (o.cost > 20 ? thorough ? 4000 : 800 : th ? 3000 : 10000) / (th && o.cost > 20 ? 4 : 1) + " thread=" + (th ? 1 : 0)); }
			return p;
		}
		public void exec(Plan p) {
			Lib lib = RunLoader.fresh(0); long shape = 0; int t0 = Thread.getAllStackTraces().size();
			for (Step s : p.steps) {
				JApi.Op o = JApi.find(s.str("op")); boolean th = s.num("thread") == 1, rep = !s.op.equals("fresh"), big = s.op.equals("big"); long n = s.num("n"); List<Object[]> base = new ArrayList<>(); for (int i = 0; i < (rep ? 1 : 6); i++) base.add(JApi.args(o, s.num("args") + i));
				if (big) { calls(lib, o, base, 0, 60, rep, th); long before = used(); bigCalls(lib, o, base.get(0), s.i("len"), n, th); long kept = used() - before; Sim.tick(n); Sim.stat("probe.big_messages", n); Sim.check(kept <= LIMIT + SLACK, "grows", s.op + " " + o.name + " args=" + s.str("args") + ": more than " + (LIMIT + SLACK) + " bytes are still reachable after " + n + " calls"); shape = Sim.mix64(shape ^ Sim.fnv(o.name) ^ 9); continue; }
				calls(lib, o, base, 0, Math.max(1, n / 40), rep, th); long before = used(); calls(lib, o, base, Math.max(1, n / 40), n, rep, th); long kept = used() - before;
				// Once more, so that what the JVM keeps once for its own purposes does not count
				if (kept > LIMIT + SLACK) { before = used(); calls(lib, o, base, n, 3 * n, rep, th); kept = used() - before; }
				Sim.tick(n); Sim.stat("op." + o.name, n); Sim.stat(rep ? "probe.calls_repeated" : "probe.calls_with_new_arguments", n); if (th) Sim.stat("fault.thread_exit", n); shape = Sim.mix64(shape ^ Sim.fnv(o.name) ^ (rep ? 2 : 0) ^ (th ? 1 : 0));
				Sim.check(kept <= LIMIT + SLACK, "grows", s.op + " " + o.name + " args=" + s.str("args") + ": more than " + (LIMIT + SLACK) + " bytes are still reachable after " + n + " calls");
			}
			Sim.check(Thread.getAllStackTraces().size() <= t0 + 8, "threads", "threads were left running"); Sim.distinct(shape);
		}
		void bigCalls(Lib lib, JApi.Op o, Object[] small, int len, long n, boolean th) {
			Object[] a = small.clone();
			for (int j = 0; j < a.length; j++) if (a[j] instanceof byte[]) { byte[] b = new byte[len]; for (int k = 0; k < len; k++) b[k] = (byte)(k * 251 >> 7); a[j] = b; }
			List<Object[]> l = new ArrayList<>(); l.add(a); calls(lib, o, l, 0, n, true, th); l.clear(); Arrays.fill(a, null);
		}
		long used() { long b = Long.MAX_VALUE; for (int i = 0; i < 2; i++) { System.gc(); b = Math.min(b, Runtime.getRuntime().totalMemory() - Runtime.getRuntime().freeMemory()); } return b; }
		void calls(Lib lib, JApi.Op o, List<Object[]> base, long from, long to, boolean rep, boolean th) {
			for (long i = from; i < to; i++) {
				int k = (int)(i % base.size()); Object[] a = base.get(k); if (!rep) { move(a); a = vary(a, i / base.size(), o); }
				Object[] aa = a; String[] got = new String[1]; Runnable f = () -> got[0] = o.inv(lib, new JApi.Env(), aa).run(lib);
				if (th) { Thread t = new Thread(f); t.start(); try { t.join(); } catch (InterruptedException e) { } } else f.run();
				if (i == to - 1 || i % 97 == 0 && o.cost < 20) { String w = o.want(a); Sim.log(got[0]); Sim.check(got[0].equals(w), "wrong-result", o.name + " call " + i + " gave " + got[0] + " want " + w); }
			}
		}
		// New points for the next call
		void move(Object[] a) { for (int j = 0; j < a.length; j++) if (a[j] instanceof Ref.Pt && !((Ref.Pt)a[j]).inf) { Ref.Pt q = Ref.add((Ref.Pt)a[j], Ref.G); if (!q.inf) a[j] = q; } else if (a[j] instanceof Ref.Pt[]) { Ref.Pt[] v = (Ref.Pt[])a[j]; if (v.length > 0 && v[0] != null && !v[0].inf && Ref.onCurve(v[0].x, v[0].y)) { Ref.Pt q = Ref.add(v[0], Ref.G); if (!q.inf) v[0] = q; } } }
		Object[] vary(Object[] a, long i, JApi.Op o) {
			Object[] c = a.clone(); BigInteger d = BigInteger.valueOf(i << 8);
			for (int j = 0; j < c.length; j++) {
				if (c[j] instanceof byte[]) { byte[] b = ((byte[])c[j]).clone(); boolean groups = o.name.equals("bgenc"); for (int k = 0; k < b.length && k < 4; k++) b[k] ^= groups ? i >> 5 * k & 31 : i >> 8 * k; c[j] = b; }
				else if (c[j] instanceof BigInteger && j == 0 && o.cost > 20 && !o.name.equals("verify")) { BigInteger x = ((BigInteger)c[j]).xor(d); if (x.signum() > 0 && x.compareTo(Ref.N) < 0) c[j] = x; }
				else if (c[j] instanceof BigInteger && !o.name.equals("verify")) c[j] = ((BigInteger)c[j]).xor(d).mod(Ref.R);
				else if (j == 0 && c[j] instanceof BigInteger[] && !o.name.equals("reciprocal")) { BigInteger[] u = ((BigInteger[])c[j]).clone(); for (int k = 0; k < u.length; k++) if (u[k] != null) { BigInteger x = u[k].xor(d); if (x.compareTo(u[k].compareTo(Ref.P) < 0 ? Ref.P : Ref.R) < 0) u[k] = x; } c[j] = u; }
				else if (c[j] instanceof String && !((String)c[j]).isEmpty() && !o.name.equals("segenc") && !o.name.equals("bgenc")) { StringBuilder sb = new StringBuilder((String)c[j]); String al = "0123456789abcdefghjklmnpqrstuvwxyzABCDEFGHJKLMNPQRSTUVWXYZ"; sb.setCharAt((int)(i % sb.length()), al.charAt((int)(i / sb.length() % al.length()))); c[j] = sb.toString(); }
			}
			return c;
		}
	};

	// ---- C14, Java: nothing is retained, results are fresh ----
	static final Prop C14 = new Prop() {
		public List<String> gen(Rng r, long idx, boolean thorough) {
			List<String> p = new ArrayList<>(); int n = r.range(4, thorough ? 50 : 24); boolean heavy = r.chance(1, 10); if (heavy) n = r.range(2, 5); String last = null, ls = null;
			for (int i = 0; i < n; i++) {
				JApi.Op o = heavy && r.chance(1, 2) ? JApi.pick(r, 400) : JApi.pick(r, 4); String sd = seedOf(r); if (last != null && r.chance(1, 3)) { o = JApi.find(last); if (r.chance(2, 3)) sd = r.chance(1, 2) ? ls : JApi.near(r, ls); } last = o.name; ls = sd;
				p.add("call op=" + o.name + " seed=" + sd + (r.chance(1, 2) ? " reuse=1" : "") + (r.chance(1, 2) ? " scribble=" + r.range(1, 3) : "")); if (r.chance(1, 6)) p.add("hash slot=" + r.below(4) + " seed=" + seedOf(r)); if (r.chance(1, 6)) p.add("scribbleall x=" + r.below(256));
			}
			return p;
		}
		public void exec(Plan p) {
			Lib lib = RunLoader.fresh(0); Map<Integer, byte[]> slotsB = new HashMap<>(); Map<Integer, int[]> slotsW = new HashMap<>(); List<Object> returned = new ArrayList<>(), given = new ArrayList<>(); long shape = 0;
			List<Object[]> kept = new ArrayList<>(); Object[] hs = new Object[4]; byte[][] hv = new byte[4][];
			for (Step st : p.steps) {
				Sim.tick(1);
				if (st.op.equals("scribbleall")) { for (Object x : returned) fill(x, st.i("x")); for (Object x : given) fill(x, st.i("x")); Sim.stat("fault.scribble_all"); }
				else if (st.op.equals("hash")) { byte[] b = new Rng(st.num("seed")).bytes(32); hv[st.i("slot") & 3] = b.clone(); hs[st.i("slot") & 3] = lib.hash(b); fill(b, 0x3C); Sim.stat("fault.array_of_hash_object_overwritten"); }
				else if (st.op.equals("call")) {
					JApi.Op o = JApi.find(st.str("op")); Object[] a = JApi.args(o, st.num("seed")); boolean reuse = st.num("reuse") == 1; shape = Sim.mix64(shape ^ Sim.fnv(o.name) ^ st.num("reuse") ^ st.num("scribble") << 4);
					JApi.Env env = new JApi.Env() {
						byte[] in(byte[] b) { byte[] c = reuse ? slotsB.computeIfAbsent(b.length, k -> new byte[k]) : new byte[b.length]; for (Object[] s : snaps) if (s[0] == c && !Arrays.equals((byte[])s[1], b)) c = new byte[b.length]; System.arraycopy(b, 0, c, 0, b.length); snaps.add(new Object[]{c, b.clone()}); given.add(c); return c; }
						int[] in(int[] b) { int[] c = reuse ? slotsW.computeIfAbsent(b.length, k -> new int[k]) : new int[b.length]; for (Object[] s : snaps) if (s[0] == c && !Arrays.equals((int[])s[1], b)) c = new int[b.length]; System.arraycopy(b, 0, c, 0, b.length); snaps.add(new Object[]{c, b.clone()}); given.add(c); return c; }
						int[] out(int[] b) { int[] c = b.clone(); given.add(c); return c; }
						Object hash(Lib l, byte[] b) { int i = b[0] & 7; if (i < 4 && hs[i] != null && o.cost < 100) { System.arraycopy(hv[i], 0, b, 0, 32); return hs[i]; } byte[] c = b.clone(); Object h = l.hash(c); fill(c, 0x99); return h; }
					};
					JApi.Inv v = o.inv(lib, env, a); String got = v.run(lib), want = o.want(a); Sim.log(got); Sim.stat("op." + o.name); Sim.trace(o.name + " " + st.str("seed") + " -> " + got);
					Sim.check(!got.contains("modified"), "memory-modified", o.name + " seed=" + st.str("seed") + ": " + got); Sim.check(got.equals(want), "wrong-result", o.name + " seed=" + st.str("seed") + " gave " + got + " want " + want);
					Object[] rs = v.ret instanceof Object[] ? (Object[])v.ret : new Object[]{v.ret};
					for (Object x : rs) if (x != null && (x instanceof byte[] || x instanceof int[])) { for (Object y : returned) Sim.check(x != y || len(x) == 0, "returned-array-not-fresh", o.name); for (Object y : given) Sim.check(x != y || len(x) == 0, "argument-array-returned", o.name); returned.add(x); }
					else if (x != null && x.getClass().getName().endsWith("Sha256Hash")) kept.add(new Object[]{x, want.substring(1), o.name});
					if ((st.num("scribble") & 1) != 0) { for (Object x : rs) fill(x, 0xA5); Sim.stat("fault.result_overwritten"); }
					if ((st.num("scribble") & 2) != 0) { for (Object[] s : env.snaps) fill(s[0], 0x5A); Sim.stat("fault.inputs_overwritten"); }
				}
				for (Object[] k : kept) Sim.check(k[0].toString().equals(k[1]), "hash-object-changed", "a hash from " + k[2] + " became " + k[0] + ", was " + k[1]);
				for (int i = 0; i < 4; i++) if (hs[i] != null) Sim.check(hs[i].toString().equals(JApi.H(hv[i]).substring(1)), "hash-object-changed", "slot " + i);
			}
			Sim.distinct(shape);
		}
		int len(Object x) { return x instanceof byte[] ? ((byte[])x).length : ((int[])x).length; }
		void fill(Object x, int v) { if (x instanceof byte[]) Arrays.fill((byte[])x, (byte)v); else if (x instanceof int[]) Arrays.fill((int[])x, v * 0x01010101); }
	};

	// ---- C15: an attacker that preempts the victim and looks at how far it got and what it touched ----
	static final String[] CT = {"uintAdd", "uintSubtract", "uintShiftLeft1", "uintShiftRight1", "reciprocal", "fieldAdd", "fieldSubtract", "fieldMultiply2", "fieldSquare", "fieldMultiply", "replace", "swap", "equalTo", "lessThan", "twice", "add", "normalize", "pointReplace", "isOnCurve", "pointIsZero", "hashNew", "hashBytes", "hashCode"};
	static final Prop C15 = new Prop() {
		public List<String> gen(Rng r, long idx, boolean thorough) {
			List<String> p = new ArrayList<>(); boolean heavy = r.chance(1, 3); int n = heavy ? 1 : r.range(6, thorough ? 40 : 20);
			for (int i = 0; i < n; i++) {
				String op = heavy ? r.pick("multiply", "sign", "signHmac") : r.pick(CT); StringBuilder sb = new StringBuilder("pair op=" + op + " a=" + seedOf(r) + " b=" + seedOf(r) + " pub=" + seedOf(r) + " stops=");
				int k = r.range(1, 6); for (int j = 0; j < k; j++) sb.append(j > 0 ? "," : "").append(1 + r.logu(heavy ? 4_000_000 : 3000)); p.add(sb.toString());
			}
			return p;
		}
		public void exec(Plan p) {
			RunLoader ld = new RunLoader(Weave.TRACE, false); Lib lib = ld.lib(); Hook.tracing = false; warm(ld); long shape = 0;
			for (Step st : p.steps) {
				String op = st.str("op"); JApi.Op o = JApi.find(op); Object[] a = secret(o, st.num("a"), st.num("pub")), b = secret(o, st.num("b"), st.num("pub")); String[] w = st.str("stops").split(","); long[] stops = new long[w.length]; for (int i = 0; i < w.length; i++) stops[i] = Long.parseLong(w[i]); Arrays.sort(stops);
				List<Long> oa = observe(lib, o, a, stops, st, false), ob = observe(lib, o, b, stops, st, false); Sim.stat("op." + op); Sim.stat("fault.preemption", oa.size() / 2); Sim.tick(oa.get(oa.size() - 1)); Sim.log(oa.get(oa.size() - 1)); Sim.distinct(Sim.fnv(op) ^ oa.size() ^ stops[0]);
				Sim.trace(op + ": " + oa.get(oa.size() - 1) + " events");
				if (!oa.equals(ob)) {
					observe(lib, o, a, stops, st, true); int[] ra = Hook.rec; int na = Hook.recN; observe(lib, o, b, stops, st, true); int[] rb = Hook.rec; int nb = Hook.recN, i = 0; Hook.rec = null; while (i < Math.min(na, nb) && ra[i] == rb[i] && ra[i + 1] == rb[i + 1]) i += 2;
					String sa = i < na ? RunLoader.sites(Weave.TRACE).get(ra[i]) + " (" + ra[i + 1] + ")" : "end", sb = i < nb ? RunLoader.sites(Weave.TRACE).get(rb[i]) + " (" + rb[i + 1] + ")" : "end", before = i >= 2 ? RunLoader.sites(Weave.TRACE).get(ra[i - 2]) : "start";
					Sim.fail("depends-on-secret", op + ": for two secrets the observation differs after event " + i / 2 + " (" + before + "): " + sa + " against " + sb + "; " + oa.get(oa.size() - 1) + " and " + ob.get(ob.size() - 1) + " events");
				}
			}
		}
		// Arguments whose secret parts come from one seed and public parts (layout, modulus, lengths) from another
		Object[] secret(JApi.Op o, long seed, long pub) {
			Rng r = new Rng(Sim.mix64(seed)); Object[] q = JApi.rawArgs(o, pub);
			if (o instanceof JApi.ValOp) {
				for (int i = 0;; i++) {
					Object[] a = JApi.rawArgs(o, Sim.mix64(seed) + i); a[4] = q[4];
					if (o.name.equals("reciprocal")) { BigInteger m = ((BigInteger[])q[0])[1], x = ((BigInteger[])a[0])[0].mod(m); if (x.signum() != 0 && !x.gcd(m).equals(BigInteger.ONE)) continue; ((BigInteger[])a[0])[0] = x; ((BigInteger[])a[0])[1] = m; }
					// where input blocks coincide is public
					BigInteger[] u = (BigInteger[])a[0], pu = (BigInteger[])q[0]; if (u.length > 1 && u[0] != null && u[1] != null && !o.name.equals("reciprocal") && u[0].equals(u[1]) != pu[0].equals(pu[1])) { u[1] = pu[0].equals(pu[1]) ? u[0] : u[0].flipBit(r.below(250)).mod(Ref.P); if (u[0].equals(u[1]) != pu[0].equals(pu[1])) continue; }
					return a;
				}
			}
			switch (o.name) {
				case "sign": for (;;) { Object[] a = {JApi.genKey(r), r.chance(1, 2) ? r.bytes(32) : Ref.be(JApi.genU(r)), JApi.genKey(r)}; if (Ref.sign((BigInteger)a[0], (byte[])a[1], (BigInteger)a[2]) != null) return a; }
				case "signHmac": return new Object[]{JApi.genKey(r), r.chance(1, 2) ? r.bytes(32) : Ref.be(JApi.genU(r))};
				default: { byte[] h = r.bytes(32); if (r.chance(1, 4)) Arrays.fill(h, r.below(32), 32, (byte)-r.below(2)); return new Object[]{h}; }
			}
		}
		List<Long> observe(Lib lib, JApi.Op o, Object[] a, long[] stops, Step st, boolean rec) {
			JApi.Inv v = o.inv(lib, new JApi.Env(), a); List<Long> obs = new ArrayList<>(); int[] k = {0};
			Hook.th = 0; Hook.tn = 0; Hook.rec = rec ? new int[1 << 16] : null; Hook.recN = 0; Hook.nextStop = stops[0];
			Hook.atStop = () -> { obs.add(Hook.tn); obs.add(Hook.th); while (k[0] < stops.length && stops[k[0]] <= Hook.tn) k[0]++; Hook.nextStop = k[0] < stops.length ? stops[k[0]] : -1; };
			Hook.tracing = true; String got; Object ret = null; try { ret = lib.call(v.fn, v.a); got = null; } catch (Throwable t) { got = "!" + JApi.kind(t); } finally { Hook.tracing = false; }
			obs.add(Hook.th); obs.add(Hook.tn);
			if (got == null) got = v.fin.of(ret); if (!rec) Sim.check(got.equals(o.want(a)), "wrong-result", o.name + " " + st.str("a") + " gave " + got + " want " + o.want(a));
			return obs;
		}
	};
}
