package jsim;

import java.math.BigInteger;
import java.util.*;
import jsim.Sim.*;

/**
 * A network of nodes that run different implementations of the library and gossip records until all hold the same set.
 * One virtual clock, one event queue; the plan decides every delay, fault and crash.
 */
final class Net {
	/** What the records mean. */
	interface App {
		/** A record made by a client that uses the given implementation, or null if it made none. */
		byte[] make(String kind, Rng r, Nodes.Impl at);
		/** The implementation's verdict on a record, after checking everything it computed for it. */
		boolean judge(Nodes.Impl n, byte[] rec, String where);
		boolean truth(byte[] rec);
		/** Boundaries of a record's fields, for spliced and swapped fields. */
		int[] fields(byte[] rec);
		String show(byte[] rec);
		List<String> kinds();
	}

	static final int TICK = 500;

	static final class Node {
		int idx; Nodes.Impl impl; boolean up = true; long stalled, every = TICK; int epoch, turn; final List<byte[]> log = new ArrayList<>(); final LinkedHashMap<String, byte[]> have = new LinkedHashMap<>();
	}
	static final class Ev implements Comparable<Ev> {
		final long at, seq; final Runnable run;
		Ev(long at, long seq, Runnable run) { this.at = at; this.seq = seq; this.run = run; }
		public int compareTo(Ev o) { int c = Long.compare(at, o.at); return c != 0 ? c : Long.compare(seq, o.seq); }
	}

	final App app; final List<Node> nodes = new ArrayList<>(); final PriorityQueue<Ev> queue = new PriorityQueue<>(); final List<byte[]> sent = new ArrayList<>(); final List<int[]> ends = new ArrayList<>();
	final Map<Integer, List<Step>> tx = new HashMap<>(); final List<long[]> parts = new ArrayList<>(); final Set<String> promised = new LinkedHashSet<>(); final Map<String, byte[]> everything = new HashMap<>();
	long now, seq, horizon, shape, events; int ntx; final long delaySeed;
	boolean converged;

	Net(App app, Plan p) {
		this.app = app; delaySeed = p.num("delays", 1); horizon = p.num("horizon", 10000);
		for (String k : p.str("nodes", "pure,asm,gcc,java").split(",")) { Node n = new Node(); n.idx = nodes.size(); n.impl = Nodes.make(k); n.impl.wipe(); nodes.add(n); }
		for (Step s : p.steps) {
			long at = Math.min(s.num("at"), horizon), len = Math.min(s.num("for"), horizon - at); int id = (int)Math.floorMod(s.num("node"), (long)nodes.size()); Node n = nodes.get(id);
			switch (s.op) {
				case "msg": case "forge": { boolean client = s.op.equals("msg"); at(at, () -> submit(s, n, client)); break; }
				case "tx": tx.computeIfAbsent(s.i("n"), k -> new ArrayList<>()).add(s); break;
				case "part": parts.add(new long[]{at, at + len, s.num("mask")}); Sim.stat("fault.partition"); break;
				case "stall": at(at, () -> { if (n.up) { n.stalled = Math.max(n.stalled, now + len); Sim.stat("fault.stall"); } }); break;
				case "skew": n.every = Math.max(50, TICK * (100 + s.num("x")) / 100); Sim.stat("fault.clock_skew"); break;
				case "crash": at(at, () -> crash(n, s, len)); break;
			}
		}
		for (Node n : nodes) timer(n, n.epoch, TICK / 2 + 37 * n.idx);
	}
	void at(long t, Runnable r) { queue.add(new Ev(Math.max(t, now), seq++, r)); }
	void timer(Node n, int epoch, long in) { at(now + in, () -> { if (n.up && n.epoch == epoch) { tick(n); timer(n, epoch, now >= horizon ? TICK : n.every); } }); }

	static String id(byte[] rec) { return Long.toHexString(Sim.fnv(rec)); }
	void note(String what, long v) { Sim.log(what); Sim.log(v); Sim.log(now); shape = Sim.mix64(shape ^ Sim.fnv(what) + v); }

	// ---- What the nodes do ----
	void submit(Step s, Node n, boolean client) {
		if (!n.up) { if (client) at(horizon + 1, () -> submit(s, n, true)); Sim.stat("probe.submitted_to_crashed_node"); return; }
		Rng r = new Rng(s.num("seed")); byte[] rec = app.make(s.str("kind", "honest"), r, n.impl); Sim.stat("op." + s.op + "." + s.str("kind", "honest"));
		if (rec == null) { Sim.stat("probe.nothing_made"); return; }
		Sim.trace(now + " " + s.op + " " + s.str("kind") + " at node " + n.idx + " (" + n.impl.kind + "): " + app.show(rec));
		if (client) { Sim.check(app.truth(rec), "honest-record-wrong", "node " + n.idx + " (" + n.impl.kind + ") made " + app.show(rec)); promised.add(id(rec)); everything.put(id(rec), rec); at(horizon + 1 + n.idx, () -> { if (n.up) offer(n, rec, -1); }); }
		offer(n, rec, -1);
	}
	/** A record reaches a node. */
	void offer(Node n, byte[] rec, int from) {
		String k = id(rec);
		if (n.have.containsKey(k)) { Sim.stat("probe.already_known"); return; }
		boolean v = app.judge(n.impl, rec, "node " + n.idx + " (" + n.impl.kind + ") at " + now), t = app.truth(rec); Sim.tick(1);
		note(v ? "accept" : "refuse", n.idx); Sim.log(rec); Sim.stat(v ? "outcome.accepted" : "outcome.refused");
		Sim.check(v == t, t ? "refused-valid" : "accepted-invalid", "node " + n.idx + " (" + n.impl.kind + ") at " + now + " " + (v ? "accepted " : "refused ") + app.show(rec));
		if (!v) return;
		everything.put(k, rec); n.have.put(k, rec); n.log.add(rec.clone());
		for (Node o : nodes) if (o != n && o.idx != from) send(n, o, Ref.cat(new byte[]{'D'}, rec));
	}
	void tick(Node n) {
		if (n.stalled > now) return;
		List<Node> peers = new ArrayList<>(nodes); peers.remove(n); if (peers.isEmpty()) return;
		byte[] inv = {'I'}; for (String k : n.have.keySet()) inv = Ref.cat(inv, Ref.be(new BigInteger(k, 16), 8));
		send(n, peers.get(n.turn++ % peers.size()), inv);
	}
	void receive(Node n, int from, byte[] b) {
		if (b.length == 0) return;
		if (b[0] == 'D') offer(n, Arrays.copyOfRange(b, 1, b.length), from);
		else if (b[0] == 'I' || b[0] == 'G') {
			Set<String> ids = new LinkedHashSet<>(); for (int i = 1; i + 8 <= b.length; i += 8) ids.add(Long.toHexString(new BigInteger(Arrays.copyOfRange(b, i, i + 8)).longValue()));
			Node o = nodes.get(from); byte[] get = {'G'};
			if (b[0] == 'G') { for (String k : ids) if (n.have.containsKey(k)) send(n, o, Ref.cat(new byte[]{'D'}, n.have.get(k))); return; }
			for (Map.Entry<String, byte[]> e : n.have.entrySet()) if (!ids.contains(e.getKey())) send(n, o, Ref.cat(new byte[]{'D'}, e.getValue()));
			for (String k : ids) if (!n.have.containsKey(k)) get = Ref.cat(get, Ref.be(new BigInteger(k, 16), 8));
			if (get.length > 1) send(n, o, get);
		} else Sim.stat("probe.unknown_envelope");
	}

	// ---- What the world does to them ----
	void crash(Node n, Step s, long len) {
		if (!n.up) return;
		n.up = false; n.epoch++; n.have.clear(); n.stalled = 0; n.impl.wipe(); Sim.stat("fault.crash"); note("crash", n.idx); Sim.trace(now + " node " + n.idx + " crashes");
		if (s.has("lose") && !n.log.isEmpty()) { n.log.remove(n.log.size() - 1); Sim.stat("fault.lost_write"); }
		if (s.has("torn") && !n.log.isEmpty()) { int i = n.log.size() - 1; byte[] b = n.log.get(i); n.log.set(i, Arrays.copyOf(b, (int)Math.floorMod(s.num("torn"), (long)b.length))); Sim.stat("fault.torn_write"); }
		if (s.has("rot") && !n.log.isEmpty()) { long x = s.num("rot"); byte[] b = n.log.get((int)Math.floorMod(x, (long)n.log.size())); if (b.length > 0) { b[(int)Math.floorMod(x >>> 8, (long)b.length)] ^= 1 << (x & 7); Sim.stat("fault.bit_rot"); } }
		at(now + len, () -> {
			n.up = true; note("restart", n.idx); Sim.trace(now + " node " + n.idx + " restarts with " + n.log.size() + " log entries");
			List<byte[]> old = new ArrayList<>(n.log); n.log.clear();
			for (byte[] r : old) { boolean v = app.judge(n.impl, r, "node " + n.idx + " (" + n.impl.kind + ") reading its log at " + now), t = app.truth(r); Sim.check(v == t, t ? "refused-valid" : "accepted-invalid", "node " + n.idx + " (" + n.impl.kind + ") in its log " + app.show(r)); if (v && !n.have.containsKey(id(r))) { n.have.put(id(r), r); n.log.add(r.clone()); everything.put(id(r), r); } else if (!v) Sim.stat("probe.log_entry_refused"); }
			timer(n, n.epoch, TICK / 2);
		});
	}
	void send(Node from, Node to, byte[] env) {
		int n = ntx++; Rng r = new Rng(Sim.mix64(delaySeed) + n); long delay = 1 + r.below(r.chance(1, 6) ? 400 : 40); Sim.stat("op.send");
		byte[] e = env; int copies = 1; long more = 0; boolean faulty = now < horizon;
		if (faulty) {
			sent.add(env); ends.add(new int[]{from.idx, to.idx});
			for (long[] p : parts) if (now >= p[0] && now < p[1] && (p[2] >> from.idx & 1) != (p[2] >> to.idx & 1)) { copies = 0; Sim.stat("fault.lost_in_partition"); }
			for (Step s : tx.getOrDefault(n, Collections.emptyList())) {
				long x = s.num("x"); String f = s.str("f"); Sim.stat("fault." + f); shape = Sim.mix64(shape ^ Sim.fnv(f));
				switch (f) {
					case "drop": copies = 0; break;
					case "dup": copies = 2 + (int)(x & 1); more = x >>> 1; break;
					case "delay": delay += x; break;
					case "flip": if (e.length > 1) { e = e.clone(); long bit = Math.floorMod(x, 8L * (e.length - 1)); e[1 + (int)(bit >> 3)] ^= 1 << (bit & 7); } break;
					case "trunc": e = Arrays.copyOf(e, (int)Math.floorMod(x, (long)e.length + 1)); break;
					case "extend": { byte[] t = new Rng(x).bytes((int)(1 + Math.floorMod(x, 20L))); e = Ref.cat(e, t); break; }
					case "splice": { byte[] o = sent.get((int)Math.floorMod(x, (long)sent.size())); int cut = (int)Math.floorMod(x >>> 20, (long)Math.min(e.length, o.length) + 1); e = Ref.cat(Arrays.copyOf(e, cut), Arrays.copyOfRange(o, cut, o.length)); break; }
					case "field": { // one field of this record replaced by the same field of another one
						byte[] o = sent.get((int)Math.floorMod(x, (long)sent.size())); if (e.length < 2 || o.length < 2 || e[0] != 'D' || o[0] != 'D') break;
						byte[] a = Arrays.copyOfRange(e, 1, e.length), b = Arrays.copyOfRange(o, 1, o.length); int[] fa = app.fields(a), fb = app.fields(b); if (fa == null || fb == null) break;
						int k = (int)Math.floorMod(x >>> 20, (long)fa.length - 1); e = Ref.cat(new byte[]{'D'}, Arrays.copyOf(a, fa[k]), Arrays.copyOfRange(b, fb[k], fb[k + 1]), Arrays.copyOfRange(a, fa[k + 1], a.length)); break; }
					case "replay": { // an earlier transmission is seen again, perhaps by somebody else
						int k = (int)Math.floorMod(x, (long)sent.size()); Node o = nodes.get((int)Math.floorMod(x >>> 20, (long)nodes.size())); int src = ends.get(k)[0]; byte[] old = sent.get(k); at(now + 1 + (x >>> 30 & 1023), () -> arrive(o, src, old)); break; }
				}
			}
		}
		byte[] fin = e; for (int i = 0; i < copies; i++) at(now + delay + (i == 0 ? 0 : more * i), () -> arrive(to, from.idx, fin));
	}
	void arrive(Node to, int from, byte[] e) {
		if (!to.up) { Sim.stat("fault.lost_at_crashed_node"); return; }
		if (to.stalled > now) { at(to.stalled, () -> arrive(to, from, e)); return; }
		receive(to, from, e);
	}

	boolean equal() {
		for (Node n : nodes) if (!n.up || !n.have.keySet().equals(nodes.get(0).have.keySet()) || !n.have.keySet().containsAll(promised)) return false;
		return true;
	}
	void run() {
		long limit = horizon + 3 + 30L * TICK; boolean first = true;
		while (!queue.isEmpty()) {
			Ev e = queue.poll(); now = Math.max(now, e.at); if (++events > 60000) Sim.fail("harness-too-many-events", "at " + now);
			if (now > horizon + 10) { if (equal()) { converged = true; break; } if (now > limit) break; }
			e.run.run();
		}
		Sim.stat("sim.virtual_ms", now); Sim.stat("probe.recovery_ms_max_sum", now - horizon); Sim.log(now);
		if (!converged) {
			StringBuilder sb = new StringBuilder("after " + (now - horizon) + " fault-free ms:"); for (Node n : nodes) { sb.append(" node " + n.idx + " (" + n.impl.kind + ")" + (n.up ? "" : " down") + " holds " + n.have.size() + " records"); for (Map.Entry<String, byte[]> k : everything.entrySet()) if (app.truth(k.getValue()) && !n.have.containsKey(k.getKey())) { sb.append(", not " + app.show(k.getValue())); break; } sb.append(";"); }
			Sim.fail("not-converged", sb.toString());
		}
		for (Node n : nodes) for (byte[] r : n.have.values()) Sim.check(app.truth(r), "stored-invalid", "node " + n.idx + " holds " + app.show(r));
		Sim.stat("outcome.records_held_everywhere", nodes.get(0).have.size()); Sim.distinct(shape);
	}

	// ---- Plans ----
	static List<String> plan(App app, Rng r, int maxMsg, int maxForge, boolean thorough) {
		List<String> p = new ArrayList<>(); int horizon = r.range(1500, 9000), nn = r.chance(1, 6) ? r.range(5, 7) : 4; StringBuilder names = new StringBuilder("pure,asm,gcc,java"); for (int i = 4; i < nn; i++) names.append(',').append(Nodes.KINDS[r.below(4)]);
		p.add("!nodes " + names); p.add("!delays " + r.below(1000000000)); p.add("!horizon " + horizon);
		int m = r.range(1, maxMsg), f = r.range(1, maxForge), guess = 0;
		for (int i = 0; i < m; i++) { p.add("msg kind=honest seed=" + r.below(1000000000) + " at=" + r.below(horizon * 2 / 3) + " node=" + r.below(nn)); guess += nn * nn; }
		for (int i = 0; i < f; i++) { p.add("forge kind=" + app.kinds().get(r.below(app.kinds().size())) + " seed=" + r.below(1000000000) + " at=" + r.below(horizon * 2 / 3) + " node=" + r.below(nn)); guess += nn * nn / 2; }
		if (r.chance(1, 10)) return p;
		guess += horizon / TICK * nn; int t = r.range(0, guess / 2);
		for (int i = 0; i < t; i++) { String k = r.pick("drop", "drop", "dup", "delay", "delay", "flip", "flip", "flip", "trunc", "extend", "splice", "field", "field", "replay"); p.add("tx n=" + r.below(guess) + " f=" + k + " x=" + (k.equals("delay") ? r.logu(4000) : k.equals("dup") ? r.logu(3000) : r.next() >>> 1)); }
		for (int i = r.below(3); i > 0; i--) p.add("part at=" + r.below(horizon) + " for=" + r.logu(4000) + " mask=" + r.range(1, (1 << nn) - 2));
		for (int i = r.below(3); i > 0; i--) p.add("stall at=" + r.below(horizon) + " for=" + r.logu(3000) + " node=" + r.below(nn));
		for (int i = r.below(4); i > 0; i--) p.add("crash at=" + r.below(horizon) + " for=" + r.logu(3000) + " node=" + r.below(nn) + r.pick("", "", " lose", " torn=" + r.below(100000), " rot=" + r.below(1000000000)));
		if (r.chance(1, 3)) p.add("skew node=" + r.below(nn) + " x=" + r.range(-80, 300));
		return p;
	}

	/** Every run gets a thread of its own, so that nothing thread-local survives it. */
	static void inNewThread(Runnable body) {
		Throwable[] bad = {null}; Thread t = new Thread(null, () -> { try { body.run(); } catch (Throwable x) { bad[0] = x; } }, "run", 64 << 20); t.start();
		try { t.join(); } catch (InterruptedException e) { throw new Error(e); }
		if (bad[0] instanceof Violation) throw (Violation)bad[0]; if (bad[0] instanceof Error) throw (Error)bad[0]; if (bad[0] instanceof RuntimeException) throw (RuntimeException)bad[0];
	}
	static Prop prop(java.util.function.Supplier<App> mk, int msg, int forge) {
		return new Prop() {
			public List<String> gen(Rng r, long idx, boolean thorough) { return plan(mk.get(), r, msg, forge, thorough); }
			public void exec(Plan p) { inNewThread(() -> new Net(mk.get(), p).run()); }
		};
	}
	static final Prop C10 = prop(SigApp::new, 2, 8), C16 = prop(HashApp::new, 4, 7);

	/** C16 for very long messages: one node, one operation, one length per run; expected values from tools/longvec.py. */
	static final Prop C16L = new Prop() {
		final String[] OPS = {"sha256", "sha256d", "sha512", "ripemd160", "keccak256", "hmac256", "hmac512"}; final long[] JL = {(1L << 28) - 20, (1L << 28) + 119, (1L << 29) + 7, (1L << 31) - 99}, CL = {(1L << 29) + 7, (1L << 31) + 5, (1L << 32) + 143};
		public List<String> gen(Rng r, long idx, boolean thorough) {
			List<String> all = new ArrayList<>();
			for (String o : OPS) for (int k : o.startsWith("hmac") ? new int[]{20, 200} : new int[]{0}) {
				for (int i = 0; i < 4; i++) if (thorough || i == 1 && k != 20 || i == 3 && k == 200) all.add("long impl=java op=" + o + " len=" + JL[i] + " key=" + k);
				for (int i = 0; i < 3; i++) for (String im : new String[]{"pure", "asm", "gcc"}) if (thorough || i != 1 && k != 20 && (im.equals("pure") && !(i == 2 && o.startsWith("hmac")) || im.equals("asm") && o.equals("sha256") && i == 2)) all.add("long impl=" + im + " op=" + o + " len=" + CL[i] + " key=" + k);
			}
			Collections.sort(all, Comparator.comparing((String s) -> -new Step(s).num("len") * (s.contains("keccak") ? 3 : 1)));
			return idx < all.size() ? new ArrayList<>(all.subList((int)idx, (int)idx + 1)) : new ArrayList<>();
		}
		public void exec(Plan p) throws Throwable {
			for (Step s : p.steps) {
				String o = s.str("op"), impl = s.str("impl"), want = null; long len = s.num("len"); int key = s.i("key"), op = Nodes.SHA256 + Arrays.asList(OPS).indexOf(o); byte[] got;
				for (String l : java.nio.file.Files.readAllLines(java.nio.file.Paths.get(System.getProperty("sim.long")))) if (l.startsWith(o + " " + len + " " + key + " ")) want = l.split(" ")[3];
				if (impl.equals("java")) {
					byte[] m = new byte[(int)len], one = new byte[1 << 20]; for (int i = 0; i < one.length; i++) one[i] = (byte)((i * i + 31 * i + (i >> 8) * 7 + (i >> 16) * 13) ^ (i >> 4)); for (long q = 0; q < m.length; q += one.length) { int i = (int)q; System.arraycopy(one, 0, m, i, Math.min(one.length, m.length - i)); }
					Nodes.Impl n = Nodes.make("java"); got = key > 0 ? n.call(op, Arrays.copyOf(one, key), m) : n.call(op, m); if (got == null) Sim.fail("node-threw", o + " of " + len + " bytes: " + n.why);
				} else got = Native.longCall(Native.id(impl), op, len, key);
				Sim.tick(1); Sim.stat("op.long_" + o); Sim.stat("long.mebibytes", len >> 20); Sim.distinct(Sim.fnv(s.op + impl + o + len + "/" + key)); Sim.log(got);
				Sim.check(got != null && Sim.hex(got).equals(want), "wrong-" + o, impl + ": " + o + " of " + len + " bytes with a key of " + key + " bytes gave " + (got == null ? "an exception" : Sim.hex(got)) + " want " + want);
			}
		}
	};

	static byte[] need(Nodes.Impl n, byte[] v, String what, String where) { if (v == null) Sim.fail("node-threw", where + " " + what + ": " + n.why); return v; }

	// ---- C10: signed messages ----
	static final class SigApp implements App {
		final Map<String, Boolean> known = new HashMap<>();
		static BigInteger num(byte[] b, int i) { return new BigInteger(1, Arrays.copyOfRange(b, 32 * i, 32 * i + 32)); }
		static byte[] rec(BigInteger x, BigInteger y, BigInteger z, BigInteger h, BigInteger r, BigInteger s) { return Ref.cat(Ref.be(x), Ref.be(y), Ref.be(z), Ref.be(h), Ref.be(r), Ref.be(s)); }
		static byte[] rec(Ref.Pt q, BigInteger h, BigInteger r, BigInteger s) { return q.inf ? rec(Ref.ZERO, Ref.ONE, Ref.ZERO, h, r, s) : rec(q.x, q.y, Ref.ONE, h, r, s); }
		static boolean wellFormed(byte[] b) { if (b.length != 192) return false; for (int i = 0; i < 3; i++) if (num(b, i).compareTo(Ref.P) >= 0) return false; return true; }
		public boolean truth(byte[] b) {
			return known.computeIfAbsent(id(b), k -> wellFormed(b) && num(b, 2).equals(Ref.ONE) && Ref.verify(new Ref.Pt(num(b, 0), num(b, 1)), Arrays.copyOfRange(b, 96, 128), num(b, 4), num(b, 5)));
		}
		public boolean judge(Nodes.Impl n, byte[] b, String where) {
			if (!wellFormed(b)) return false;
			byte[] v = need(n, n.call(Nodes.VERIFY, Arrays.copyOf(b, 96), Arrays.copyOfRange(b, 96, 128), Arrays.copyOfRange(b, 128, 160), Arrays.copyOfRange(b, 160, 192)), "verifying " + show(b), where);
			return v[0] != 0;
		}
		public int[] fields(byte[] b) { return b.length != 192 ? null : new int[]{0, 96, 128, 160, 192}; }
		public String show(byte[] b) { return b.length != 192 ? "malformed " + Sim.hex(b) : "[x=" + num(b, 0).toString(16) + " y=" + num(b, 1).toString(16) + " z=" + num(b, 2).toString(16) + " hash=" + num(b, 3).toString(16) + " r=" + num(b, 4).toString(16) + " s=" + num(b, 5).toString(16) + "]"; }
		static final List<String> KINDS = Arrays.asList("high_s", "edge_rs", "edge_rs", "hash_zero", "hash_unreduced", "equal_summands", "opposite_summands", "rx_wraps", "rx_wraps", "rx_small", "r_plus_order", "off_curve", "infinite_key", "odd_key", "not_normalised", "small_scalars", "small_scalars", "small_scalars", "related", "related", "bits", "chosen_nonce", "chosen_nonce", "boundary", "extreme_key", "extreme_key", "extreme_key", "foreign_curve", "foreign_curve", "foreign_scaled", "foreign_scaled");
		public List<String> kinds() { return KINDS; }
		static BigInteger mod(BigInteger v) { return v.mod(Ref.N); }
		static BigInteger inv(BigInteger v) { return v.modInverse(Ref.N); }
		static BigInteger small(Rng r) {
			BigInteger v; switch (r.below(5)) { case 0: v = BigInteger.valueOf(r.below(20)); break; case 1: v = Ref.N.subtract(BigInteger.valueOf(r.range(1, 20))); break; case 2: v = Ref.ONE.shiftLeft(r.below(256)).add(BigInteger.valueOf(r.range(-1, 1))); break; case 3: v = Ref.N.shiftRight(1).add(BigInteger.valueOf(r.range(-2, 2))); break; default: v = BigInteger.valueOf(r.below(16)).shiftLeft(4 * r.below(64)); }
			return mod(v);
		}
		/** The record whose verification computes u1 G + u2 Q with these scalars. */
		static byte[] solve(Ref.Pt q, BigInteger u1, BigInteger u2, BigInteger rIfInf, Rng rnd) {
			if (u2.signum() == 0) u2 = Ref.ONE; Ref.Pt p = Ref.add(Ref.mul(Ref.G, u1), Ref.mul(q, u2));
			BigInteger r = p.inf ? rIfInf : mod(p.x); if (r.signum() == 0) r = Ref.ONE; BigInteger s = mod(r.multiply(inv(u2))), e = mod(u1.multiply(s));
			if (rnd.chance(1, 8) && e.add(Ref.N).bitLength() <= 256) e = e.add(Ref.N);
			return rec(q, e, r, s);
		}
		public byte[] make(String kind, Rng r, Nodes.Impl n) {
			BigInteger d = JApi.genKey(r), h = r.chance(1, 4) ? JApi.genU(r) : JApi.rnd(r), k = JApi.genKey(r);
			if (kind.equals("honest")) {
				byte[] pub = need(n, n.call(Nodes.PUBKEY, Ref.be(d)), "making a key", n.kind), sig;
				if (r.chance(1, 2)) sig = n.call(Nodes.SIGN, Ref.be(d), Ref.be(h), Ref.be(k)); else sig = n.call(Nodes.SIGNHMAC, Ref.be(d), Ref.be(h));
				need(n, sig, "signing", n.kind); if (sig[0] == 0) return null;
				return Ref.cat(pub, Ref.be(h), Arrays.copyOfRange(sig, 1, 65));
			}
			Ref.Pt q = Ref.mul(Ref.G, d), R; BigInteger z = mod(h), rr, s, u1, u2; int w = r.below(100);
			BigInteger[] sig = Ref.sign(d, Ref.be(h), k); if (sig == null) { k = BigInteger.valueOf(7); sig = Ref.sign(d, Ref.be(h), k); if (sig == null) return null; }
			switch (kind) {
				case "high_s": return rec(q, h, sig[0], Ref.N.subtract(sig[1]));
				case "edge_rs": { BigInteger e = r.pick(Ref.ZERO, Ref.ONE, Ref.N.subtract(Ref.ONE), Ref.N, Ref.N.add(Ref.ONE), Ref.R.subtract(Ref.ONE), Ref.N.shiftRight(1), Ref.P); return w < 40 ? rec(q, h, e, sig[1]) : w < 80 ? rec(q, h, sig[0], e) : rec(q, h, e, r.pick(Ref.ZERO, Ref.ONE, Ref.N, e)); }
				case "hash_zero": { h = w < 50 ? Ref.ZERO : Ref.N; sig = Ref.sign(d, Ref.be(h), k); return sig == null ? null : rec(q, h, sig[0], sig[1]); }
				case "hash_unreduced": { h = Ref.N.add(new BigInteger(1, r.bytes(16)).mod(Ref.R.subtract(Ref.N))); if (w < 30) h = Ref.R.subtract(BigInteger.valueOf(1 + r.below(9))); sig = Ref.sign(d, Ref.be(h), k); return sig == null ? null : rec(q, w % 2 == 0 ? h : mod(h), sig[0], sig[1]); }
				case "equal_summands": u2 = w < 50 ? mod(JApi.rnd(r)) : small(r); return solve(q, mod(u2.multiply(d)), u2, Ref.ONE, r);
				case "opposite_summands": { u2 = w < 50 ? mod(JApi.rnd(r)) : small(r); BigInteger any = r.pick(Ref.ONE, JApi.genKey(r), mod(Ref.G.x), mod(q.x)); return solve(q, mod(u2.multiply(d).negate()), u2, any, r); }
				case "rx_wraps": case "rx_small": {
					boolean wraps = kind.equals("rx_wraps"); R = null; BigInteger x = null;
					while (R == null) { x = wraps ? Ref.N.add(r.chance(1, 2) ? BigInteger.valueOf(r.below(50)) : new BigInteger(1, r.bytes(16)).mod(Ref.P.subtract(Ref.N))) : BigInteger.valueOf(r.below(1000)); R = Ref.liftX(x, r.chance(1, 2)); }
					s = JApi.genKey(r); rr = mod(x); if (rr.signum() == 0) return rec(q, h, rr, s);
					u1 = mod(z.multiply(inv(s))); u2 = mod(rr.multiply(inv(s))); q = Ref.mul(Ref.add(R, Ref.mul(Ref.G, u1).neg()), inv(u2));
					return rec(q, h, w < 15 && wraps ? x : w > 90 && !wraps ? rr.add(Ref.N).min(Ref.R.subtract(Ref.ONE)) : rr, w % 2 == 0 ? s : Ref.N.subtract(s)); }
				case "r_plus_order": { for (int i = 0; i < 3; i++) if (sig[0].add(Ref.N).bitLength() <= 256) return rec(q, h, sig[0].add(Ref.N), sig[1]); BigInteger s2 = sig[1].add(Ref.N); return s2.bitLength() <= 256 ? rec(q, h, sig[0], s2) : rec(q, h, sig[0].add(Ref.P).mod(Ref.R), sig[1]); }
				case "off_curve": return w < 50 ? rec(q.x, q.y.flipBit(r.below(250)).mod(Ref.P), Ref.ONE, h, sig[0], sig[1]) : w < 80 ? rec(q.x.flipBit(r.below(250)).mod(Ref.P), q.y, Ref.ONE, h, sig[0], sig[1]) : rec(q.y, q.x, Ref.ONE, h, sig[0], sig[1]);
				case "infinite_key": { // with infinity for Q the equation holds when r is the x coordinate of u1 G
					s = JApi.genKey(r); u1 = mod(z.multiply(inv(s))); R = Ref.mul(Ref.G, u1); if (R.inf) return null; rr = mod(R.x); BigInteger o = r.pick(Ref.ZERO, Ref.ONE, q.x);
					return w < 40 ? rec(Ref.ZERO, Ref.ONE, Ref.ZERO, h, rr, s) : w < 60 ? rec(Ref.ZERO, Ref.ZERO, Ref.ZERO, h, rr, s) : w < 75 ? rec(Ref.ZERO, Ref.ZERO, Ref.ONE, h, rr, s) : rec(o, q.y, Ref.ZERO, h, w < 90 ? rr : sig[0], w < 90 ? s : sig[1]); }
				case "odd_key": { BigInteger B = r.pick(new BigInteger("7AE96A2B657C07106E64479EAC3434E99CF0497512F58995C1396C28719501EE", 16), new BigInteger("851695D49A83F8EF919BB86153CBCB16630FB68AED0A766A3EC693D68E6AFA40", 16)); return w < 60 ? rec(q.x.multiply(B).mod(Ref.P), q.y, Ref.ONE, h, sig[0], sig[1]) : rec(q.x, Ref.P.subtract(q.y), Ref.ONE, h, sig[0], sig[1]); }
				case "not_normalised": { BigInteger t = w < 20 ? Ref.P.subtract(Ref.ONE) : w < 40 ? BigInteger.valueOf(2) : JApi.genZ(r); return w < 80 ? rec(q.x.multiply(t).mod(Ref.P), q.y.multiply(t).mod(Ref.P), t, h, sig[0], sig[1]) : rec(q.x, q.y, t, h, sig[0], sig[1]); }
				case "small_scalars": { d = w < 60 ? small(r) : d; if (d.signum() == 0) d = Ref.ONE; q = Ref.mul(Ref.G, d); return solve(q, small(r), small(r), JApi.genKey(r), r); }
				case "related": switch (w % 8) {
					case 0: return rec(q.neg(), mod(z.negate()), sig[0], sig[1]);  // valid again
					case 1: return rec(q.neg(), h, sig[0], sig[1]);
					case 2: return rec(q, mod(z.negate()), sig[0], sig[1]);
					case 3: return rec(q, h, sig[1], sig[0]);
					case 4: return rec(q, h, mod(sig[0].negate()), sig[1]);
					case 5: return rec(q, h.add(Ref.ONE).mod(Ref.R), sig[0], sig[1]);
					case 6: return rec(Ref.add(q, q), h, sig[0], mod(sig[1].shiftLeft(1)));
					default: return rec(q, mod(z.shiftLeft(1)), sig[0], mod(sig[1].shiftLeft(1))); }
				case "bits": { byte[] b = rec(q, h, sig[0], sig[1]); for (int i = r.range(1, 3); i > 0; i--) { int bit = r.below(4); int at = r.pickI(0, 32, 96, 128, 128, 160, 160) * 8 + (r.chance(1, 2) ? r.below(256) : r.chance(1, 2) ? bit : 255 - bit); b[at / 8] ^= 0x80 >> (at % 8); } return b; }
				case "chosen_nonce": { k = w < 50 ? small(r) : k; if (k.signum() == 0) k = Ref.ONE; if (w % 3 == 0) { d = small(r); if (d.signum() == 0) d = Ref.ONE; q = Ref.mul(Ref.G, d); } if (w % 7 == 0) k = d; sig = Ref.sign(d, Ref.be(h), k); return sig == null ? null : rec(q, h, sig[0], w % 2 == 0 ? sig[1] : Ref.N.subtract(sig[1])); }
				case "foreign_curve": case "foreign_scaled": { // a key on an isomorphic curve, of the same order, with a signature that the group law confirms there
					BigInteger u, zz = Ref.ONE, X, Y; Ref.Pt q0;
					if (kind.equals("foreign_curve")) { u = r.chance(1, 4) ? BigInteger.valueOf(r.range(2, 9)) : JApi.genF(r); if (u.signum() == 0) u = Ref.b(2); q0 = q; X = u.multiply(u).multiply(q.x).mod(Ref.P); Y = u.modPow(Ref.b(3), Ref.P).multiply(q.y).mod(Ref.P); }
					else { // (q.x, q.y) lies on the curve, but with this z it stands for a point of the other curve
						BigInteger six = Ref.P.subtract(Ref.ONE).divide(Ref.b(6)), v; zz = JApi.rnd(r).mod(Ref.P);
						for (;; zz = zz.add(Ref.ONE).mod(Ref.P)) { if (zz.signum() == 0 || zz.equals(Ref.ONE)) continue; v = q.y.multiply(q.y).multiply(zz).subtract(q.x.modPow(Ref.b(3), Ref.P)).multiply(Ref.b(7).multiply(zz.modPow(Ref.b(3), Ref.P)).modInverse(Ref.P)).mod(Ref.P); if (v.signum() != 0 && v.modPow(six, Ref.P).equals(Ref.ONE)) break; }
						u = Ref.sqrt(v).modPow(Ref.P.add(Ref.b(2)).divide(Ref.b(9)), Ref.P); X = q.x; Y = q.y; BigInteger zi = zz.modInverse(Ref.P), ui = u.modInverse(Ref.P);
						q0 = new Ref.Pt(X.multiply(zi).multiply(ui).multiply(ui).mod(Ref.P), Y.multiply(zi).multiply(ui).multiply(ui).multiply(ui).mod(Ref.P)); if (!Ref.onCurve(q0.x, q0.y)) throw new IllegalStateException("foreign point");
					}
					u1 = w < 30 ? Ref.ZERO : w < 50 ? small(r) : mod(JApi.rnd(r)); u2 = w % 3 == 0 ? small(r) : mod(JApi.rnd(r)); if (u2.signum() == 0) u2 = Ref.ONE;
					Ref.Pt m = Ref.mul(q0, u2); m = new Ref.Pt(u.multiply(u).multiply(m.x).mod(Ref.P), u.modPow(Ref.b(3), Ref.P).multiply(m.y).mod(Ref.P)); R = Ref.add(Ref.mul(Ref.G, u1), m); if (R.inf) return null;
					rr = mod(R.x); if (rr.signum() == 0) return null; s = mod(rr.multiply(inv(u2))); return rec(X, Y, zz, mod(u1.multiply(s)), rr, s); }
				case "extreme_key": return solve(Ref.genExtreme(r), w < 40 ? small(r) : mod(JApi.rnd(r)), w % 5 == 0 ? small(r) : mod(JApi.rnd(r)), Ref.ONE, r);
				default: { rr = JApi.genU(r); s = JApi.genU(r); if (w < 50 || mod(rr).signum() == 0 || mod(s).signum() == 0) return rec(JApi.genPt(r, true), h, rr, s);
					// any boundary s and e, with a key for which they are a signature
					R = w < 75 ? Ref.genExtreme(r) : JApi.genPt(r, false); rr = mod(R.x); s = mod(s); if (rr.signum() == 0) return null; u1 = mod(z.multiply(inv(s))); u2 = mod(rr.multiply(inv(s))); return rec(Ref.mul(Ref.add(R, Ref.mul(Ref.G, u1).neg()), inv(u2)), h, rr, s); }
			}
		}
	}

	// ---- C16: messages with identifiers, tags and addresses ----
	static final class HashApp implements App {
		/** A record's parts; null when it cannot be taken apart. */
		static final class Parts { byte[] body, payload, key, ver, tail, id, h256, h512, rip, kec, m256, m512, addr, wif; int[] cut; }
		static final class Want { byte[] id, h256, h512, rip, kec, m256, m512, addr, wif, addrDec, wifDec; boolean ok; }
		final Map<String, Want> known = new HashMap<>();
		static final int FIXED = 32 + 32 + 64 + 20 + 32 + 32 + 64;
		static byte[] u16(int n) { return new byte[]{(byte)(n >> 8), (byte)n}; }
		static byte[] u32(int n) { return new byte[]{(byte)(n >> 24), (byte)(n >> 16), (byte)(n >> 8), (byte)n}; }
		static int u32(byte[] b, int o) { return o + 4 > b.length || b[o] != 0 ? 1 << 25 : (b[o + 1] & 255) << 16 | (b[o + 2] & 255) << 8 | b[o + 3] & 255; }
		static int u16(byte[] b, int o) { return o + 2 > b.length ? 1 << 20 : (b[o] & 255) << 8 | b[o + 1] & 255; }
		static Parts parse(byte[] b) {
			Parts p = new Parts(); int pl = u32(b, 0), o = 4 + pl; if (o + 2 > b.length) return null; int kl = u16(b, o), ke = o + 2 + kl; if (ke + 54 + FIXED > b.length) return null;
			p.payload = Arrays.copyOfRange(b, 4, o); p.key = Arrays.copyOfRange(b, o + 2, ke); p.ver = Arrays.copyOfRange(b, ke, ke + 2); p.tail = Arrays.copyOfRange(b, ke, ke + 54); if ((p.ver[1] & 0xFE) != 0) return null; int at = ke + 54; p.body = Arrays.copyOf(b, at);
			int[] len = {32, 32, 64, 20, 32, 32, 64}; byte[][] f = new byte[7][]; p.cut = new int[10]; for (int i = 0; i < 7; i++) { p.cut[i] = at; f[i] = Arrays.copyOfRange(b, at, at + len[i]); at += len[i]; } p.cut[7] = at;
			p.id = f[0]; p.h256 = f[1]; p.h512 = f[2]; p.rip = f[3]; p.kec = f[4]; p.m256 = f[5]; p.m512 = f[6];
			for (int i = 0; i < 2; i++) { if (at >= b.length) return null; int n = b[at] & 255; if (n > 60 || at + 1 + n > b.length) return null; byte[] t = Arrays.copyOfRange(b, at + 1, at + 1 + n); for (byte c : t) if (c < 33 || c > 126) return null; if (i == 0) p.addr = t; else p.wif = t; at += 1 + n; p.cut[8 + i] = at; }
			return at == b.length ? p : null;
		}
		static byte[] build(byte[] body, byte[][] f, byte[] addr, byte[] wif) { return Ref.cat(body, Ref.cat(f), new byte[]{(byte)addr.length}, addr, new byte[]{(byte)wif.length}, wif); }
		/** The tail says which address and key text the message carries: version, compression flag, 20 bytes, 32 bytes. */
		static byte[] body(byte[] payload, byte[] key, byte[] tail) { return Ref.cat(u32(payload.length), payload, u16(key.length), key, tail); }
		static byte[] tail(Rng r, byte[] payload) {
			byte[] a = r.chance(1, 3) ? Ref.ripemd160(payload) : r.bytes(20), k = r.chance(1, 4) ? Ref.sha256(payload) : r.bytes(32);
			if (r.chance(1, 3)) Arrays.fill(a, 0, r.below(21), (byte)-r.below(2)); if (r.chance(1, 3)) Arrays.fill(k, 0, r.below(33), (byte)-r.below(2));
			return Ref.cat(new byte[]{(byte)r.pickI(0, 0, 5, 111, 128, 255, r.below(256)), (byte)r.below(2)}, a, k);
		}
		static byte[] raw20(byte[] tail) { return Arrays.copyOfRange(tail, 2, 22); }
		static byte[] raw32(byte[] tail) { return Arrays.copyOfRange(tail, 22, 54); }
		static byte[] addrPayload(byte[] t) { return Ref.cat(Arrays.copyOf(t, 1), raw20(t)); }
		static byte[] text(String s) { byte[] b = new byte[s.length()]; for (int i = 0; i < b.length; i++) b[i] = (byte)s.charAt(i); return b; }
		static String text(byte[] b) { StringBuilder sb = new StringBuilder(); for (byte c : b) sb.append((char)(c & 255)); return sb.toString(); }
		static byte[] wifPayload(byte[] t) { return Ref.cat(Arrays.copyOf(t, 1), raw32(t), t[1] != 0 ? new byte[]{1} : new byte[0]); }
		Want want(byte[] b, Parts p) {
			return known.computeIfAbsent(id(b), x -> {
				Want w = new Want(); w.id = Ref.sha256d(p.body); w.h256 = Ref.sha256(p.payload); w.h512 = Ref.sha512(p.payload); w.rip = Ref.ripemd160(p.payload); w.kec = Ref.keccak256(p.payload); w.m256 = Ref.hmac256(p.key, p.payload); w.m512 = Ref.hmac512(p.key, p.payload);
				w.addr = text(Ref.b58check(addrPayload(p.tail))); w.wif = text(Ref.b58check(wifPayload(p.tail)));
				byte[] d = Ref.unb58check(text(p.addr)); w.addrDec = d == null || d.length != 21 ? new byte[]{0} : Ref.cat(new byte[]{1}, d);
				d = Ref.unb58check(text(p.wif)); w.wifDec = d == null || !(d.length == 33 || d.length == 34 && d[33] == 1) ? new byte[]{0} : Ref.cat(new byte[]{1}, Arrays.copyOf(d, 1), new byte[]{(byte)(d.length - 33)}, Arrays.copyOfRange(d, 1, 33));
				w.ok = Arrays.equals(w.id, p.id) && Arrays.equals(w.h256, p.h256) && Arrays.equals(w.h512, p.h512) && Arrays.equals(w.rip, p.rip) && Arrays.equals(w.kec, p.kec) && Arrays.equals(w.m256, p.m256) && Arrays.equals(w.m512, p.m512) && Arrays.equals(w.addr, p.addr) && Arrays.equals(w.wif, p.wif);
				return w;
			});
		}
		public boolean truth(byte[] b) { Parts p = parse(b); return p != null && want(b, p).ok; }
		static boolean same(Nodes.Impl n, int op, String what, byte[] claimed, byte[] want, String where, byte[]... a) {
			byte[] v = need(n, n.call(op, a), "computing " + what, where);
			if (!Arrays.equals(v, want)) { StringBuilder sb = new StringBuilder(); for (byte[] x : a) sb.append(" ").append(x.length > 2000 ? x.length + " bytes" : Sim.hex(x)); Sim.fail("wrong-" + what, where + ": " + what + " of" + sb + " gave " + Sim.hex(v) + " want " + Sim.hex(want)); }
			return claimed == null || Arrays.equals(v, claimed);
		}
		public boolean judge(Nodes.Impl n, byte[] b, String where) {
			Parts p = parse(b); if (p == null) { Sim.stat("probe.unparsable"); return false; } Want w = want(b, p); boolean ok = true; byte[] v1 = Arrays.copyOf(p.ver, 1), split = {(byte)Sim.fnv(p.body)};
			ok &= same(n, Nodes.SHA256D, "double-sha256", p.id, w.id, where, p.body);
			ok &= same(n, Nodes.SHA256, "sha256", p.h256, w.h256, where, p.payload);
			ok &= same(n, Nodes.SHA512, "sha512", p.h512, w.h512, where, p.payload);
			ok &= same(n, Nodes.RIPEMD, "ripemd160", p.rip, w.rip, where, p.payload);
			ok &= same(n, Nodes.KECCAK, "keccak256", p.kec, w.kec, where, p.payload);
			ok &= same(n, Nodes.HMAC256, "hmac-sha256", p.m256, w.m256, where, p.key, p.payload);
			ok &= same(n, Nodes.HMAC512, "hmac-sha512", p.m512, w.m512, where, p.key, p.payload);
			ok &= same(n, Nodes.ADDRENC, "address", p.addr, w.addr, where, raw20(p.tail), v1);
			ok &= same(n, Nodes.WIFENC, "key-text", p.wif, w.wif, where, raw32(p.tail), p.ver);
			same(n, Nodes.ADDRDEC, "address-decoding", null, w.addrDec, where, p.addr);
			same(n, Nodes.WIFDEC, "key-text-decoding", null, w.wifDec, where, p.wif);
			same(n, Nodes.SPLIT256, "sha256-in-parts", null, w.h256, where, p.payload, split);
			same(n, Nodes.SPLIT512, "sha512-in-parts", null, w.h512, where, p.payload, split);
			return ok;
		}
		public int[] fields(byte[] b) { Parts p = parse(b); return p == null ? null : p.cut; }
		public String show(byte[] b) { Parts p = parse(b); return p == null ? "unparsable " + Sim.hex(b) : "[payload of " + p.payload.length + " bytes=" + (p.payload.length > 2000 ? Sim.hex(Arrays.copyOf(p.payload, 40)) + "..." : Sim.hex(p.payload)) + " key=" + Sim.hex(p.key) + " version=" + (p.ver[0] & 255) + " id=" + Sim.hex(p.id) + " addr=" + text(p.addr) + "]"; }
		static final List<String> KINDS = Arrays.asList("other_id", "other_tag", "truncated", "extended", "padded", "zero_extended", "key_zero_extended", "key_hashed", "bit", "block_swap", "text_damaged", "case", "consistent", "consistent");
		public List<String> kinds() { return KINDS; }
		static byte[] payload(Rng r) {
			int bl = r.pickI(64, 128, 136), n; switch (r.below(7)) { case 0: n = r.below(4); break; case 1: case 2: case 3: n = Math.max(0, bl * r.below(5) + r.range(-18, 3)); break; case 4: n = r.below(bl); break; case 5: n = r.below(600); break; default: n = (int)r.logu(6000); }
			if (r.chance(1, 40)) n = Math.max(0, (r.chance(1, 6) ? r.pickI(1 << 16, 1 << 16, 1 << 17, r.chance(1, 30) ? 1 << 21 : 1 << 16) : r.pickI(1 << 12, 1 << 13, 1 << 14, 1 << 15)) + r.range(-140, 140));
			byte[] m = r.bytes(n); if (r.chance(1, 6)) Arrays.fill(m, r.pick((byte)0, (byte)-1, (byte)0x80, (byte)1)); else if (n > 0 && r.chance(1, 6)) Arrays.fill(m, 0, r.below(n + 1), (byte)0); return m;
		}
		static byte[] full(byte[] payload, byte[] key, byte[] tail) {
			byte[] bd = body(payload, key, tail), rip = Ref.ripemd160(payload), h = Ref.sha256(payload);
			return build(bd, new byte[][]{Ref.sha256d(bd), h, Ref.sha512(payload), rip, Ref.keccak256(payload), Ref.hmac256(key, payload), Ref.hmac512(key, payload)}, text(Ref.b58check(addrPayload(tail))), text(Ref.b58check(wifPayload(tail))));
		}
		/** The same record with another payload and key, but the old identifier and tags. */
		static byte[] graft(byte[] b, byte[] payload, byte[] key, boolean newId) { Parts p = parse(b); byte[] bd = body(payload, key, p.tail), rest = Arrays.copyOfRange(b, p.body.length, b.length); if (newId) System.arraycopy(Ref.sha256d(bd), 0, rest, 0, 32); return Ref.cat(bd, rest); }
		public byte[] make(String kind, Rng r, Nodes.Impl n) {
			byte[] m = payload(r), key = JApi.genKeyBytes(r); byte[] tail = tail(r, m);
			if (kind.equals("honest")) {
				byte[] bd = body(m, key, tail), rip = need(n, n.call(Nodes.RIPEMD, m), "ripemd160", n.kind), h = need(n, n.call(Nodes.SHA256, m), "sha256", n.kind), vb = Arrays.copyOf(tail, 2);
				return build(bd, new byte[][]{need(n, n.call(Nodes.SHA256D, bd), "double-sha256", n.kind), h, need(n, n.call(Nodes.SHA512, m), "sha512", n.kind), rip, need(n, n.call(Nodes.KECCAK, m), "keccak256", n.kind), need(n, n.call(Nodes.HMAC256, key, m), "hmac-sha256", n.kind), need(n, n.call(Nodes.HMAC512, key, m), "hmac-sha512", n.kind)}, need(n, n.call(Nodes.ADDRENC, raw20(tail), Arrays.copyOf(vb, 1)), "address", n.kind), need(n, n.call(Nodes.WIFENC, raw32(tail), vb), "key-text", n.kind));
			}
			byte[] b = full(m, key, tail), o = full(payload(r), JApi.genKeyBytes(r), tail(r, m)); Parts p = parse(b), q = parse(o); boolean newId = r.chance(1, 2);
			switch (kind) {
				case "other_id": System.arraycopy(q.id, 0, b, p.cut[0], 32); return b;
				case "other_tag": { int i = r.range(1, 6); System.arraycopy(o, q.cut[i], b, p.cut[i], p.cut[i + 1] - p.cut[i]); return b; }
				case "truncated": return m.length == 0 ? b : graft(b, Arrays.copyOf(m, r.chance(1, 2) ? m.length - 1 : r.below(m.length)), key, newId);
				case "extended": return graft(b, Ref.cat(m, r.bytes(r.range(1, 70))), key, newId);
				case "padded": { // what the padded message would look like as a message
					int bl = r.pickI(64, 128, 136), len = bl == 128 ? 16 : 8, k = (m.length + 1 + (bl == 136 ? 0 : len) + bl - 1) / bl * bl; byte[] t = Arrays.copyOf(m, Math.max(k, m.length + 1)); t[m.length] = bl == 136 ? 1 : (byte)0x80; if (bl == 136) t[t.length - 1] |= (byte)0x80; else for (int i = 0; i < 8; i++) t[t.length - 1 - i] = (byte)(8L * m.length >>> (8 * i)); return graft(b, t, key, newId); }
				case "zero_extended": return graft(b, Arrays.copyOf(m, m.length + r.range(1, 9)), key, newId);
				case "key_zero_extended": return graft(b, m, Arrays.copyOf(key, key.length + r.range(1, 3)), newId);
				case "key_hashed": return graft(b, m, r.chance(1, 2) ? Ref.sha256(key) : Ref.sha512(key), newId);
				case "bit": { if (m.length == 0) return b; m = m.clone(); int bit = r.below(8 * m.length); m[bit / 8] ^= 1 << (bit % 8); return graft(b, m, key, newId); }
				case "block_swap": { int bl = r.pickI(8, 64, 128); if (m.length < 2 * bl) return b; m = m.clone(); int i = r.below(m.length / bl - 1) * bl; byte[] t = Arrays.copyOfRange(m, i, i + bl); System.arraycopy(m, i + bl, m, i, bl); System.arraycopy(t, 0, m, i + bl, bl); return graft(b, m, key, newId); }
				case "text_damaged": { int at = r.range(p.cut[7], b.length - 1); b[at] = (byte)Ref.B58.charAt(r.below(58)); return b; }
				case "case": { int at = r.range(p.cut[7], b.length - 1); b[at] ^= 0x20; return b; }
				default: return b;
			}
		}
	}
}
