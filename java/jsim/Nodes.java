package jsim;

import java.io.File;
import java.lang.reflect.*;
import java.math.BigInteger;
import java.util.*;

/** The implementations of the library as network nodes, behind one interface on byte strings. */
final class Nodes {
	static final int VERIFY = 0, SIGN = 1, SIGNHMAC = 2, PUBKEY = 3, SHA256 = 4, SHA256D = 5, SHA512 = 6, RIPEMD = 7, KECCAK = 8, HMAC256 = 9, HMAC512 = 10, ADDRENC = 11, ADDRDEC = 12, WIFENC = 13, WIFDEC = 14, SPLIT256 = 15, SPLIT512 = 16;
	static final String[] KINDS = {"pure", "asm", "gcc", "java"};

	/** One implementation. An answer is null when the call threw something a caller cannot expect; why tells what. */
	abstract static class Impl { String kind, why = ""; abstract byte[] call(int op, byte[]... a); abstract void wipe(); }

	static Impl make(String kind) { Impl i = kind.equals("java") ? new JavaImpl() : new CppImpl(kind); i.kind = kind; return i; }

	static final class CppImpl extends Impl {
		final int id;
		CppImpl(String kind) { id = Native.id(kind); }
		byte[] call(int op, byte[]... a) { byte[] r = Native.call(id, op, a); if (r == null) why = "a C++ exception"; return r; }
		void wipe() { if (Native.wipe(id) > 0) Sim.stat("probe.static_memory_wiped"); }
	}

	static final class JavaImpl extends Impl {
		Lib lib;
		JavaImpl() { wipe(); }
		void wipe() { lib = Shared.lib(); }
		static byte[] concat(boolean ok, int[] r, int[] s) { return ok ? Ref.cat(new byte[]{1}, be(r), be(s)) : new byte[]{0}; }
		static byte[] be(int[] w) { byte[] b = JApi.bytes(w); for (int i = 0; i < b.length / 2; i++) { byte t = b[i]; b[i] = b[b.length - 1 - i]; b[b.length - 1 - i] = t; } return b; }
		static int[] w(byte[] b) { return JApi.words(new BigInteger(1, b)); }
		static byte[] flag(boolean b) { return new byte[]{(byte)(b ? 1 : 0)}; }
		byte[] h(Object sha) throws Throwable { return (byte[])lib.call("hashBytes", sha); }
		byte[] dec(byte[] text) throws Throwable { try { return (byte[])lib.call("b58dec", new String(text, "ISO-8859-1")); } catch (IllegalArgumentException e) { return null; } }
		byte[] call(int op, byte[]... a) {
			try {
				switch (op) {
					case VERIFY: { int[] q = new int[24]; for (int i = 0; i < 3; i++) System.arraycopy(w(Arrays.copyOfRange(a[0], 32 * i, 32 * i + 32)), 0, q, 8 * i, 8); return flag((Boolean)lib.call("verify", q, lib.hash(a[1]), w(a[2]), w(a[3]))); }
					case SIGN: { int[] r = new int[8], s = new int[8]; return concat((Boolean)lib.call("sign", w(a[0]), lib.hash(a[1]), w(a[2]), r, s), r, s); }
					case SIGNHMAC: { int[] r = new int[8], s = new int[8]; return concat((Boolean)lib.call("signHmac", w(a[0]), lib.hash(a[1]), r, s), r, s); }
					case PUBKEY: {
						int[] v = new int[4096], g = (int[])lib.call("basePoint"); System.arraycopy(g, 0, v, 0, 24); System.arraycopy(w(a[0]), 0, v, 24, 8);
						lib.call("multiply", v, new int[]{0, 24, 32}); lib.call("normalize", v, new int[]{0, 32});
						return Ref.cat(be(Arrays.copyOfRange(v, 0, 8)), be(Arrays.copyOfRange(v, 8, 16)), be(Arrays.copyOfRange(v, 16, 24)));
					}
					case SHA256: case SPLIT256: return h(lib.call("sha256", (Object)a[0]));
					case SHA256D: return h(lib.call("sha256d", (Object)a[0]));
					case SHA512: case SPLIT512: return (byte[])lib.call("sha512", (Object)a[0]);
					case RIPEMD: return (byte[])lib.call("ripemd160", (Object)a[0]);
					case KECCAK: return h2(lib.call("keccak256", (Object)a[0]));
					case HMAC256: return h(lib.call("hmac256", a[0], a[1]));
					case HMAC512: return (byte[])lib.call("hmac512", a[0], a[1]);
					case ADDRENC: return ((String)lib.call("b58enc", (Object)Ref.cat(a[1], a[0]))).getBytes("ISO-8859-1");
					case ADDRDEC: { byte[] d = dec(a[0]); return d == null || d.length != 21 ? flag(false) : Ref.cat(flag(true), d); }
					case WIFENC: return ((String)lib.call("b58enc", (Object)Ref.cat(Arrays.copyOf(a[1], 1), a[0], a[1][1] != 0 ? new byte[]{1} : new byte[0]))).getBytes("ISO-8859-1");
					case WIFDEC: { byte[] d = dec(a[0]); return d == null || !(d.length == 33 || d.length == 34 && d[33] == 1) ? flag(false) : Ref.cat(flag(true), Arrays.copyOf(d, 1), flag(d.length == 34), Arrays.copyOfRange(d, 1, 33)); }
				}
				throw new IllegalStateException();
			} catch (Sim.Violation v) { throw v; } catch (Throwable t) { why = t.toString(); return null; }
		}
		byte[] h2(Object o) throws Throwable { return o instanceof byte[] ? (byte[])o : h(o); }
	}

	/**
	 * The library's Java classes, loaded once per simulator process if everything their static fields hold can be put back
	 * for every run; loaded anew for every run and every restart of a node otherwise.
	 */
	static final class Shared {
		static Lib lib; static boolean tried; static final List<Runnable> undo = new ArrayList<>();
		static Lib lib() {
			if (!tried) {
				tried = true; RunLoader ld = new RunLoader(0, true); lib = ld.lib();
				try {
					IdentityHashMap<Object, Boolean> seen = new IdentityHashMap<>();
					for (String n : names(new File(RunLoader.dir), "")) {
						Class<?> c = Class.forName(n, true, ld);
						for (Field f : c.getDeclaredFields()) if (Modifier.isStatic(f.getModifiers())) field(f, null, seen);
					}
				} catch (Throwable t) { lib = null; undo.clear(); }
			}
			if (lib == null) { Sim.stat("probe.classes_loaded_anew"); return RunLoader.fresh(0); }
			for (Runnable r : undo) r.run();
			return lib;
		}
		static List<String> names(File d, String pre) { List<String> r = new ArrayList<>(); File[] fs = d.listFiles(); Arrays.sort(fs); for (File f : fs) if (f.isDirectory()) r.addAll(names(f, pre + f.getName() + ".")); else if (f.getName().endsWith(".class")) r.add(pre + f.getName().substring(0, f.getName().length() - 6)); return r; }
		static void field(Field f, Object on, IdentityHashMap<Object, Boolean> seen) throws Exception {
			f.setAccessible(true); Object v = f.get(on);
			if (!Modifier.isFinal(f.getModifiers())) undo.add(() -> { try { f.set(on, v); } catch (IllegalAccessException e) { throw new Error(e); } });
			if (f.getType().isPrimitive()) return;
			if (v == null && !Modifier.isFinal(f.getModifiers()) && !f.getType().isArray() && !immutable(f.getType()) && !ours(f.getType())) throw new Exception("may come to hold something that cannot be put back");
			value(v, seen);
		}
		static boolean immutable(Class<?> c) { return c == String.class || c == BigInteger.class || Number.class.isAssignableFrom(c) && c.getName().startsWith("java.lang.") || c == Boolean.class || c == Character.class || c == Class.class; }
		static boolean ours(Class<?> c) { return c.getClassLoader() instanceof RunLoader; }
		static void value(Object v, IdentityHashMap<Object, Boolean> seen) throws Exception {
			if (v == null || immutable(v.getClass()) || seen.put(v, true) != null) return;
			Class<?> c = v.getClass();
			if (c.isArray()) {
				int n = Array.getLength(v); Object copy = Array.newInstance(c.getComponentType(), n); System.arraycopy(v, 0, copy, 0, n); undo.add(() -> System.arraycopy(copy, 0, v, 0, n));
				if (!c.getComponentType().isPrimitive()) for (int i = 0; i < n; i++) value(Array.get(v, i), seen);
				return;
			}
			if (!ours(c)) throw new Exception("cannot put back " + c);
			for (Class<?> k = c; k != Object.class; k = k.getSuperclass()) { if (!ours(k)) throw new Exception("cannot put back " + k); for (Field f : k.getDeclaredFields()) if (!Modifier.isStatic(f.getModifiers())) field(f, v, seen); }
		}
	}
}
