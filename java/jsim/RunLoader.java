package jsim;

import java.io.*;
import java.nio.file.*;
import java.util.*;

/** Loads one private copy of the library, so that no state survives from one run (or node) to the next. */
public final class RunLoader extends ClassLoader {
	static final Map<String, byte[]> raw = new HashMap<>(), woven = new HashMap<>();
	static final Map<Integer, List<String>> sites = new HashMap<>();
	final int mode;
	public static String dir = System.getProperty("sim.lib");
	public RunLoader(int mode, boolean assertions) { super(RunLoader.class.getClassLoader()); this.mode = mode; setDefaultAssertionStatus(assertions); }
	static byte[] read(String name) {
		return raw.computeIfAbsent(name, n -> { try { return Files.readAllBytes(Paths.get(dir, n.replace('.', '/') + ".class")); } catch (IOException e) { return new byte[0]; } });
	}
	static boolean has(String c) { synchronized (raw) { return read(c.replace('/', '.')).length > 0; } }
	static List<String> sites(int mode) { return sites.computeIfAbsent(mode, m -> new ArrayList<>()); }
	protected Class<?> loadClass(String name, boolean resolve) throws ClassNotFoundException {
		synchronized (getClassLoadingLock(name)) {
			Class<?> c = findLoadedClass(name);
			if (c == null && (name.startsWith("io.nayuki.") || name.startsWith("simlib."))) {
				byte[] b;
				synchronized (raw) {
					byte[] r = read(name); if (r.length == 0) throw new ClassNotFoundException(name);
					b = mode == 0 ? r : woven.computeIfAbsent(mode + ":" + name, k -> Weave.apply(r, mode, name.startsWith("io.nayuki."), sites(mode)));
				}
				c = defineClass(name, b, 0, b.length);
			}
			if (c == null) return super.loadClass(name, resolve);
			if (resolve) resolveClass(c);
			return c;
		}
	}
	public Lib lib() { try { return (Lib)loadClass("simlib.Adapter").getDeclaredConstructor().newInstance(); } catch (ReflectiveOperationException e) { throw new Error(e); } }
	public static Lib fresh(int mode) { return new RunLoader(mode, true).lib(); }
}
