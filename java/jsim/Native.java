package jsim;

/** The native implementations of the library, in shared objects that cpp/nethost.cpp opens. */
final class Native {
	static native int open(String path);
	static native int wipe(int id);
	static native byte[] call(int id, int op, byte[][] args);
	static native byte[] longCall(int id, int op, long len, int keyLen);
	static int id(String name) { return ids.computeIfAbsent(name, n -> { int k = open(dir + "/libnode-" + n + ".so"); if (k < 0) throw new Error("cannot open node " + n); return k; }); }
	private static final java.util.Map<String, Integer> ids = new java.util.HashMap<>();
	static final String dir = System.getProperty("sim.native");
	static { System.load(dir + "/libnethost.so"); }
}
