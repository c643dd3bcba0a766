package jsim;

/** What the simulators call. Implemented by simlib.Adapter, which is loaded together with the library, once per run. */
public interface Lib {
	Object hash(byte[] b);
	Object hashHex(String s);
	/** Calls one library function. Array arguments are passed through as they are. */
	Object call(String op, Object... a) throws Throwable;
}
