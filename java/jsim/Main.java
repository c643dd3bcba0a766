package jsim;

import java.util.*;

public final class Main {
	public static void main(String[] a) throws Exception {
		Map<String, Sim.Prop> m = new HashMap<>();
		m.put("C02", Worlds.C02); m.put("C06", Codec.C06); m.put("C07", Codec.C07); m.put("C19", Index.C19); m.put("C09", Worlds.C09); m.put("C10", Net.C10); m.put("C16", Net.C16); m.put("C16L", Net.C16L); m.put("C13", Worlds.C13); m.put("C14", Worlds.C14); m.put("C15", Worlds.C15); m.put("C18", Worlds.C18);
		Sim.main(a, m);
	}
}
