"""Which simulators decide which property, and how much each explores."""
import os
import build as B


def cpp(target, prop, what, quick, thorough, real, stub, **kw):
    e = {"kind": "cpp", "targets": [target], "exe": target, "prop": prop, "what": what, "real": real, "stub": stub,
         "quick": {"runs": quick, "deadline": 120}, "thorough": {"runs": thorough, "deadline": 1500}}
    e.update(kw)
    return e


def command(eng, mode, **o):
    kv = ["%s=%s" % (k, v) for k, v in o.items()]
    if eng["kind"] == "cpp":
        return [os.path.join(B.OUT, eng["exe"]), eng["prop"], mode] + kv
    return eng["java"] + [eng["prop"], mode] + kv


PURE = ["all of /repo/cpp/*.cpp, portable implementation, clang -O1 with ASan and UBSan, assertions on"]
ASM = ["all of /repo/cpp/*.cpp with AsmX8664.s, clang -O1 with ASan and UBSan, assertions on"]

ENGINES = {}
PROPS = {}


def both(prop, what, quick, thorough, stub, **kw):
    ENGINES[prop + "-pure"] = cpp("sim-pure", prop, what, quick, thorough, PURE, stub, **kw)
    ENGINES[prop + "-asm"] = cpp("sim-asm", prop, what, quick // 2, thorough, ASM, stub, **kw)


both("C03", "hashers fed by an unreliable source", 6000, 400000, ["the byte source, its buffers and the crash/restart of the stream owner are simulated"])
ENGINES["C03-pure"]["droppable"] = ("after", "chain")
ENGINES["C03-long"] = cpp("sim-long", "C03", "streams beyond 2^29 and 2^32 bytes", 8, 64, ["/repo/cpp/Sha256.cpp, Sha512.cpp, clang -O2"], ["the source is a 1 MiB pattern mapped repeatedly"], recheck=0, grace=500, stall=400)
both("C04", "wallet importing strings from a lossy or hostile channel", 6000, 400000, ["the channel and the forging peer"])
both("C05", "wallet saving to and loading from a failing disk", 8000, 400000, ["the disk"])
both("C08", "wallet walking a key tree with persist, crash, restore and injected hash outputs", 8000, 400000, ["the disk; the derivation's HMAC output when a run injects one (link-time wrap)"])
both("C09", "signer with a faulty nonce source and a retry loop", 2000, 150000, ["the nonce source; the HMAC output when a run injects one (link-time wrap)"])
both("C19", "node that keeps an index and trades hashes and numbers as text over a lossy or hostile channel, across restarts", 8000, 400000, ["the channel, the peers and the stored texts"])
both("C14", "memory manager with write-protected inputs, guarded ends, scribbling and unmapping", 3600, 150000, ["the memory manager"])

PLAIN = ["all of /repo/cpp/*.cpp, clang -O1, assertions on"]
for _v, _t in (("pure", "portable implementation"), ("asm", "with AsmX8664.s")):
    ENGINES["C12-" + _v] = cpp("startup-" + _v, "C12", "program start-up with the static initialisers in a seeded order and client initialisers between them, " + _t, 60000 if _v == "pure" else 30000, 2000000, PLAIN, ["the loader: the simulator runs each translation unit's initialiser functions"])

    ENGINES["C18-" + _v] = cpp("grow-" + _v, "C18", "long-running process: thousands of calls, equal and ever new, on one thread and on threads that come and go", 600 if _v == "pure" else 300, 40000, [PLAIN[0].replace("all of /repo/cpp/*.cpp", "all of /repo/cpp/*.cpp" + ("" if _v == "pure" else " with AsmX8664.s"))], ["the allocator's entry points count what they give out"])

RTREAL = ["all of /repo/cpp/*.cpp%s, clang -O1 with the compiler's thread callbacks, assertions on, on real threads"]
for _v, _t in (("pure", ""), ("asm", " with AsmX8664.s (single-stepped in sampled calls)")):
    ENGINES["C01-" + _v] = cpp("threads-" + _v, "C01", "threads under a seeded scheduler that may switch at every access outside the thread's own stack, every synchronisation and every stepped assembly instruction", 30000 if _v == "pure" else 12000, 1000000, [RTREAL[0] % _t], ["the scheduler; mutexes, once-flags, static-initialisation guards and atomics (sequentially consistent values, happens-before from the requested order)"])

    ENGINES["C17-" + _v] = cpp("threads-" + _v, "C17", "calls interrupted at seeded points by handlers that call the library themselves, nested, and calls abandoned there", 20000 if _v == "pure" else 8000, 1000000, [RTREAL[0].replace("real threads", "one real thread") % _t], ["the interrupting handler (runs on the interrupted call's stack, in the assembly from a real signal handler)"])

for _v, _t in (("pure", ""), ("asm", " with AsmX8664.s (single-stepped in sampled calls)")):
    ENGINES["C11-" + _v] = cpp("ct-" + _v, "C11", "attacker who shares the machine: stops a victim at seeded points and compares code position, step count and touched addresses between secrets", 16000 if _v == "pure" else 4000, 400000, [RTREAL[0].replace("on real threads", "assertions off").replace("assertions on, ", "") % _t], ["the victim's secrets, the attacker's clock (executed branches, memory accesses, assembly instructions); memcmp of the C library (stops at the first difference)"])

JREAL = ["all of /repo/java/io/nayuki/bitcoin (javac -g), OpenJDK 17, one private copy of every class per run, assertions on"]


def java(prop, what, quick, thorough, stub, **kw):
    e = {"kind": "java", "targets": ["java"], "prop": prop, "what": what, "real": JREAL, "stub": stub,
         "java": B.JVM + ["-Dsim.native=" + B.OUT, "-Dsim.lib=" + os.path.join(B.OUT, "java", "lib"), "-cp", os.path.join(B.OUT, "java", "sim"), "jsim.Main"],
         "quick": {"runs": quick, "deadline": 120}, "thorough": {"runs": thorough, "deadline": 1500}}
    e.update(kw)
    ENGINES[prop + "-java"] = e


java("C02", "threads under a seeded scheduler, from the first use of each class on", 30000, 1500000, ["the scheduler, Java class initialisation and monitors are the simulator's; calls into the JDK are atomic steps; memory is sequentially consistent"], droppable=("slice", "hot"))
java("C06", "peer exchanging Base58Check texts over a lossy or hostile channel", 20000, 800000, ["the channel"])
java("C07", "peer exchanging Bech32 and SegWit texts over a lossy or hostile channel", 60000, 800000, ["the channel"])
java("C19", "node that keeps an index by hash and trades hashes and numbers as text over a lossy or hostile channel, across restarts", 16000, 600000, ["the channel, the peers and the stored texts"])
java("C09", "signer with a faulty nonce source and a retry loop", 1200, 100000, ["the nonce source; the HMAC output when a run injects one (woven call)"])
java("C13", "calls whose memory memory or stack space runs out", 30000, 1200000, ["the allocator's refusals: woven checks before every allocation and at every method entry in the library throw OutOfMemoryError or StackOverflowError at a planned point"])
java("C14", "caller that reuses and overwrites every array it passed or received", 15000, 400000, ["the caller"])
java("C18", "long-running process: thousands of calls, equal and ever new, on one thread and on threads that come and go", 300, 20000, ["the callers; what is retained is measured by forced garbage collections"])
ENGINES["C18-java"]["java"] = [a for a in ENGINES["C18-java"]["java"][:1]] + ["-XX:SoftRefLRUPolicyMSPerMB=0", "-Xmn64m"] + ENGINES["C18-java"]["java"][1:]
java("C15", "attacker who stops a victim at seeded points and compares what two secrets made it do", 4000, 160000, ["the victim's secrets, the attacker's clock (executed branches, array indices, call targets)"])

NETREAL = ["all of /repo/cpp/*.cpp: portable and with AsmX8664.s by clang -O2, portable by g++ -O3; all of /repo/java/io/nayuki/bitcoin on OpenJDK 17; assertions on"]
java("C10", "network of C++, C++ with assembly and Java nodes that gossip signed messages", 4000, 200000, ["the network, the clocks, the nodes' disks, the clients and the forging peer"], targets=["java", "nodes"], real=NETREAL)
java("C16", "network of C++, C++ with assembly and Java nodes that gossip messages with identifiers, tags and addresses", 30000, 400000, ["the network, the clocks, the nodes' disks, the clients and the forging peer"], targets=["java", "nodes"], real=NETREAL)
ENGINES["C16-long"] = dict(ENGINES["C16-java"], prop="C16L", what="nodes that hash messages of 2^28 to 2^32 bytes", workers=5, stall=300, recheck=0, grace=400, stub=["the message source is a 1 MiB pattern, repeated"],
                           java=[a for a in ENGINES["C16-java"]["java"] if a not in ("-Xmx2g", "-XX:TieredStopAtLevel=1")][:-1] + ["-Xmx3g", "-Xmn96m", "-Dsim.long=" + os.path.join(B.HERE, "java", "longvec16.txt"), "jsim.Main"], quick={"runs": 24, "deadline": 300}, thorough={"runs": 128, "deadline": 3000})

REF = "the reference model in cpp/ref.hpp (checked against Python's hashlib and tools/pyref.py) is right"
PROPS["C01"] = dict(engines=["C01-pure", "C01-asm"], rule="One run = 2 to 4 threads making calls, some with equal and shared inputs, under a seeded schedule. Judged: no two unordered accesses to the same bytes with a write, every result as when run alone in a pristine process, inputs unchanged, no deadlock. Distinct = different (calls, switch sites).", assumptions=[REF, "synchronisation through means other than mutexes, read-write locks, spin locks, condition variables, semaphores, futexes, once-flags, guards, atomics and fences is not understood"])
PROPS["C03"] = dict(engines=["C03-pure", "C03-asm", "C03-long"], rule="One run = a plan of opens, appends of boundary-biased lengths, checkpoints, crashes, buffer scribbles/unmaps over up to 8 interleaved streams. Distinct = different sequence of operations, slots and block offsets.", assumptions=[REF])
PROPS["C04"] = dict(engines=["C04-pure", "C04-asm"], rule="One case = one delivered string: honest, forged at payload or number level, then damaged by up to three channel faults, imported into long-lived outputs. Distinct = different (API, fault chain, verdict, length).", assumptions=[REF])
PROPS["C05"] = dict(engines=["C05-pure", "C05-asm"], rule="One run = a history of saves, faulty writes, bit rot, swaps, crashes and loads over four disk slots. Distinct = different history shapes (operation, fault, kind, slot sequence).", assumptions=[REF])
PROPS["C08"] = dict(engines=["C08-pure", "C08-asm"], rule="One run = a history of derivations (some with an injected HMAC output), exports, crashes, re-imports. Distinct = different history shapes.", assumptions=[REF])
PROPS["C09"] = dict(engines=["C09-pure", "C09-asm", "C09-java"], rule="One run = a sequence of signing attempts with a faulty nonce source and operands solved to hit boundaries, then recovery. Distinct = different sequences of attempt kinds.", assumptions=[REF])
PROPS["C14"] = dict(engines=["C14-pure", "C14-asm", "C14-java"], rule="One run = a history of arbitrary API calls whose buffers are guarded, write-protected, reused, scribbled or unmapped. Distinct = different sequences of (operation, memory fault).", assumptions=[REF])

PROPS["C17"] = dict(engines=["C17-pure", "C17-asm"], rule="One run = a sequence of calls on one thread; at seeded points (accesses outside the stack, synchronisation, single assembly instructions) handlers run that make calls, themselves interrupted in turn, or the call is abandoned by a jump. Judged: every interrupted, interrupting and later call gives its solo result, none waits for the interrupted one, inputs unchanged. Distinct = different (interrupted place, handler operation) sequences.", assumptions=[REF, "interruptions between accesses to the call's own stack are equivalent to one at the next access outside it", "every operation has been used once before (lazy initialisation is over)"])
PROPS["C18"] = dict(engines=["C18-pure", "C18-asm", "C18-java"], rule="One run = one to three long histories of one kind of call: hundreds to tens of thousands of calls with equal or ever new arguments (accepted and refused), on one thread or each on a thread that exits. Judged: memory still allocated (or reachable) afterwards within 64 KiB, no leak per equal call, no descriptors or threads left, sampled results right. Distinct = different sequences of (operation, equal or new, threads).", assumptions=[REF, "Java: up to 64 KiB more is attributed to the JVM"])
JREF = "the reference model in java/jsim/Ref.java (checked against Python's hashlib and tools/pyref.py) is right"
PROPS["C02"] = dict(engines=["C02-java"], rule="One run = 2 to 4 threads making 2 to 16 calls under a seeded schedule of slices counted in bytecode-level events; every run starts with uninitialised classes. Distinct = different (calls, order of the library's class initialisations, monitor hand-overs and switch sites).", assumptions=[JREF, "sequentially consistent memory: reorderings only the Java memory model allows are not simulated; a data race shows through the interleavings it permits"])
PROPS["C06"] = dict(engines=["C06-java"], rule="One case = one text: encoded and decoded, or damaged by up to three channel faults and delivered. Distinct = different (fault chain, verdict, length).", assumptions=[JREF])
PROPS["C19"] = dict(engines=["C19-pure", "C19-asm", "C19-java"], rule="One run = 20 to 80 events at one node: hashes and numbers made from bytes or from delivered texts (honest or damaged), index look-ups, conditional moves, sorting, restarts from stored texts. Distinct = different (event kinds, fault chain, verdict) sequences.", assumptions=[REF, JREF])
PROPS["C07"] = dict(engines=["C07-java"], rule="One case = one text: encoded and decoded, or damaged by up to three channel faults and delivered. Distinct = different (fault chain, format, verdict, length).", assumptions=[JREF])
PROPS["C10"] = dict(engines=["C10-java"], rule="One run = 4 to 7 nodes, honest clients and a forging peer under a plan of losses, duplicates, delays, damage, splices, replays, partitions, stalls, skewed clocks, crashes with lost or torn writes and bit rot. Every verdict is compared with the reference; at the end all stores must be equal and hold every honest record. Distinct = different histories of verdicts, faults and crashes.", time="virtual milliseconds: sim.virtual_ms under probes_and_outcomes", assumptions=[JREF])
PROPS["C16"] = dict(engines=["C16-java", "C16-long"], rule=PROPS["C10"]["rule"].replace("Every verdict is", "Every computed value and verdict is"), time="virtual milliseconds", assumptions=[JREF])
PROPS["C13"] = dict(engines=["C13-java"], rule="One run = a history of calls, some with one allocation or nested call inside them failing, on one or several threads. Distinct = different sequences of (operation, refused allocation).", assumptions=[JREF, "allocations inside the JDK itself succeed"])
PROPS["C15"] = dict(engines=["C15-java"], rule="One run = one operation with one set of public inputs, executed for several secrets; the attacker's observations are compared at seeded stops and at the end. Distinct = different (operation, observation).", assumptions=["what the JVM and the processor do with constant-time bytecode is outside the simulation"])
PROPS["C11"] = dict(engines=["C11-pure", "C11-asm"], rule="One run = one operation with one set of public inputs (alignment, comparison chosen), executed for 2 to 12 secrets in processes forked from one parent, with the same addresses. Everything the attacker could see at any stop is compared. Distinct = different (operation, stops, watched assembly calls).", assumptions=["the compiled code is clang's at -O1; what another compiler or the processor does with constant-time source is outside the simulation", "instruction timing does not depend on operand values"])
PROPS["C12"] = dict(engines=["C12-pure", "C12-asm"], rule="One run = one start-up: a permutation of the library's translation units with client initialisers between them, then calls. Distinct = different sequences of initialised units and client initialisers.", assumptions=[REF, "clang's order within one translation unit (fixed by the standard)"])
