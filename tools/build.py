"""Builds the simulators from /repo's current working tree into /verif/build. Content-hashed, so unchanged parts are reused."""
import concurrent.futures, glob, hashlib, os, subprocess, sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
OUT = os.environ.get("VERIF_BUILD", os.path.join(HERE, "build"))
CPP, SIM = os.path.join(REPO, "cpp"), os.path.join(HERE, "cpp")
CXX = "clang++"


class BuildError(Exception):
    pass


def sh(cmd, **kw):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **kw)
    if p.returncode != 0:
        raise BuildError("command failed: %s\n%s" % (" ".join(cmd), p.stdout[-6000:]))
    return p.stdout


def digest(files, extra=""):
    h = hashlib.sha256(extra.encode())
    for f in sorted(files):
        h.update(f.encode() + b"\0")
        with open(f, "rb") as fh:
            h.update(hashlib.sha256(fh.read()).digest())
    return h.hexdigest()


def fresh(target, key):
    try:
        with open(target + ".key") as f:
            return os.path.exists(target) and f.read() == key
    except OSError:
        return False


def stamp(target, key):
    with open(target + ".key", "w") as f:
        f.write(key)


def lib_sources():
    r = [f for f in glob.glob(os.path.join(CPP, "*.cpp")) if not f.endswith("Test.cpp") and os.path.basename(f) not in ("EcdsaOpCount.cpp",)]
    return sorted(r)


def headers():
    return glob.glob(os.path.join(CPP, "*.hpp")) + glob.glob(os.path.join(CPP, "*.h")) + glob.glob(os.path.join(CPP, "*.inc"))


def sim_headers():
    return glob.glob(os.path.join(SIM, "*.hpp")) + glob.glob(os.path.join(SIM, "*.inc"))


SAN = ["-fsanitize=address,undefined", "-fno-sanitize-recover=all", "-gline-tables-only"]
# Uninitialised automatic variables get a fixed pattern: reading one gives the same wrong value in every run.
DET = ["-ftrivial-auto-var-init=pattern"]
ASM = ["-DUSE_X8664_ASM_IMPL"]
VARIANTS = {
    "pure-asan": ["-std=c++11", "-O1"] + SAN + DET,
    "asm-asan": ["-std=c++11", "-O1"] + SAN + DET + ASM,
    "pure-o2": ["-std=c++11", "-O2"] + DET,
    "pure-pic": ["-std=c++11", "-O2", "-fPIC"] + DET,
    "asm-pic": ["-std=c++11", "-O2", "-fPIC"] + DET + ASM,
    "gcc-pic": ["-std=c++11", "-O3", "-fPIC", "-fno-gnu-unique", "-ftrivial-auto-var-init=pattern"],
    "pure-tsan": ["-std=c++11", "-O1", "-g0", "-fsanitize=thread"] + DET,
    "asm-tsan": ["-std=c++11", "-O1", "-g0", "-fsanitize=thread"] + DET + ASM,
    "pure-ct": ["-std=c++11", "-O1", "-g0", "-DNDEBUG", "-fno-builtin-memcmp", "-fno-builtin-bcmp", "-fsanitize=thread", "-fsanitize-coverage=trace-pc-guard"],
    "asm-ct": ["-std=c++11", "-O1", "-g0", "-DNDEBUG", "-fno-builtin-memcmp", "-fno-builtin-bcmp", "-fsanitize=thread", "-fsanitize-coverage=trace-pc-guard"] + ASM,
    "pure-plain": ["-std=c++11", "-O1"] + DET,
    "asm-plain": ["-std=c++11", "-O1"] + DET + ASM,
}
WRAP = ["-Wl,--wrap=_ZN6Sha5127getHmacEPKhmS1_mPh", "-Wl,--wrap=_ZN6Sha2567getHmacEPKhmS1_m"]

pool = concurrent.futures.ThreadPoolExecutor(max_workers=max(2, os.cpu_count() or 2))
spool = concurrent.futures.ThreadPoolExecutor(max_workers=32)  # for tasks that wait for tasks in pool


def compile_obj(src, obj, flags, deps):
    cxx = "g++" if "-fno-gnu-unique" in flags else CXX
    key = digest([src] + deps, cxx + " ".join(flags))
    if fresh(obj, key):
        return
    sh([cxx] + flags + ["-c", src, "-o", obj])
    stamp(obj, key)


def lib(variant):
    """Compiles the library in one variant; returns a list of (future, object)."""
    flags, d = VARIANTS[variant], os.path.join(OUT, variant)
    os.makedirs(d, exist_ok=True)
    hs, r = headers(), []
    for s in lib_sources():
        o = os.path.join(d, os.path.basename(s)[:-4] + ".o")
        r.append((pool.submit(compile_obj, s, o, flags + ["-I" + CPP], hs), o))
    if variant.startswith("asm"):
        for s in sorted(glob.glob(os.path.join(CPP, "*.s"))):
            o = os.path.join(d, os.path.basename(s)[:-2] + "_s.o")
            r.append((pool.submit(compile_obj, s, o, ["-fPIC"], []), o))
    return r


def harness(src, flags, tag):
    os.makedirs(os.path.join(OUT, "harness"), exist_ok=True)
    o = os.path.join(OUT, "harness", tag + ".o")
    return pool.submit(compile_obj, os.path.join(SIM, src), o, flags + ["-I" + CPP, "-I" + SIM], headers() + sim_headers()), o


# target -> (harness source, harness flags, [library variants], link flags)
TARGETS = {
    "sim-pure": ("sim_main.cpp", ["-std=c++17", "-O2"], "pure-asan", SAN + WRAP),
    "sim-asm": ("sim_main.cpp", ["-std=c++17", "-O2"], "asm-asan", SAN + WRAP),
    "sim-long": ("long_main.cpp", ["-std=c++17", "-O2"], "pure-o2", []),
}
GROW = ["-pthread"] + ["-Wl,--wrap=" + x for x in "malloc calloc realloc free posix_memalign aligned_alloc strdup mmap munmap".split()]
TARGETS["grow-pure"] = ("grow_main.cpp", ["-std=c++17", "-O2"], "pure-plain", GROW)
TARGETS["grow-asm"] = ("grow_main.cpp", ["-std=c++17", "-O2"], "asm-plain", GROW)
SPECIAL = {}

JASM = ["--add-exports", "java.base/jdk.internal.org.objectweb.asm=ALL-UNNAMED"]
JVM = ["java", "-Xshare:auto", "-XX:TieredStopAtLevel=1", "-XX:+UseSerialGC", "-XX:+UnlockDiagnosticVMOptions", "-XX:-BytecodeVerificationRemote", "-XX:-UsePerfData", "-XX:ErrorFile=/dev/null", "-XX:-CreateCoredumpOnCrash", "-Xmx2g", "-Xss4m", "--add-opens", "java.base/java.nio.charset=ALL-UNNAMED"] + JASM


def build_java():
    """The library's classes (with the adapter that calls them) and, apart from them, the simulator."""
    d = os.path.join(OUT, "java")
    os.makedirs(d, exist_ok=True)
    jroot = os.path.join(REPO, "java")
    libs = sorted(f for f in glob.glob(os.path.join(jroot, "**", "*.java"), recursive=True) if not f.endswith("Test.java") and not f.endswith("module-info.java"))
    sims = sorted(glob.glob(os.path.join(HERE, "java", "jsim", "*.java")))
    adapter = os.path.join(HERE, "java", "simlib", "Adapter.java")
    key = digest(libs + sims + [adapter], " ".join(JASM) + "2")
    mark = os.path.join(d, "built")
    if fresh(mark, key):
        return
    for sub in ("lib", "sim"):
        subprocess.run(["rm", "-rf", os.path.join(d, sub)])
        os.makedirs(os.path.join(d, sub))
    sh(["javac", "-nowarn", "-g"] + JASM + ["-d", os.path.join(d, "sim")] + sims)
    sh(["javac", "-nowarn", "-g", "-cp", os.path.join(d, "sim"), "-d", os.path.join(d, "lib")] + libs + [adapter])
    open(mark, "w").close()
    stamp(mark, key)


SPECIAL["java"] = build_java


def build_startup(variant, exe):
    """Every library object's initialisers go into a section of their own, which the simulator runs in the order it wants."""
    def go():
        d = os.path.join(OUT, exe + ".d")
        os.makedirs(d, exist_ok=True)
        objs, names = [], []
        for f, o in lib(variant):
            f.result()
            n = "".join(c if c.isalnum() else "_" for c in os.path.basename(o)[:-2])
            t = os.path.join(d, n + ".o")
            key = digest([o], "startup1")
            if not fresh(t, key):
                secs = sorted({w for w in sh(["objdump", "-h", o]).split() if w.startswith(".init_array") or w.startswith(".ctors")})
                cmd = ["objcopy"]
                for x in secs:
                    cmd += ["--rename-section", "%s=simini_%s,alloc,load,data,contents" % (x, n)]
                sh(cmd + [o, t])
                stamp(t, key)
            objs.append(t)
            names.append(n)
        inc = os.path.join(d, "initmap.inc")
        text = "struct InitUnit { const char *name; void (**b)(), (**e)(); };\nextern \"C\" {\n"
        for n in names:
            text += "extern void (*__start_simini_%s[])() __attribute__((weak, visibility(\"hidden\"))); extern void (*__stop_simini_%s[])() __attribute__((weak, visibility(\"hidden\")));\n" % (n, n)
        text += "}\nstatic InitUnit initUnits[] = {\n" + "".join("\t{\"%s\", __start_simini_%s, __stop_simini_%s},\n" % (n, n, n) for n in names) + "};\n"
        if not os.path.exists(inc) or open(inc).read() != text:
            open(inc, "w").write(text)
        o = os.path.join(d, "main.o")
        compile_obj(os.path.join(SIM, "startup_main.cpp"), o, ["-std=c++17", "-O2", "-I" + CPP, "-I" + SIM, "-I" + d], headers() + sim_headers() + [inc])
        link(exe, [o] + objs, [])
    return go


RTWRAP = ["-Wl,--wrap=" + x for x in "pthread_mutex_lock pthread_mutex_trylock pthread_mutex_unlock pthread_rwlock_wrlock pthread_rwlock_rdlock pthread_rwlock_unlock pthread_spin_lock pthread_spin_unlock pthread_spin_trylock pthread_rwlock_trywrlock pthread_rwlock_tryrdlock sem_wait sem_trywait sem_post pthread_cond_wait pthread_cond_timedwait pthread_cond_clockwait pthread_cond_signal pthread_cond_broadcast _ZNSt18condition_variable4waitERSt11unique_lockISt5mutexE _ZNSt18condition_variable10notify_oneEv _ZNSt18condition_variable10notify_allEv syscall pthread_once sched_yield nanosleep usleep malloc calloc realloc strlen memcmp bcmp strchr memchr strcmp strncmp".split()]
RW_MNEM = ("add", "sub", "adc", "sbb", "and", "or", "xor", "inc", "dec", "neg", "not", "shl", "shr", "sal", "sar", "rol", "ror", "rcl", "rcr", "xadd", "xchg", "btc", "btr", "bts", "shld", "shrd")
NO_WRITE = ("cmp", "test", "bt", "comis", "ucomis", "vcomis", "vucomis", "ptest", "vptest", "nop", "prefetch", "cmpxchg")
GREG = {n: i for i, n in enumerate("r8 r9 r10 r11 r12 r13 r14 r15 rdi rsi rbp rbx rdx rax rcx rsp".split())}  # numbering of ucontext's gregs


def reg_size(r):
    if r.startswith("xmm"):
        return 16
    if r.startswith("ymm"):
        return 32
    if r in GREG:
        return 8
    if r.endswith("d") and r[1:-1].isdigit() or r.startswith("e"):
        return 4
    if r.endswith("w") and r[1:-1].isdigit() or r in ("ax", "bx", "cx", "dx", "si", "di", "bp", "sp"):
        return 2
    return 1


def asm_table(exe, obj):
    """Writes <exe>.asmtab: where the assembly code lies in the linked program, and the memory operands of its instructions."""
    import re
    size = int([l.split()[2] for l in sh(["objdump", "-h", obj]).splitlines() if " .text " in l][0], 16)
    local = {}
    for l in sh(["nm", obj]).splitlines():
        w = l.split()
        if len(w) == 3 and w[1] in "Tt":
            local[w[2]] = int(w[0], 16)
    if not local:
        open(exe + ".asmtab", "w").close()
        return
    glob_ = {}
    for l in sh(["nm", exe]).splitlines():
        w = l.split()
        if len(w) == 3 and w[1] == "T" and w[2] in local:
            glob_[w[2]] = int(w[0], 16) - local[w[2]]
    start = sorted(glob_.values())[0]
    out = ["R %x %x" % (start, start + size)]
    for l in sh(["objdump", "-d", "--no-show-raw-insn", "--start-address=%d" % start, "--stop-address=%d" % (start + size), exe]).splitlines():
        m = re.match(r"\s*([0-9a-f]+):\s+(?:(?:lock|rep|repz|repnz|data16|cs|ds|bnd|notrack)\s+)*(\S+)\s*(.*)", l)
        if not m:
            continue
        at, mn, ops = int(m.group(1), 16), m.group(2), m.group(3).split("#")[0].split("<")[0].strip()
        if mn.startswith("lea") or mn.startswith("nop") or mn.startswith("prefetch"):
            continue
        parts = re.findall(r"(?:[^,(]|\([^)]*\))+", ops)
        regs = [reg_size(x.strip()[1:]) for x in parts if x.strip().startswith("%")]
        for i, x in enumerate(parts):
            mm = re.match(r"\s*\*?(?:%[c-g]s:)?(-?0x[0-9a-f]+)?\((%\w+)?(?:,(%\w+)?,?(\d)?)?\)\s*$", x)
            if not mm:
                continue
            disp = int(mm.group(1), 16) if mm.group(1) else 0
            b, ix, sc = mm.group(2), mm.group(3), int(mm.group(4) or 1)
            base = 0
            br = ir = -1
            if b == "%rip":
                t = re.search(r"#\s*([0-9a-f]+)", l)
                base, disp = (int(t.group(1), 16), 0) if t else (0, 0)
            elif b:
                br = GREG.get(b[1:], -1)
            if ix and ix not in ("%riz", "%eiz"):
                ir = GREG.get(ix[1:], -1)
            n = min(regs) if regs and not mn.startswith(("movz", "movs", "pinsr", "pextr")) else {"b": 1, "w": 2, "l": 4, "q": 8}.get(mn[-1], 8)
            if not regs:
                n = {"b": 1, "w": 2, "l": 4, "q": 8}.get(mn[-1], 8)
            stem = mn.rstrip("bwlq") if mn not in ("sub", "shl", "sal", "rol", "mul") else mn
            last = i == len(parts) - 1
            if mn.startswith(("mul", "imul", "div", "idiv", "push", "call", "jmp")) or any(mn.startswith(k) for k in NO_WRITE):
                rw = 1
            elif last and (stem in RW_MNEM or mn in RW_MNEM or mn[:-1] in RW_MNEM):
                rw = 3
            elif last and (len(parts) > 1 and mn.startswith(("mov", "vmov", "pextr", "st")) or mn.startswith(("set", "pop"))):
                rw = 2
            else:
                rw = 1
            out.append("M %x %x %d %d %d %d %d %d" % (at, base, br, ir, sc, disp, n, rw))
    open(exe + ".asmtab", "w").write("\n".join(out) + "\n")


def build_rt(variant, exe, main, extra=()):
    """Links library objects that carry the compiler's thread callbacks with our own runtime."""
    def go():
        d = os.path.join(OUT, exe + ".d")
        os.makedirs(d, exist_ok=True)
        objs = []
        for f, o in lib(variant):
            f.result()
            objs.append(o)
        wraps, th, aobj = [], "", None
        for o in objs:
            if o.endswith("_s.o"):
                aobj = o
                for l in sh(["nm", o]).splitlines():
                    w = l.split()
                    if len(w) == 3 and w[1] == "T":
                        wraps.append("-Wl,--wrap=" + w[2])
                        th += ".globl __wrap_%s\n__wrap_%s:\n\tpush %%rdi; push %%rsi; push %%rdx; push %%rcx; push %%r8; push %%r9; push %%rax\n\tlea __real_%s(%%rip), %%rdi\n\tcall rt_asm_enter\n\tpop %%rax; pop %%r9; pop %%r8; pop %%rcx; pop %%rdx; pop %%rsi; pop %%rdi\n\tjmp __real_%s\n" % (w[2], w[2], w[2], w[2])
        hs = []
        hf = ["-std=c++17", "-O2", "-fno-builtin-memcmp", "-I" + CPP, "-I" + SIM]
        for src in (main, "rt.cpp"):
            fut, o = harness(src, hf[:-2], "rt-" + src[:-4])
            fut.result()
            hs.append(o)
        if th:
            ts = os.path.join(d, "thunks.s")
            th += ".section .note.GNU-stack,\"\",@progbits\n"
            if not os.path.exists(ts) or open(ts).read() != th:
                open(ts, "w").write(th)
            to = os.path.join(d, "thunks.o")
            compile_obj(ts, to, [], [])
            hs.append(to)
        lf = ["-no-pie", "-rdynamic", "-pthread", "-ldl"] + RTWRAP + wraps
        link(exe, objs + hs, lf)
        tab, key = os.path.join(OUT, exe) + ".asmtab", digest([os.path.join(OUT, exe), os.path.abspath(__file__)])
        if not fresh(tab, key):
            if aobj:
                asm_table(os.path.join(OUT, exe), aobj)
            else:
                open(tab, "w").close()
            stamp(tab, key)
    return go


SPECIAL["threads-pure"] = build_rt("pure-tsan", "threads-pure", "threads_main.cpp")
SPECIAL["threads-asm"] = build_rt("asm-tsan", "threads-asm", "threads_main.cpp")
SPECIAL["ct-pure"] = build_rt("pure-ct", "ct-pure", "ct_main.cpp")
SPECIAL["ct-asm"] = build_rt("asm-ct", "ct-asm", "ct_main.cpp")
def build_nodes():
    """The native network nodes, one shared object per implementation, and the host that the Java simulator loads them with."""
    jh = os.path.join(os.path.dirname(os.path.dirname(os.path.realpath("/usr/bin/javac"))), "include")
    lf = ["-shared", "-Wl,-Bsymbolic", "-Wl,-z,now"]
    fs = [(v, lib(v), harness("node.cpp", ["-std=c++17", "-O2", "-fPIC"], "node")) for v in ("pure-pic", "asm-pic", "gcc-pic")]
    for v, l, (f, o) in fs:
        f.result()
        objs = [o]
        for g, x in l:
            g.result()
            objs.append(x)
        link("libnode-%s.so" % v[:-4], objs, lf)
    f, o = harness("nethost.cpp", ["-std=c++17", "-O2", "-fPIC", "-I" + jh, "-I" + os.path.join(jh, "linux")], "nethost")
    f.result()
    link("libnethost.so", [o], ["-shared", "-ldl"])


SPECIAL["nodes"] = build_nodes
SPECIAL["startup-pure"] = build_startup("pure-plain", "startup-pure")
SPECIAL["startup-asm"] = build_startup("asm-plain", "startup-asm")


def build(targets):
    """Builds the named targets; raises BuildError. Returns nothing: each target is an executable OUT/<name>."""
    os.makedirs(OUT, exist_ok=True)
    libs, plans = {}, []
    try:
        for t in targets:
            if t in SPECIAL:
                continue
            src, hf, variant, lf = TARGETS[t]
            if variant not in libs:
                libs[variant] = lib(variant)
            plans.append((t, harness(src, hf, src[:-4]), variant, lf))
        done = []
        for t in targets:
            if t in SPECIAL:
                done.append(spool.submit(SPECIAL[t]))
        links = []
        for t, (fut, ho), variant, lf in plans:
            fut.result()
            objs = []
            for f, o in libs[variant]:
                f.result()
                objs.append(o)
            links.append(pool.submit(link, t, [ho] + objs, lf))
        for f in links + done:
            f.result()
    finally:
        pass


def link(t, objs, lf):
    exe = os.path.join(OUT, t)
    key = digest(objs, " ".join(lf))
    if not fresh(exe, key):
        sh([CXX] + objs + ["-o", exe] + lf)
        stamp(exe, key)


if __name__ == "__main__":
    build(sys.argv[1:] or list(TARGETS) + list(SPECIAL))
