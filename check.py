#!/usr/bin/env python3
"""Runs the simulations that decide one property.

  check.py C04                 run the check (VERIF_TIER=quick|thorough, VERIF_SEED)
  check.py replay FILE         run a replay file again; exit 1 if it still violates
  check.py build               build everything
"""
import json, os, select, shutil, subprocess, sys, tempfile, time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, "tools"))
import build as B
from engines import ENGINES, PROPS, command

CORES = os.cpu_count() or 4
SEED = int(os.environ.get("VERIF_SEED", "1") or "1")
TIER = "thorough" if os.environ.get("VERIF_TIER") == "thorough" else "quick"


def log(*a):
    print(*a, flush=True)


DIED = "RESULT violation class=process-died hash=0 msg=the simulator process died or stalled"


def stall_limit(eng):
    """Seconds without any progress after which a simulator process is taken to be stuck."""
    return eng.get("stall", 60)


class Server:
    """One simulator process that executes plans on request; used while minimising."""

    def __init__(self, eng, tmp):
        self.eng, self.tmp, self.p, self.n = eng, tmp, None, 0

    def run(self, plan):
        if self.p is None or self.p.poll() is not None:
            self.p = subprocess.Popen(command(self.eng, "serve"), stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL)
        self.n += 1
        path = os.path.join(self.tmp, "try.plan")
        with open(path, "w") as f:
            f.write(plan)
        fd, buf, end = self.p.stdout.fileno(), b"", time.time() + stall_limit(self.eng)
        try:
            self.p.stdin.write((path + "\n").encode())
            self.p.stdin.flush()
            while time.time() < end:
                if not select.select([fd], [], [], 1)[0]:
                    continue
                got = os.read(fd, 65536)
                if not got:
                    break
                buf += got
                for line in buf.decode(errors="replace").split("\n")[:-1]:
                    if line.startswith("RESULT "):
                        return parse_result(line)
                buf = buf[buf.rfind(b"\n") + 1:]
        except BrokenPipeError:
            pass
        self.close()
        self.p = None
        return parse_result(DIED)

    def close(self):
        if self.p is not None:
            self.p.kill()
            self.p.wait()


def parse_result(line):
    r = {"ok": line.startswith("RESULT ok"), "class": "ok", "hash": "", "msg": ""}
    for k in ("class", "hash"):
        i = line.find(" " + k + "=")
        if i >= 0:
            r[k] = line[i + len(k) + 2:].split(" ", 1)[0].strip()
    i = line.find(" msg=")
    if i >= 0:
        r["msg"] = line[i + 5:].strip()
    return r


def run_fresh(eng, path):
    try:
        p = subprocess.run(command(eng, "exec", plan=path), stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True, errors="replace", timeout=stall_limit(eng))
    except subprocess.TimeoutExpired:
        return parse_result(DIED)
    for line in reversed(p.stdout.splitlines()):
        if line.startswith("RESULT "):
            return parse_result(line)
    return parse_result(DIED)


def split_plan(text):
    ls = [l for l in text.splitlines() if l and not l.startswith("#")]
    return [l for l in ls if l.startswith("!")], [l for l in ls if not l.startswith("!")]


def minimise(eng, text, cls, tmp, budget):
    head, steps = split_plan(text)
    srv = Server(eng, tmp)
    end = time.time() + budget
    still = lambda st: srv.run("\n".join(head + st) + "\n")["class"] == cls
    try:
        if not still(steps):
            return text, srv.n
        env = [l for l in head if not l.startswith("!env ")]
        if env != head and srv.run("\n".join(env + steps) + "\n")["class"] == cls:
            head[:] = env
        # Everything after the failing point is often unneeded: cut the tail first by bisection
        lo, hi = 0, len(steps)
        while lo < hi and time.time() < end:
            mid = (lo + hi) // 2
            if still(steps[:mid]):
                hi = mid
            else:
                lo = mid + 1
        if hi < len(steps) and still(steps[:hi]):
            steps = steps[:hi]
        n = 2
        while len(steps) >= 2 and time.time() < end:
            size, reduced, i = max(1, len(steps) // n), False, 0
            while i < len(steps) and time.time() < end:
                cand = steps[:i] + steps[i + size:]
                if still(cand):
                    steps, reduced = cand, True
                else:
                    i += size
            if not reduced:
                if size == 1:
                    break
                n = min(len(steps), n * 2)
            else:
                n = max(2, n - 1)
        # Drop single fields of the remaining steps that are only decorations of a fault
        for i in range(len(steps)):
            for word in steps[i].split(" ")[1:]:
                if time.time() > end or word.split("=")[0] not in eng.get("droppable", ()):
                    continue
                cand = steps[:i] + [steps[i].replace(" " + word, "", 1)] + steps[i + 1:]
                if still(cand):
                    steps = cand
        return "\n".join(head + steps) + "\n", srv.n
    finally:
        srv.close()


def known_findings():
    r = []
    try:
        with open(os.path.join(HERE, "known_findings.txt")) as f:
            for l in f:
                if l.startswith("known:"):
                    d = dict(w.split("=", 1) for w in l[6:].split(" :: ")[0].split() if "=" in w)
                    d["text"] = l.strip().split(" :: ", 1)[-1]
                    r.append(d)
    except OSError:
        pass
    return r


def run_engine(name, eng, tmp):
    """Runs one engine's workers; returns its results."""
    total = eng[TIER]["runs"]
    nw = min(CORES, eng.get("workers", CORES), max(1, total))
    res = {"hash": {}, "viol": [], "stats": {}, "dist": set(), "runs": 0, "secs": 0.0, "errors": [], "workers": nw}
    t0 = time.time()
    stopped = run_workers(name, eng, tmp, res, [(k, k) for k in range(nw)], nw, total, "", t0)
    if stopped:
        # A process that died or stalled in the middle of a run continues with that run in a new process: what the run did comes back, what the machine did (memory shortage, overload) does not
        again = run_workers(name, eng, tmp, res, [(k, at) for k, at, _, _ in stopped], nw, total, ".again", time.time())
        for k, at, inrun, why in again:
            if inrun:
                res["viol"].append((at, "process-died", "the simulator process died or stalled during this run"))
            else:
                res["errors"].append(why)
        res["stats"]["sim.workers_restarted"] = len(stopped)
        log("%s: %d of %d simulator processes stopped early and were restarted" % (name, len(stopped), nw))
    res["secs"] = time.time() - t0
    res["viol"].sort()
    return res


def run_workers(name, eng, tmp, res, starts, nw, total, suffix, t0):
    """Runs workers (number, first run) and adds up what they report; returns (number, next run, whether inside it, what) of those that stopped early."""
    deadline = eng[TIER]["deadline"]
    outs, procs = [], []
    for k, first in starts:
        out = os.path.join(tmp, "%s.%d%s" % (name, k, suffix))
        outs.append(out)
        procs.append(subprocess.Popen(command(eng, "worker", seed=SEED, tier=TIER, start=first, step=nw, end=total, deadline=deadline, maxviol=3, out=out), stdout=subprocess.DEVNULL, stderr=open(out + ".err", "w")))
    hard = deadline + eng.get("grace", 120)
    last = [(-1, time.time())] * len(procs)
    while any(p.poll() is None for p in procs):
        time.sleep(0.05 if time.time() - t0 < 20 else 0.5)
        for k, p in enumerate(procs):
            size = os.path.getsize(outs[k]) if os.path.exists(outs[k]) else 0
            if size != last[k][0]:
                last[k] = (size, time.time())
            if p.poll() is None and (time.time() - last[k][1] > stall_limit(eng) or time.time() - t0 > hard):
                p.kill()
                p.wait()
    stopped = []
    for k, p in enumerate(procs):
        rc = p.returncode
        begun, ended, nxt = None, False, starts[k][1]
        try:
            for line in open(outs[k], errors="replace"):
                w = line.rstrip("\n").split(" ", 3)
                if w[0] == "R" and len(w) >= 4:
                    res["hash"][int(w[1])] = (w[2], w[3])
                    begun, nxt = None, int(w[1]) + nw
                    res["runs"] += 1
                elif w[0] == "B":
                    begun = int(w[1])
                elif w[0] == "V" and len(w) >= 3:
                    res["viol"].append((int(w[1]), w[2], w[3] if len(w) > 3 else ""))
                elif w[0] == "S":
                    res["stats"][w[1]] = res["stats"].get(w[1], 0) + int(w[2])
                elif w[0] == "D":
                    res["dist"].add(w[1])
                elif w[0] == "E":
                    ended = True
        except OSError:
            pass
        if rc != 0 or not ended:
            stopped.append((starts[k][0], nxt if begun is None else begun, begun is not None, "worker %d of %s ended with %s: %s" % (starts[k][0], name, rc, open(outs[k] + ".err", errors="replace").read()[-600:])))
    return stopped


def gen_plan(eng, idx):
    return subprocess.run(command(eng, "gen", seed=SEED, tier=TIER, idx=idx), stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True).stdout


def recheck_determinism(name, eng, res, tmp):
    """Re-executes a sample of the runs in another process, in another order, and compares the log hashes."""
    idx = sorted(res["hash"])
    want = eng.get("recheck", 16)
    if not idx or not want:
        return 0, []
    pick = sorted(set(idx[(i * 2654435761 + SEED) % len(idx)] for i in range(want)), reverse=True)
    chunks = [pick[i::4] for i in range(4)]
    ps = []
    for c, ch in enumerate(chunks):
        if ch:
            out = os.path.join(tmp, "%s.re%d" % (name, c))
            ps.append((subprocess.Popen(command(eng, "worker", seed=SEED, tier=TIER, idx=",".join(map(str, ch)), maxviol=99, out=out), stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL), out))
    bad, n = [], 0
    for p, out in ps:
        p.wait()
        for line in open(out):
            w = line.rstrip("\n").split(" ", 3)
            if w[0] == "R":
                n += 1
                if res["hash"][int(w[1])] != (w[2], w[3]):
                    bad.append(int(w[1]))
    return n, bad


def check(prop):
    t0 = time.time()
    spec = PROPS[prop]
    names = spec["engines"]
    tmp = tempfile.mkdtemp(prefix="verif-%s-" % prop)
    status, violations, knowns, errors, per = 0, [], [], [], {}
    dist, evals, stats, samples = set(), 0, {}, []
    try:
        try:
            B.build(sorted(set(t for n in names for t in ENGINES[n]["targets"])))
        except B.BuildError as e:
            log("BUILD FAILED\n" + str(e))
            return 2
        tb = time.time() - t0
        log("built in %.1f s" % tb)
        for name in names:
            eng = ENGINES[name]
            res = run_engine(name, eng, tmp)
            errors += res["errors"]
            evals += res["runs"]
            dist |= {name + d for d in res["dist"]}
            for k, v in res["stats"].items():
                stats[k] = stats.get(k, 0) + v
            log("%s: %d runs, %d distinct, %d violations, %.1f s" % (name, res["runs"], len(res["dist"]), len(res["viol"]), res["secs"]))
            n, bad = (0, []) if res["viol"] else recheck_determinism(name, eng, res, tmp)
            for b in bad:
                errors.append("%s: run %d was not repeatable" % (name, b))
            per[name] = {"runs": res["runs"], "wall_s": round(res["secs"], 2), "runs_per_hour": int(res["runs"] / max(res["secs"], .001) * 3600), "distinct": len(res["dist"]),
                         "simulated_steps": res["stats"].get("sim.steps", 0), "runs_re_executed_and_identical": n - len(bad), "workers": res["workers"], "what": eng["what"], "real": eng["real"], "stub": eng["stub"]}
            idx = sorted(res["hash"])
            for i in (idx[len(idx) // 3:len(idx) // 3 + 1] if idx else []):
                samples.append({"engine": name, "run": i, "seed": SEED, "plan": gen_plan(eng, i).splitlines()[:12], "log_hash": res["hash"][i][0], "outcome": res["hash"][i][1]})
            seen = set()
            for idx_, cls, msg in res["viol"]:
                if cls in seen or len(seen) >= 2:
                    continue
                seen.add(cls)
                r = report(prop, name, eng, idx_, cls, msg, tmp)
                if r[0] == "violation":
                    violations.append(r[1])
                elif r[0] == "known":
                    knowns.append(r[1])
                else:
                    errors.append(r[1])
            if violations and TIER == "quick":
                break
        for k in known_findings():
            if k.get("property") == prop:
                log("KNOWN-FINDING: property=%s %s" % (prop, k["text"]))
        for v in violations:
            log("VIOLATION property=%s replay=%s" % (prop, v))
        for e in errors:
            log("ERROR " + e)
        status = 1 if violations else 2 if errors else 0
        wall = time.time() - t0
        run_secs = sum(p["wall_s"] for p in per.values())
        ev = {"property": prop, "tier": TIER, "seed": SEED, "level": "exploration", "wall_s": round(wall, 2), "violations": len(violations),
              "coverage": {"evaluations": evals, "distinct_nontrivial": len(dist), "rule": spec["rule"], "samples": samples,
                           "runs_per_hour": int(evals / max(run_secs, .001) * 3600), "seeds_per_hour": int(evals / max(run_secs, .001) * 3600), "simulated_steps": stats.get("sim.steps", 0),
                           "faults_injected": {k[6:]: v for k, v in sorted(stats.items()) if k.startswith("fault.") and v},
                           "operations": {k[3:]: v for k, v in sorted(stats.items()) if k.startswith("op.") and v},
                           "probes_and_outcomes": {k: v for k, v in sorted(stats.items()) if k.split(".")[0] not in ("fault", "op", "sim") and v},
                           "simulated_time": spec.get("time", "the simulated clock is the step counter (simulated_steps)"), "build_s": round(tb, 2), "engines": per},
              "assumptions": spec["assumptions"]}
        d = os.path.join(HERE, "evidence")
        os.makedirs(d, exist_ok=True)
        with open(os.path.join(d, prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        log("%s %s: %s; %d runs, %d distinct, %.1f s" % (prop, TIER, {0: "held", 1: "VIOLATED", 2: "ERROR"}[status], evals, len(dist), wall))
        return status
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def report(prop, name, eng, idx, cls, msg, tmp):
    """Minimises, confirms and records one violation."""
    text = gen_plan(eng, idx)
    log("%s: run %d: %s: %s" % (name, idx, cls, msg[:1500]))
    small, tries = minimise(eng, text, cls, tmp, 45 if TIER == "quick" else 240)
    path = os.path.join(tmp, "min.plan")
    r = None
    for cand in (small, text):
        with open(path, "w") as f:
            f.write(cand)
        a, b = run_fresh(eng, path), run_fresh(eng, path)
        if not a["ok"] and a["class"] == b["class"] and a["hash"] == b["hash"]:
            r = a
            break
    if r is None:
        return "error", "%s: the violation of run %d (%s) did not repeat" % (name, idx, cls)
    for k in known_findings():
        if k.get("property") == prop and k.get("class") == r["class"] and k.get("contains", "") in r["msg"].replace(" ", "_"):
            return "known", k["text"]
    d = os.path.join(HERE, "out", "replays")
    os.makedirs(d, exist_ok=True)
    dst = os.path.join(d, "%s-%s-%s-%d.plan" % (prop, name, r["class"], idx))
    with open(dst, "w") as f:
        f.write("# property %s, engine %s, seed %d, run %d\n# violation: %s: %s\n# log hash %s, confirmed in two fresh processes; minimised from %d to %d steps in %d tries\n# replay: python3 check.py replay <this file>\n!property %s\n!engine %s\n" % (
            prop, name, SEED, idx, r["class"], r["msg"][:3000], r["hash"], len(split_plan(text)[1]), len(split_plan(cand)[1]), tries, prop, name))
        f.write("".join(l + "\n" for l in cand.splitlines() if not l.startswith(("!property ", "!engine "))))
    log("minimised to %d steps: %s: %s" % (len(split_plan(cand)[1]), r["class"], r["msg"][:600]))
    return "violation", dst


def replay(path):
    name = [l for l in open(path) if l.startswith("!engine ")][0].split()[1]
    eng = ENGINES[name]
    B.build(eng["targets"])
    p = subprocess.run(command(eng, "exec", plan=os.path.abspath(path)), text=True)
    return p.returncode


if __name__ == "__main__":
    if len(sys.argv) < 2:
        print(__doc__)
        sys.exit(2)
    if sys.argv[1] == "build":
        try:
            B.build(sorted(set(t for e in ENGINES.values() for t in e["targets"])))
        except B.BuildError as e:
            print(e)
            sys.exit(1)
        sys.exit(0)
    if sys.argv[1] == "replay":
        sys.exit(replay(sys.argv[2]))
    if sys.argv[1] not in PROPS:
        print("unknown property")
        sys.exit(2)
    sys.exit(check(sys.argv[1]))
