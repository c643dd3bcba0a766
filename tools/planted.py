#!/usr/bin/env python3
"""planted.py ID... [--notest] [--all-checks]: confirms planted bugs in /repo's tree and runs their property's check; always undoes the patch."""
import json, os, subprocess, sys, time
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
def sh(c, **k): return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **k)
ids = [a for a in sys.argv[1:] if not a.startswith("--")] or sorted(os.listdir(HERE + "/seeded"))
stable = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
for i in ids:
    d = HERE + "/seeded/" + i
    meta = json.load(open(d + "/meta.json"))
    assert sh("git -C /repo status --porcelain").stdout.strip() == "", "dirty /repo"
    try:
        r = [i]
        if "--notest" not in sys.argv:
            sh("bash /opt/vp/build.sh"); x = sh("timeout 300 bash %s/demo.sh" % d, cwd="/repo"); r.append("demo clean rc=%d" % x.returncode)
            if x.returncode: print(x.stdout[-1500:])
        a = sh("git -C /repo apply %s/patch.diff" % d); assert a.returncode == 0, a.stdout
        if "--notest" not in sys.argv:
            b = sh("bash /opt/vp/test.sh /tmp/planted.json"); t = json.load(open("/tmp/planted.json")); miss = stable - set(t["passed"]); r.append("tests ok" if not miss else "TESTS FAIL %s %s" % (sorted(miss)[:4], b.stdout[-800:]))
            x = sh("timeout 300 bash %s/demo.sh" % d, cwd="/repo"); r.append("demo patched rc=%d" % x.returncode)
            if not x.returncode: print(x.stdout[-1500:])
        for p in [meta["property"]] + (meta.get("also", []) if "--all-checks" in sys.argv else []):
            t0 = time.time(); c = sh("VERIF_SEED=1 VERIF_TIER=quick python3 check.py " + p, cwd=HERE)
            r.append("%s: %s in %.0f s" % (p, "CAUGHT" if c.returncode == 1 and "VIOLATION property=" + p in c.stdout else "MISSED rc=%d" % c.returncode, time.time() - t0))
            for l in c.stdout.splitlines():
                if ": run " in l or "minimised" in l or "ERROR" in l or "FAILED" in l or "error:" in l: print("   ", l[:260])
        print(" | ".join(r), flush=True)
    finally:
        sh("git -C /repo checkout -- .")
sh("bash /opt/vp/build.sh")
