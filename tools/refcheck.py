#!/usr/bin/env python3
"""Compares a reference-model program (reads ops on stdin, prints answers) with pyref. usage: refcheck.py CMD..."""
import hashlib, hmac, random, subprocess, sys
from pyref import *
rng = random.Random(7)
ops, want = [], []
def op(s, w): ops.append(s); want.append(w)
def rb(n): return bytes(rng.getrandbits(8) for _ in range(n))
assert keccak(b"abc" * 100, 6) == hashlib.sha3_256(b"abc" * 100).digest()
lens = list(range(0, 300)) + [511, 512, 513, 1000]
for n in lens:
    m = rb(n); k = rb(rng.choice([0, 1, 32, 63, 64, 65, 127, 128, 129, 200]))
    op(f"sha256 m={m.hex()}", hashlib.sha256(m).hexdigest()); op(f"sha512 m={m.hex()}", hashlib.sha512(m).hexdigest())
    op(f"ripemd160 m={m.hex()}", rmd(m).hex()); op(f"keccak256 m={m.hex()}", keccak256(m).hex())
    op(f"hmac256 m={m.hex()} k={k.hex()}", hmac.new(k, m, hashlib.sha256).hexdigest()); op(f"hmac512 m={m.hex()} k={k.hex()}", hmac.new(k, m, hashlib.sha512).hexdigest())
for i in range(100):
    m = bytes(rng.choice([0, 0, 1, 5])) + rb(rng.randrange(0, 80)); op(f"b58 m={m.hex()}", b58(m))
edge = [0, 1, 2, 3, P - 1, P - 2, N - 1, N, N + 1, 2**256 - 1, 2**255, 2**128 - 1, P, P + 1]
def val(m=None):
    v = rng.choice(edge) if rng.random() < .3 else rng.getrandbits(256) if rng.random() < .7 else ((1 << rng.randrange(257)) - (1 << rng.randrange(257))) % 2**256
    return v % m if m else v
h = lambda v: "%064x" % v
for i in range(400):
    a, b = val(P), val(P); op(f"mulp a={h(a)} b={h(b)}", h(a * b % P))
    a, b = val(N), val(N); op(f"muln a={h(a)} b={h(b)}", h(a * b % N))
    if a: op(f"invn a={h(a)}", h(pow(a, -1, N)))
pt = lambda p: "inf" if p is None else h(p[0]) + h(p[1])
for i in range(60):
    a = val(); op(f"mulg a={h(a)}", pt(pmul(a)))
    q = pmul(rng.getrandbits(256)); a = val(); op(f"mul a={h(a)} x={h(q[0])} y={h(q[1])}", pt(pmul(a, q)))
    d, k, m = val(N) or 1, val(), h(val()); s = sign(d, bytes.fromhex(m), k)
    op(f"sign d={h(d)} m={m} n={h(k)}", "no" if s is None else h(s[0]) + h(s[1]))
    c = rb(32); ix = rng.getrandbits(32); op(f"ckd key={h(d)} c={c.hex()} i={ix}", ckd_b58(d, c, ix))
out = subprocess.run(sys.argv[1:], input="\n".join(ops) + "\n", capture_output=True, text=True).stdout.split("\n")
bad = [(o, w, g) for o, w, g in zip(ops, want, out) if w != g]
print(len(ops), "ops", len(bad), "bad")
for b in bad[:5]: print(b)
sys.exit(1 if bad or len(out) < len(ops) else 0)
