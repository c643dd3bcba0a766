#!/usr/bin/env python3
"""Computes cpp/longvec.inc: digests of prefixes of the long pattern message, with hashlib."""
import hashlib, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PAT = bytes((((i * i + 31 * i + (i >> 8) * 7 + (i >> 16) * 13) ^ (i >> 4)) & 255) for i in range(1 << 20))
lens = sorted([2**29 - 9, 2**29 - 1, 2**29, 2**29 + 63, 2**29 + 130, 2**31 + 5, 2**32 - 1, 2**32, 2**32 + 57, 2**32 + 129])
a, b, pos, rows = hashlib.sha256(), hashlib.sha512(), 0, []
for L in lens:
    while pos < L:
        o = pos % len(PAT); n = min(L - pos, len(PAT) - o)
        a.update(PAT[o:o + n]); b.update(PAT[o:o + n]); pos += n
    rows.append('{%dull, "%s",\n"%s"},' % (L, a.hexdigest(), b.hexdigest()))
text = "// Written by tools/longvec.py\nconst LongVec LONGVECS[] = {\n" + "\n".join(rows).rstrip(",") + "\n};\nconst int NLONGVECS = sizeof(LONGVECS) / sizeof(LONGVECS[0]);\n"
open(HERE + "/cpp/longvec.inc", "w").write(text)

# java/longvec16.txt: one-shot digests of long messages for the C16 nodes. Keccak-256 comes from cpp/ref.hpp.
import hmac, os, subprocess, sys, tempfile
want, out = [2**28 - 20, 2**28 + 119, 2**29 + 7, 2**31 - 99, 2**31 + 5, 2**32 + 143], []
class Chain:
    def __init__(self, a): self.a = a
    def update(self, b): [x.update(b) for x in self.a]
hs = [("sha256", 0, hashlib.sha256()), ("sha512", 0, hashlib.sha512()), ("ripemd160", 0, hashlib.new("ripemd160"))] + [(n, k, hmac.new(PAT[:k], b"", d)) for n, d in (("hmac256", "sha256"), ("hmac512", "sha512")) for k in (20, 200)]
pos = 0
for L in want:
    while pos < L:
        o = pos % len(PAT); n = min(L - pos, len(PAT) - o)
        for h in hs: h[2].update(PAT[o:o + n])
        pos += n
    for n, k, h in hs:
        out.append("%s %d %d %s" % (n, L, k, h.hexdigest()))
        if n == "sha256": out.append("sha256d %d 0 %s" % (L, hashlib.sha256(h.digest()).hexdigest()))
with tempfile.TemporaryDirectory() as d:
    open(d + "/k.cpp", "w").write('''#include "ref.hpp"
#include "simcore.hpp"
int main(int c, char **v) { std::string p; sim::Bytes m, P(1 << 20); for (size_t i = 0; i < P.size(); i++) P[i] = (sim::u8)((i * i + 31 * i + (i >> 8) * 7 + (i >> 16) * 13) ^ (i >> 4)); size_t n = strtoull(v[1], 0, 10); m.resize(n); for (size_t i = 0; i < n; i += P.size()) memcpy(&m[i], P.data(), std::min(P.size(), n - i)); puts(sim::hex(ref::keccak256(m)).c_str()); }''')
    here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    subprocess.check_call(["clang++", "-std=c++17", "-O2", "-I" + here + "/cpp", "-I/repo/cpp", d + "/k.cpp", "-o", d + "/k"])
    ps = [(L, subprocess.Popen([d + "/k", str(L)], stdout=subprocess.PIPE, text=True)) for L in want[:-1]]
    for L, p in ps: out.append("keccak256 %d 0 %s" % (L, p.communicate()[0].strip()))
    out.append("keccak256 %d 0 %s" % (want[-1], subprocess.check_output([d + "/k", str(want[-1])], text=True).strip()))
open(HERE + "/java/longvec16.txt", "w").write("\n".join(out) + "\n")
