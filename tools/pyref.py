"""Small independent reference in Python (hashlib and big ints), used to validate the C++ and Java reference models."""
import hashlib, hmac
P = 2**256 - 2**32 - 977
N = 0xFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFEBAAEDCE6AF48A03BBFD25E8CD0364141
G = (0x79BE667EF9DCBBAC55A06295CE870B07029BFCDB2DCE28D959F2815B16F81798, 0x483ADA7726A3C4655DA4FBFC0E1108A8FD17B448A68554199C47D08FFB10D4B8)
B58 = "123456789ABCDEFGHJKLMNPQRSTUVWXYZabcdefghijkmnopqrstuvwxyz"
def padd(a, b):
    if a is None: return b
    if b is None: return a
    if a[0] == b[0]:
        if (a[1] + b[1]) % P == 0: return None
        l = 3 * a[0] * a[0] * pow(2 * a[1], -1, P) % P
    else:
        l = (b[1] - a[1]) * pow(b[0] - a[0], -1, P) % P
    x = (l * l - a[0] - b[0]) % P
    return x, (l * (a[0] - x) - a[1]) % P
def pmul(k, p=G):
    r = None
    while k:
        if k & 1: r = padd(r, p)
        p = padd(p, p); k >>= 1
    return r
def keccak(m, pad):
    M = (1 << 64) - 1
    rol = lambda x, n: ((x << n) | (x >> (64 - n))) & M if n else x
    RC = []
    r = 1
    for i in range(24):
        c = 0
        for j in range(7):
            if r & 1: c |= 1 << ((1 << j) - 1)
            r = (r << 1) ^ (0x171 if r & 0x80 else 0)
        RC.append(c)
    A = [[0] * 5 for _ in range(5)]
    m = bytearray(m) + bytes([pad])
    m += bytes(-len(m) % 136)
    m[-1] |= 0x80
    for o in range(0, len(m), 136):
        for i in range(17):
            A[i % 5][i // 5] ^= int.from_bytes(m[o + 8 * i:o + 8 * i + 8], "little")
        for rnd in range(24):
            C = [A[x][0] ^ A[x][1] ^ A[x][2] ^ A[x][3] ^ A[x][4] for x in range(5)]
            for x in range(5):
                d = C[(x - 1) % 5] ^ rol(C[(x + 1) % 5], 1)
                for y in range(5): A[x][y] ^= d
            B = [[0] * 5 for _ in range(5)]
            x, y = 1, 0
            B[0][0] = A[0][0]
            for t in range(24):
                B[y][(2 * x + 3 * y) % 5] = rol(A[x][y], (t + 1) * (t + 2) // 2 % 64)
                x, y = y, (2 * x + 3 * y) % 5
            for x in range(5):
                for y in range(5): A[x][y] = B[x][y] ^ (~B[(x + 1) % 5][y] & M & B[(x + 2) % 5][y])
            A[0][0] ^= RC[rnd]
    return b"".join(A[i % 5][i // 5].to_bytes(8, "little") for i in range(4))
def keccak256(m): return keccak(m, 1)
def sha256(m): return hashlib.sha256(m).digest()
def rmd(m):
    return hashlib.new("ripemd160", m).digest()
def b58(d):
    n = int.from_bytes(d, "big"); s = ""
    while n: n, r = divmod(n, 58); s = B58[r] + s
    return "1" * (len(d) - len(d.lstrip(b"\0"))) + s
def b58check(p): return b58(p + sha256(sha256(p))[:4])
def sign(d, h, k):
    if not 0 < k < N: return None
    r = pmul(k)[0] % N
    s = pow(k, -1, N) * (int.from_bytes(h, "big") + r * d) % N
    if r == 0 or s == 0: return None
    return r, min(s, N - s)
def comp(p): return bytes([2 + (p[1] & 1)]) + p[0].to_bytes(32, "big")
def ckd_b58(k, c, i):
    pub = comp(pmul(k))
    m = (b"\0" + k.to_bytes(32, "big") if i >> 31 else pub) + i.to_bytes(4, "big")
    I = hmac.new(c, m, hashlib.sha512).digest()
    ck = (int.from_bytes(I[:32], "big") + k) % N
    return b58check(bytes.fromhex("0488ADE4") + b"\1" + rmd(sha256(pub))[:4] + i.to_bytes(4, "big") + I[32:] + b"\0" + ck.to_bytes(32, "big"))
