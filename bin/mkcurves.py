#!/usr/bin/env python3
"""Writes spec/Curves.tla: tables of small multiples of the generators of the curves that the
precompiled contracts use, so that the specification can reason about points by their logarithm.
Run by hand; the output is committed."""
import hashlib, os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def add(P, Q, p, a=0):
    if P is None: return Q
    if Q is None: return P
    if P[0] == Q[0]:
        if (P[1] + Q[1]) % p == 0: return None
        l = (3 * P[0] * P[0] + a) * pow(2 * P[1], -1, p) % p
    else:
        l = (Q[1] - P[1]) * pow(Q[0] - P[0], -1, p) % p
    x = (l * l - P[0] - Q[0]) % p
    return (x, (l * (P[0] - x) - P[1]) % p)


def mul(k, P, p):
    R = None
    while k:
        if k & 1: R = add(R, P, p)
        P = add(P, P, p); k >>= 1
    return R


class F2:  # a + b i, i^2 = -1
    def __init__(s, a, b, p): s.a, s.b, s.p = a % p, b % p, p
    def __add__(s, o): return F2(s.a + o.a, s.b + o.b, s.p)
    def __sub__(s, o): return F2(s.a - o.a, s.b - o.b, s.p)
    def __mul__(s, o):
        if isinstance(o, int): return F2(s.a * o, s.b * o, s.p)
        return F2(s.a * o.a - s.b * o.b, s.a * o.b + s.b * o.a, s.p)
    def inv(s):
        d = pow(s.a * s.a + s.b * s.b, -1, s.p)
        return F2(s.a * d, -s.b * d, s.p)
    def __eq__(s, o): return s.a == o.a and s.b == o.b
    def zero(s): return s.a == 0 and s.b == 0


def add2(P, Q):
    if P is None: return Q
    if Q is None: return P
    if P[0] == Q[0]:
        if (P[1] + Q[1]).zero(): return None
        l = (P[0] * P[0] * 3) * (P[1] * 2).inv()
    else:
        l = (Q[1] - P[1]) * (Q[0] - P[0]).inv()
    x = l * l - P[0] - Q[0]
    return (x, l * (P[0] - x) - P[1])


def mul2(k, P):
    R = None
    while k:
        if k & 1: R = add2(R, P)
        P = add2(P, P); k >>= 1
    return R


def w(n):
    out = []
    while n:
        out.append(n & 255); n >>= 8
    return "<<" + ",".join(map(str, out)) + ">>"


def tab(name, rows):
    return f"{name} == <<\n  " + ",\n  ".join(rows) + ">>\n"


# secp256k1
SP = 2**256 - 2**32 - 977
SN = 0xFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFEBAAEDCE6AF48A03BBFD25E8CD0364141
SG = (0x79BE667EF9DCBBAC55A06295CE870B07029BFCDB2DCE28D959F2815B16F81798, 0x483ADA7726A3C4655DA4FBFC0E1108A8FD17B448A68554199C47D08FFB10D4B8)


def keccak256(m):  # to derive addresses
    def rot(x, n): return ((x << n) | (x >> (64 - n))) & (2**64 - 1) if n else x
    RC, r = [], 1
    for _ in range(24):
        c = 0
        for j in range(7):
            if r & 1: c ^= 1 << ((1 << j) - 1)
            r = (r << 1) ^ (0x171 if r & 0x80 else 0)
        RC.append(c)
    A = [[0] * 5 for _ in range(5)]
    q = 136 - len(m) % 136
    m = m + (b"\x81" if q == 1 else b"\x01" + bytes(q - 2) + b"\x80")
    for b in range(0, len(m), 136):
        for i in range(17):
            A[i % 5][i // 5] ^= int.from_bytes(m[b + 8 * i:b + 8 * i + 8], "little")
        for rc in RC:
            C = [A[x][0] ^ A[x][1] ^ A[x][2] ^ A[x][3] ^ A[x][4] for x in range(5)]
            D = [C[(x - 1) % 5] ^ rot(C[(x + 1) % 5], 1) for x in range(5)]
            A = [[A[x][y] ^ D[x] for y in range(5)] for x in range(5)]
            x, y, cur = 1, 0, A[1][0]
            B = [[0] * 5 for _ in range(5)]
            B[0][0] = A[0][0]
            for t in range(24):
                nx, ny = y, (2 * x + 3 * y) % 5
                B[nx][ny] = rot(A[x][y], ((t + 1) * (t + 2) // 2) % 64) if False else None
                x, y = nx, ny
            # rotation offsets in the order of the walk apply to the source lane
            x, y, cur = 1, 0, A[1][0]
            for t in range(24):
                nx, ny = y, (2 * x + 3 * y) % 5
                B[nx][ny] = rot(A[x][y], ((t + 1) * (t + 2) // 2) % 64)
                x, y = nx, ny
            A = [[B[x][y] ^ (~B[(x + 1) % 5][y] & B[(x + 2) % 5][y]) for y in range(5)] for x in range(5)]
            A[0][0] ^= rc
            A = [[v & (2**64 - 1) for v in col] for col in A]
    return b"".join(A[i % 5][i // 5].to_bytes(8, "little") for i in range(4))


assert keccak256(b"").hex().startswith("c5d2460186f7233c")


def addr(P):
    return int.from_bytes(keccak256(P[0].to_bytes(32, "big") + P[1].to_bytes(32, "big"))[12:], "big")


K = 6
out = ["------------------------------- MODULE Curves -------------------------------",
       "(* Small multiples of the generators of the curves that precompiled contracts use   *)",
       "(* (written by bin/mkcurves.py).  Points are known by their logarithm.                *)",
       "EXTENDS Words",
       f"SecpN == {w(SN)}", f"SecpP == {w(SP)}",
       "(* x of kG, parity of its y, inverse of k modulo N, addresses of kG and -kG *)"]
rows = []
for k in range(1, K + 1):
    P = mul(k, SG, SP)
    assert P[0] < SN
    rows.append(f"[x |-> {w(P[0])}, odd |-> {P[1] & 1}, inv |-> {w(pow(k, -1, SN))}, a |-> {w(addr(P))}, na |-> {w(addr((P[0], SP - P[1])))}]")
out.append(tab("Secp", rows))
bad = [x for x in range(2, 60) if pow((x**3 + 7) % SP, (SP - 1) // 2, SP) != 1][:3]
out.append("(* no points have these as x *)\nSecpOff == <<" + ", ".join(w(x) for x in bad) + ">>\n")
# BN254
BP = 21888242871839275222246405745257275088696311157297823662689037894645226208583
BN = 21888242871839275222246405745257275088548364400416034343698204186575808495617
out += [f"BnP == {w(BP)}", f"BnN == {w(BN)}", "(* x, y of mG *)"]
rows = []
M = 16
for m in range(1, M + 1):
    P = mul(m, (1, 2), BP)
    rows.append(f"<<{w(P[0])}, {w(P[1])}, {w(pow(m, -1, BN))}>>")
out.append(tab("BnG", rows))
G2 = (F2(10857046999023057135944570762232829481370756359578518086990519993285655852781, 11559732032986387107991004021392285783925812861821192530917403151452391805634, BP),
      F2(8495653923123431417604973247489272438418190587263600148770280649306958101930, 4082367875863433681332203403145435568316851327593401208105741076214120093531, BP))
rows = []
for m in range(1, 7):
    P = mul2(m, G2)
    rows.append(f"<<{w(P[0].b)}, {w(P[0].a)}, {w(P[1].b)}, {w(P[1].a)}>>")
assert mul2(BN, G2) is None
out.append("(* imaginary and real part of x and of y of mG2 *)")
out.append(tab("BnG2", rows))


def sqrt2(v):  # square root in F2, p = 3 mod 4
    p = v.p
    n = (v.a * v.a + v.b * v.b) % p
    s = pow(n, (p + 1) // 4, p)
    if s * s % p != n: return None
    for t in (s, -s):
        h = (v.a + t) * pow(2, -1, p) % p
        x = pow(h, (p + 1) // 4, p)
        if x * x % p == h and x:
            r = F2(x, v.b * pow(2 * x, -1, p), p)
            if r * r == v: return r
    return None


B2 = F2(3, 0, BP) * F2(9, 1, BP).inv()
assert G2[1] * G2[1] == G2[0] * G2[0] * G2[0] + B2
k = 1
while True:
    x = F2(k, 1, BP)
    y = sqrt2(x * x * x + B2)
    if y is not None and mul2(BN, (x, y)) is not None: break
    k += 1
out.append("(* on the twist, but not in the subgroup *)")
out.append(f"BnOutside == <<{w(x.b)}, {w(x.a)}, {w(y.b)}, {w(y.a)}>>")
# BLS12-381: compressed multiples of G1 (commitments to constant polynomials)
LP = 0x1a0111ea397fe69a4b1ba7b6434bacd764774b84f38512bf6730d2a0f6b0f6241eabfffeb153ffffb9feffffffffaaab
LG = (0x17f1d3a73197d7942695638c4fa9ac0fc3688c4f9774b905a14e3a3f171bac586c55e83ff97a1aeffb3af00adb22c6bb,
      0x08b3f481e3aaa0f1a09e30ed741d8ae4fcf5e095d5d00af600db18cb2c04b3edd03cc744a2888ae40caa232946c5e7e1)
LR = 0x73eda753299d7d483339d80809a1d80553bda402fffe5bfeffffffff00000001
rows = []
for c in range(0, 6):
    P = mul(c, LG, LP)
    b = bytearray(P[0].to_bytes(48, "big") if P else bytes(48))
    b[0] |= 0x80 | (0x40 if P is None else 0) | (0x20 if P and P[1] > (LP - 1) // 2 else 0)
    rows.append("<<" + ",".join(map(str, b)) + ">>")
out.append(f"BlsR == {w(LR)}\n(* compressed cG, from c = 0 *)")
out.append(tab("BlsG", rows))


def pair(x): return f"<<{x >> 16},{x & 65535}>>"


def frac(p, root):  # first 32 bits of the fractional part of the root
    lo, hi = 0, 1 << 80
    n = p << (32 * root)
    while lo < hi:
        m = (lo + hi + 1) // 2
        if m**root <= n: lo = m
        else: hi = m - 1
    return lo & 0xffffffff


pr = [p for p in range(2, 320) if all(p % q for q in range(2, p))][:64]
out.append("(* Constants of SHA-256, as high and low halves *)")
out.append("ShaK == <<" + ",".join(pair(frac(p, 3)) for p in pr) + ">>")
out.append("ShaH == <<" + ",".join(pair(frac(p, 2)) for p in pr[:8]) + ">>")


def frac64(p):
    n = p << 128; lo, hi = 0, 1 << 100
    while lo < hi:
        m = (lo + hi + 1) // 2
        if m * m <= n: lo = m
        else: hi = m - 1
    v = lo & (2**64 - 1)
    return "<<" + ",".join(str((v >> (16 * i)) & 65535) for i in range(4)) + ">>"


out.append("(* Initial vector of BLAKE2b, low limb first *)")
out.append("BlakeIV == <<" + ",".join(frac64(p) for p in pr[:8]) + ">>")
out.append("=" * 77)
open(os.path.join(ROOT, "spec", "Curves.tla"), "w").write("\n".join(out) + "\n")
