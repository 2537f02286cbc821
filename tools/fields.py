#!/usr/bin/env python3-vt
"""Generates harness/src/checks/fields.rs: user-defined prime fields for C11/C12. Deterministic."""
import random, sys
from sympy import isprime, factorint, primerange
R = 1 << 256
def factors(n):
    fs = []
    for q in primerange(2, 1000):
        if n % q == 0:
            fs.append(q)
            while n % q == 0: n //= q
    if n == 1: return fs
    if isprime(n): return fs + [n]
    return None
def limbs(x): return "[" + ", ".join(hex((x >> (64 * i)) & (2**64 - 1)) for i in range(4)) + "]"
rnd = random.Random(7)
def find(make):
    while True:
        p = make()
        if p % 2 and isprime(p):
            f = factors(p - 1)
            if f: return p, f
F = [("Tiny", *find(lambda: 97)), ("Small", *find(lambda: 2**31 - 2**27 + 1)),
     ("Gold", 2**64 - 2**32 + 1, list(factorint(2**64 - 2**32))),
     ("NearProth", *find(lambda: rnd.randrange(2**40) * 2 + 3 + (rnd.randrange(2**60) << 192))),
     ("HalfProth", *find(lambda: 1 + ((rnd.randrange(2**20) << 128)) + (rnd.randrange(2**40, 2**62) << 192))),
     ("OneProth", *find(lambda: 1 + (rnd.randrange(1, 2**20) << 64) + (rnd.randrange(2**40, 2**62) << 192))),
     ("Ones", *find(lambda: 2**255 - 1 - 2 * rnd.randrange(2**20))),
     ("TwoLimb", *find(lambda: (1 << 127) + rnd.randrange(2**126) * 2 + 1))]
out = "// Generated by tools/fields.py: (name, modulus, -m^-1 mod 2^64, generator * R, R, R^2, R^3, prime factors of m - 1 below 1000).\n"
for name, p, f in F:
    g = next(g for g in range(2, 1000) if all(pow(g, (p - 1) // q, p) != 1 for q in f))
    m64 = (-pow(p, -1, 2**64)) % 2**64
    out += f"field!({name}, {limbs(p)}, {hex(m64)}, {limbs(g*R%p)}, {limbs(R%p)}, {limbs(R*R%p)}, {limbs(R**3%p)}, &{[q for q in f if q < 1000]});\n"
open(sys.argv[1], "w").write(out)
