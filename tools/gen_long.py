#!/usr/bin/env python3
"""Generates mc/src/kat_long.txt: digests of long all-zero messages, from OpenSSL via hashlib.
Lines: "H alg len hex", "M alg keylen len hex" (HMAC, key = stream[1000..1000+k]),
"T len hex" (SHA-256 tagged with b"verif/tag"). Run by hand; output is committed."""
import hashlib, hmac, os, sys
from concurrent.futures import ThreadPoolExecutor
here = os.path.dirname(os.path.abspath(__file__))
M64 = (1 << 64) - 1
def stream(i):
    z = (i * 0x9e3779b97f4a7c15 + 0x9e3779b97f4a7c15) & M64
    z = ((z ^ (z >> 30)) * 0xbf58476d1ce4e5b9) & M64
    z = ((z ^ (z >> 27)) * 0x94d049bb133111eb) & M64
    return (z ^ (z >> 31)) >> 56
KEY = bytes(stream(i) for i in range(1000, 1033))
LENS = sorted([(1 << k) + d for k in (20, 24, 28, 29, 30, 31, 32, 33) for d in (-1, 0, 1, 100)])
ALG = ["sha1", "sha256", "sha384", "sha512", "sha512_256", "ripemd160"]
CH = bytes(1 << 20)
def run(kind, alg):
    t = hashlib.sha256(b"verif/tag").digest()
    h = {"H": lambda: hashlib.new(alg), "M": lambda: hmac.new(KEY, b"", alg), "T": lambda: hashlib.sha256(t + t)}[kind]()
    out, at = [], 0
    for n in LENS:
        while at < n:
            k = min(n - at, len(CH))
            h.update(CH[:k] if k < len(CH) else CH)
            at += k
        d = h.copy().hexdigest()
        out.append({"H": "H %s %d %s" % (alg, n, d), "M": "M %s 33 %d %s" % (alg, n, d), "T": "T %d %s" % (n, d)}[kind])
    return out
jobs = [("H", a) for a in ALG] + [("M", a) for a in ALG] + [("T", "")]
with ThreadPoolExecutor(8) as ex:
    res = list(ex.map(lambda j: run(*j), jobs))
with open(os.path.join(here, "../mc/src/kat_long.txt"), "w") as f:
    for r in res:
        f.write("\n".join(r) + "\n")
