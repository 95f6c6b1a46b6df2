#!/usr/bin/env python3
"""Generates mc/src/spec_consts.rs (SHA-2 constants from first principles) and
mc/src/kat.txt (known answers from OpenSSL via hashlib). Run by hand; output is committed."""
import hashlib, hmac, os
here = os.path.dirname(os.path.abspath(__file__))
def primes(n):
    out, k = [], 2
    while len(out) < n:
        if all(k % p for p in out): out.append(k)
        k += 1
    return out
def iroot(n, k):
    lo, hi = 0, 1 << (n.bit_length() // k + 2)
    while lo < hi:
        m = (lo + hi + 1) // 2
        if m ** k <= n: lo = m
        else: hi = m - 1
    return lo
def frac(p, k, bits): return iroot(p << (k * bits), k) & ((1 << bits) - 1)
P = primes(80)
K256 = [frac(p, 3, 32) for p in P[:64]]
K512 = [frac(p, 3, 64) for p in P[:80]]
IV256 = [frac(p, 2, 32) for p in P[:8]]
IV512 = [frac(p, 2, 64) for p in P[:8]]
IV384 = [frac(p, 2, 64) for p in P[8:16]]
def arr(name, ty, v):
    return "pub const %s: [%s; %d] = [\n%s];\n" % (name, ty, len(v), "".join("    0x%x,\n" % x for x in v))
with open(os.path.join(here, "../mc/src/spec_consts.rs"), "w") as f:
    f.write("// Generated by tools/gen_consts.py from the definitions in FIPS 180-4\n// (fractional parts of square and cube roots of primes).\n")
    f.write(arr("K256", "u32", K256) + arr("K512", "u64", K512) + arr("IV256", "u32", IV256) + arr("IV512", "u64", IV512) + arr("IV384", "u64", IV384))
M = (1 << 64) - 1
def stream(i):
    z = (i * 0x9e3779b97f4a7c15 + 0x9e3779b97f4a7c15) & M
    z = ((z ^ (z >> 30)) * 0xbf58476d1ce4e5b9) & M
    z = ((z ^ (z >> 27)) * 0x94d049bb133111eb) & M
    return (z ^ (z >> 31)) >> 56
S = bytes(stream(i) for i in range(1 << 17))
ALG = ["sha1", "sha256", "sha384", "sha512", "sha512_256", "ripemd160"]
with open(os.path.join(here, "../mc/src/kat.txt"), "w") as f:
    for a in ALG:
        for n in list(range(0, 275)) + [511, 512, 513, 1000, 4096, 65537, 100000]:
            f.write("H %s %d %s\n" % (a, n, hashlib.new(a, S[:n]).hexdigest()))
        for k in (0, 1, 20, 32, 63, 64, 65, 127, 128, 129, 200):
            for n in (0, 1, 55, 64, 111, 200):
                f.write("M %s %d %d %s\n" % (a, k, n, hmac.new(S[1000:1000 + k], S[:n], a).hexdigest()))

# The 64 official SipHash-2-4 vectors (key 00..0f, messages 00..n-1).
SIP = """
310e0edd47db6f72
fd67dc93c539f874
5a4fa9d909806c0d
2d7efbd796666785
b7877127e09427cf
8da699cd64557618
cee3fe586e46c9cb
37d1018bf50002ab
6224939a79f5f593
b0e4a90bdf82009e
f3b9dd94c5bb5d7a
a7ad6b22462fb3f4
fbe50e86bc8f1e75
903d84c02756ea14
eef27a8e90ca23f7
e545be4961ca29a1
db9bc2577fcc2a3f
9447be2cf5e99a69
9cd38d96f0b3c14b
bd6179a71dc96dbb
98eea21af25cd6be
c7673b2eb0cbf2d0
883ea3e395675393
c8ce5ccd8c030ca8
94af49f6c650adb8
eab8858ade92e1bc
f315bb5bb835d817
adcf6b0763612e2f
a5c91da7acaa4dde
716595876650a2a6
28ef495c53a387ad
42c341d8fa92d832
ce7cf2722f512771
e37859f94623f3a7
381205bb1ab0e012
ae97a10fd434e015
b4a31508beff4d31
81396229f0907902
4d0cf49ee5d4dcca
5c73336a76d8bf9a
d0a704536ba93e0e
925958fcd6420cad
a915c29bc8067318
952b79f3bc0aa6d4
f21df2e41d4535f9
87577519048f53a9
10a56cf5dfcd9adb
eb75095ccd986cd0
51a9cb9ecba312e6
96afadfc2ce666c7
72fe52975a4364ee
5a1645b276d592a1
b274cb8ebf87870a
6f9bb4203de7b381
eaecb2a30b22a87f
9924a43cc1315724
bd838d3aafbf8db7
0b1a2a3265d51aea
135079a3231ce660
932b2846e4d70666
e1915f5cb1eca46c
f325965ca16d629f
575ff28e60381be5
724506eb4c328a95
""".split()
with open(os.path.join(here, "../mc/src/kat.txt"), "a") as f:
    for n, h in enumerate(SIP):
        f.write("S %d %s\n" % (n, h))
