#!/usr/bin/env python3
"""One-off: writes harness/iso.rs, the oracle's own copy of the isogenies' coefficients (RFC 9380 appendix E),
after checking that they define a normalized-up-to-scaling isogeny: image on the target curve for every x,
y-map = u * y * X'(x), leading coefficients u^2 and u^3, and (3-isogeny) u = +-1/3."""
import re
src = open("/repo/src/instances/rational_maps.rs").read()
out = ["//! The oracle's own copy of the isogeny coefficients, low to high (tools/mkiso.py)."]
C = {}
for m in re.finditer(r"(Isosecp256k1|IsoBls12381G1) \{\s*x_num: vec!(.*?)\n        e0", src, re.S):
    body = "x_num: vec!" + m.group(2)
    C[m.group(1)] = {k: [1 if t == "f.one()" else 0 if t == "f.zero()" else int(t[8:-2], 16) for t in re.findall(r'f\.(?:one|zero)\(\)|f\.from\("0x[0-9a-f]+"\)', v)]
                     for k, v in re.findall(r"(\w_\w+): vec!\[(.*?)\n        \]", body, re.S)}
K = dict(Isosecp256k1=("SECP256K1", 2**256-2**32-977, 0x3f8731abdd661adca08a5558f0f5d272e953d363cb6f0e5d405447c01a444533, 1771, 7),
 IsoBls12381G1=("BLS12381G1", 0x1a0111ea397fe69a4b1ba7b6434bacd764774b84f38512bf6730d2a0f6b0f6241eabfffeb153ffffb9feffffffffaaab,
  0x144698a3b8e9433d693a02c96d4982b0ea985383ee66a8d8e8981aefd881ac98936f8da0e0f97f5cf428082d584c1d,
  0x12e2908d11688030018b12e8753eee3b2016c1f0f24f4070a0b9c14fcef35ef55a23215a316ceaa5d1cc48e98e172be0, 4))
def padd(a, b, p): n = max(len(a), len(b)); return [((a[i] if i < len(a) else 0) + (b[i] if i < len(b) else 0)) % p for i in range(n)]
def pmul(a, b, p):
    o = [0] * (len(a) + len(b) - 1)
    for i, x in enumerate(a):
        for j, y in enumerate(b): o[i + j] = (o[i + j] + x * y) % p
    return o
def trim(a):
    while a and a[-1] == 0: a = a[:-1]
    return a
def d(a, p): return [i * c % p for i, c in enumerate(a)][1:]
for n, (nm, p, a, b, b1) in K.items():
    xn, xd, yn, yd = (trim(C[n][k]) for k in ("x_num", "x_den", "y_num", "y_den"))
    g = [b, a, 0, 1]
    # g(x) (yn/yd)^2 = (xn/xd)^3 + b1
    l = pmul(pmul(g, pmul(yn, yn, p), p), pmul(xd, pmul(xd, xd, p), p), p)
    r = pmul(padd(pmul(xn, pmul(xn, xn, p), p), [c * b1 for c in pmul(xd, pmul(xd, xd, p), p)], p), pmul(yd, yd, p), p)
    assert trim(l) == trim(r)
    u = yn[-1] * pow(xn[-1], -1, p) % p
    assert u * u % p == xn[-1] and u**3 % p == yn[-1]
    # yn/yd = u^-? X' : X' = (xn' xd - xn xd')/xd^2 ; leading coefficient u^2, so yn/yd = u X'
    num = padd(pmul(d(xn, p), xd, p), [-c for c in pmul(xn, d(xd, p), p)], p)
    l = pmul(yn, pmul(xd, xd, p), p); r = [c * u % p for c in pmul(num, yd, p)]
    assert trim(l) == trim(r)
    print(n, [len(t) for t in (xn, xd, yn, yd)], "u = +-1/3:", u in (pow(3, -1, p), p - pow(3, -1, p)), hex(u))
    for k, v in (("XN", xn), ("XD", xd), ("YN", yn), ("YD", yd)):
        out.append(f"pub const {nm}_{k}: &[&str] = &[" + ", ".join(f'"{c}"' for c in v) + "];")
open("/verif/harness/iso.rs", "w").write("\n".join(out) + "\n")
