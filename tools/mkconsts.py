#!/usr/bin/env python3
"""One-off: writes harness/consts.rs, the oracle's own copy of the instance parameters, from the
standards (openssl's explicit parameters, RFC 7748/8032/9380 formulas), comparing with the repository."""
import re, subprocess, sys
src = "".join(open(f"/repo/src/instances/{f}.rs").read() for f in ("weier", "mont", "edw"))
P = {}
for m in re.finditer(r"static (\w+)_PARAMS: &Params =\s*&Params \{(.*?)\};", src, re.S):
    P[m.group(1)] = {k: v for k, v in re.findall(r'(\w+):\s*"([^"]*)"', m.group(2))}
def I(s): return int(s, 0)
std = {}
def ossl(n):
    t = subprocess.check_output(["openssl", "ecparam", "-name", n, "-param_enc", "explicit", "-conv_form", "uncompressed", "-text", "-noout"], text=True)
    def g(k):
        m = re.search(k + r"[^:]*:\s*((?:[0-9a-f]{2}:?\s*)+)", t)
        return int(re.sub(r"[^0-9a-f]", "", m.group(1)), 16) if m else None
    d = dict(p=g("Prime"), a=g(r"\nA"), b=g(r"\nB"), r=g("Order"))
    G = re.search(r"Generator[^:]*:\s*((?:[0-9a-f]{2}:?\s*)+)", t).group(1); G = re.sub(r"[^0-9a-f]", "", G)
    if d["a"] is None: d["a"] = 0
    if d["b"] is None: d["b"] = 7
    L = (len(G) - 2) // 2; d["gx"], d["gy"], d["h"] = int(G[2:2 + L], 16), int(G[2 + L:], 16), 1
    return d
for k, n in (("P256", "prime256v1"), ("P384", "secp384r1"), ("P521", "secp521r1"), ("SECP256K1", "secp256k1")): std[k] = ossl(n)
x = -0xd201000000010000
p = (x - 1) ** 2 // 3 * (x ** 4 - x ** 2 + 1) + x; r = x ** 4 - x ** 2 + 1
std["BLS12381G1"] = dict(p=p, a=0, b=4, r=r, h=1 - x,
  gx=0x17f1d3a73197d7942695638c4fa9ac0fc3688c4f9774b905a14e3a3f171bac586c55e83ff97a1aeffb3af00adb22c6bb)
std["BLS12381G1_11ISO"] = dict(p=p, r=r, h=1 - x, a=0x144698a3b8e9433d693a02c96d4982b0ea985383ee66a8d8e8981aefd881ac98936f8da0e0f97f5cf428082d584c1d,
  b=0x12e2908d11688030018b12e8753eee3b2016c1f0f24f4070a0b9c14fcef35ef55a23215a316ceaa5d1cc48e98e172be0)
std["SECP256K1_3ISO"] = dict(p=std["SECP256K1"]["p"], r=std["SECP256K1"]["r"], h=1, b=1771,
  a=0x3f8731abdd661adca08a5558f0f5d272e953d363cb6f0e5d405447c01a444533)
q = 2 ** 255 - 19; l = 2 ** 252 + 27742317777372353535851937790883648493
std["CURVE25519"] = dict(p=q, a=486662, b=1, r=l, h=8, gx=9)
d = -121665 * pow(121666, -1, q) % q
std["EDWARDS25519"] = dict(p=q, a=q - 1, d=d, r=l, h=8, gy=4 * pow(5, -1, q) % q)
g = 2 ** 448 - 2 ** 224 - 1; l4 = 2 ** 446 - 0x8335dc163bb124b65129c96fde933d8d723a70aadc873d6d54a7bb0d
std["CURVE448"] = dict(p=g, a=156326, b=1, r=l4, h=4, gx=5)
std["EDWARDS448"] = dict(p=g, a=1, d=-39081 % g, r=l4, h=4)
out = ["//! The oracle's own copy of the curve parameters (tools/mkconsts.py: openssl, RFC 7748/8032/9380).",
       "pub struct K { pub name: &'static str, pub p: &'static str, pub a: &'static str, pub b: &'static str, pub s: &'static str, pub r: &'static str, pub h: &'static str, pub gx: &'static str, pub gy: &'static str }"]
for k, v in P.items():
    s, pp = std[k], I(v["p"])
    for f, w in s.items():
        assert (I(v[f]) - w) % pp == 0 and (f in "rhp" and I(v[f]) == w or f not in "rhp"), (k, f, v[f], w)
    b = v.get("b") or v["d"]
    out.append('pub const %s: K = K { name: "%s", p: "%d", a: "%d", b: "%d", s: "%s", r: "%d", h: "%d", gx: "%d", gy: "%d" };' % (
        k, k.lower(), pp, I(v["a"]) % pp, I(b) % pp, v.get("s", "0"), I(v["r"]), I(v["h"]), I(v["gx"]) % pp, I(v["gy"]) % pp))
    print(k, "agrees on", ",".join(s))
# Montgomery curves with other coefficients b (not built in); s as the addition law needs it: no root of
# b*s'^2 = x^3+a*x^2+x where b*s' = s
def noroot(c, p):  # x^3+c2 x^2+c1 x+c0 has no root mod p
    c2, c1, c0 = c
    def mul(u, v):
        w = [0] * 5
        for i, a in enumerate(u):
            for j, b in enumerate(v): w[i + j] = (w[i + j] + a * b) % p
        for k in (4, 3):
            t = w[k]; w[k] = 0
            w[k - 1] = (w[k - 1] - t * c2) % p; w[k - 2] = (w[k - 2] - t * c1) % p; w[k - 3] = (w[k - 3] - t * c0) % p
        return w[:3]
    r, b, e = [1, 0, 0], [0, 1, 0], p
    while e:
        if e & 1: r = mul(r, b)
        b = mul(b, b); e >>= 1
    f, g = [c0 % p, c1 % p, c2 % p, 1], [r[0], (r[1] - 1) % p, r[2]]
    def trim(u):
        while u and u[-1] == 0: u.pop()
        return u
    f, g = trim(f), trim(g)
    while g:
        while len(f) >= len(g):
            t = f[-1] * pow(g[-1], -1, p) % p; d = len(f) - len(g)
            for i, a in enumerate(g): f[i + d] = (f[i + d] - t * a) % p
            trim(f)
            if not f: break
        f, g = g, f
    return len(f) == 1
def sqrtm(a, p):
    if pow(a, (p - 1) // 2, p) != 1: return None
    if p % 4 == 3: return pow(a, (p + 1) // 4, p)
    y = pow(a, (p + 3) // 8, p)
    return y if y * y % p == a else y * pow(2, (p - 1) // 4, p) % p
for base, b in (("CURVE25519", 2), ("CURVE25519", 4), ("CURVE448", 5), ("CURVE448", -1)):
    q, w = std[base], P[base]; p = q["p"]; b %= p
    sv = next(s for s in range(1, 1000) if noroot((q["a"], 1, -s * s * pow(b, -1, p) % p), p))
    gx = next(x for x in range(2, 1000) if sqrtm((x ** 3 + q["a"] * x * x + x) * pow(b, -1, p) % p, p))
    gy = sqrtm((gx ** 3 + q["a"] * gx * gx + gx) * pow(b, -1, p) % p, p)
    k = base + "_B" + ("M1" if b == p - 1 else str(b))
    out.append('pub const %s: K = K { name: "%s", p: "%d", a: "%d", b: "%d", s: "%d", r: "%d", h: "%d", gx: "%d", gy: "%d" };' % (
        k, k.lower(), p, q["a"], b, sv, q["r"], q["h"], gx, gy))
    print(k, "s =", sv)
open("/verif/harness/consts.rs", "w").write("\n".join(out) + "\n")
