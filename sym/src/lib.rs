//! Symbolic stand-in for `num-bigint` 0.4: same API, values may be symbolic (see `eng`).
//! Concrete arithmetic is delegated to the unmodified num-bigint sources in ../../vendor.
#![allow(clippy::all)]
pub mod eng;
pub mod poly;
use eng::{unsupported, with, V};
use num_integer::Integer;
use num_traits::{
    CheckedAdd, CheckedDiv, CheckedMul, CheckedSub, FromPrimitive, Num, One, Pow, Signed,
    ToPrimitive, Unsigned, Zero,
};
use real::BigInt as Z;
pub use real::ParseBigIntError;
use std::cmp::Ordering;
use std::fmt;
use std::hash::{Hash, Hasher};
use std::ops::*;
use std::str::FromStr;

include!("api.rs");
fn rsign(s: Sign) -> real::Sign {
    match s {
        Sign::Minus => real::Sign::Minus,
        Sign::NoSign => real::Sign::NoSign,
        Sign::Plus => real::Sign::Plus,
    }
}
fn ssign(s: real::Sign) -> Sign {
    match s {
        real::Sign::Minus => Sign::Minus,
        real::Sign::NoSign => Sign::NoSign,
        real::Sign::Plus => Sign::Plus,
    }
}

fn c(z: Z) -> V {
    V::C(z)
}
fn zero() -> V {
    V::C(Z::zero())
}
fn conc<'a>(v: &'a V, what: &str) -> &'a Z {
    match v {
        V::C(z) => z,
        V::S(_) => unsupported(what),
    }
}
fn vadd(a: &V, b: &V) -> V {
    if let (V::C(x), V::C(y)) = (a, b) {
        return V::C(x + y);
    }
    with(|e| e.add(a, b))
}
fn vsub(a: &V, b: &V) -> V {
    if let (V::C(x), V::C(y)) = (a, b) {
        return V::C(x - y);
    }
    with(|e| e.sub(a, b))
}
fn vmul(a: &V, b: &V) -> V {
    if let (V::C(x), V::C(y)) = (a, b) {
        return V::C(x * y);
    }
    with(|e| e.mul(a, b))
}
fn vneg(a: &V) -> V {
    if let V::C(x) = a {
        return V::C(-x);
    }
    with(|e| e.neg(a))
}
fn veq(a: &V, b: &V) -> bool {
    if let (V::C(x), V::C(y)) = (a, b) {
        return x == y;
    }
    with(|e| e.eq(a, b))
}
fn vlt(a: &V, b: &V) -> bool {
    if let (V::C(x), V::C(y)) = (a, b) {
        return x < y;
    }
    with(|e| e.lt(a, b))
}
fn vcmp(a: &V, b: &V) -> Ordering {
    if let (V::C(x), V::C(y)) = (a, b) {
        return x.cmp(y);
    }
    with(|e| e.cmp(a, b))
}
fn visneg(a: &V) -> bool {
    vlt(a, &zero())
}
/// floor modulus with concrete divisor of any sign
fn vmodf(a: &V, m: &V) -> V {
    if let (V::C(x), V::C(y)) = (a, m) {
        return V::C(x.mod_floor(y));
    }
    let m = conc(m, "modulus is symbolic");
    if m.is_zero() {
        panic!("attempt to divide by zero")
    }
    if m.is_negative() {
        let r = with(|e| {
            let n = e.neg(a);
            e.modf(&n, &-m)
        });
        return vneg(&r);
    }
    with(|e| e.modf(a, m))
}
fn vdivf(a: &V, m: &V) -> V {
    if let (V::C(x), V::C(y)) = (a, m) {
        return V::C(x.div_floor(y));
    }
    let m = conc(m, "divisor is symbolic");
    if m.is_zero() {
        panic!("attempt to divide by zero")
    }
    if m.is_negative() {
        return with(|e| {
            let n = e.neg(a);
            e.divf(&n, &-m)
        });
    }
    with(|e| e.divf(a, m))
}
/// truncated remainder / quotient
fn vrem(a: &V, m: &V) -> V {
    if let (V::C(x), V::C(y)) = (a, m) {
        return V::C(x % y);
    }
    let mm = c(conc(m, "modulus is symbolic").abs());
    if let (V::C(z), false) = (&mm, conc(m, "").is_zero()) {
        if let Some(r) = with(|e| e.join_rem(a, z)) {
            return r;
        }
    }
    if visneg(a) {
        vneg(&vmodf(&vneg(a), &mm))
    } else {
        vmodf(a, &mm)
    }
}
fn vdiv(a: &V, m: &V) -> V {
    if let (V::C(x), V::C(y)) = (a, m) {
        return V::C(x / y);
    }
    let z = conc(m, "divisor is symbolic").clone();
    let mm = c(z.abs());
    let n = visneg(a);
    let q = if n {
        vneg(&vdivf(&vneg(a), &mm))
    } else {
        vdivf(a, &mm)
    };
    if z.is_negative() {
        vneg(&q)
    } else {
        q
    }
}
fn pow2(k: usize) -> Z {
    Z::one() << k
}
fn vand(a: &V, b: &V) -> V {
    if let (V::C(x), V::C(y)) = (a, b) {
        return V::C(x & y);
    }
    let (s, k) = match (a, b) {
        (V::S(_), V::C(k)) => (a, k),
        (V::C(k), V::S(_)) => (b, k),
        _ => unsupported("bitwise and of two symbolic values"),
    };
    if k.is_zero() {
        return zero();
    }
    // mask of contiguous bits
    if k.is_positive() {
        let tz = k.trailing_zeros().unwrap() as usize;
        let m: Z = (k >> tz) + 1u32;
        if m.magnitude().count_ones() == 1 {
            let hi = vdivf(s, &c(pow2(tz)));
            let lo = vmodf(&hi, &c(m));
            return vmul(&lo, &c(pow2(tz)));
        }
    }
    unsupported("bitwise and with a scattered mask")
}
fn vbits(a: &V) -> u64 {
    match a {
        V::C(z) => z.bits(),
        V::S(i) => {
            if visneg(a) {
                return vbits(&vneg(a));
            }
            let (l, h) = match with(|e| e.rng(*i)) {
                (l, Some(h)) => (l.filter(|l| l.is_positive()).map_or(0, |l| l.bits()), h.bits()),
                _ => unsupported("bit length of an unbounded symbolic value"),
            };
            // longest first; stated bound: the four greatest lengths, or at most eight bits
            let all = with(|e| e.all_lens) || h < 16;
            let mut n = h;
            while n > l {
                // (asked so that the greater length is explored first)
                if vlt(&c(pow2(n as usize - 1) - 1), a) {
                    break;
                }
                n -= 1;
                if !all && n + 4 == h && n > 8 && l <= 8 {
                    if vlt(&c(pow2(8) - 1), a) {
                        with(|e| e.exclude());
                    }
                    n = 8;
                }
            }
            n
        }
    }
}
fn vbit(a: &V, k: u64) -> bool {
    match a {
        V::C(z) => z.bit(k),
        V::S(_) => {
            let t = vdivf(a, &c(pow2(k as usize)));
            vodd(&t)
        }
    }
}
fn vodd(a: &V) -> bool {
    match a {
        V::C(z) => z.is_odd(),
        V::S(i) => with(|e| e.parity(*i)),
    }
}
fn vconc(a: &V) -> Z {
    match a {
        V::C(z) => z.clone(),
        V::S(_) => with(|e| e.concretize(a)),
    }
}
fn vshl(a: &V, k: usize) -> V {
    vmul(a, &c(pow2(k)))
}
fn vshr(a: &V, k: usize) -> V {
    vdivf(a, &c(pow2(k)))
}
fn vu32(a: &V) -> Vec<u32> {
    match a {
        V::C(z) => z.to_u32_digits().1,
        V::S(_) => {
            let n = (vbits(a) as usize + 31) / 32;
            (0..n)
                .map(|i| {
                    let d = vmodf(&vshr(a, 32 * i), &c(pow2(32)));
                    vconc(&d).to_u32().unwrap()
                })
                .collect()
        }
    }
}
fn vu64(a: &V) -> Vec<u64> {
    vu32(a)
        .chunks(2)
        .map(|w| w[0] as u64 | (*w.get(1).unwrap_or(&0) as u64) << 32)
        .collect()
}
fn vbytes_be(a: &V) -> Vec<u8> {
    match a {
        V::C(z) => z.magnitude().to_bytes_be(),
        V::S(_) => {
            if visneg(a) {
                return vbytes_be(&vneg(a));
            }
            if veq(a, &zero()) {
                return vec![0];
            }
            with(|e| {
                let n = e.byte_len(a);
                e.token(a, n)
            })
        }
    }
}
fn vfrom_be(b: &[u8]) -> V {
    if let Some(v) = with(|e| e.untoken(b)) {
        return v;
    }
    c(Z::from_bytes_be(real::Sign::Plus, b))
}
fn vfrom_le(b: &[u8]) -> V {
    let r: Vec<u8> = b.iter().rev().copied().collect();
    vfrom_be(&r)
}
fn vparse(s: &str, radix: u32) -> Result<V, ParseBigIntError> {
    if let Some(i) = s.find('$') {
        let (neg, rest) = match s.strip_prefix('-') {
            Some(r) => (true, r),
            None => (false, s.strip_prefix('+').unwrap_or(s)),
        };
        let tag = if radix == 10 { "$".to_string() } else { format!("${}", radix) };
        if let Some(v) = rest.strip_prefix(&tag).filter(|n| n.starts_with('#')).and_then(|n| with(|e| e.lookup(n))) {
            return Ok(if neg { vneg(&v) } else { v });
        }
        let _ = i;
        // a piece of a number, or a number read in another radix
        return Ok(with(|e| e.anything()));
    }
    Z::from_str_radix(s, radix).map(V::C)
}
fn vfmt(v: &V) -> String {
    vfmtr(v, 10)
}
/// Digits of a number; for a symbolic one a token that only `vparse` in the same radix understands.
fn vfmtr(v: &V, radix: u32) -> String {
    match v {
        V::C(z) => z.to_str_radix(radix),
        V::S(i) if radix == 10 => format!("$#{}", i),
        V::S(i) => format!("${}#{}", radix, i),
    }
}
fn vpow(a: &V, mut n: u64) -> V {
    if let V::C(z) = a {
        return c(Pow::pow(z, n));
    }
    if n > 64 {
        unsupported("large plain power of a symbolic value")
    }
    let mut r = c(Z::one());
    let mut b = a.clone();
    while n > 0 {
        if n & 1 == 1 {
            r = vmul(&r, &b);
        }
        n >>= 1;
        if n > 0 {
            b = vmul(&b, &b);
        }
    }
    r
}
fn vmodpow(x: &V, e: &V, m: &V) -> V {
    if let (V::C(x), V::C(e), V::C(m)) = (x, e, m) {
        return c(x.modpow(e, m));
    }
    with(|g| g.modpow(x, e, m))
}
fn vmodinv(x: &V, m: &V) -> Option<V> {
    let mz = conc(m, "modinv with symbolic modulus");
    if let V::C(x) = x {
        return x.modinv(mz).map(c);
    }
    let e = mz - 2;
    let r = vmodpow(x, &c(e), m);
    if veq(&r, &zero()) {
        None
    } else {
        Some(r)
    }
}

fn vsign(a: &V) -> Sign {
    match a {
        V::C(z) => ssign(z.sign()),
        V::S(_) => {
            match with(|e| e.join_sign(a)) {
                Some(1) => return Sign::Plus,
                Some(0) => return Sign::NoSign,
                Some(_) => return Sign::Minus,
                None => {}
            }
            if visneg(a) {
                Sign::Minus
            } else if veq(a, &zero()) {
                Sign::NoSign
            } else {
                Sign::Plus
            }
        }
    }
}
