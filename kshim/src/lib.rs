//! Fixed-width stand-in for `num-bigint` 0.4: the same API (shared with ../../sym) over i128, so that a
//! bit-precise model checker can follow it. Values that leave the width end in a failed check *here*,
//! which the runner reports as undecided.
#![allow(clippy::all, warnings)]
#![allow(dead_code)]
use num_integer::Integer;
use num_traits::{
    CheckedAdd, CheckedDiv, CheckedMul, CheckedSub, FromPrimitive, Num, One, Pow, Signed,
    ToPrimitive, Unsigned, Zero,
};
use std::cmp::Ordering;
use std::fmt;
use std::hash::{Hash, Hasher};
use std::ops::*;
use std::str::FromStr;
include!("../../sym/src/api.rs");

#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub struct Z(i128);
#[derive(Clone, Copy)]
pub enum V {
    C(Z),
}
#[derive(Debug, Clone, PartialEq, Eq)]
pub struct ParseBigIntError(());
impl fmt::Display for ParseBigIntError {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        f.write_str("invalid digit found in string")
    }
}
impl std::error::Error for ParseBigIntError {}
mod real {
    #[derive(Clone, Copy, PartialEq)]
    pub enum Sign {
        Minus,
        NoSign,
        Plus,
    }
    pub struct BigUint(pub i128);
    impl BigUint {
        pub fn from_str_radix(s: &str, r: u32) -> Result<BigUint, super::ParseBigIntError> {
            let b = s.as_bytes();
            if b.is_empty() || b[0] == b'+' || b[0] == b'_' {
                super::unsupported("parsing")
            }
            let mut m = 0i128;
            let mut i = 0;
            while i < b.len() {
                let d = match (b[i] as char).to_digit(r) {
                    Some(d) => d,
                    None => super::unsupported("parsing"),
                };
                if m >> 120 != 0 {
                    super::unsupported("more than 127 bits")
                }
                m = m * r as i128 + d as i128;
                i += 1;
            }
            Ok(BigUint(m))
        }
    }
    pub struct Mag(pub i128);
    impl Mag {
        pub fn trailing_ones(&self) -> u64 {
            self.0.trailing_ones() as u64
        }
        pub fn count_ones(&self) -> u64 {
            self.0.count_ones() as u64
        }
        pub fn to_radix_le(&self, r: u32) -> Vec<u8> {
            if self.0 == 0 {
                return vec![0];
            }
            let mut v = Vec::with_capacity(128);
            let (mut x, r) = (self.0 as u128, r as u128);
            while x != 0 {
                if r == 2 {
                    v.push((x & 1) as u8);
                    x >>= 1;
                } else {
                    v.push((x % r) as u8);
                    x /= r;
                }
            }
            v
        }
        pub fn to_radix_be(&self, r: u32) -> Vec<u8> {
            let mut v = self.to_radix_le(r);
            v.reverse();
            v
        }
    }
}
fn unsupported(what: &str) -> ! {
    panic!("not modelled by the fixed-width integer: {}", what)
}
fn rsign(s: Sign) -> real::Sign {
    match s {
        Sign::Minus => real::Sign::Minus,
        Sign::NoSign => real::Sign::NoSign,
        Sign::Plus => real::Sign::Plus,
    }
}
impl Z {
    const ZERO: Z = Z(0);
    fn zero() -> Z {
        Z(0)
    }
    fn one() -> Z {
        Z(1)
    }
    fn signed(s: real::Sign, m: i128) -> Z {
        match s {
            real::Sign::Minus => Z(-m),
            real::Sign::NoSign => Z(0),
            real::Sign::Plus => Z(m),
        }
    }
    fn new(s: real::Sign, d: Vec<u32>) -> Z {
        Z::from_slice(s, &d)
    }
    fn from_slice(s: real::Sign, d: &[u32]) -> Z {
        let mut m = 0i128;
        for w in d.iter().rev() {
            if m >> 95 != 0 {
                unsupported("more than 127 bits")
            }
            m = m << 32 | *w as i128;
        }
        Z::signed(s, m)
    }
    fn from_bytes_be(s: real::Sign, b: &[u8]) -> Z {
        let mut m = 0i128;
        for w in b {
            if m >> 119 != 0 {
                unsupported("more than 127 bits")
            }
            m = m << 8 | *w as i128;
        }
        Z::signed(s, m)
    }
    fn to_signed_bytes_be(&self) -> Vec<u8> {
        unsupported("signed bytes")
    }
    fn to_signed_bytes_le(&self) -> Vec<u8> {
        unsupported("signed bytes")
    }
    fn from_signed_bytes_be(_: &[u8]) -> Z {
        unsupported("signed bytes")
    }
    fn from_signed_bytes_le(_: &[u8]) -> Z {
        unsupported("signed bytes")
    }
    fn from_radix_be(s: real::Sign, b: &[u8], r: u32) -> Option<Z> {
        let mut m = 0i128;
        for w in b {
            if *w as u32 >= r {
                return None;
            }
            m = m * r as i128 + *w as i128;
        }
        Some(Z::signed(s, m))
    }
    fn from_radix_le(s: real::Sign, b: &[u8], r: u32) -> Option<Z> {
        let mut v = b.to_vec();
        v.reverse();
        Z::from_radix_be(s, &v, r)
    }
    fn sqrt(&self) -> Z {
        unsupported("integer square root")
    }
    fn trailing_zeros(&self) -> Option<u64> {
        if self.0 == 0 {
            None
        } else {
            Some(self.0.trailing_zeros() as u64)
        }
    }
    fn magnitude(&self) -> real::Mag {
        real::Mag(self.0.abs())
    }
    fn gcd(&self, o: &Z) -> Z {
        Z(self.0.gcd(&o.0))
    }
    fn lcm(&self, o: &Z) -> Z {
        Z(self.0.lcm(&o.0))
    }
    fn to_i64(&self) -> Option<i64> {
        i64::try_from(self.0).ok()
    }
    fn to_u64(&self) -> Option<u64> {
        u64::try_from(self.0).ok()
    }
    fn to_i128(&self) -> Option<i128> {
        Some(self.0)
    }
    fn to_u128(&self) -> Option<u128> {
        u128::try_from(self.0).ok()
    }
}
macro_rules! zfrom { ($($t:ty)+) => { $( impl From<$t> for Z { fn from(x: $t) -> Z { Z(x as i128) } } )+ } }
zfrom!(u8 u16 u32 u64 usize i8 i16 i32 i64 i128 isize bool);
impl From<u128> for Z {
    fn from(x: u128) -> Z {
        if x >> 127 != 0 {
            unsupported("more than 127 bits")
        }
        Z(x as i128)
    }
}
impl From<real::BigUint> for Z {
    fn from(x: real::BigUint) -> Z {
        Z(x.0)
    }
}
impl fmt::Display for Z {
    fn fmt(&self, _: &mut fmt::Formatter) -> fmt::Result {
        unsupported("printing")
    }
}
impl fmt::LowerHex for Z {
    fn fmt(&self, _: &mut fmt::Formatter) -> fmt::Result {
        unsupported("printing")
    }
}
impl fmt::UpperHex for Z {
    fn fmt(&self, _: &mut fmt::Formatter) -> fmt::Result {
        unsupported("printing")
    }
}
impl fmt::Binary for Z {
    fn fmt(&self, _: &mut fmt::Formatter) -> fmt::Result {
        unsupported("printing")
    }
}
impl<'a> BitOr<&'a Z> for &'a Z {
    type Output = Z;
    fn bitor(self, o: &Z) -> Z {
        Z(self.0 | o.0)
    }
}
impl<'a> BitXor<&'a Z> for &'a Z {
    type Output = Z;
    fn bitxor(self, o: &Z) -> Z {
        Z(self.0 ^ o.0)
    }
}

fn c(z: Z) -> V {
    V::C(z)
}
fn zero() -> V {
    V::C(Z(0))
}
fn conc<'a>(v: &'a V, _: &str) -> &'a Z {
    let V::C(z) = v;
    z
}
fn g(v: &V) -> i128 {
    let V::C(z) = v;
    z.0
}
fn mk(x: i128) -> V {
    V::C(Z(x))
}
fn vadd(a: &V, b: &V) -> V {
    mk(g(a) + g(b))
}
fn vsub(a: &V, b: &V) -> V {
    mk(g(a) - g(b))
}
fn vmul(a: &V, b: &V) -> V {
    mk(g(a) * g(b))
}
fn vneg(a: &V) -> V {
    mk(-g(a))
}
fn veq(a: &V, b: &V) -> bool {
    g(a) == g(b)
}
fn vlt(a: &V, b: &V) -> bool {
    g(a) < g(b)
}
fn vcmp(a: &V, b: &V) -> Ordering {
    g(a).cmp(&g(b))
}
fn visneg(a: &V) -> bool {
    g(a) < 0
}
/// k when the value is 2^k
fn log2(m: i128) -> Option<u32> {
    if m > 0 && m & (m - 1) == 0 {
        Some(m.trailing_zeros())
    } else {
        None
    }
}
fn vmodf(a: &V, m: &V) -> V {
    let (a, m) = (g(a), g(m));
    if m == 0 {
        panic!("attempt to divide by zero")
    }
    if a >= 0 && a < m {
        return mk(a);
    }
    if let Some(k) = log2(m) {
        return mk(a & ((1i128 << k) - 1));
    }
    if a < 0 && a + m >= 0 {
        return mk(a + m);
    }
    if m > 0 && a >= m && a - m < m {
        return mk(a - m);
    }
    unsupported("general division")
}
fn vdivf(a: &V, m: &V) -> V {
    let (x, y) = (g(a), g(m));
    if y == 0 {
        panic!("attempt to divide by zero")
    }
    if let Some(k) = log2(y) {
        return mk(x >> k);
    }
    unsupported("general division")
}
fn vrem(a: &V, m: &V) -> V {
    let (x, y) = (g(a), g(m));
    if x >= 0 && y > 0 {
        return vmodf(a, m);
    }
    unsupported("general division")
}
fn vdiv(a: &V, m: &V) -> V {
    let (x, y) = (g(a), g(m));
    if x >= 0 && y > 0 {
        return vdivf(a, m);
    }
    unsupported("general division")
}
fn pow2(k: usize) -> Z {
    if k > 126 {
        unsupported("more than 127 bits")
    }
    Z(1i128 << k)
}
fn vand(a: &V, b: &V) -> V {
    mk(g(a) & g(b))
}
fn vbits(a: &V) -> u64 {
    128 - g(a).unsigned_abs().leading_zeros() as u64
}
fn vbit(a: &V, k: u64) -> bool {
    let x = g(a);
    if k > 126 {
        x < 0
    } else {
        (x >> k) & 1 == 1
    }
}
fn vodd(a: &V) -> bool {
    g(a) & 1 == 1
}
fn vshl(a: &V, k: usize) -> V {
    vmul(a, &c(pow2(k)))
}
fn vshr(a: &V, k: usize) -> V {
    mk(g(a) >> (if k > 127 { 127 } else { k }))
}
fn vu32(a: &V) -> Vec<u32> {
    let mut x = g(a).unsigned_abs();
    let mut v = Vec::with_capacity(4);
    while x != 0 {
        v.push(x as u32);
        x >>= 32;
    }
    v
}
fn vu64(a: &V) -> Vec<u64> {
    let mut x = g(a).unsigned_abs();
    let mut v = Vec::with_capacity(2);
    while x != 0 {
        v.push(x as u64);
        x >>= 64;
    }
    v
}
fn vbytes_be(a: &V) -> Vec<u8> {
    let x = g(a).unsigned_abs();
    let mut n = ((128 - x.leading_zeros() + 7) / 8) as usize;
    if n == 0 {
        n = 1;
    }
    let mut v = Vec::with_capacity(16);
    while n > 0 {
        n -= 1;
        v.push((x >> (8 * n)) as u8);
    }
    v
}
fn vfrom_be(b: &[u8]) -> V {
    c(Z::from_bytes_be(real::Sign::Plus, b))
}
fn vfrom_le(b: &[u8]) -> V {
    let mut v = b.to_vec();
    v.reverse();
    vfrom_be(&v)
}
fn vparse(s: &str, radix: u32) -> Result<V, ParseBigIntError> {
    real::BigUint::from_str_radix(s, radix).map(|x| mk(x.0))
}
fn vfmt(_: &V) -> String {
    unsupported("printing")
}
fn vfmtr(_: &V, _: u32) -> String {
    unsupported("printing")
}
fn vpow(a: &V, n: u64) -> V {
    let mut r = 1i128;
    let mut i = 0;
    while i < n {
        r *= g(a);
        i += 1;
    }
    mk(r)
}
fn vmodpow(x: &V, e: &V, m: &V) -> V {
    let (mut b, mut e, mm) = (vmodf(x, m), g(e), *m);
    if e < 0 {
        panic!("negative exponentiation is not supported!")
    }
    let mut r = vmodf(&mk(1), m);
    while e > 0 {
        if e & 1 == 1 {
            r = vmodf(&vmul(&r, &b), &mm);
        }
        e >>= 1;
        if e > 0 {
            b = vmodf(&vmul(&b, &b), &mm);
        }
    }
    r
}
fn vmodinv(x: &V, m: &V) -> Option<V> {
    let e = mk(g(m) - 2);
    let r = vmodpow(x, &e, m);
    if veq(&r, &zero()) {
        None
    } else {
        Some(r)
    }
}
fn vsign(a: &V) -> Sign {
    let x = g(a);
    if x < 0 {
        Sign::Minus
    } else if x == 0 {
        Sign::NoSign
    } else {
        Sign::Plus
    }
}
fn vconc(a: &V) -> Z {
    *conc(a, "")
}
