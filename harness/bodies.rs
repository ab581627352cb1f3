//! Assertions over machine integers, shared by the Kani harnesses (all values) and their native replay.
use num_bigint::{BigInt, BigUint};
use redox_ecc::field::Field;
use redox_ecc::ops::FromFactory;
use redox_ecc::primefield::Fp;
use redox_ecc::quadraticfield::Fp2;

/// a group of order 2^100: the scalars below are all reduced
fn order() -> BigUint {
    BigUint::from(1u32) << 100usize
}
macro_rules! bits {
    ($lr:ident, $rl:ident, $m:ident) => {
        /// the bits of k (n of them) from the top, then nothing, `more` times
        pub fn $lr(k: u128, more: u32, steps: u32) -> bool {
            let n = 128 - k.leading_zeros();
            let s = redox_ecc::$m::Scalar::new(BigInt::from(k), &order());
            let mut it = s.iter_lr();
            let mut ok = true;
            let mut j = 0;
            while j < steps && j < n + more {
                let want = if j < n { Some((k >> (n - 1 - j)) & 1 == 1) } else { None };
                ok &= it.next() == want;
                j += 1;
            }
            ok
        }
        pub fn $rl(k: u128, more: u32, steps: u32) -> bool {
            let n = 128 - k.leading_zeros();
            let s = redox_ecc::$m::Scalar::new(BigInt::from(k), &order());
            let mut it = s.iter_rl();
            let mut ok = true;
            let mut j = 0;
            while j < steps && j < n + more {
                let want = if j < n { Some((k >> j) & 1 == 1) } else { None };
                ok &= it.next() == want;
                j += 1;
            }
            ok
        }
    };
}
bits!(we_lr, we_rl, weierstrass);
bits!(mt_lr, mt_rl, montgomery);
bits!(te_lr, te_rl, edwards);

/// 2^89 - 1, above every machine integer but u128
const P89: u128 = (1 << 89) - 1;
/// nothing is dropped: the bounded recursion of nested drops costs far more than the arithmetic
fn same<F, E: PartialEq>(f: F, a: impl Fn(&F) -> E, b: impl Fn(&F) -> E) -> bool {
    let (a, b) = (a(&f), b(&f));
    let r = a == b;
    std::mem::forget((a, b, f));
    r
}
macro_rules! lift {
    ($($f:ident $g:ident $t:ty;)+) => { $(
        pub fn $f(x: $t) -> bool {
            let f = Fp::new(BigUint::from(P89));
            let want = if (x as i128) < 0 { (P89 as i128 + x as i128) as u128 } else { x as u128 };
            same(f, |f| FromFactory::from(f, x), |f| f.elt(BigInt::from(want)))
        }
        pub fn $g(x: $t) -> bool {
            let f = Fp2::new(BigUint::from(P89));
            let want = if (x as i128) < 0 { (P89 as i128 + x as i128) as u128 } else { x as u128 };
            same(f, |f| FromFactory::from(f, x), |f| f.elt(BigInt::from(want)))
        }
    )+ };
}
lift!(fp_u8 fp2_u8 u8; fp_u16 fp2_u16 u16; fp_u32 fp2_u32 u32; fp_u64 fp2_u64 u64;
      fp_i8 fp2_i8 i8; fp_i16 fp2_i16 i16; fp_i32 fp2_i32 i32; fp_i64 fp2_i64 i64;);

/// each computes something that must be refused by a panic
pub fn fp_pow(e: u32, owned: bool) {
    let f = Fp::new(BigUint::from(7u32));
    let a = f.elt(BigInt::from(3));
    std::mem::forget(if owned { a ^ e } else { &a ^ e });
}
pub fn fp2_pow(e: u32, owned: bool) {
    let f = Fp2::new(BigUint::from(7u32));
    let a = f.elt(BigInt::from(3));
    std::mem::forget(if owned { a ^ e } else { &a ^ e });
}
pub fn fp_div(d: u32, _: bool) {
    let f = Fp::new(BigUint::from(7u32));
    std::mem::forget(d / &f.elt(BigInt::from(3)));
}
pub fn fp2_div(d: u32, _: bool) {
    let f = Fp2::new(BigUint::from(7u32));
    std::mem::forget(d / &f.elt(BigInt::from(3)));
}
pub fn we_div(d: u32, _: bool) {
    let _ = d / &redox_ecc::weierstrass::Scalar::new(BigInt::from(3), &BigUint::from(7u32));
}
pub fn mt_div(d: u32, _: bool) {
    let _ = d / &redox_ecc::montgomery::Scalar::new(BigInt::from(3), &BigUint::from(7u32));
}
pub fn te_div(d: u32, _: bool) {
    let _ = d / &redox_ecc::edwards::Scalar::new(BigInt::from(3), &BigUint::from(7u32));
}
