//! Native side of the harness context: same harness, real num-bigint, concrete values taken from a
//! solver model or drawn at random from the assumed domain.
use crate::refmath::R;
use num_bigint::BigInt;
use num_integer::Integer;
use num_traits::{One, Signed, ToPrimitive, Zero};
use std::cell::RefCell;
use std::collections::HashMap;
use std::panic::{catch_unwind, panic_any, resume_unwind, AssertUnwindSafe};

pub const SYM: bool = false;
pub enum Stop {
    Skip,
    Violation(String),
    Fact(String),
}
pub struct Nat {
    pub model: HashMap<String, BigInt>,
    pub choices: Vec<usize>,
    pub cpos: usize,
    pub random: bool,
    pub seed: u64,
    pub rec: Vec<(String, BigInt)>,
    pub crec: Vec<(String, usize)>,
    pub checks: u64,
}
thread_local! {
    pub static N: RefCell<Nat> = RefCell::new(Nat { model: HashMap::new(), choices: vec![], cpos: 0, random: false, seed: 1, rec: vec![], crec: vec![], checks: 0 });
}
pub fn with<T>(f: impl FnOnce(&mut Nat) -> T) -> T {
    N.with(|n| f(&mut n.borrow_mut()))
}
fn next() -> u64 {
    with(|n| {
        n.seed = n.seed.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = n.seed;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    })
}
pub fn coin(n: u32) -> u32 {
    (next() % n as u64) as u32
}
/// uniform below n, with a bias towards corners
pub fn rnd(n: &BigInt) -> BigInt {
    match coin(6) {
        0 => {
            let c = coin(12);
            let v = match c {
                0..=5 => BigInt::from(c),
                6..=8 => n - BigInt::from(c - 5),
                9 => n / 2,
                10 => BigInt::one() << (coin(n.bits() as u32)),
                _ => (BigInt::one() << (coin(n.bits() as u32))) - 1,
            };
            v.mod_floor(n)
        }
        _ => {
            let mut v = BigInt::zero();
            for _ in 0..(n.bits() / 64 + 2) {
                v = (v << 64) + BigInt::from(next());
            }
            v.mod_floor(n)
        }
    }
}
pub fn random_mode() -> bool {
    with(|n| n.random)
}
pub fn put(name: &str, v: &BigInt) {
    with(|n| n.rec.push((name.to_string(), v.clone())))
}
pub fn int(name: &str, lo: &BigInt, hi: &BigInt) -> BigInt {
    if let Some(v) = with(|n| n.model.get(name).cloned()) {
        if &v < lo || &v >= hi {
            panic_any(Stop::Skip)
        }
        put(name, &v);
        return v;
    }
    let v = if random_mode() { lo + rnd(&(hi - lo)) } else { lo.clone() };
    put(name, &v);
    v
}
pub fn choose(name: &str, k: usize) -> usize {
    let v = if random_mode() {
        coin(k as u32) as usize
    } else {
        with(|n| {
            let v = n.choices.get(n.cpos).copied().unwrap_or(0);
            n.cpos += 1;
            v
        })
    };
    with(|n| n.crec.push((name.to_string(), v)));
    v
}
/// a choice whose value the random generator has already fixed
pub fn force(name: &str, _k: usize, v: usize) -> usize {
    with(|n| n.crec.push((name.to_string(), v)));
    v
}
pub fn assume(c: bool) {
    if !c {
        panic_any(Stop::Skip)
    }
}
pub fn assume_eq(a: &R, b: &R) {
    assume(a == b)
}
pub fn assume_ne(a: &R, b: &R) {
    assume(a != b)
}
pub fn fact(ds: &[(bool, &R, &R)]) {
    if !ds.iter().any(|(pos, a, b)| (*a == *b) == *pos) {
        panic_any(Stop::Fact("stated lemma instance is false".into()))
    }
}
pub fn lemma_eq(a: &R, b: &R, what: &str) {
    if a != b {
        eprintln!("lemma fails natively: {}", what)
    }
}
pub fn hint_sq(v: &R, q: &R) {
    if v != &(q * q) {
        eprintln!("square hint fails natively")
    }
}
pub fn hint_prod(_: &R, _: &R) {}
pub fn inv(a: &R) -> R {
    assume(!a.is_zero());
    R { v: a.v.modpow(&(&*a.p - 2), &a.p), p: a.p.clone() }
}
pub fn is_square_nz(a: &R) -> bool {
    a.v.modpow(&((&*a.p - 1) / 2), &a.p).is_one()
}
pub fn check<G: FnOnce() -> bool>(msg: &str, g: G) {
    with(|n| n.checks += 1);
    if !g() {
        panic_any(Stop::Violation(msg.to_string()))
    }
}
pub fn fail(msg: &str) -> ! {
    panic_any(Stop::Violation(msg.to_string()))
}
pub fn catch<T, G: FnOnce() -> T>(g: G) -> Result<T, String> {
    match catch_unwind(AssertUnwindSafe(g)) {
        Ok(v) => Ok(v),
        Err(p) => {
            if p.is::<Stop>() {
                resume_unwind(p)
            }
            Err(p
                .downcast_ref::<String>()
                .cloned()
                .or_else(|| p.downcast_ref::<&str>().map(|s| s.to_string()))
                .unwrap_or_default())
        }
    }
}
pub fn bytes_be(v: &BigInt, len: usize) -> Vec<u8> {
    assert!(!v.is_negative());
    let b = v.to_bytes_be().1;
    let mut o = vec![0; len - b.len()];
    o.extend(b);
    o
}
#[allow(dead_code)]
fn _u(x: &BigInt) -> Option<u32> {
    x.to_u32()
}

pub fn concrete(_: &R) -> bool {
    true
}
pub const NATIVE: bool = true;
