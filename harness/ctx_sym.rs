//! Symbolic side of the harness context (engine: the stand-in num-bigint).
use num_bigint::eng::{self, with, F, V};
use num_bigint::BigInt;
use crate::refmath::R;
use std::panic::{catch_unwind, resume_unwind, AssertUnwindSafe};

pub const SYM: bool = true;

fn toz(b: &BigInt) -> num_bigint_real::BigInt {
    match &b.0 {
        V::C(z) => z.clone(),
        _ => eng::unsupported("bound is symbolic"),
    }
}
/// Integer input lo <= v < hi.
pub fn int(name: &str, lo: &BigInt, hi: &BigInt) -> BigInt {
    let (l, h) = (toz(lo), toz(hi));
    BigInt(with(|e| e.var(name, Some(l), Some(h - 1))))
}
pub fn choose(name: &str, n: usize) -> usize {
    with(|e| e.choose(name, n as u32)) as usize
}
pub fn force(_: &str, _: usize, _: usize) -> usize {
    unreachable!()
}
pub fn assume(c: bool) {
    if !c {
        eng::dead()
    }
}
fn feq(a: &R, b: &R) -> F {
    let m = toz(&a.p);
    with(|e| {
        let p = e.prime_index(&m);
        let (x, y) = (e.id(&a.v.0), e.id(&b.v.0));
        e.feq(p, x, y)
    })
}
pub fn assume_eq(a: &R, b: &R) {
    let f = feq(a, b);
    with(|e| e.assume(f));
}
pub fn assume_ne(a: &R, b: &R) {
    let f = feq(a, b).not();
    with(|e| e.assume(f));
}
/// Disjunction of (in)equations that holds for every input of the domain (instance of a stated lemma).
pub fn fact(ds: &[(bool, &R, &R)]) {
    let v = ds
        .iter()
        .map(|(pos, a, b)| if *pos { feq(a, b) } else { feq(a, b).not() })
        .collect();
    with(|e| e.assume(F::Or(v)));
}
/// A lemma the solver itself proves under the current path condition, then adds.
pub fn lemma_eq(a: &R, b: &R, what: &str) {
    let f = feq(a, b);
    with(|e| {
        e.set_check(true);
        let ok = e.entails(&f);
        e.set_check(false);
        if !ok {
            eprintln!("lemma not proved: {}", what);
        } else {
            e.assume(f)
        }
    });
}
/// v = q^2 on this path (proved by the solver before it is used).
pub fn hint_sq(v: &R, q: &R) {
    let m = toz(&v.p);
    let f = feq(v, &(q * q));
    with(|e| {
        let p = e.prime_index(&m);
        if e.entails(&f) {
            let (x, y) = (e.id(&v.v.0), e.id(&q.v.0));
            e.hint_sq(p, x, y)
        } else {
            eprintln!("square hint not proved");
        }
    });
}
/// v = w on this path, where w is written as a product (proved before it is used).
pub fn hint_prod(v: &R, w: &R) {
    let m = toz(&v.p);
    let f = feq(v, w);
    with(|e| {
        let p = e.prime_index(&m);
        if e.entails(&f) {
            let (x, y) = (e.id(&v.v.0), e.id(&w.v.0));
            e.hint_prod(p, x, y)
        } else {
            eprintln!("product hint not proved");
        }
    });
}
pub fn concrete(a: &R) -> bool {
    matches!(a.v.0, V::C(_))
}
/// inverse of a value assumed nonzero
pub fn inv(a: &R) -> R {
    let m = toz(&a.p);
    assume(!a.is_zero());
    let v = with(|e| {
        let p = e.prime_index(&m);
        let i = e.id(&a.v.0);
        let w = e.inverse(p, i);
        V::S(w)
    });
    let v = match v {
        V::S(i) => with(|e| match e.kind(i) {
            eng::K::C(z) => V::C(z.clone()),
            _ => V::S(i),
        }),
        v => v,
    };
    R { v: BigInt(v), p: a.p.clone() }
}
/// Is the nonzero residue a square (reference view of the character)?
pub fn is_square_nz(a: &R) -> bool {
    let m = toz(&a.p);
    with(|e| {
        let p = e.prime_index(&m);
        let i = e.id(&a.v.0);
        e.chi(p, i)
    })
}
pub fn check<G: FnOnce() -> bool>(msg: &str, g: G) {
    with(|e| {
        e.set_check(true);
        e.stats.checks += 1;
        if !e.reached.contains(msg) {
            e.reached.insert(msg.to_string());
        }
    });
    let r = catch_unwind(AssertUnwindSafe(g));
    with(|e| e.set_check(false));
    match r {
        Ok(true) => {}
        Ok(false) => with(|e| {
            e.violation(msg);
        }),
        Err(p) => resume_unwind(p),
    }
}
pub fn fail(msg: &str) -> ! {
    with(|e| e.violation(msg))
}
/// Run code under test; an Err is its panic message.
pub fn catch<T, G: FnOnce() -> T>(g: G) -> Result<T, String> {
    match catch_unwind(AssertUnwindSafe(g)) {
        Ok(v) => Ok(v),
        Err(p) => {
            if p.is::<eng::Abort>() {
                resume_unwind(p)
            }
            Err(p
                .downcast_ref::<String>()
                .cloned()
                .or_else(|| p.downcast_ref::<&str>().map(|s| s.to_string()))
                .unwrap_or_default())
        }
    }
}
/// Big-endian byte string of exactly `len` bytes denoting v.
pub fn bytes_be(v: &BigInt, len: usize) -> Vec<u8> {
    match &v.0 {
        V::C(z) => {
            let b = z.to_bytes_be().1;
            let mut o = vec![0; len - b.len().min(len)];
            o.extend(b);
            o
        }
        v => with(|e| e.token(v, len)),
    }
}
pub fn random_mode() -> bool {
    false
}
pub fn put(_: &str, _: &BigInt) {}
pub fn rnd(_: &BigInt) -> BigInt {
    unreachable!()
}
pub fn coin(_: u32) -> u32 {
    unreachable!()
}
pub const NATIVE: bool = false;
