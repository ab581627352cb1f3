//! C04 arithmetic of GF(p^2), C05 its square roots and sign.
use super::util::*;
use crate::ctx;
use crate::refmath::R;
use crate::variants;
use crate::{case, Case};
use num_bigint::BigInt;
use num_traits::{One, Zero};
use redox_ecc::field::{CMov, Field, Sgn0, Sqrt};
use redox_ecc::ops::FromFactory;
use redox_ecc::quadraticfield::{Fp2, Fp2Elt};
use std::rc::Rc;
use std::str::FromStr;

/// re + i*im with i^2 = -1
#[derive(Clone)]
pub struct C {
    pub re: R,
    pub im: R,
}
impl C {
    pub fn k(&self, a: i64, b: i64) -> C {
        C { re: self.re.k(a), im: self.re.k(b) }
    }
    pub fn is_zero(&self) -> bool {
        self.re.is_zero() && self.im.is_zero()
    }
    pub fn norm(&self) -> R {
        self.re.sq() + self.im.sq()
    }
    pub fn add(&self, o: &C) -> C {
        C { re: &self.re + &o.re, im: &self.im + &o.im }
    }
    pub fn neg(&self) -> C {
        C { re: -&self.re, im: -&self.im }
    }
    pub fn mul(&self, o: &C) -> C {
        C { re: &self.re * &o.re - &self.im * &o.im, im: &self.re * &o.im + &self.im * &o.re }
    }
    pub fn inv0(&self) -> C {
        if self.is_zero() {
            return self.k(0, 0);
        }
        let w = self.norm().inv();
        C { re: &self.re * &w, im: -(&self.im * &w) }
    }
    pub fn eq(&self, o: &C) -> bool {
        self.re == o.re && self.im == o.im
    }
    /// -1 is not a square modulo p (p = 3 mod 4), so only zero has norm zero.
    pub fn norm_fact(&self) {
        let (n, z) = (self.norm(), self.re.k(0));
        ctx::fact(&[(false, &n, &z), (true, &self.re, &z)]);
        ctx::fact(&[(false, &n, &z), (true, &self.im, &z)]);
    }
}
pub fn fp2(p: &BigInt) -> Fp2 {
    Fp2::new(ub(p))
}
pub fn el(f: &Fp2, c: &C) -> Fp2Elt {
    f.from(format!("{},{}", c.re.v, c.im.v).as_str())
}
pub fn rd(e: &Fp2Elt, p: &Rc<BigInt>) -> C {
    let s = format!("{}", e);
    let (a, b) = s.split_once("+i*").unwrap();
    let g = |t: &str| R::new(&BigInt::from_str(t).unwrap(), p);
    C { re: g(a), im: g(b) }
}
pub fn any(n: &str, p: &Rc<BigInt>) -> C {
    C { re: R::new(&felt(&format!("{}0", n), p), p), im: R::new(&felt(&format!("{}1", n), p), p) }
}
pub fn primes34() -> Vec<(String, BigInt)> {
    any_size_primes().into_iter().filter(|(_, p)| p % 4 == zi(3)).collect()
}

fn ring(p: &BigInt) {
    let f = fp2(p);
    let rp = Rc::new(p.clone());
    let (a, b) = (any("a", &rp), any("b", &rp));
    let (ea, eb) = (el(&f, &a), el(&f, &b));
    let k = ctx::choose("variant", 4);
    let (r, want) = match ctx::choose("op", 5) {
        0 => (variants!(k, ea, eb, +), a.add(&b)),
        1 => (variants!(k, ea, eb, -), a.add(&b.neg())),
        2 => (variants!(k, ea, eb, *), a.mul(&b)),
        3 => (if k & 1 == 0 { -&ea } else { -ea.clone() }, a.neg()),
        _ => (if k & 1 == 0 { &ea ^ 2u32 } else { ea.clone() ^ 2u32 }, a.mul(&a)),
    };
    ctx::check("component formulas", || rd(&r, &rp).eq(&want));
    ctx::check("result is canonical", || r == el(&f, &want));
}
fn recognise(p: &BigInt) {
    let f = fp2(p);
    let rp = Rc::new(p.clone());
    let (a, b) = (any("a", &rp), any("b", &rp));
    let (mut ea, eb) = (el(&f, &a), el(&f, &b));
    ctx::check("is_zero is exact", || ea.is_zero() == a.is_zero());
    ctx::check("is_one is exact", || ea.is_one() == a.eq(&a.k(1, 0)));
    ctx::check("== is equality", || (ea == eb) == a.eq(&b));
    ctx::check("!= is its opposite", || (ea != eb) == !a.eq(&b));
    ctx::check("zero and one", || rd(&f.zero(), &rp).eq(&a.k(0, 0)) && rd(&f.one(), &rp).eq(&a.k(1, 0)));
    if ctx::choose("set", 2) == 0 {
        ea.set_zero();
        ctx::check("set_zero", || ea == f.zero());
    } else {
        ea.set_one();
        ctx::check("set_one", || ea == f.one());
    }
}
fn inverse(p: &BigInt) {
    let f = fp2(p);
    let rp = Rc::new(p.clone());
    let a = any("a", &rp);
    a.norm_fact();
    let ea = el(&f, &a);
    let r = match ctx::choose("form", 3) {
        0 => 1u32 / &ea,
        1 => &ea ^ -1i32,
        _ => ea.clone() ^ -1i32,
    };
    let v = rd(&r, &rp);
    ctx::check("a * a^-1 = 1, and 0 for a = 0", || if a.is_zero() { v.is_zero() } else { v.mul(&a).eq(&a.k(1, 0)) });
}
fn division(p: &BigInt) {
    let f = fp2(p);
    let rp = Rc::new(p.clone());
    let (a, b) = (any("a", &rp), any("b", &rp));
    b.norm_fact();
    let (ea, eb) = (el(&f, &a), el(&f, &b));
    let k = ctx::choose("variant", 4);
    let r = variants!(k, ea, eb, /);
    ctx::check("a/b = a * b^-1 (b = 0 gives 0)", || rd(&r, &rp).eq(&a.mul(&b.inv0())));
}
fn power(p: &BigInt) {
    let f = fp2(p);
    let rp = Rc::new(p.clone());
    let a = any("a", &rp);
    a.norm_fact();
    let ea = el(&f, &a);
    let j = ctx::choose("j", 10) as i64 - 3;
    let e = zi(j);
    let r = if j >= 0 && ctx::choose("type", 2) == 1 { &ea ^ &ub(&e) } else { &ea ^ &e };
    let mut want = a.k(1, 0);
    let b = if j < 0 { a.inv0() } else { a.clone() };
    for _ in 0..j.abs() {
        want = want.mul(&b);
    }
    ctx::check("a^j is the j-fold product", || rd(&r, &rp).eq(&want));
}
/// Tiny fields: exponents of several words, a^(j + k(p^2-1)) = a^j for every a (j >= 1).
fn power_long(p: &BigInt, bits: usize) {
    let f = fp2(p);
    let rp = Rc::new(p.clone());
    let a = any("a", &rp);
    a.norm_fact();
    let ea = el(&f, &a);
    let n: BigInt = p * p - 1;
    let j = ctx::choose("j", 4) as i64 + 1;
    let k: BigInt = (BigInt::from(1) << bits) + (BigInt::from(1) << (bits / 2)) - 3;
    let e: BigInt = &n * k + zi(j);
    let neg = ctx::choose("neg", 2) == 1;
    let r = if neg {
        &ea ^ &-&e
    } else if ctx::choose("type", 2) == 1 {
        &ea ^ &ub(&e)
    } else {
        &ea ^ &e
    };
    let mut want = a.k(1, 0);
    let b = if neg { a.inv0() } else { a.clone() };
    for _ in 0..j {
        want = want.mul(&b);
    }
    ctx::check("a^(j + k(p^2-1)) = a^j", || rd(&r, &rp).eq(&want));
}
/// Tiny fields: exponents with empty, full and boundary words. a^e = a^j for the j in 1..=p^2-1 that is e mod p^2-1.
fn power_sparse(p: &BigInt) {
    let f = fp2(p);
    let rp = Rc::new(p.clone());
    let a = any("a", &rp);
    a.norm_fact();
    let ea = el(&f, &a);
    let n: BigInt = p * p - 1;
    let w = |b: usize| BigInt::from(1) << b;
    let es: Vec<BigInt> = vec![
        w(31), w(32) - 1, w(32), w(32) + 1, w(63), w(64), w(64) + 1, w(64) + w(32), w(64) - w(32), w(95), w(96) + 1,
        w(96) + w(31), w(96) - w(64) + 1, w(128), w(128) + w(64) + 1, w(160) + w(33) - 1,
    ];
    let e = &es[ctx::choose("e", es.len())];
    let r = if ctx::choose("type", 2) == 1 { &ea ^ &ub(e) } else { &ea ^ e };
    let mut j: BigInt = e % &n;
    if j == zi(0) {
        j = n;
    }
    let mut want = a.clone();
    while j > zi(1) {
        want = want.mul(&a);
        j -= 1;
    }
    ctx::check("a^e = a^(e mod p^2-1)", || rd(&r, &rp).eq(&want));
}
/// A base in the subfield: real and purely imaginary elements to any multiple-word exponent of closed form.
fn refused(p: &BigInt) {
    let f = fp2(p);
    let rp = Rc::new(p.clone());
    let ea = el(&f, &any("a", &rp));
    match ctx::choose("op", 3) {
        0 => {
            let e = [0u32, 1, 3, 4, 1 << 16, 1 << 31, u32::MAX, u32::MAX - 1][ctx::choose("e", 8)];
            panics("an undocumented u32 exponent is refused", || &ea ^ e)
        }
        1 => {
            let e = [0i32, 1, 2, -2, i32::MIN, i32::MAX, 255, -256][ctx::choose("e", 8)];
            panics("an undocumented i32 exponent is refused", || &ea ^ e)
        }
        _ => {
            let e = [0u32, 2, 3, u32::MAX, 1 << 31][ctx::choose("e", 5)];
            panics("a numerator other than 1 is refused", || e / &ea)
        }
    }
}

/// Squares are recognised, and so are non-squares: nu*(u+iv)^2 with nu a fixed non-square.
fn residuosity(p: &BigInt) {
    let f = fp2(p);
    let rp = Rc::new(p.clone());
    let q = any("q", &rp);
    q.norm_fact();
    let s = q.mul(&q);
    let which = ctx::choose("class", 2);
    let n = q.norm();
    let (a, w) = if which == 0 {
        (s, n.sq())
    } else {
        // a + i with a^2 + 1 a non-square has a non-square norm, hence is a non-square
        let mut t = 0i64;
        let nu = loop {
            let c = q.k(t, 1);
            let v = c.norm();
            if !v.is_zero() && !ctx::is_square_nz(&v) {
                break c;
            }
            t += 1;
        };
        (s.mul(&nu), n.sq() * nu.norm())
    };
    ctx::hint_prod(&a.norm(), &w);
    let r = el(&f, &a).is_square();
    ctx::check("is_square holds exactly for squares", || r == (which == 0 || q.is_zero()));
}
fn sign(p: &BigInt) {
    let f = fp2(p);
    let rp = Rc::new(p.clone());
    let (a, b) = (any("a", &rp), any("b", &rp));
    let (ea, eb) = (el(&f, &a), el(&f, &b));
    let s = ea.sgn0();
    let odd = if a.re.is_zero() { a.im.odd() } else { a.re.odd() };
    ctx::check("sgn0 is the sign of the first nonzero component", || s == if odd { -1 } else { 1 });
    if !a.is_zero() {
        let t = (-&ea).sgn0();
        ctx::check("a and -a have opposite signs", || s == -t);
    }
    let c = ctx::choose("cond", 2) == 1;
    let r = Fp2Elt::cmov(&ea, &eb, c);
    ctx::check("cmov selects the second operand exactly when asked", || if c { r == eb } else { r == ea });
}
/// Tiny fields: sqrt runs its exponentiations on polynomials reduced by x^p = x.
fn root(p: &BigInt, h: usize) {
    let f = fp2(p);
    let rp = Rc::new(p.clone());
    let g = f.clone();
    match h {
        0 => {}
        1 => {
            let _ = el(&g, &C { re: R::new(&zi(2), &rp), im: R::new(&zi(1), &rp) }).sqrt();
        }
        _ => {
            let o = fp2(&zi(19));
            let _ = o.elt(zi(4)).sqrt();
            let _ = g.zero().sqrt();
        }
    }
    let q = any("q", &rp);
    q.norm_fact();
    let a = q.mul(&q);
    let ea = el(&f, &a);
    let r = rd(&ea.sqrt(), &rp);
    ctx::check("the root of a square squares to it", || r.mul(&r).eq(&a));
}

fn mixed(p: &BigInt, q: &BigInt) {
    let (fa, fb) = (fp2(p), fp2(q));
    let (a, b) = (any("a", &Rc::new(p.clone())), any("b", &Rc::new(q.clone())));
    let (ea, eb) = (el(&fa, &a), el(&fb, &b));
    let m = "elements of different fields are refused";
    match ctx::choose("op", 6) {
        0 => (0..4).for_each(|v| panics(m, || variants!(v, ea, eb, +))),
        1 => (0..4).for_each(|v| panics(m, || variants!(v, ea, eb, -))),
        2 => (0..4).for_each(|v| panics(m, || variants!(v, ea, eb, *))),
        3 => (0..4).for_each(|v| panics(m, || variants!(v, ea, eb, /))),
        4 => ctx::check("elements of different fields are not equal", || !(ea == eb) && ea != eb && fa != fb),
        _ => {
            let again = fp2(q);
            let e2 = el(&again, &b);
            let s = &eb + &e2;
            ctx::check("two instances with one modulus are one field", || again == fb && e2 == eb && rd(&s, &b.re.p).eq(&b.add(&b)));
        }
    }
}
pub fn add(v: &mut Vec<Case>) {
    for (n, p, q) in super::field::field_pairs() {
        v.push(case("C15", format!("quadratic-fields/{}", n), "Fp2Elt operators and ==", "any element of each of two fields, every operator form", move || mixed(&p, &q)));
    }
    for q in [3i64, 7, 11, 19, 23, 31] {
        for h in 0..3 {
            let p = zi(q);
            v.push(case("C05", format!("sqrt/f{}/h{}", q, h), "Fp2Elt::sqrt, Fp2::{get_sqrt_precmp,calc_sqrt_precmp}", "the square of any element of GF(p^2), p in {3,7,11,19,23,31}; three histories", move || root(&p, h)));
        }
    }
    for (n, p) in primes34() {
        let tiny = p < zi(64);
        macro_rules! c {
            ($prop:expr, $name:expr, $fns:expr, $bound:expr, $f:expr) => {{
                let q = p.clone();
                let f = $f;
                v.push(case($prop, format!("{}/{}", $name, n), $fns, $bound, move || f(&q)));
            }};
        }
        c!("C04", "ring", "Fp2Elt::{add,sub,mul,neg,bitxor(u32),eq,fmt}, Fp2::from(&str)", "all pairs of elements, all operator forms", ring);
        c!("C04", "recognise", "Fp2Elt::{is_zero,is_one,eq,set_zero,set_one}", "all pairs of elements", recognise);
        c!("C04", "inverse", "Fp2Elt::{inv_mod,bitxor(i32)}, u32 / Fp2Elt", "all elements, all forms", inverse);
        c!("C04", "division", "Fp2Elt::{div,inv_mod}", "all pairs of elements, all forms", division);
        c!("C04", "power", "Fp2Elt::bitxor(&BigInt|&BigUint)", "all elements, exponents -3..6", power);
        c!("C04", "refused", "Fp2Elt::bitxor(u32|i32), u32 / Fp2Elt", "all elements; a table of exponents", refused);
        if tiny {
            c!("C04", "sparsepower", "Fp2Elt::bitxor(&BigInt|&BigUint)", "all elements of GF(p^2), p in {3,7,11}; sixteen exponents with empty, full and boundary words", move |q: &BigInt| power_sparse(q));
            for bits in [29usize, 33, 61, 96, 130] {
              c!("C04", format!("longpower{}", bits), "Fp2Elt::bitxor(&BigInt|&BigUint)", "all elements of GF(p^2), p in {3,7,11}; exponents of up to five words, of either sign", move |q: &BigInt| power_long(q, bits));
            }
        }
        c!("C05", "is_square", "Fp2Elt::is_square", "every square, and every non-square written nu*q^2", residuosity);
        c!("C05", "sign", "Fp2Elt::{sgn0,cmov}", "all elements", sign);
    }
}
