//! C01 ring operations, C02 inverse/division/powers, C03 square roots and sign of Fp.
use super::util::*;
use crate::ctx;
use crate::refmath::R;
use crate::variants;
use crate::{case, Case};
use num_bigint::BigInt;
use num_traits::{One, Zero};
use redox_ecc::field::{CMov, Field, Sgn0, Sqrt};
use redox_ecc::primefield::FpElt;
use std::rc::Rc;

fn wide() -> BigInt {
    BigInt::from(1) << 600usize
}
fn ring(p: &BigInt) {
    let f = fp(p);
    let rp = Rc::new(p.clone());
    let big = wide();
    let a = ctx::int("a", &-&big, &big);
    let b = ctx::int("b", &-&big, &big);
    let (ra, rb) = (R::new(&a, &rp), R::new(&b, &rp));
    let (ea, eb) = (f.elt(a), f.elt(b));
    let k = ctx::choose("variant", 4);
    let (r, want) = match ctx::choose("op", 7) {
        0 => (variants!(k, ea, eb, +), &ra + &rb),
        1 => (variants!(k, ea, eb, -), &ra - &rb),
        2 => (variants!(k, ea, eb, *), &ra * &rb),
        3 => (if k & 1 == 0 { -&ea } else { -ea.clone() }, -&ra),
        4 => (
            if k & 1 == 0 { &ea ^ 2u32 } else { ea.clone() ^ 2u32 },
            ra.sq(),
        ),
        5 => (f.zero(), ra.k(0)),
        _ => (f.one(), ra.k(1)),
    };
    ctx::check("result has the canonical residue", || r == f.elt(want.v.clone()));
    ctx::check("displayed value is the residue", || rv(&r, &rp) == want && val(&r) == want.v);
    ctx::check("elements with different residues differ", || r != f.elt(&want.v + 1));
}
fn recognise(p: &BigInt) {
    let f = fp(p);
    let rp = Rc::new(p.clone());
    let big = wide();
    let a = ctx::int("a", &-&big, &big);
    let b = ctx::int("b", &-&big, &big);
    let (ra, rb) = (R::new(&a, &rp), R::new(&b, &rp));
    let (mut ea, eb) = (f.elt(a), f.elt(b));
    ctx::check("is_zero is exact", || ea.is_zero() == ra.is_zero());
    ctx::check("is_one is exact", || ea.is_one() == (ra == ra.k(1)));
    ctx::check("== is congruence", || (ea == eb) == (ra == rb));
    ctx::check("!= is its opposite", || (ea != eb) == (ra != rb));
    ctx::check("zero and one are the residues 0 and 1", || {
        f.zero() == f.elt(zi(0)) && f.one() == f.elt(zi(1)) && f.zero().is_zero() && f.one().is_one()
    });
    if ctx::choose("set", 2) == 0 {
        ea.set_zero();
        ctx::check("set_zero", || ea == f.zero());
    } else {
        ea.set_one();
        ctx::check("set_one", || ea == f.one());
    }
}

fn inverse(p: &BigInt) {
    let f = fp(p);
    let rp = Rc::new(p.clone());
    let big = wide();
    let a = ctx::int("a", &-&big, &big);
    let ra = R::new(&a, &rp);
    let ea = f.elt(a);
    let r = match ctx::choose("form", 3) {
        0 => 1u32 / &ea,
        1 => &ea ^ -1i32,
        _ => ea.clone() ^ -1i32,
    };
    ctx::check("the inverse of 0 is 0, and a * a^-1 = 1 otherwise", || {
        let v = rv(&r, &rp);
        if ra.is_zero() {
            v.is_zero()
        } else {
            &v * &ra == ra.k(1)
        }
    });
    ctx::check("result is canonical", || r == f.elt(ra.inv0().v));
}
fn division(p: &BigInt) {
    let f = fp(p);
    let rp = Rc::new(p.clone());
    let big = wide();
    let a = ctx::int("a", &-&big, &big);
    let b = ctx::int("b", &-&big, &big);
    let (ra, rb) = (R::new(&a, &rp), R::new(&b, &rp));
    let (ea, eb) = (f.elt(a), f.elt(b));
    let k = ctx::choose("variant", 4);
    let r = variants!(k, ea, eb, /);
    ctx::check("a/b = a * b^-1 (b = 0 gives 0)", || rv(&r, &rp) == &ra * rb.inv0());
}
fn power(p: &BigInt) {
    let f = fp(p);
    let rp = Rc::new(p.clone());
    let a = ctx::int("a", &zi(0), p);
    let ra = R::new(&a, &rp);
    let ea = f.elt(a);
    let n: BigInt = p - 1;
    // exponents whose power has a closed form: j + k(p-1)
    let j = ctx::choose("j", 9) as i64 - 4;
    let k = [0i64, 1, 2, 7, -1, -3][ctx::choose("k", 6)];
    let e: BigInt = &n * zi(k) + zi(j);
    let big = ctx::choose("type", 2) == 0;
    if !big && e < zi(0) {
        return ctx::check("a BigUint is never negative", || true);
    }
    let r = if big { &ea ^ &e } else { &ea ^ &ub(&e) };
    let mut want = ra.k(1);
    if ra.is_zero() {
        want = if e.is_zero() { ra.k(1) } else { ra.k(0) };
    } else {
        let b = if j < 0 { ra.inv() } else { ra.clone() };
        for _ in 0..j.abs() {
            want = want * &b;
        }
    }
    ctx::check("a^(j + k(p-1)) = a^j", || rv(&r, &rp) == want);
}
fn power_any(p: &BigInt) {
    let f = fp(p);
    let rp = Rc::new(p.clone());
    let a = ctx::int("a", &zi(0), p);
    let ra = R::new(&a, &rp);
    let ea = f.elt(a);
    let big = wide();
    if ctx::choose("type", 2) == 0 {
        let e = ctx::int("e", &-&big, &big);
        let r = &ea ^ &e;
        ctx::check("power with any integer exponent", || rv(&r, &rp) == ra.pow(&e));
    } else {
        let e = ctx::int("e", &zi(0), &big);
        let r = &ea ^ &ub(&e);
        ctx::check("power with any natural exponent", || rv(&r, &rp) == ra.pow(&e));
    }
}
fn refused(p: &BigInt) {
    let f = fp(p);
    let ea = f.elt(ctx::int("a", &zi(0), p));
    match ctx::choose("op", 3) {
        0 => {
            let e = [0u32, 1, 3, 4, 1 << 16, 1 << 31, u32::MAX, u32::MAX - 1][ctx::choose("e", 8)];
            match ctx::choose("form", 2) {
                0 => panics("an undocumented u32 exponent is refused", || &ea ^ e),
                _ => panics("an undocumented u32 exponent is refused", || ea.clone() ^ e),
            }
        }
        1 => {
            let e = [0i32, 1, 2, -2, i32::MIN, i32::MAX, 255, -256][ctx::choose("e", 8)];
            match ctx::choose("form", 2) {
                0 => panics("an undocumented i32 exponent is refused", || &ea ^ e),
                _ => panics("an undocumented i32 exponent is refused", || ea.clone() ^ e),
            }
        }
        _ => {
            let e = [0u32, 2, 3, u32::MAX, 1 << 31][ctx::choose("e", 5)];
            panics("a numerator other than 1 is refused", || e / &ea)
        }
    }
}

/// Earlier uses of the field, or of a clone of it, that touch its cached constants.
fn history(f: &redox_ecc::primefield::Fp, h: usize, p: &BigInt) {
    let g = f.clone();
    match h {
        0 => {}
        1 => {
            let _ = g.elt(zi(0)).sqrt();
        }
        2 => {
            let _ = f.elt(zi(4)).sqrt();
            let _ = g.elt(zi(2)).is_square();
        }
        3 => {
            let _ = g.elt(ctx::int("b", &zi(0), p)).sqrt();
            let _ = 1u32 / &f.elt(zi(2));
        }
        _ => {
            // another field used first
            let o = fp(&zi(if p == &zi(13) { 29 } else { 13 }));
            let _ = o.elt(zi(4)).sqrt();
        }
    }
}
fn square(p: &BigInt) {
    let f = fp(p);
    let rp = Rc::new(p.clone());
    let a = felt("a", p);
    let ra = R::new(&a, &rp);
    let ea = f.elt(a);
    let r = ea.is_square();
    ctx::check("is_square holds exactly for squares", || r == ra.is_square());
}
fn root(p: &BigInt, h: usize) {
    let f = fp(p);
    history(&f, h, p);
    let rp = Rc::new(p.clone());
    let q = R::new(&felt("q", p), &rp);
    let a = q.sq();
    ctx::hint_sq(&a, &q);
    let ea = f.elt(a.v.clone());
    let r = ea.sqrt();
    ctx::check("the root of a square squares to it", || rv(&r, &rp).sq() == a && &r * &r == ea);
    ctx::check("squares are recognised", || ea.is_square());
}
fn sign(p: &BigInt) {
    let f = fp(p);
    let rp = Rc::new(p.clone());
    let big = wide();
    let a = ctx::int("a", &-&big, &big);
    let ra = R::new(&a, &rp);
    let ea = f.elt(a);
    let s = ea.sgn0();
    ctx::check("sgn0 is -1 exactly for odd residues", || s == if ra.odd() { -1 } else { 1 });
    if !ra.is_zero() {
        let t = (-&ea).sgn0();
        ctx::check("a and -a have opposite signs", || s == -t);
    }
    let eb = f.elt(ctx::int("b", &zi(0), p));
    let c = ctx::choose("cond", 2) == 1;
    let r = FpElt::cmov(&ea, &eb, c);
    ctx::check("cmov selects the second operand exactly when asked", || if c { r == eb } else { r == ea });
}

/// Elements of two fields never combine and are never equal; two instances of one field are the same field.
fn mixed(p: &BigInt, q: &BigInt) {
    let (fa, fb) = (fp(p), fp(q));
    let (a, b) = (felt("a", p), felt("b", q));
    let (ea, eb) = (fa.elt(a), fb.elt(b.clone()));
    let m = "elements of different fields are refused";
    match ctx::choose("op", 6) {
        0 => (0..4).for_each(|v| panics(m, || variants!(v, ea, eb, +))),
        1 => (0..4).for_each(|v| panics(m, || variants!(v, ea, eb, -))),
        2 => (0..4).for_each(|v| panics(m, || variants!(v, ea, eb, *))),
        3 => (0..4).for_each(|v| panics(m, || variants!(v, ea, eb, /))),
        4 => ctx::check("elements of different fields are not equal", || !(ea == eb) && ea != eb && fa != fb),
        _ => {
            let again = fp(q);
            let e2 = again.elt(b.clone());
            let s = &eb + &e2;
            ctx::check("two instances with one modulus are one field", || again == fb && e2 == eb && s == fb.elt(&b + &b));
        }
    }
}
pub fn field_pairs() -> Vec<(String, BigInt, BigInt)> {
    let v = any_size_primes();
    let mut o = vec![];
    for k in 0..v.len() {
        let l = (k + 3) % v.len();
        o.push((format!("{}-{}", v[k].0, v[l].0), v[k].1.clone(), v[l].1.clone()));
    }
    o
}
pub fn add(v: &mut Vec<Case>) {
    for (n, p, q) in field_pairs() {
        v.push(case("C15", format!("fields/{}", n), "FpElt operators and ==", "any element of each of two fields, every operator form", move || mixed(&p, &q)));
    }
    for (n, p) in any_size_primes() {
        let q = p.clone();
        v.push(case(
            "C01",
            format!("ring/{}", n),
            "Fp::{elt,zero,one}, FpElt::{add,sub,mul,neg,bitxor(u32),eq,fmt}",
            "operands are arbitrary integers in (-2^600, 2^600), all operator forms; one operation",
            move || ring(&q),
        ));
        let q = p.clone();
        v.push(case(
            "C01",
            format!("recognise/{}", n),
            "FpElt::{is_zero,is_one,eq,set_zero,set_one}",
            "operands are arbitrary integers in (-2^600, 2^600)",
            move || recognise(&q),
        ));
        let q = p.clone();
        v.push(case("C02", format!("inverse/{}", n), "FpElt::{inv_mod,bitxor(i32)}, u32 / FpElt", "any integer in (-2^600, 2^600), all forms", move || inverse(&q)));
        let q = p.clone();
        v.push(case("C02", format!("division/{}", n), "FpElt::{div,inv_mod}", "any two integers in (-2^600, 2^600), all forms", move || division(&q)));
        let q = p.clone();
        v.push(case("C02", format!("power/{}", n), "FpElt::bitxor(&BigInt|&BigUint)", "any residue; exponents j+k(p-1), |j|<=4, k in {-3,-1,0,1,2,7}", move || power(&q)));
        let q = p.clone();
        v.push(case("C02", format!("anypower/{}", n), "FpElt::bitxor(&BigInt|&BigUint)", "any residue, any exponent in (-2^600, 2^600); modpow itself uninterpreted", move || power_any(&q)));
        let q = p.clone();
        v.push(case("C02", format!("refused/{}", n), "FpElt::bitxor(u32|i32), u32 / FpElt", "any residue; a table of exponents", move || refused(&q)));
        let q = p.clone();
        v.push(case("C03", format!("is_square/{}", n), "FpElt::is_square", "any residue", move || square(&q)));
        for h in 0..5 {
            let q = p.clone();
            v.push(case(
                "C03",
                format!("sqrt/{}/h{}", n, h),
                "FpElt::sqrt, Fp::{get_sqrt_precmp,calc_sqrt_precmp}",
                "the square of any residue; five histories of the field's cached constants",
                move || root(&q, h),
            ));
        }
        let q = p.clone();
        v.push(case("C03", format!("sign/{}", n), "FpElt::{sgn0,cmov}", "any integer in (-2^600, 2^600)", move || sign(&q)));
    }
}
