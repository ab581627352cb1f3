//! Twisted Edwards curves: C12 group law, C13 multiples, C14 equality, C15 validation,
//! C16 encoding, C18 decoding.
use super::util::*;
use crate::consts::{self, K};
use crate::ctx;
use crate::refmath::R;
use crate::variants;
use crate::{case, Case};
use num_bigint::{BigInt, Sign};
use redox_ecc::edwards as lib;
use redox_ecc::ellipticcurve::{Decode, EcPoint, EllipticCurve, Encode};
use redox_ecc::field::Field;
use redox_ecc::instances::{self, GetCurve};
use redox_ecc::primefield::FpElt;
use redox_ecc::verif::{te_coords as coords, te_point as mkpt};
use std::rc::Rc;

const ADDFNS: &str = "edwards::Point::{add,sub,neg,core_add,core_neg}, Curve::{new_proy_point,is_on_curve}, Fp ring";
const MULFNS: &str = "edwards::Point::{mul,core_mul,core_add}, Scalar::iter_lr, Curve::{new_scalar,get_generator,get_order}";
pub const KS: &[&K] = &[&consts::EDWARDS25519, &consts::EDWARDS448];

pub type Pt = (R, R);

/// a x^2 + y^2 = 1 + d x^2 y^2
#[derive(Clone)]
pub struct Ed {
    pub a: R,
    pub d: R,
}
impl Ed {
    pub fn on(&self, p: &Pt) -> bool {
        &self.a * p.0.sq() + p.1.sq() == self.a.k(1) + &self.d * p.0.sq() * p.1.sq()
    }
    pub fn zero(&self) -> Pt {
        (self.a.k(0), self.a.k(1))
    }
    pub fn neg(&self, p: &Pt) -> Pt {
        (-&p.0, p.1.clone())
    }
    fn e(&self, p: &Pt, q: &Pt) -> R {
        &self.d * &p.0 * &q.0 * &p.1 * &q.1
    }
    /// The addition law is complete: d x1 x2 y1 y2 is never 1 or -1 (a square, d not; proved in `lemma`).
    pub fn complete(&self, p: &Pt, q: &Pt) {
        let (e, one) = (self.e(p, q), self.a.k(1));
        ctx::fact(&[(false, &e, &one)]);
        ctx::fact(&[(false, &e, &-&one)]);
        ctx::fact(&[(false, &e.sq(), &one)]);
    }
    pub fn add(&self, p: &Pt, q: &Pt) -> Pt {
        let (e, one) = (self.e(p, q), self.a.k(1));
        let x = (&p.0 * &q.1 + &p.1 * &q.0) * (&one + &e).inv();
        let y = (&p.1 * &q.1 - &self.a * &p.0 * &q.0) * (&one - &e).inv();
        (x, y)
    }
}
pub struct In {
    pub k: &'static K,
    pub p: Rc<BigInt>,
    pub e: lib::Curve,
    pub c: Ed,
}
/// the built-in curves with one parameter changed (d stays a non-square)
const NEAR: &[&K] = &[
    &K { name: "edwards25519_d", b: "2", ..consts::EDWARDS25519 },
    &K { name: "edwards25519_a", a: "1", ..consts::EDWARDS25519 },
    &K { name: "edwards448_r", r: "181709681073901722637330951972001133588410340171829515070372549795146003961539585716195755291692375963310293709091662304773755859649781", ..consts::EDWARDS448 },
];
/// pairs of curves whose points must not mix
const PAIRS: &[(&str, &str)] = &[
    ("edwards25519", "edwards448"), ("edwards448", "edwards25519"), ("edwards25519", "edwards25519_d"), ("edwards25519", "edwards25519_a"),
    ("edwards25519_a", "edwards25519_d"), ("edwards448", "edwards448_r"),
];
pub fn getc(k: &K) -> lib::Curve {
    match k.name {
        "edwards25519" => instances::EDWARDS25519.get(),
        "edwards448" => instances::EDWARDS448.get(),
        _ => lib::Curve::from(&lib::Params { name: k.name, p: k.p, a: k.a, d: k.b, r: k.r, h: k.h, gx: k.gx, gy: k.gy }),
    }
}
pub fn inst(k: &'static K) -> In {
    let p = Rc::new(z(k.p));
    let r = |s: &str| R::new(&z(s), &p);
    In { k, e: getc(k), c: Ed { a: r(k.a), d: r(k.b) }, p }
}
impl In {
    pub fn el(&self, v: &R) -> FpElt {
        self.e.get_field().elt(v.v.clone())
    }
    pub fn pt(&self, c: &[R; 4]) -> lib::Point {
        mkpt(&self.e, self.el(&c[0]), self.el(&c[1]), self.el(&c[2]), self.el(&c[3]))
    }
    pub fn is(&self, r: &lib::Point, want: &Pt) -> bool {
        let [x, y, t, z] = coords(r);
        let (x, y, t, z) = (rv(&x, &self.p), rv(&y, &self.p), rv(&t, &self.p), rv(&z, &self.p));
        !z.is_zero() && x == &want.0 * &z && y == &want.1 * &z && &t * &z == &x * &y
    }
    pub fn zero(&self, p: &Pt) -> bool {
        p.0.is_zero() && p.1 == p.1.k(1)
    }
}
/// Any point of the curve.
pub fn point(n: &str, c: &Ed, near: &[&Pt]) -> Pt {
    let p = c.a.p.clone();
    let (nx, ny) = (format!("{}.x", n), format!("{}.y", n));
    let one = c.a.k(1);
    if ctx::random_mode() {
        let mut cand: Vec<Pt> = vec![];
        match ctx::coin(4) {
            0 => {
                for q in near {
                    cand.push((*q).clone());
                    cand.push(c.neg(q));
                    cand.push((q.0.clone(), -&q.1));
                    cand.push((-&q.0, -&q.1));
                }
            }
            1 => {
                cand.push(c.zero());
                cand.push((c.a.k(0), -&one));
                if let Some(s) = sqrt_native(&c.a.inv()) {
                    cand.push((s.clone(), c.a.k(0)));
                    cand.push((-&s, c.a.k(0)));
                }
            }
            _ => {}
        }
        let pt = if cand.is_empty() {
            loop {
                let x = R::new(&ctx::rnd(&p), &p);
                let w = (&one - &c.d * x.sq()).inv();
                if let Some(y) = sqrt_native(&((&one - &c.a * x.sq()) * w)) {
                    break (x, if ctx::coin(2) == 0 { y } else { -y });
                }
            }
        } else {
            cand[ctx::coin(cand.len() as u32) as usize].clone()
        };
        ctx::put(&nx, &pt.0.v);
        ctx::put(&ny, &pt.1.v);
        return pt;
    }
    let x = R::new(&felt(&nx, &p), &p);
    let y = R::new(&felt(&ny, &p), &p);
    // d is not a square, so the denominator never vanishes
    let w = (&one - &c.d * x.sq()).inv();
    ctx::assume_eq(&y.sq(), &((&one - &c.a * x.sq()) * w));
    (x, y)
}
/// Any extended representative.
pub fn rep(n: &str, a: &Pt, p: &Rc<BigInt>) -> [R; 4] {
    let k = R::new(&unit(&format!("{}.k", n), p), p);
    [&a.0 * &k, &a.1 * &k, &a.0 * &a.1 * &k, k]
}

fn group(i: &In, op: usize) {
    let p1 = point("P", &i.c, &[]);
    let l1 = i.pt(&rep("P", &p1, &i.p));
    if op == 2 {
        let r = if ctx::choose("form", 2) == 0 { -&l1 } else { -l1.clone() };
        ctx::check("negation", || i.is(&r, &i.c.neg(&p1)));
        return;
    }
    let p2 = point("Q", &i.c, &[&p1]);
    let l2 = i.pt(&rep("Q", &p2, &i.p));
    i.c.complete(&p1, &p2);
    let n2 = i.c.neg(&p2);
    let v = ctx::choose("form", 4);
    if op == 0 {
        let r = variants!(v, l1, l2, +);
        ctx::check("sum is the Edwards sum, with its extended coordinate", || i.is(&r, &i.c.add(&p1, &p2)));
    } else {
        let r = variants!(v, l1, l2, -);
        ctx::check("difference is the Edwards sum with the negative", || i.is(&r, &i.c.add(&p1, &n2)));
    }
}
fn doubling(i: &In) {
    let p1 = point("P", &i.c, &[]);
    let (l1, l2) = (i.pt(&rep("P", &p1, &i.p)), i.pt(&rep("P2", &p1, &i.p)));
    i.c.complete(&p1, &p1);
    let n1 = i.c.neg(&p1);
    ctx::check("P + P", || i.is(&(&l1 + &l2), &i.c.add(&p1, &p1)));
    ctx::check("P - P is the identity", || {
        let d = &l1 - &l2;
        d.is_zero() && i.is(&d, &i.c.zero())
    });
    ctx::check("P + (-P) is the identity", || i.is(&(&l1 + &i.pt(&rep("P3", &n1, &i.p))), &i.c.zero()));
    ctx::check("P + O = P", || i.is(&(&l1 + &i.e.identity()), &p1) && i.is(&(i.e.identity() + &l1), &p1));
}
/// The facts `complete` relies on.
fn lemma(i: &In) {
    let (a, d) = (i.c.a.clone(), i.c.d.clone());
    ctx::check("a is a square, d is not", || a.is_square() && !d.is_square());
    ctx::check("identity is (0, 1)", || i.is(&i.e.identity(), &i.c.zero()));
    let al = sqrt_native(&a).unwrap();
    ctx::check("alpha^2 = a", || al.sq() == a);
    // Certificate, an identity in any x1, y1, x2, y2 and e = +-1:
    // (alpha x1 + e y1)^2 - d (x1 y1 (alpha x2 + y2))^2 vanishes where both points are on the curve and
    // d x1 x2 y1 y2 = e. As d is not a square, x1 y1 (alpha x2 + y2) = 0 then, for either sign of alpha.
    let f = |n: &str| R::new(&felt(n, &i.p), &i.p);
    let (x1, y1, x2, y2) = (f("x1"), f("y1"), f("x2"), f("y2"));
    let one = a.k(1);
    let c = |x: &R, y: &R| &a * x.sq() + y.sq() - &one - &d * x.sq() * y.sq();
    for e in [one.clone(), -&one] {
        for al in [al.clone(), -&al] {
            let dd = &e - &d * &x1 * &x2 * &y1 * &y2;
            let (l, k) = (&al * &x1 + &e * &y1, &x1 * &y1 * (&al * &x2 + &y2));
            let cert = c(&x1, &y1) - &d * x1.sq() * y1.sq() * c(&x2, &y2) + (&e + &e) * &dd - dd.sq() + (&al + &al) * &x1 * &y1 * &dd;
            ctx::check("certificate", || l.sq() - &d * k.sq() == cert);
        }
    }
    // and both signs together contradict d x1 x2 y1 y2 = e
    let k = |al: &R| &x1 * &y1 * (al * &x2 + &y2);
    if k(&al).is_zero() && k(&-&al).is_zero() {
        ctx::check("both signs force a zero coordinate", || (&x1 * &x2 * &y1 * &y2).is_zero());
    }
}
fn small_multiple(i: &In, k: u32) {
    let p1 = point("P", &i.c, &[]);
    let l1 = i.pt(&rep("P", &p1, &i.p));
    // double and add; sums of three and more are one point by associativity
    let mut acc = i.c.zero();
    let mut top = 32 - k.leading_zeros();
    while top > 0 {
        top -= 1;
        i.c.complete(&acc, &acc);
        acc = i.c.add(&acc, &acc);
        if k >> top & 1 == 1 {
            i.c.complete(&acc, &p1);
            acc = i.c.add(&acc, &p1);
        }
    }
    let s = i.e.new_scalar(zi(k as i64));
    let r = match ctx::choose("form", 5) {
        0 => &l1 * &s,
        1 => l1.clone() * &s,
        2 => &s * &l1,
        3 => s.clone() * &l1,
        _ => s.clone() * l1.clone(),
    };
    ctx::check("k*P is the k-fold sum", || i.is(&r, &acc));
}
/// Native side of the abstract-group harness: k*G by double-and-add on the reference law.
pub fn kmul(i: &In) {
    let k = kmul_scalar(&z(i.k.r));
    let g = (R::new(&z(i.k.gx), &i.p), R::new(&z(i.k.gy), &i.p));
    let mut acc = i.c.zero();
    for j in (0..k.bits()).rev() {
        acc = i.c.add(&acc, &acc);
        if k.bit(j) {
            acc = i.c.add(&acc, &g);
        }
    }
    let r = i.e.get_generator() * i.e.new_scalar(k);
    ctx::check("k*P is the k-fold sum", || i.is(&r, &acc));
}
fn order(i: &In) {
    let r = z(i.k.r);
    let g = i.e.get_generator();
    let want = (R::new(&z(i.k.gx), &i.p), R::new(&z(i.k.gy), &i.p));
    ctx::check("generator is the standard one", || i.is(&g, &want) && i.c.on(&want) && i.e.is_on_curve(&g));
    ctx::check("order and cofactor are the standard ones", || {
        i.e.get_order() == ub(&r) && i.e.get_cofactor() == z(i.k.h) && i.e.get_field().get_modulus() == *i.p
    });
    let minus = &g * i.e.new_scalar(&r - 1);
    ctx::check("(r-1)*G = -G", || minus == -&g && i.is(&minus, &i.c.neg(&want)));
    ctx::check("r*G is the identity", || (&minus + &g).is_zero() && (&g * i.e.new_scalar(r.clone())).is_zero());
    let k: BigInt = (&r - zi(5)) / zi(3);
    let a = &g * i.e.new_scalar(k.clone());
    let b = &g * i.e.new_scalar(&r - &k);
    ctx::check("k*G + (r-k)*G is the identity", || (&a + &b).is_zero() && !a.is_zero());
}
fn equality(i: &In) {
    let p1 = point("P", &i.c, &[]);
    let p2 = point("Q", &i.c, &[&p1]);
    let (l1, l2) = (i.pt(&rep("P", &p1, &i.p)), i.pt(&rep("Q", &p2, &i.p)));
    let same = p1.0 == p2.0 && p1.1 == p2.1;
    ctx::check("== holds exactly for representatives of one point", || (l1 == l2) == same);
    ctx::check("!= is the opposite", || (l1 != l2) != same);
    let zero = i.zero(&p1);
    ctx::check("is_zero holds exactly for the identity", || l1.is_zero() == zero);
    let mut n = l1.clone();
    n.normalize();
    ctx::check("normalize keeps the point", || i.is(&n, &p1) && n == l1);
    let c = coords(&n);
    ctx::check("normalized coordinates are the affine ones", || {
        rv(&c[0], &i.p) == p1.0 && rv(&c[1], &i.p) == p1.1 && rv(&c[2], &i.p) == &p1.0 * &p1.1 && rv(&c[3], &i.p) == p1.0.k(1)
    });
}
fn validation(i: &In) {
    let (x, y) = if ctx::random_mode() && ctx::coin(2) == 0 {
        let (x, y) = point("v", &i.c, &[]);
        (R::new(&ctx::int("x", &x.v, &(&x.v + 1)), &i.p), R::new(&ctx::int("y", &y.v, &(&y.v + 1)), &i.p))
    } else {
        (R::new(&felt("x", &i.p), &i.p), R::new(&felt("y", &i.p), &i.p))
    };
    let ok = i.c.on(&(x.clone(), y.clone()));
    let r = ctx::catch(|| i.e.new_point(i.el(&x), i.el(&y)));
    match r {
        Ok(pt) => {
            ctx::check("an off-curve pair is refused", || ok);
            ctx::check("the point has the given coordinates", || i.is(&pt, &(x.clone(), y.clone())));
            ctx::check("is_on_curve agrees", || i.e.is_on_curve(&pt));
        }
        Err(_) => ctx::check("an on-curve pair is accepted", || !ok),
    }
}
/// Any extended coordinates with Z nonzero: accepted exactly when they are the ones of a point.
fn validation_ext(i: &In) {
    let f = |n: &str| R::new(&felt(n, &i.p), &i.p);
    let on;
    let c = if ctx::random_mode() && ctx::coin(2) == 0 {
        let q = point("v", &i.c, &[]);
        let c = rep("v", &q, &i.p);
        let g = |n: &str, v: &R| R::new(&ctx::int(n, &v.v, &(&v.v + 1)), &i.p);
        [g("X", &c[0]), g("Y", &c[1]), g("T", &c[2]), g("Z", &c[3])]
    } else {
        [f("X"), f("Y"), f("T"), R::new(&unit("Z", &i.p), &i.p)]
    };
    let zi = c[3].inv();
    let q = (&c[0] * &zi, &c[1] * &zi);
    on = &c[2] * &c[3] == &c[0] * &c[1] && i.c.on(&q);
    match ctx::catch(|| i.pt(&c)) {
        Ok(pt) => {
            ctx::check("coordinates off the curve are refused", || on);
            ctx::check("is_on_curve agrees", || i.e.is_on_curve(&pt));
        }
        Err(_) => ctx::check("coordinates of a point are accepted", || !on),
    }
}
/// Points constructed on one curve are judged by another curve's own equation (one field).
fn validation_proj(i: &In, j: &In) {
    let q = point("Q", &j.c, &[]);
    let pt = j.pt(&rep("Q", &q, &j.p));
    let on = i.e.is_on_curve(&pt);
    let want = i.c.on(&q);
    ctx::check("is_on_curve is the curve equation", || on == want);
}
/// Operands of different curves.
fn mixed_points(i: &In, j: &In) {
    let (p1, p2) = (point("P", &i.c, &[]), point("Q", &j.c, &[]));
    let (l1, l2) = (i.pt(&rep("P", &p1, &i.p)), j.pt(&rep("Q", &p2, &j.p)));
    match ctx::choose("op", 4) {
        0 => {
            let v = ctx::choose("form", 4);
            panics("the sum of points of different curves is refused", || variants!(v, l1, l2, +));
        }
        1 => {
            let v = ctx::choose("form", 4);
            panics("the difference of points of different curves is refused", || variants!(v, l1, l2, -));
        }
        2 => ctx::check("points of different curves are not equal", || !(l1 == l2) && l1 != l2),
        _ => ctx::check("different curves are not equal", || i.e != j.e && !(i.e == j.e)),
    }
}
/// A scalar of another order.
fn mixed_scalar(i: &In, j: &In) {
    let p1 = point("P", &i.c, &[]);
    let l1 = i.pt(&rep("P", &p1, &i.p));
    // (small scalars first: if they are not refused, those paths are short)
    let s = match ctx::choose("scalar", 4) {
        3 => j.e.new_scalar(felt("k", &z(j.k.r))),
        n => j.e.new_scalar(BigInt::from(n + 1)),
    };
    let v = ctx::choose("form", 6);
    panics("a scalar of another order is refused", || match v {
        0 => &l1 * &s,
        1 => l1.clone() * &s,
        2 => &s * &l1,
        3 => s.clone() * &l1,
        4 => &l1 * s.clone(),
        _ => s.clone() * l1.clone(),
    });
}
/// Coordinates of another field.
fn mixed_coords(i: &In, j: &In) {
    let c = [felt("a", &i.p), felt("b", &i.p), felt("c", &j.p), felt("d", &j.p)];
    let (fi, fj) = (i.e.get_field(), j.e.get_field());
    let k = ctx::choose("which", 3);
    panics("coordinates of another field are refused", || match k {
        0 => i.e.new_point(fj.elt(c[2].clone()), fj.elt(c[3].clone())),
        1 => i.e.new_point(fi.elt(c[0].clone()), fj.elt(c[3].clone())),
        _ => i.e.new_point(fj.elt(c[2].clone()), fi.elt(c[1].clone())),
    });
}
fn roundtrip(i: &In) {
    let size = (i.p.bits() as usize + 8) / 8;
    let p1 = point("P", &i.c, &[]);
    let (x, y) = (&p1.0, &p1.1);
    let one = x.k(1);
    let l1 = i.pt(&rep("P", &p1, &i.p));
    let enc = l1.encode(ctx::choose("compress", 2) == 1);
    ctx::check("length", || enc.len() == size);
    let mut body = enc.clone();
    let top = body[size - 1] & 0x80;
    body[size - 1] &= 0x7f;
    ctx::check("the low bits are y, little-endian", || BigInt::from_bytes_le(Sign::Plus, &body) == y.v);
    ctx::check("the top bit is the sign of x", || (top != 0) == x.odd());
    // x^2 = (y^2 - 1) / (d y^2 - a), and the denominator never vanishes because a/d is not a square
    let v = &i.c.d * y.sq() - &i.c.a;
    ctx::fact(&[(false, &v, &x.k(0))]);
    ctx::hint_sq(&((y.sq() - &one) * v.inv()), x);
    match i.e.decode(&enc) {
        Ok(q) => ctx::check("decode(encode(P)) = P", || i.is(&q, &p1) && q == l1),
        Err(e) => ctx::fail(Box::leak(format!("decode refuses what encode wrote ({})", e).into_boxed_str())),
    }
}
/// `tops`: the values of the byte that holds the sign bit.
fn decode_total(i: &In, tops: Vec<usize>) {
    let size = (i.p.bits() as usize + 8) / 8;
    let (top, rest) = if ctx::random_mode() && ctx::coin(2) == 0 {
        let (x, y) = point("v", &i.c, &[]);
        let hi: BigInt = &y.v >> (8 * (size - 1));
        let lo = &y.v - (&hi << (8 * (size - 1)));
        let t = hi.to_u32_digits().1.first().copied().unwrap_or(0) as usize + if x.odd() { 128 } else { 0 };
        let at = tops.iter().position(|x| *x == t);
        ctx::assume(at.is_some());
        (tops[ctx::force("top", tops.len(), at.unwrap())], ctx::int("rest", &lo, &(&lo + 1)))
    } else {
        (tops[ctx::choose("top", tops.len())], ctx::int("rest", &zi(0), &(BigInt::from(1) << (8 * (size - 1)))))
    };
    let mut buf: Vec<u8> = ctx::bytes_be(&rest, size - 1).into_iter().rev().collect();
    buf.push(top as u8);
    let r = i.e.decode(&buf);
    let yv = (zi((top & 127) as i64) << (8 * (size - 1))) + &rest;
    let neg = top >= 128;
    if yv >= *i.p {
        return ctx::check("y >= p is refused", || r.is_err());
    }
    let y = R::new(&yv, &i.p);
    let one = y.k(1);
    let v = &i.c.d * y.sq() - &i.c.a;
    ctx::fact(&[(false, &v, &y.k(0))]);
    let xx = (y.sq() - &one) * v.inv();
    if xx.is_zero() {
        return ctx::check("x = 0 decodes from a clear sign bit only", || match &r {
            Ok(q) => !neg && i.is(q, &(y.k(0), y.clone())),
            Err(_) => neg,
        });
    }
    if !xx.is_square() {
        return ctx::check("y without a point is refused", || r.is_err());
    }
    match r {
        Err(_) => ctx::fail("y of a point is refused"),
        Ok(q) => {
            let [cx, cy, ct, cz] = coords(&q);
            let (cx, cy, ct, cz) = (rv(&cx, &i.p), rv(&cy, &i.p), rv(&ct, &i.p), rv(&cz, &i.p));
            ctx::check("y is the encoded one", || cz == one && cy == y);
            ctx::check("x solves the equation", || cx.sq() == xx);
            ctx::check("x has the encoded sign", || cx.odd() == neg);
            ctx::check("the extended coordinate is xy", || ct == &cx * &cy);
            ctx::check("the point is on the curve", || i.e.is_on_curve(&q));
        }
    }
}
fn decode_lengths(i: &In) {
    let size = (i.p.bits() as usize + 8) / 8;
    let len = ctx::choose("len", 2 * size + 40);
    if len == size {
        return ctx::check("the proper length is covered elsewhere", || true);
    }
    let buf: Vec<u8> = if len >= 8 {
        let mut b: Vec<u8> = ctx::bytes_be(&ctx::int("body", &zi(0), &(BigInt::from(1) << (8 * (len - 1)))), len - 1).into_iter().rev().collect();
        b.push([0u8, 1, 0x7f, 0x80, 0xff][ctx::choose("last", 5)]);
        b
    } else {
        vec![[0u8, 1, 0x7f, 0x80, 255][ctx::choose("fill", 5)]; len]
    };
    let r = i.e.decode(&buf);
    ctx::check("a wrong length is refused", || r.is_err());
}
fn find(n: &str) -> In {
    let all = || KS.iter().chain(NEAR.iter());
    inst(all().find(|k| k.name == n).unwrap())
}
pub fn add(v: &mut Vec<Case>) {
    for (a, b) in PAIRS {
        v.push(case("C15", format!("mixed/{}-{}", a, b), "Point::{add,sub,eq}, Curve::eq", "any point of each of two different curves, every operator form", move || mixed_points(&find(a), &find(b))));
        let (i, j) = (find(a), find(b));
        if i.p == j.p {
            v.push(case("C15", format!("is_on_curve/{}-{}", a, b), "Curve::is_on_curve", "any point of one curve, any representation, judged by the other", move || validation_proj(&find(a), &find(b))));
        } else {
            v.push(case("C15", format!("foreign_coordinates/{}-{}", a, b), "Curve::{new_point,is_on_curve}", "any residues of two fields", move || mixed_coords(&find(a), &find(b))));
        }
        if i.k.r != j.k.r {
            v.push(case("C15", format!("foreign_scalar/{}-{}", a, b), "Point::mul, Scalar::mul", "any point, any scalar of another order", move || mixed_scalar(&find(a), &find(b))));
        }
    }
    for k in KS {
        for (op, on) in [(0, "add"), (1, "sub"), (2, "neg")] {
            v.push(case("C12", format!("{}/{}", on, k.name), ADDFNS, "any two rational points in any extended representation", move || group(&inst(k), op)));
        }
        v.push(case("C12", format!("double/{}", k.name), ADDFNS, "any rational point in two extended representations, its negative, the identity", move || doubling(&inst(k))));
        v.push(case("C12", format!("lemma/{}", k.name), "Curve::identity", "any two rational points: the law's denominators never vanish", move || lemma(&inst(k))));
        for n in [0u32, 1, 2, 3] {
            v.push(case("C13", format!("mul{}/{}", n, k.name), MULFNS, "any rational point, scalar 0..3", move || small_multiple(&inst(k), n)));
        }
        v.push(case("C13", format!("order/{}", k.name), MULFNS, "concrete scalars r, r-1, (r-5)/3, generator", move || order(&inst(k))));
        v.push(case("C14", format!("eq/{}", k.name), "Point::{eq,is_zero,normalize}", "any two points, any representation", move || equality(&inst(k))));
        v.push(case("C15", format!("new_point/{}", k.name), "Curve::{new_point,is_on_curve}", "any pair of residues", move || validation(&inst(k))));
        v.push(case("C15", format!("extended/{}", k.name), "Curve::{new_proy_point,is_on_curve}", "any four residues, Z nonzero", move || validation_ext(&inst(k))));
        v.push(case("C16", format!("roundtrip/{}", k.name), "Point::{encode,normalize}, Curve::decode, FpElt::{sqrt,sgn0,to_bytes_le}", "any point, any representation", move || roundtrip(&inst(k))));
        let all = || (0..256).collect::<Vec<usize>>();
        let some = move || {
            if z(k.p).bits() % 8 == 0 {
                return all(); // nothing but the sign bit lives in that byte
            }
            let mut v = vec![0usize, 1, 2, 4, 8, 16, 32, 64, 0x55, 0x7e, 0x7f];
            v.extend(v.clone().into_iter().map(|x| x + 128));
            v
        };
        v.push(case("C18", format!("decode/{}", k.name), "Curve::{decode,affine_point}, FpElt::{sqrt,sgn0,inv}", "byte strings of the proper length: any lower bytes; the byte holding the sign bit takes 22 values covering each bit (25519) or all values (448)", move || decode_total(&inst(k), some())));
        v.push(case("C18", format!("decode-all/{}", k.name), "Curve::{decode,affine_point}, FpElt::{sqrt,sgn0,inv}", "every byte string of the proper length", move || decode_total(&inst(k), all())).thorough());
        v.push(case("C18", format!("lengths/{}", k.name), "Curve::decode", "every length below 2*size+40", move || decode_lengths(&inst(k))));
    }
}
