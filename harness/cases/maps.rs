//! C19 SSWU and SVDW, C20 Elligator 2, C21 rational maps, C22 isogenies.
use super::curves::{mt, we};
use super::edw::{self, Ed};
use super::util::*;
use crate::consts::{self, K};
use crate::ctx;
use crate::iso;
use crate::refmath::{Aff, Cubic, R};
use crate::{case, Case};
use num_bigint::BigInt;
use redox_ecc::ellipticcurve::{EcPoint, EllipticCurve, Isogeny, MapToCurve, RationalMap};
use redox_ecc::field::Field;
use redox_ecc::instances::{
    edwards25519_to_curve25519, edwards448_to_curve448, get_isogeny_bls12381g1, get_isogeny_secp256k1, GetCurve,
};
use redox_ecc::primefield::{Fp, FpElt};
use redox_ecc::{edwards, instances, montgomery, weierstrass};
use std::rc::Rc;

fn s_lit(v: &BigInt) -> &'static str {
    Box::leak(digits(v, 10).into_boxed_str())
}
pub fn any(n: &str, p: &Rc<BigInt>) -> R {
    R::new(&felt(n, p), p)
}
fn nz(n: &str, p: &Rc<BigInt>) -> R {
    R::new(&unit(n, p), p)
}
/// The square root of the square v with the given parity (0 has only itself).
fn root(n: &str, v: &R, odd: bool) -> R {
    ctx::check("the chosen right-hand side is a square", || v.is_square());
    if ctx::concrete(v) {
        let y = sqrt_native(v).unwrap();
        return if y.odd() == odd { y } else { -y };
    }
    if v.is_zero() {
        return v.clone();
    }
    let y = any(n, &v.p);
    ctx::assume_eq(&y.sq(), v);
    ctx::assume(y.odd() == odd);
    ctx::hint_sq(v, &y);
    y
}
fn we_curve(p: &BigInt, a: &R, b: &R) -> weierstrass::Curve {
    weierstrass::Curve::from(&weierstrass::Params { name: "custom", p: s_lit(p), a: s_lit(&a.v), b: s_lit(&b.v), r: "7", h: "1", gx: "0", gy: "1" })
}
fn mt_curve(p: &BigInt, a: &R, b: &R) -> montgomery::Curve {
    montgomery::Curve::from(&montgomery::Params { name: "custom", p: s_lit(p), a: s_lit(&a.v), b: s_lit(&b.v), s: "1", r: "7", h: "1", gx: "0", gy: "1" })
}
fn short(a: &R, b: &R) -> Cubic {
    Cubic { b: a.k(1), a2: a.k(0), a4: a.clone(), a6: b.clone() }
}
fn elt(f: &Fp, v: &R) -> FpElt {
    f.elt(v.v.clone())
}
fn at(c: &[FpElt; 3], want: &Aff, p: &Rc<BigInt>) -> bool {
    denotes(c, want, p)
}

// ------------------------------------------------------------------ SSWU
fn sswu_ok(c: &Cubic, z: &R) -> bool {
    let (a, b) = (&c.a4, &c.a6);
    !a.is_zero() && !b.is_zero() && !z.is_square() && *z != z.k(-1) && c.rhs(&(b * (z * a).inv())).is_square()
}
fn sswu_ref(c: &Cubic, z: &R, u: &R) -> (R, R) {
    let (a, b) = (&c.a4, &c.a6);
    let zu2 = z * u.sq();
    let den = &zu2.sq() + &zu2;
    let x1 = if den.is_zero() { b * (z * a).inv() } else { (-b) * a.inv() * (den.inv() + z.k(1)) };
    let g1 = c.rhs(&x1);
    let (x, g) = if g1.is_square() {
        (x1, g1)
    } else {
        let x2 = &zu2 * &x1;
        let g2 = c.rhs(&x2);
        // g(x2) = (Z u^2)^3 g(x1)
        ctx::hint_prod(&g2, &(zu2.sq() * &zu2 * g1));
        (x2, g2)
    };
    let y = root("_y", &g, u.odd());
    (x, y)
}
fn sswu(i: &we::In, zc: Option<i64>) {
    let z = match zc {
        Some(k) => R::new(&BigInt::from(k), &i.p),
        None => {
            let z = any("z", &i.p);
            ctx::assume(sswu_ok(&i.c, &z));
            z
        }
    };
    let m = weierstrass::SSWU::new(i.e.clone(), i.el(&z));
    let u = any("u", &i.p);
    let want = sswu_ref(&i.c, &z, &u);
    let q = m.map(&i.el(&u));
    ctx::check("SSWU gives the point of the published formulas", || i.is(&q, &Some(want)));
}
fn sswu_generic(p: &Rc<BigInt>) {
    let (a, b, z, u) = (nz("a", p), nz("b", p), any("z", p), any("u", p));
    let c = short(&a, &b);
    ctx::assume(sswu_ok(&c, &z));
    let e = we_curve(p, &a, &b);
    let f = e.get_field();
    let m = weierstrass::SSWU::new(e, elt(&f, &z));
    let want = sswu_ref(&c, &z, &u);
    let q = m.map(&elt(&f, &u));
    ctx::check("SSWU gives the point of the published formulas", || at(&redox_ecc::verif::we_coords(&q), &Some(want), p));
}
fn sswu_new(p: &Rc<BigInt>) {
    let (a, b, z) = (any("a", p), any("b", p), any("z", p));
    let c = short(&a, &b);
    let ok = sswu_ok(&c, &z);
    let e = we_curve(p, &a, &b);
    let f = e.get_field();
    let r = ctx::catch(|| weierstrass::SSWU::new(e, elt(&f, &z)));
    ctx::check("accepted exactly when the conditions hold", || r.is_ok() == ok);
}
// ------------------------------------------------------------------ SVDW
fn svdw_ok(c: &Cubic, z: &R) -> bool {
    let g = c.rhs(z);
    let t = z.k(3) * z.sq() + z.k(4) * &c.a4;
    if g.is_zero() || t.is_zero() {
        return false;
    }
    let q = -&t * (z.k(4) * &g).inv();
    q.is_square() && (g.is_square() || c.rhs(&(-z * z.k(2).inv())).is_square())
}
fn svdw_ref(c: &Cubic, z: &R, u: &R) -> (R, R) {
    let one = z.k(1);
    let g = c.rhs(z);
    let t = z.k(3) * z.sq() + z.k(4) * &c.a4;
    let (c1, c2, c4) = (g.clone(), -z * z.k(2).inv(), -(z.k(4) * &g) * t.inv());
    let c3 = root("_c3", &(-&g * &t), false);
    let t1 = u.sq() * c1;
    let t2 = &one + &t1;
    let t1 = &one - &t1;
    let t3 = (&t1 * &t2).inv0();
    let t4 = u * &t1 * &t3 * c3;
    let (x1, x2) = (&c2 - &t4, &c2 + &t4);
    let (g1, g2) = (c.rhs(&x1), c.rhs(&x2));
    let (x, gx) = if g1.is_square() {
        (x1, g1)
    } else if g2.is_square() {
        (x2, g2)
    } else {
        let y = t2.sq() * &t3;
        let x3 = y.sq() * &c4 + z;
        let g3 = c.rhs(&x3);
        let w = z.sq() + &c.a4 - &x1 * &x2;
        if !t3.is_zero() && !w.is_zero() {
            // g(x3) = (x3 - Z) g(x1) g(x2) / w^2
            ctx::hint_prod(&g3, &(y.sq() * &c4 * g1 * g2 * w.inv().sq()));
        }
        (x3, g3)
    };
    let y = root("_y", &gx, u.odd());
    (x, y)
}
fn svdw(i: &we::In, zc: Option<i64>) {
    let z = match zc {
        Some(k) => R::new(&BigInt::from(k), &i.p),
        None => any("z", &i.p),
    };
    ctx::assume(svdw_ok(&i.c, &z));
    let u = any("u", &i.p);
    let want = svdw_ref(&i.c, &z, &u);
    let m = weierstrass::SVDW::new(i.e.clone(), i.el(&z));
    let q = m.map(&i.el(&u));
    ctx::check("SVDW gives the point of the published formulas", || i.is(&q, &Some(want)));
}
fn svdw_generic(p: &Rc<BigInt>) {
    let (a, b, z, u) = (any("a", p), any("b", p), any("z", p), any("u", p));
    let c = short(&a, &b);
    ctx::assume(svdw_ok(&c, &z));
    let e = we_curve(p, &a, &b);
    let f = e.get_field();
    let want = svdw_ref(&c, &z, &u);
    let m = weierstrass::SVDW::new(e, elt(&f, &z));
    let q = m.map(&elt(&f, &u));
    ctx::check("SVDW gives the point of the published formulas", || at(&redox_ecc::verif::we_coords(&q), &Some(want), p));
}
fn svdw_new(p: &Rc<BigInt>) {
    let (a, b, z) = (any("a", p), any("b", p), any("z", p));
    let c = short(&a, &b);
    let ok = svdw_ok(&c, &z);
    let e = we_curve(p, &a, &b);
    let f = e.get_field();
    let r = ctx::catch(|| weierstrass::SVDW::new(e, elt(&f, &z)));
    ctx::check("accepted exactly when the conditions hold", || r.is_ok() == ok);
}
// ------------------------------------------------------------------ SSWU through an isogeny
struct Iso {
    f: [Vec<R>; 4],
}
fn iso_of(k: &K, p: &Rc<BigInt>) -> Iso {
    let g = |v: &[&str]| v.iter().map(|s| R::new(&z(s), p)).collect::<Vec<_>>();
    if k.name.starts_with("secp") {
        Iso { f: [g(iso::SECP256K1_XN), g(iso::SECP256K1_XD), g(iso::SECP256K1_YN), g(iso::SECP256K1_YD)] }
    } else {
        Iso { f: [g(iso::BLS12381G1_XN), g(iso::BLS12381G1_XD), g(iso::BLS12381G1_YN), g(iso::BLS12381G1_YD)] }
    }
}
fn horner(c: &[R], x: &R) -> R {
    let mut a = x.k(0);
    for k in c.iter().rev() {
        a = a * x + k;
    }
    a
}
impl Iso {
    fn push(&self, q: &Aff) -> Aff {
        let (x, y) = match q {
            None => return None,
            Some(c) => c,
        };
        let (xd, yd) = (horner(&self.f[1], x), horner(&self.f[3], x));
        if xd.is_zero() || yd.is_zero() {
            return None;
        }
        Some((horner(&self.f[0], x) * xd.inv(), y * horner(&self.f[2], x) * yd.inv()))
    }
}
fn lib_iso(k: &K) -> Box<dyn Isogeny<E0 = weierstrass::Curve, E1 = weierstrass::Curve>> {
    if k.name.starts_with("secp") {
        Box::new(get_isogeny_secp256k1())
    } else {
        Box::new(get_isogeny_bls12381g1())
    }
}
/// (isogenous curve, target curve, Z of the standard suite)
const ISOS: [(&K, &K, i64); 2] = [(&consts::SECP256K1_3ISO, &consts::SECP256K1, -11), (&consts::BLS12381G1_11ISO, &consts::BLS12381G1, 11)];

/// The library's isogeny, with its argument checked against the reference and then replaced by an
/// arbitrary point of the domain: what is shown for every point holds for the one SSWU gives.
struct CutIso {
    inner: Box<dyn Isogeny<E0 = weierstrass::Curve, E1 = weierstrass::Curve>>,
    cut: Box<dyn Fn(weierstrass::Point) -> weierstrass::Point>,
}
impl Isogeny for CutIso {
    type E0 = weierstrass::Curve;
    type E1 = weierstrass::Curve;
    fn domain(&self) -> weierstrass::Curve {
        self.inner.domain()
    }
    fn codomain(&self) -> weierstrass::Curve {
        self.inner.codomain()
    }
    fn push(&self, p: weierstrass::Point) -> weierstrass::Point {
        self.inner.push((self.cut)(p))
    }
}
struct CutRat {
    inner: Box<dyn RationalMap<E0 = edwards::Curve, E1 = montgomery::Curve>>,
    cut: Box<dyn Fn(montgomery::Point) -> montgomery::Point>,
}
impl RationalMap for CutRat {
    type E0 = edwards::Curve;
    type E1 = montgomery::Curve;
    fn domain(&self) -> edwards::Curve {
        self.inner.domain()
    }
    fn codomain(&self) -> montgomery::Curve {
        self.inner.codomain()
    }
    fn push(&self, p: edwards::Point) -> montgomery::Point {
        self.inner.push(p)
    }
    fn pull(&self, p: montgomery::Point) -> edwards::Point {
        self.inner.pull((self.cut)(p))
    }
}
/// Where the point handed to the second map stands: the reference value, or its generalisation.
type Mid = Rc<std::cell::RefCell<Aff>>;

fn sswu_iso(s: &'static K, t: &'static K, zc: Option<i64>) {
    let (i, j) = (we::inst(s), we::inst(t));
    let z = match zc {
        Some(k) => R::new(&BigInt::from(k), &i.p),
        None => {
            let z = any("z", &i.p);
            ctx::assume(sswu_ok(&i.c, &z));
            z
        }
    };
    let u = any("u", &i.p);
    let mid: Mid = Rc::new(std::cell::RefCell::new(Some(sswu_ref(&i.c, &z, &u))));
    let lib: Box<dyn Isogeny<E0 = weierstrass::Curve, E1 = weierstrass::Curve>> = if ctx::SYM {
        let (mid, i) = (mid.clone(), we::inst(s));
        let cut = move |q: weierstrass::Point| {
            let want = mid.borrow().clone();
            ctx::check("the isogeny is given the SSWU point", || i.is(&q, &want));
            let g = affine_point("mid", &i.c, &[]);
            let l = i.pt(&[g.0.clone(), g.1.clone(), g.0.k(1)]);
            *mid.borrow_mut() = Some(g);
            l
        };
        Box::new(CutIso { inner: lib_iso(t), cut: Box::new(cut) })
    } else {
        lib_iso(t)
    };
    let m = weierstrass::SSWUAB0::new(j.e.clone(), i.el(&z), lib);
    let q = m.map(&i.el(&u));
    let want = iso_of(t, &i.p).push(&mid.borrow());
    ctx::check("the image of the SSWU point under the isogeny", || j.is(&q, &want));
    if !ctx::SYM {
        let g = affine_point("mid", &i.c, &[]);
        let q = lib_iso(t).push(i.pt(&[g.0.clone(), g.1.clone(), g.0.k(1)]));
        let want = iso_of(t, &i.p).push(&Some(g));
        ctx::check("the image of the SSWU point under the isogeny", || j.is(&q, &want));
    }
}
fn sswu_iso_new() {
    let n = ctx::choose("curve", 6);
    let t = ctx::choose("iso", 2);
    let (s, k, _) = ISOS[t];
    let e = [
        instances::P256.get(), instances::SECP256K1.get(), instances::SECP256K1_3ISO.get(),
        instances::BLS12381G1.get(), instances::BLS12381G1_11ISO.get(), instances::P521.get(),
    ][n].clone();
    let i = we::inst(s);
    let z = any("z", &i.p);
    let ok = sswu_ok(&i.c, &z);
    let good = (n == 1 && t == 0) || (n == 3 && t == 1);
    let r = ctx::catch(|| weierstrass::SSWUAB0::new(e, i.el(&z), lib_iso(k)));
    ctx::check("accepted exactly for the isogeny's target curve and a valid Z", || r.is_ok() == (good && ok));
}
// ------------------------------------------------------------------ isogenies
fn iso_push(s: &'static K, t: &'static K) {
    let (i, j) = (we::inst(s), we::inst(t));
    let m = lib_iso(t);
    ctx::check("domain and codomain", || m.domain() == i.e && m.codomain() == j.e);
    let q = any_point("P", &i.c, &[]);
    let l = i.pt(&rep("P", &q, &i.p));
    let want = iso_of(t, &i.p).push(&q);
    let r = m.push(l.clone());
    ctx::check("the image is the one the rational functions define", || j.is(&r, &want));
    ctx::check("the image is on the target curve", || j.e.is_on_curve(&r) && j.c.on(&want));
    let n = m.push(-&l);
    ctx::check("the image of the negative is the negative", || j.is(&n, &j.c.neg(&want)));
}
// ------------------------------------------------------------------ Elligator 2
fn ell2_ref(c: &Cubic, z: &R, u: &R) -> (R, R) {
    // c: K t^2 = s^3 + J s^2 + s
    let (j, k) = (&c.a2, &c.b);
    let ki = k.inv();
    let ca = j * &ki;
    let cb = ki.sq();
    let g = |x: &R| x * &(x * &(x + &ca) + &cb);
    let zu2 = z * u.sq();
    let den = &zu2 + z.k(1);
    let x1 = if den.is_zero() { -&ca } else { -&ca * den.inv() };
    let g1 = g(&x1);
    let (x, y) = if g1.is_square() {
        let y = root("_y", &g1, true);
        (x1, y)
    } else {
        let x2 = -&x1 - &ca;
        let g2 = g(&x2);
        if !den.is_zero() {
            ctx::hint_prod(&g2, &(&zu2 * g1));
        }
        let y = root("_y", &g2, false);
        (x2, y)
    };
    (x * k, y * k)
}
fn ell2_ok(c: &Cubic, z: &R) -> bool {
    !c.a2.is_zero() && !c.b.is_zero() && !z.is_square()
}
fn ell2(i: &mt::In, zc: Option<i64>) {
    let z = match zc {
        Some(k) => R::new(&BigInt::from(k), &i.p),
        None => any("z", &i.p),
    };
    ctx::assume(ell2_ok(&i.c, &z));
    let m = montgomery::Ell2::new(i.e.clone(), i.el(&z));
    let u = any("u", &i.p);
    let want = ell2_ref(&i.c, &z, &u);
    let q = m.map(&i.el(&u));
    ctx::check("Elligator 2 gives the point of the published formulas", || i.is(&q, &Some(want)));
}
fn cubic_mt(a: &R, b: &R) -> Cubic {
    Cubic { b: b.clone(), a2: a.clone(), a4: a.k(1), a6: a.k(0) }
}
fn ell2_generic(p: &Rc<BigInt>) {
    let (a, b, z, u) = (nz("a", p), nz("b", p), any("z", p), any("u", p));
    let c = cubic_mt(&a, &b);
    ctx::assume(ell2_ok(&c, &z));
    let e = mt_curve(p, &a, &b);
    let f = e.get_field();
    let want = ell2_ref(&c, &z, &u);
    let m = montgomery::Ell2::new(e, elt(&f, &z));
    let q = m.map(&elt(&f, &u));
    ctx::check("Elligator 2 gives the point of the published formulas", || at(&redox_ecc::verif::mt_coords(&q), &Some(want), p));
}
fn ell2_new(p: &Rc<BigInt>) {
    let (a, b, z) = (any("a", p), any("b", p), any("z", p));
    let ok = ell2_ok(&cubic_mt(&a, &b), &z);
    let e = mt_curve(p, &a, &b);
    let f = e.get_field();
    let r = ctx::catch(|| montgomery::Ell2::new(e, elt(&f, &z)));
    ctx::check("accepted exactly when the conditions hold", || r.is_ok() == ok);
}
// ------------------------------------------------------------------ rational maps
pub struct Rat {
    pub ed: edw::In,
    pub mt: mt::In,
    /// sqrt(-(A + 2)), even; 25519 only
    c: Option<R>,
}
const RATS: [(&K, &K); 2] = [(&consts::EDWARDS25519, &consts::CURVE25519), (&consts::EDWARDS448, &consts::CURVE448)];
pub fn rat(n: usize) -> Rat {
    let (ed, mt) = (edw::inst(RATS[n].0), mt::inst(RATS[n].1));
    let c = if n == 0 {
        let s = sqrt_native(&-(&mt.c.a2 + mt.c.a2.k(2))).unwrap();
        Some(if s.odd() { -s } else { s })
    } else {
        None
    };
    Rat { ed, mt, c }
}
fn lib_rat(n: usize) -> Box<dyn RationalMap<E0 = edwards::Curve, E1 = montgomery::Curve>> {
    if n == 0 {
        Box::new(edwards25519_to_curve25519())
    } else {
        Box::new(edwards448_to_curve448())
    }
}
impl Rat {
    pub fn push(&self, q: &edw::Pt) -> Aff {
        let (x, y) = q;
        let one = x.k(1);
        match &self.c {
            Some(c) => {
                if x.is_zero() {
                    return if *y == one { None } else { Some((x.k(0), x.k(0))) };
                }
                let u = (&one + y) * (&one - y).inv();
                let v = c * &u * x.inv();
                Some((u, v))
            }
            None => {
                if x.is_zero() {
                    return None;
                }
                let xi = x.inv();
                let u = y.sq() * xi.sq();
                let v = (x.k(2) - x.sq() - y.sq()) * y * xi.sq() * &xi;
                Some((u, v))
            }
        }
    }
    /// Facts about denominators, for points of the Montgomery curve (see `rat_lemma`).
    fn facts(&self, q: &Aff) {
        if let Some((u, v)) = q {
            if self.c.is_some() {
                ctx::fact(&[(false, u, &u.k(-1))]);
                ctx::fact(&[(true, u, &u.k(0)), (false, v, &v.k(0))]);
            } else {
                let (d0, d1) = self.dens(u, v);
                ctx::fact(&[(false, &d0, &u.k(0))]);
                ctx::fact(&[(true, u, &u.k(0)), (false, &d1, &u.k(0))]);
            }
        }
    }
    fn dens(&self, u: &R, v: &R) -> (R, R) {
        let (u2, v2) = (u.sq(), v.sq());
        let u3 = &u2 * u;
        let d0 = u2.sq() - u.k(2) * &u2 + u.k(4) * &v2 + u.k(1);
        let d1 = &u3 * &u2 - u.k(2) * &u2 * &v2 - u.k(2) * &u3 - u.k(2) * &v2 + u;
        (d0, d1)
    }
    pub fn pull(&self, q: &Aff) -> edw::Pt {
        let (u, v) = match q {
            None => return self.ed.c.zero(),
            Some(c) => c,
        };
        let one = u.k(1);
        match &self.c {
            Some(c) => {
                if u.is_zero() {
                    return (u.k(0), u.k(-1));
                }
                (c * u * v.inv(), (u - &one) * (u + &one).inv())
            }
            None => {
                if u.is_zero() {
                    return self.ed.c.zero();
                }
                let (d0, d1) = self.dens(u, v);
                let (u2, v2) = (u.sq(), v.sq());
                let u3 = &u2 * u;
                let x = u.k(4) * v * (&u2 - &one) * d0.inv();
                let y = -(&u3 * &u2 - u.k(2) * &u3 - u.k(4) * u * &v2 + u) * d1.inv();
                (x, y)
            }
        }
    }
}
fn rat_lemma(n: usize) {
    let r = rat(n);
    let m = lib_rat(n);
    ctx::check("domain and codomain", || m.domain() == r.ed.e && m.codomain() == r.mt.e);
    let a = &r.mt.c.a2;
    ctx::check("the Montgomery curve has B = 1", || r.mt.c.b == a.k(1));
    if n == 0 {
        ctx::check("A - 2 is not a square, so u = -1 has no point", || !(a - &a.k(2)).is_square());
        // v = 0 and u != 0 : u^2 + A u + 1 = 0
        ctx::check("A^2 - 4 is not a square, so v = 0 only at u = 0", || !(a.sq() - a.k(4)).is_square());
    } else {
        ctx::check("-1 is not a square, and u = +-1 are not zeros of the cubic", || {
            !a.k(-1).is_square() && !(a + &a.k(2)).is_zero() && !(a - &a.k(2)).is_zero()
        });
        // second denominator / u = -(u^4 + 2 A u^3 + 6 u^2 + 2 A u + 1)
        let f = vec![a.k(1), a.k(2) * a, a.k(6), a.k(2) * a, a.k(1)];
        ctx::check("the quartic factor of the second denominator has no root", || !has_root(&f));
        let q = affine_point("M", &r.mt.c, &[]);
        let (u, v) = &q;
        let (d0, d1) = r.dens(u, v);
        let one = u.k(1);
        ctx::check("first denominator is (u^2-1)^2 + (2v)^2", || d0 == (u.sq() - &one).sq() + u.k(4) * v.sq());
        ctx::check("second denominator is -u times the quartic", || {
            d1 == -u * (u.sq().sq() + u.k(2) * a * u.sq() * u + u.k(6) * u.sq() + u.k(2) * a * u + &one)
        });
    }
}
fn rat_push(n: usize) {
    let r = rat(n);
    let m = lib_rat(n);
    let q = edw::point("P", &r.ed.c, &[]);
    let l = r.ed.pt(&edw::rep("P", &q, &r.ed.p));
    // x = 0 exactly at y = +-1
    let want = r.push(&q);
    let o = m.push(l);
    ctx::check("push gives the image the formulas define", || r.mt.is(&o, &want));
    ctx::check("the image is on the Montgomery curve", || r.mt.e.is_on_curve(&o) && r.mt.c.on(&want));
}
fn rat_pull(n: usize) {
    let r = rat(n);
    let m = lib_rat(n);
    let q = any_point("M", &r.mt.c, &[]);
    r.facts(&q);
    let l = r.mt.pt(&rep("M", &q, &r.mt.p));
    let want = r.pull(&q);
    let o = m.pull(l);
    ctx::check("pull gives the image the formulas define", || r.ed.is(&o, &want));
    ctx::check("the image is on the Edwards curve", || r.ed.e.is_on_curve(&o) && r.ed.c.on(&want));
}
fn rat_inverse(dir: usize) {
    let r = rat(0);
    let m = lib_rat(0);
    if dir == 0 {
        let q = edw::point("P", &r.ed.c, &[]);
        let l = r.ed.pt(&edw::rep("P", &q, &r.ed.p));
        let o = m.push(l.clone());
        let img = r.push(&q);
        r.facts(&img);
        let b = m.pull(o);
        ctx::check("pull(push(P)) = P", || r.ed.is(&b, &q) && b == l);
    } else {
        let q = any_point("M", &r.mt.c, &[]);
        r.facts(&q);
        let l = r.mt.pt(&rep("M", &q, &r.mt.p));
        let b = m.push(m.pull(l.clone()));
        ctx::check("push(pull(M)) = M", || r.mt.is(&b, &q) && b == l);
    }
}
fn ell2_edw(n: usize, zc: Option<i64>) {
    let r = rat(n);
    let z = match zc {
        Some(k) => R::new(&BigInt::from(k), &r.ed.p),
        None => any("z", &r.ed.p),
    };
    ctx::assume(ell2_ok(&r.mt.c, &z));
    let u = any("u", &r.ed.p);
    let mid: Mid = Rc::new(std::cell::RefCell::new(Some(ell2_ref(&r.mt.c, &z, &u))));
    let lib: Box<dyn RationalMap<E0 = edwards::Curve, E1 = montgomery::Curve>> = if ctx::SYM {
        let (mid, r) = (mid.clone(), rat(n));
        let cut = move |q: montgomery::Point| {
            let want = mid.borrow().clone();
            ctx::check("the rational map is given the Elligator 2 point", || r.mt.is(&q, &want));
            let g = affine_point("mid", &r.mt.c, &[]);
            let l = r.mt.pt(&[g.0.clone(), g.1.clone(), g.0.k(1)]);
            let g = Some(g);
            r.facts(&g);
            *mid.borrow_mut() = g;
            l
        };
        Box::new(CutRat { inner: lib_rat(n), cut: Box::new(cut) })
    } else {
        lib_rat(n)
    };
    let m = edwards::Ell2::new(r.ed.e.clone(), r.ed.el(&z), Some(lib));
    let q = m.map(&r.ed.el(&u));
    let want = r.pull(&mid.borrow());
    ctx::check("the image of the Montgomery point under the rational map", || r.ed.is(&q, &want));
    if !ctx::SYM {
        let g = affine_point("mid", &r.mt.c, &[]);
        let q = lib_rat(n).pull(r.mt.pt(&[g.0.clone(), g.1.clone(), g.0.k(1)]));
        let want = r.pull(&Some(g));
        ctx::check("the image of the Montgomery point under the rational map", || r.ed.is(&q, &want));
    }
}
fn ell2_edw_new() {
    let (c, t) = (ctx::choose("curve", 2), ctx::choose("map", 2));
    let r = rat(c);
    let z = any("z", &rat(t).ed.p);
    let ok = !z.is_square();
    let zl = rat(t).ed.el(&z);
    let l = ctx::catch(|| edwards::Ell2::new(r.ed.e.clone(), zl, Some(lib_rat(t))));
    ctx::check("accepted exactly for the map's own domain and a valid Z", || l.is_ok() == (c == t && ok));
}

pub fn add(v: &mut Vec<Case>) {
    const SF: &str = "weierstrass::SSWU::{new,map}, FpElt::{sqrt,is_square,sgn0,inv,cmov}, Curve::new_point";
    const VF: &str = "weierstrass::SVDW::{new,map}, FpElt::{sqrt,is_square,sgn0,inv,cmov}, Curve::new_point";
    const EF: &str = "montgomery::Ell2::{new,map}, FpElt::{sqrt,is_square,sgn0,inv,cmov}, Curve::new_point";
    for (k, zs, zv) in [
        (&consts::P256, Some(-10), Some(-3)), (&consts::P384, Some(-12), Some(-1)), (&consts::P521, Some(-4), Some(1)),
        (&consts::SECP256K1, None, Some(1)), (&consts::BLS12381G1, None, Some(-3)),
        (&consts::SECP256K1_3ISO, Some(-11), None), (&consts::BLS12381G1_11ISO, Some(11), None),
    ] {
        if zs.is_some() {
            v.push(case("C19", format!("sswu/{}", k.name), SF, "any field element, the standard Z", move || sswu(&we::inst(k), zs)));
            v.push(case("C19", format!("sswu-z/{}", k.name), SF, "any field element, any valid Z", move || sswu(&we::inst(k), None)).thorough());
        }
        if zv.is_some() {
            v.push(case("C19", format!("svdw/{}", k.name), VF, "any field element, the standard Z", move || svdw(&we::inst(k), zv)));
        }
        v.push(case("C19", format!("svdw-z/{}", k.name), VF, "any field element, any valid Z", move || svdw(&we::inst(k), None)).thorough());
    }
    // with these the other exceptional value (1 + c1 u^2 = 0) is reached
    for (k, zv) in [(&consts::P384, -5), (&consts::P521, -4)] {
        v.push(case("C19", format!("svdw{}/{}", zv, k.name), VF, "any field element, Z for which 1 + g(Z) u^2 can vanish", move || svdw(&we::inst(k), Some(zv))));
    }
    for c in v.iter_mut().filter(|c| c.name == "C19/svdw-4/p521") {
        c.thorough = true;
    }
    for (s, t, zc) in ISOS {
        let f = "weierstrass::SSWUAB0::{new,map}, SSWU, Isogeny::push";
        v.push(case("C19", format!("ab0/{}", t.name), f, "any field element, the standard Z", move || sswu_iso(s, t, Some(zc))));
        v.push(case("C19", format!("ab0-z/{}", t.name), f, "any field element, any valid Z", move || sswu_iso(s, t, None)).thorough());
        v.push(case("C22", format!("push/{}", t.name), "Isogeny::{push,domain,codomain}, Point::normalize, Curve::new_point", "any point in any representation", move || iso_push(s, t)));
    }
    v.push(case("C19", "ab0-new".into(), "weierstrass::SSWUAB0::new", "any Z, six curves, both isogenies", sswu_iso_new));
    for (n, p) in any_size_primes() {
        let p = Rc::new(p);
        let small = n.starts_with('f');
        if small && p.bits() < 3 {
            continue; // p = 3: the formulas divide by 3 and 4
        }
        let mut go = |prop: &'static str, name: &str, fns: &'static str, b: &'static str, f: fn(&Rc<BigInt>)| {
            let p = p.clone();
            v.push(case(prop, format!("{}/{}", name, n), fns, b, move || f(&p)));
        };
        go("C19", "sswu-new", "SSWU::{new,verify}", "any A, B, Z", sswu_new);
        go("C19", "svdw-new", "SVDW::{new,verify}", "any A, B, Z", svdw_new);
        go("C20", "new", "montgomery::Ell2::{new,verify}", "any A, B, Z", ell2_new);
        // square roots of the other classes (p = 5 mod 8) are beyond the solver with symbolic coefficients
        if (&*p % 4i32) == zi(3) || n == "f5" {
            go("C20", "generic", EF, "any A, B nonzero, any valid Z, any field element", ell2_generic);
        }
        if ["f5", "f7", "f11"].contains(&n.as_str()) {
            go("C19", "sswu-generic", SF, "any A, B, any valid Z, any field element", sswu_generic);
        }
        if ["f5", "f7"].contains(&n.as_str()) {
            let p = p.clone();
            v.push(case("C19", format!("svdw-generic/{}", n), VF, "any A, B, any valid Z, any field element", move || svdw_generic(&p)).thorough());
        }
    }
    for (k, zc) in [(&consts::CURVE25519, 2), (&consts::CURVE448, -1)] {
        v.push(case("C20", format!("map/{}", k.name), EF, "any field element, the standard Z", move || ell2(&mt::inst(k), Some(zc))));
        v.push(case("C20", format!("map-z/{}", k.name), EF, "any field element, any valid Z", move || ell2(&mt::inst(k), None)));
    }
    for (n, zc) in [(0usize, 2), (1, -1)] {
        let nm = RATS[n].0.name;
        let f = "edwards::Ell2::{new,map}, montgomery::Ell2::map, RationalMap::pull";
        v.push(case("C20", format!("edw/{}", nm), f, "any field element, the standard Z", move || ell2_edw(n, Some(zc))));
        v.push(case("C20", format!("edw-z/{}", nm), f, "any field element, any valid Z", move || ell2_edw(n, None)).thorough());
        v.push(case("C21", format!("push/{}", nm), "RationalMap::push, Point::is_zero, new_proy_point", "any point in any representation", move || rat_push(n)));
        v.push(case("C21", format!("pull/{}", nm), "RationalMap::pull, Point::{is_zero,is_two_torsion}, new_proy_point", "any point in any representation", move || rat_pull(n)));
        v.push(case("C21", format!("lemma/{}", nm), "RationalMap::{domain,codomain}", "facts about the denominators", move || rat_lemma(n)));
    }
    v.push(case("C20", "edw-new".into(), "edwards::Ell2::new", "any Z, both curves, both maps", ell2_edw_new));
    for d in [0, 1] {
        v.push(case("C21", format!("inverse{}/edwards25519", d), "RationalMap::{push,pull}", "any point in any representation", move || rat_inverse(d)));
    }
    let _: Option<Ed> = None;
}
