//! C06 serialization, C07 lifting and literals, C08 scalars.
use super::ext::{self, C};
use super::util::*;
use crate::ctx;
use crate::refmath::R;
use crate::variants;
use crate::{case, Case};
use num_bigint::{BigInt, BigUint, Sign};
use redox_ecc::ellipticcurve::EllipticCurve;
use redox_ecc::field::Field;
use redox_ecc::instances::{self, GetCurve};
use redox_ecc::ops::{Deserialize, FromFactory, IntoFactory, Serialize};
use std::rc::Rc;

fn be(b: &[u8]) -> BigInt {
    BigInt::from_bytes_be(Sign::Plus, b)
}
fn le(b: &[u8]) -> BigInt {
    BigInt::from_bytes_le(Sign::Plus, b)
}
fn rev(b: &[u8]) -> Vec<u8> {
    b.iter().rev().copied().collect()
}
fn fp_write(p: &BigInt) {
    let f = fp(p);
    let a = felt("a", p);
    let size = (p.bits() as usize + 7) / 8;
    let ea = f.elt(a.clone());
    ctx::check("size_bytes is the modulus length", || f.size_bytes() == size);
    let (b, l) = (ea.to_bytes_be(), ea.to_bytes_le());
    ctx::check("fixed length", || b.len() == size && l.len() == size);
    ctx::check("the byte orders are the reverse of each other", || rev(&b) == l);
    ctx::check("big-endian bytes denote the residue", || be(&b) == a);
    ctx::check("little-endian bytes denote the residue", || le(&l) == a);
    ctx::check("reading back gives the element", || match (f.from_bytes_be(&b), f.from_bytes_le(&l)) {
        (Ok(x), Ok(y)) => x == ea && y == ea,
        _ => false,
    });
}
fn fp_read(p: &BigInt) {
    let f = fp(p);
    let rp = Rc::new(p.clone());
    let size = (p.bits() as usize + 7) / 8;
    let lens: Vec<usize> = vec![0, 1, 2, size.saturating_sub(1), size, size + 1, 2 * size, 2 * size + 5];
    let n = lens[ctx::choose("len", lens.len())];
    let v = if n == 0 { zi(0) } else { ctx::int("v", &zi(0), &(BigInt::from(1) << (8 * n))) };
    let b = if n == 0 { vec![] } else { ctx::bytes_be(&v, n) };
    let want = R::new(&v, &rp);
    let (x, y) = (f.from_bytes_be(&b), f.from_bytes_le(&rev(&b)));
    ctx::check("bytes are read modulo p", || match (&x, &y) {
        (Ok(x), Ok(y)) => rv(x, &rp) == want && rv(y, &rp) == want && *x == f.elt(want.v.clone()) && x == y,
        _ => false,
    });
}
fn fp2_write(p: &BigInt) {
    let f = ext::fp2(p);
    let rp = Rc::new(p.clone());
    let a = ext::any("a", &rp);
    let size = (p.bits() as usize + 7) / 8;
    let ea = ext::el(&f, &a);
    ctx::check("size_bytes is twice the modulus length", || f.size_bytes() == 2 * size);
    let (b, l) = (ea.to_bytes_be(), ea.to_bytes_le());
    ctx::check("fixed length", || b.len() == 2 * size && l.len() == 2 * size);
    ctx::check("the byte orders are component-wise reverse", || rev(&b[..size]) == l[..size] && rev(&b[size..]) == l[size..]);
    ctx::check("real part first", || be(&b[..size]) == a.re.v && be(&b[size..]) == a.im.v);
    ctx::check("reading back gives the element", || match (f.from_bytes_be(&b), f.from_bytes_le(&l)) {
        (Ok(x), Ok(y)) => x == ea && y == ea,
        _ => false,
    });
}
fn fp2_read(p: &BigInt) {
    let f = ext::fp2(p);
    let rp = Rc::new(p.clone());
    let size = (p.bits() as usize + 7) / 8;
    let top = BigInt::from(1) << (8 * size);
    let (u, v) = (ctx::int("u", &zi(0), &top), ctx::int("v", &zi(0), &top));
    let (bu, bv) = (ctx::bytes_be(&u, size), ctx::bytes_be(&v, size));
    let want = C { re: R::new(&u, &rp), im: R::new(&v, &rp) };
    let b: Vec<u8> = [bu.clone(), bv.clone()].concat();
    let l: Vec<u8> = [rev(&bu), rev(&bv)].concat();
    let (x, y) = (f.from_bytes_be(&b), f.from_bytes_le(&l));
    ctx::check("components are read modulo p", || match (&x, &y) {
        (Ok(x), Ok(y)) => ext::rd(x, &rp).eq(&want) && ext::rd(y, &rp).eq(&want) && x == y,
        _ => false,
    });
    let n = ctx::choose("len", 4 * size + 3);
    if n != 2 * size {
        let w = vec![[0u8, 1, 255][ctx::choose("fill", 3)]; n];
        ctx::check("any other length is refused", || f.from_bytes_be(&w).is_err() && f.from_bytes_le(&w).is_err());
    }
}

fn lit_fp(p: &BigInt) {
    let f = fp(p);
    let rp = Rc::new(p.clone());
    let (radix, pre) = [(10u32, ""), (16, "0x"), (8, "0o"), (2, "0b")][ctx::choose("radix", 4)];
    let m = ctx::int("m", &zi(0), &(BigInt::from(1) << 600usize));
    let neg = ctx::choose("neg", 2) == 1;
    let s = format!("{}{}{}", if neg { "-" } else { "" }, pre, digits(&m, radix));
    let r: redox_ecc::primefield::FpElt = f.from(s.as_str());
    let want = R::new(&(if neg { -m } else { m }), &rp);
    ctx::check("a literal is the number written, modulo p", || rv(&r, &rp) == want && r == f.elt(want.v.clone()));
}
const FIXED: [(&str, i64); 22] = [
    ("", 0), ("0", 0), ("-0", 0), ("1", 1), ("-1", -1), ("7", 7), ("-9", -9), ("10", 10), ("-10", -10), ("0x0", 0), ("0xa", 10), ("0xA", 10),
    ("-0xff", -255), ("0o7", 7), ("0o10", 8), ("-0o17", -15), ("0b0", 0), ("0b1", 1), ("-0b101", -5), ("007", 7), ("0x00b", 11), ("0b10", 2),
];
fn lit_fixed(p: &BigInt) {
    let f = fp(p);
    let rp = Rc::new(p.clone());
    let (s, n) = FIXED[ctx::choose("s", FIXED.len())];
    let r: redox_ecc::primefield::FpElt = f.from(s);
    let l = s.lift(&f);
    ctx::check("short literals", || rv(&r, &rp) == R::new(&zi(n), &rp) && l == r);
}
fn lit_fp2(p: &BigInt) {
    let f = ext::fp2(p);
    let rp = Rc::new(p.clone());
    let radices = [(10u32, ""), (16, "0x"), (8, "0o"), (2, "0b")];
    let mut part = |n: &str| {
        if ctx::choose(&format!("{}.empty", n), 5) == 4 {
            return (String::new(), zi(0));
        }
        let (radix, pre) = radices[ctx::choose(&format!("{}.radix", n), 4)];
        let m = ctx::int(n, &zi(0), &(BigInt::from(1) << 600usize));
        let neg = ctx::choose(&format!("{}.neg", n), 2) == 1;
        let s = format!("{}{}{}", if neg { "-" } else { "" }, pre, digits(&m, radix));
        (s, if neg { -m } else { m })
    };
    let ((s, a), (t, b)) = (part("re"), part("im"));
    let r: redox_ecc::quadraticfield::Fp2Elt = f.from(format!("{},{}", s, t).as_str());
    let want = C { re: R::new(&a, &rp), im: R::new(&b, &rp) };
    ctx::check("real part, comma, imaginary part", || ext::rd(&r, &rp).eq(&want));
}
fn lift_int(p: &BigInt) {
    let f = fp(p);
    let rp = Rc::new(p.clone());
    let big = BigInt::from(1) << 600usize;
    let n = ctx::int("n", &-&big, &big);
    let w = R::new(&n, &rp);
    ctx::check("a big integer is reduced", || rv(&f.elt(n.clone()), &rp) == w && val(&f.elt(n.clone())) == w.v);
    if p % 4 == zi(3) {
        let g = ext::fp2(p);
        ctx::check("a big integer lifts to the real component", || ext::rd(&g.elt(n.clone()), &rp).eq(&C { re: w.clone(), im: w.k(0) }));
    }
}
/// Corner values of the machine types (all values: engine K).
fn lift_machine(p: &BigInt) {
    let f = fp(p);
    let g = ext::fp2(p);
    let rp = Rc::new(p.clone());
    macro_rules! t {
        ($T:ty, $k:expr) => {{
            let vs: [$T; 6] = [0, 1, 2, <$T>::MAX, <$T>::MIN, <$T>::MAX / 2 + 1];
            let n = vs[$k];
            let w = R::new(&BigInt::from(n), &rp);
            let r: redox_ecc::primefield::FpElt = f.from(n);
            let s: redox_ecc::quadraticfield::Fp2Elt = g.from(n);
            let l = n.lift(&f);
            ctx::check("a machine integer lifts to its residue", || {
                rv(&r, &rp) == w && l == r && ext::rd(&s, &rp).eq(&C { re: w.clone(), im: w.k(0) })
            });
        }};
    }
    let k = ctx::choose("value", 6);
    match ctx::choose("type", 8) {
        0 => t!(u8, k),
        1 => t!(u16, k),
        2 => t!(u32, k),
        3 => t!(u64, k),
        4 => t!(i8, k),
        5 => t!(i16, k),
        6 => t!(i32, k),
        _ => t!(i64, k),
    }
}

fn orders() -> Vec<(&'static str, BigInt)> {
    let o = |n: BigUint| {
        use num_bigint::ToBigInt;
        n.to_bigint().unwrap()
    };
    vec![
        ("p256", o(instances::P256.get().get_order())),
        ("p384", o(instances::P384.get().get_order())),
        ("p521", o(instances::P521.get().get_order())),
        ("secp256k1", o(instances::SECP256K1.get().get_order())),
        ("bls12381", o(instances::BLS12381G1.get().get_order())),
        ("25519", o(instances::CURVE25519.get().get_order())),
        ("448", o(instances::CURVE448.get().get_order())),
        ("f7", zi(7)),
        ("f101", zi(101)),
        ("f257", zi(257)),
        ("f65537", zi(65537)),
    ]
}
macro_rules! scalar_model {
    ($m:ident, $S:ty, $label:expr, $eq:expr) => {
        mod $m {
            use super::*;
            type S = $S;
            fn rd(s: &S) -> BigInt {
                use std::str::FromStr;
                BigInt::from_str(&format!("{}", s)).unwrap()
            }
            fn arith(r: &BigInt) {
                let rr = Rc::new(r.clone());
                let big = BigInt::from(1) << 600usize;
                let a = ctx::int("a", &-&big, &big);
                let b = ctx::int("b", &-&big, &big);
                let (ra, rb) = (R::new(&a, &rr), R::new(&b, &rr));
                let (sa, sb) = (S::new(a, &ub(r)), S::new(b, &ub(r)));
                ctx::check("a scalar is its residue", || rd(&sa) == ra.v);
                let k = ctx::choose("variant", 4);
                let (s, want) = match ctx::choose("op", 6) {
                    0 => (variants!(k, sa, sb, +), &ra + &rb),
                    1 => (variants!(k, sa, sb, -), &ra - &rb),
                    2 => (variants!(k, sa, sb, *), &ra * &rb),
                    3 => (if k & 1 == 0 { -&sa } else { -sa.clone() }, -&ra),
                    4 => {
                        if rb.is_zero() {
                            return;
                        }
                        (variants!(k, sa, sb, /), &ra * rb.inv())
                    }
                    _ => {
                        if ra.is_zero() {
                            return;
                        }
                        (1u32 / &sa, ra.inv())
                    }
                };
                ctx::check("result is the residue", || rd(&s) == want.v);
                ctx::check("result behaves as that scalar", || rd(&(&s + &sa)) == (&want + &ra).v);
            }
            fn bytes(r: &BigInt) {
                let a = ctx::int("a", &zi(0), r);
                let s = S::new(a.clone(), &ub(r));
                let size = (r.bits() as usize + 7) / 8;
                let (b, l) = (s.to_bytes_be(), s.to_bytes_le());
                ctx::check("fixed length", || b.len() == size && l.len() == size);
                ctx::check("the byte orders are the reverse of each other", || rev(&b) == l);
                ctx::check("bytes denote the residue", || be(&b) == a && le(&l) == a);
            }
            fn mixed(r: &BigInt, q: &BigInt) {
                let a = S::new(ctx::int("a", &zi(0), r), &ub(r));
                let b = S::new(ctx::int("b", &zi(0), q), &ub(q));
                let k = ctx::choose("variant", 4);
                let m = "scalars of different orders are refused";
                match ctx::choose("op", 4) {
                    0 => panics(m, || variants!(k, a, b, +)),
                    1 => panics(m, || variants!(k, a, b, -)),
                    2 => panics(m, || variants!(k, a, b, *)),
                    _ => panics(m, || variants!(k, a, b, /)),
                }
            }
            fn refused(r: &BigInt) {
                let a = S::new(ctx::int("a", &zi(0), r), &ub(r));
                let e = [0u32, 2, 3, u32::MAX, 1 << 31][ctx::choose("e", 5)];
                panics("a numerator other than 1 is refused", || e / &a)
            }
            pub fn add(v: &mut Vec<Case>) {
                for (n, r) in orders() {
                    let q = r.clone();
                    v.push(case("C08", format!("arith/{}/{}", $label, n), concat!($label, "::Scalar::{new,red,inv_mod,add,sub,mul,div,neg,fmt}"), "any two integers in (-2^600, 2^600), all operator forms", move || arith(&q)));
                    let q = r.clone();
                    v.push(case("C06", format!("scalar/{}/{}", $label, n), concat!($label, "::Scalar::{to_bytes_be,to_bytes_le}"), LENS, move || bytes(&q)));
                    let q = r.clone();
                    v.push(case("C08", format!("refused/{}/{}", $label, n), concat!("u32 / ", $label, "::Scalar"), "any residue; a table of numerators", move || refused(&q)));
                    let (q, o) = (r.clone(), if n == "p256" { zi(101) } else { orders()[0].1.clone() });
                    v.push(case("C08", format!("mixed/{}/{}", $label, n), concat!($label, "::Scalar::{add,sub,mul,div}"), "any residues of two orders", move || mixed(&q, &o)));
                }
            }
        }
    };
}
const LENS: &str = "any residue, every byte length";
scalar_model!(we, redox_ecc::weierstrass::Scalar, "weierstrass", true);
scalar_model!(mt, redox_ecc::montgomery::Scalar, "montgomery", false);
scalar_model!(te, redox_ecc::edwards::Scalar, "edwards", true);
macro_rules! equality {
    ($f:ident, $S:ty) => {
        fn $f(r: &BigInt, q: &BigInt) {
            let big = BigInt::from(1) << 600usize;
            let a = ctx::int("a", &-&big, &big);
            let b = ctx::int("b", &-&big, &big);
            let rr = Rc::new(r.clone());
            let same = R::new(&a, &rr) == R::new(&b, &rr);
            let (x, y) = (<$S>::new(a.clone(), &ub(r)), <$S>::new(b, &ub(r)));
            ctx::check("== is congruence modulo the order", || (x == y) == same && (x != y) == !same);
            let o = <$S>::new(a, &ub(q));
            ctx::check("scalars of different orders differ", || x != o && o != x);
        }
    };
}
equality!(eq_we, redox_ecc::weierstrass::Scalar);
equality!(eq_te, redox_ecc::edwards::Scalar);

pub fn add(v: &mut Vec<Case>) {
    for (n, p) in any_size_primes() {
        macro_rules! c {
            ($prop:expr, $name:expr, $fns:expr, $bound:expr, $f:expr) => {{
                let q = p.clone();
                let f = $f;
                v.push(case($prop, format!("{}/{}", $name, n), $fns, $bound, move || f(&q)));
            }};
        }
        c!("C06", "fp_write", "FpElt::{to_bytes_be,to_bytes_le}, Fp::{size_bytes,from_bytes_be,from_bytes_le}", LENS, fp_write);
        c!("C06", "fp_read", "Fp::{from_bytes_be,from_bytes_le}", "any byte string of eight lengths", fp_read);
        c!("C06", "fp2_write", "Fp2Elt::{to_bytes_be,to_bytes_le}, Fp2::{size_bytes,from_bytes_be,from_bytes_le}", LENS, fp2_write);
        c!("C06", "fp2_read", "Fp2::{from_bytes_be,from_bytes_le}", "any byte string of the right length; every other length below 4*size+3 with three fillings", fp2_read);
        c!("C07", "literal", "Fp::from(&str)", "any integer below 2^600, either sign, four radices", lit_fp);
        c!("C07", "short", "Fp::from(&str), IntoFactory::lift", "a table of short literals", lit_fixed);
        c!("C07", "literal2", "Fp2::from(&str)", "any two integers below 2^600, either sign, four radices, empty parts", lit_fp2);
        c!("C07", "bigint", "Fp::elt, Fp2::elt", "any integer in (-2^600, 2^600)", lift_int);
        c!("C07", "machine", "Fp::from(uN|iN), Fp2::from(uN|iN)", "six values of each type", lift_machine);
    }
    we::add(v);
    mt::add(v);
    te::add(v);
    for (n, r) in orders() {
        let o = if n == "p256" { zi(101) } else { orders()[0].1.clone() };
        let (q, s) = (r.clone(), o.clone());
        v.push(case("C08", format!("eq/weierstrass/{}", n), "weierstrass::Scalar::eq", "any two integers in (-2^600, 2^600)", move || eq_we(&q, &s)));
        v.push(case("C08", format!("eq/edwards/{}", n), "edwards::Scalar::eq", "any two integers in (-2^600, 2^600)", move || eq_te(&r, &o)));
    }
}
