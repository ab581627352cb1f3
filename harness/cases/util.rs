use crate::ctx;
use crate::refmath::{Aff, Cubic, R};
use num_bigint::{BigInt, BigUint};
use redox_ecc::field::Field;
use redox_ecc::instances::*;
use redox_ecc::ellipticcurve::EllipticCurve;
use redox_ecc::primefield::{Fp, FpElt};
use std::rc::Rc;
use std::str::FromStr;

pub fn z(s: &str) -> BigInt {
    BigInt::from_str(s).unwrap()
}
pub fn zi(n: i64) -> BigInt {
    BigInt::from(n)
}
pub fn fp(p: &BigInt) -> Fp {
    Fp::new(p.to_biguint().unwrap())
}
pub fn ub(p: &BigInt) -> BigUint {
    p.to_biguint().unwrap()
}
/// Integer value of a field element as the library displays it.
pub fn val(e: &FpElt) -> BigInt {
    BigInt::from_str(&format!("{}", e)).unwrap()
}
pub fn rv(e: &FpElt, p: &Rc<BigInt>) -> R {
    R::new(&val(e), p)
}
/// The base-field primes of the shipped instances.
pub fn primes() -> Vec<(&'static str, BigInt)> {
    vec![
        ("p256", P256.get().get_field().get_modulus()),
        ("p384", P384.get().get_field().get_modulus()),
        ("p521", P521.get().get_field().get_modulus()),
        ("secp256k1", SECP256K1.get().get_field().get_modulus()),
        ("bls12381", BLS12381G1.get().get_field().get_modulus()),
        ("p25519", CURVE25519.get().get_field().get_modulus()),
        ("p448", CURVE448.get().get_field().get_modulus()),
    ]
}
/// Every public way of writing a binary operator.
#[macro_export]
macro_rules! variants {
    ($k:expr, $a:expr, $b:expr, $o:tt) => {
        match $k {
            0 => &$a $o &$b,
            1 => &$a $o $b.clone(),
            2 => $a.clone() $o &$b,
            _ => $a.clone() $o $b.clone(),
        }
    };
}
pub fn felt(name: &str, p: &BigInt) -> BigInt {
    ctx::int(name, &zi(0), p)
}
pub fn lit(v: &BigInt) -> &'static str {
    Box::leak(format!("{}", v).into_boxed_str())
}

/// The digits of v >= 0 in a radix.
pub fn digits(v: &BigInt, radix: u32) -> String {
    v.to_str_radix(radix)
}
/// Small primes of every residue class the library distinguishes.
pub const SMALL3: [i64; 4] = [3, 7, 11, 103];
pub const SMALL5: [i64; 4] = [5, 13, 29, 101];
pub fn any_size_primes() -> Vec<(String, BigInt)> {
    let mut v: Vec<(String, BigInt)> = primes().into_iter().map(|(n, p)| (n.to_string(), p)).collect();
    for q in SMALL3.iter().chain(SMALL5.iter()) {
        v.push((format!("f{}", q), zi(*q)));
    }
    v
}
pub fn panics<T, G: FnOnce() -> T>(msg: &str, g: G) {
    let r = ctx::catch(g).is_err();
    ctx::check(msg, || r);
}
/// nonzero residue
pub fn unit(name: &str, p: &BigInt) -> BigInt {
    ctx::int(name, &zi(1), p)
}
/// Square root of a reference value, native generation only (Tonelli-Shanks).
pub fn sqrt_native(a: &R) -> Option<R> {
    use num_integer::Integer;
    if a.is_zero() {
        return Some(a.clone());
    }
    if !ctx::is_square_nz(a) {
        return None;
    }
    let p: &BigInt = &a.p;
    let pw = |b: &R, e: &BigInt| R { v: b.v.modpow(e, p), p: a.p.clone() };
    let (mut q, mut s): (BigInt, u32) = (p - zi(1), 0u32);
    while q.is_even() {
        q = q / 2;
        s += 1;
    }
    let mut n = a.k(2);
    while ctx::is_square_nz(&n) {
        n = n + a.k(1);
    }
    let (mut m, mut c, mut t, mut r) = (s, pw(&n, &q), pw(a, &q), pw(a, &((&q + 1) / 2)));
    while t != a.k(1) {
        let mut i = 0;
        let mut u = t.clone();
        while u != a.k(1) {
            u = u.sq();
            i += 1;
        }
        let mut b = c.clone();
        for _ in 0..(m - i - 1) {
            b = b.sq();
        }
        m = i;
        c = b.sq();
        t = &t * &c;
        r = &r * &b;
    }
    Some(r)
}
/// A point of the cubic: identity or any affine point. `near`: points a random run should be biased to.
pub fn any_point(n: &str, c: &Cubic, near: &[&Aff]) -> Aff {
    if ctx::choose(&format!("{}.inf", n), 2) == 1 {
        return None;
    }
    Some(affine_point(n, c, near))
}
pub fn affine_point(n: &str, c: &Cubic, near: &[&Aff]) -> (R, R) {
    let p = c.b.p.clone();
    let (nx, ny) = (format!("{}.x", n), format!("{}.y", n));
    if ctx::random_mode() {
        let k = ctx::coin(4);
        for q in near {
            if let Some((x, y)) = q {
                if k == 0 || k == 1 {
                    let y = if k == 0 { y.clone() } else { -y };
                    ctx::put(&nx, &x.v);
                    ctx::put(&ny, &y.v);
                    return (x.clone(), y);
                }
            }
        }
        loop {
            let x = R::new(&ctx::rnd(&p), &p);
            let bi = R { v: c.b.v.modpow(&(&*p - 2), &p), p: p.clone() };
            if let Some(y) = sqrt_native(&(c.rhs(&x) * bi)) {
                let y = if ctx::coin(2) == 0 { y } else { -y };
                ctx::put(&nx, &x.v);
                ctx::put(&ny, &y.v);
                return (x, y);
            }
        }
    }
    let x = R::new(&felt(&nx, &p), &p);
    let y = R::new(&felt(&ny, &p), &p);
    ctx::assume_eq(&(&c.b * y.sq()), &c.rhs(&x));
    (x, y)
}
/// Any projective representative (X:Y:Z) of the point.
pub fn rep(n: &str, a: &Aff, p: &Rc<BigInt>) -> [R; 3] {
    match a {
        None => {
            let k = R::new(&unit(&format!("{}.k", n), p), p);
            [k.k(0), k.clone(), k.k(0)]
        }
        Some((x, y)) => {
            let k = R::new(&unit(&format!("{}.k", n), p), p);
            [x * &k, y * &k, k]
        }
    }
}
/// (X:Y:Z) denotes the point.
pub fn denotes(c: &[FpElt; 3], want: &Aff, p: &Rc<BigInt>) -> bool {
    let (x, y, z) = (rv(&c[0], p), rv(&c[1], p), rv(&c[2], p));
    match want {
        None => z.is_zero() && x.is_zero() && !y.is_zero(),
        Some((u, v)) => !z.is_zero() && x == u * &z && y == v * &z,
    }
}
/// Does the polynomial (coefficients low to high, monic) have a root in GF(p)? Concrete coefficients.
pub fn has_root(f: &[R]) -> bool {
    let p = f[0].p.clone();
    let n = f.len() - 1;
    let red = |mut v: Vec<R>| -> Vec<R> {
        while v.len() > n {
            let t = v.pop().unwrap();
            let l = v.len();
            for i in 0..n {
                v[l - n + i] = &v[l - n + i] - &t * &f[i];
            }
        }
        v
    };
    let mul = |a: &[R], b: &[R]| {
        let mut o = vec![f[0].k(0); a.len() + b.len() - 1];
        for i in 0..a.len() {
            for j in 0..b.len() {
                o[i + j] = &o[i + j] + &a[i] * &b[j];
            }
        }
        red(o)
    };
    // x^p mod f
    let mut acc = vec![f[0].k(1)];
    let x = red(vec![f[0].k(0), f[0].k(1)]);
    for i in (0..p.bits()).rev() {
        acc = mul(&acc, &acc);
        if p.bit(i) {
            acc = mul(&acc, &x);
        }
    }
    acc.resize(n, f[0].k(0));
    acc[1] = &acc[1] - f[0].k(1);
    // gcd(x^p - x, f)
    let trim = |mut v: Vec<R>| {
        while v.last().map_or(false, |c| c.is_zero()) {
            v.pop();
        }
        v
    };
    let (mut a, mut b) = (f.to_vec(), trim(acc));
    while !b.is_empty() {
        let bi = R { v: b[b.len() - 1].v.modpow(&(&*p - 2), &p), p: p.clone() };
        while a.len() >= b.len() {
            let q = &a[a.len() - 1] * &bi;
            let s = a.len() - b.len();
            for i in 0..b.len() {
                a[s + i] = &a[s + i] - &q * &b[i];
            }
            a.pop();
            a = trim(a);
        }
        std::mem::swap(&mut a, &mut b);
    }
    a.len() > 1
}
/// A scalar below the order: the solver's, or one of any length.
pub fn kmul_scalar(r: &BigInt) -> BigInt {
    if ctx::random_mode() {
        let k = ctx::rnd(r) >> (ctx::coin(r.bits() as u32 + 2) as usize);
        ctx::put("k", &k);
        return k;
    }
    ctx::int("k", &zi(0), r)
}
