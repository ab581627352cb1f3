//! Scalar multiplication over an abstract group (Kani). The point addition, doubling, negation and the
//! on-curve test are replaced: a point stands for its discrete logarithm n, written (n : 1 : n), so the
//! identity is the library's own. That those operations are the group's is C10-C12; here the real
//! multiplication, scalar reduction and bit iteration run on every scalar of the stated length.
#![cfg(kani)]
#![feature(allocator_api)]
use num_bigint::{BigInt, BigUint};
use redox_ecc::ellipticcurve::EllipticCurve;
use redox_ecc::field::Field;

/// freed memory is not reused by a bounded model: leak instead (the nested drops cost far more than the arithmetic)
fn keep<T: ?Sized, A: std::alloc::Allocator>(_: &mut std::sync::Arc<T, A>) {}

macro_rules! model {
    ($m:ident, $make:ident, $get:ident, [$($extra:tt)*], |$s:ident, $o:ident| ($($co:expr),*), {$($par:tt)*}) => {
        mod $m {
            use super::*;
            pub use redox_ecc::$m::{Curve, Params, Point};
            pub const SMALL: Params = Params { name: "k", p: "999983", r: "999983", h: "1", gx: "1", gy: "1", $($par)* };
            pub const LARGE: Params = Params { name: "k", p: "999999999989", r: "999999999989", h: "1", gx: "1", gy: "1", $($par)* };
            pub static mut E: Option<Curve> = None;
            pub fn add(a: &Point, b: &Point) -> Point {
                let (u, v) = (redox_ecc::verif::$get(a), redox_ecc::verif::$get(b));
                let $s = &u[0] + &v[0];
                let e = unsafe { (*std::ptr::addr_of!(E)).as_ref().unwrap() };
                let $o = e.get_field().one();
                std::mem::forget((u, v));
                redox_ecc::verif::$make(e, $($co),*)
            }
            pub fn dbl(a: &Point) -> Point {
                add(a, a)
            }
            pub fn neg(a: &Point) -> Point {
                let u = redox_ecc::verif::$get(a);
                let $s = -&u[0];
                let e = unsafe { (*std::ptr::addr_of!(E)).as_ref().unwrap() };
                let $o = e.get_field().one();
                std::mem::forget(u);
                redox_ecc::verif::$make(e, $($co),*)
            }
            pub fn on_curve(_: &Curve, _: &Point) -> bool {
                true
            }
            /// k * P for the point of logarithm one
            pub fn multiple(par: &Params, k: u64) -> bool {
                let e = Curve::from(par);
                unsafe { E = Some(e.clone()) }
                let f = e.get_field();
                let ($s, $o) = (f.one(), f.one());
                let pt = redox_ecc::verif::$make(&e, $($co),*);
                let q = pt * e.new_scalar(BigInt::from(k));
                let c = redox_ecc::verif::$get(&q);
                let r = c[0] == f.elt(BigInt::from(k)) && c[1] == f.one();
                std::mem::forget((c, q, f, e));
                r
            }
        }
    };
}
model!(weierstrass, we_point, we_coords, [], |s, o| (s.clone(), o, s), {a: "0", b: "0"});
model!(montgomery, mt_point, mt_coords, [], |s, o| (s.clone(), o, s), {a: "0", b: "1", s: "1"});
model!(edwards, te_point, te_coords, [], |s, o| (s.clone(), o.clone(), s, o), {a: "1", d: "2"});

macro_rules! mul {
    ($($name:ident $m:ident $par:ident $bits:literal $unw:literal [$($double:tt)*];)+) => { $(
        #[kani::proof]
        #[kani::unwind($unw)]
        #[kani::stub(std::sync::Arc::drop_slow, keep)]
        #[kani::stub(redox_ecc::$m::Point::core_add, $m::add)]
        #[kani::stub(redox_ecc::$m::Point::core_neg, $m::neg)]
        #[kani::stub(<redox_ecc::$m::Curve as redox_ecc::ellipticcurve::EllipticCurve>::is_on_curve, $m::on_curve)]
        $($double)*
        fn $name() {
            let k: u64 = kani::any();
            kani::assume(k >> $bits == 0);
            assert!($m::multiple(&$m::$par, k), "PROP k*P is the k-fold sum");
        }
    )+ };
}
mul! {
    mul_we_10 weierstrass SMALL 10 13 [#[kani::stub(redox_ecc::weierstrass::Point::core_doubling, weierstrass::dbl)]];
    mul_mt_10 montgomery SMALL 10 13 [];
    mul_te_10 edwards SMALL 10 13 [];
    mul_we_34 weierstrass LARGE 34 37 [#[kani::stub(redox_ecc::weierstrass::Point::core_doubling, weierstrass::dbl)]];
    mul_mt_34 montgomery LARGE 34 37 [];
    mul_te_34 edwards LARGE 34 37 [];
}
