//! Reference arithmetic modulo a prime, written directly on integers (shares nothing with the code
//! under test), and textbook group laws.
use crate::ctx;
use num_bigint::BigInt;
use num_integer::Integer;
use num_traits::{One, Zero};
use std::ops::{Add, Mul, Neg, Sub};
use std::rc::Rc;

#[derive(Clone)]
pub struct R {
    pub v: BigInt,
    pub p: Rc<BigInt>,
}
impl R {
    pub fn new(v: &BigInt, p: &Rc<BigInt>) -> R {
        R { v: v.mod_floor(p), p: p.clone() }
    }
    pub fn k(&self, n: i64) -> R {
        R::new(&BigInt::from(n), &self.p)
    }
    pub fn is_zero(&self) -> bool {
        self.v.is_zero()
    }
    pub fn sq(&self) -> R {
        self * self
    }
    pub fn inv(&self) -> R {
        ctx::inv(self)
    }
    /// inverse with the convention 1/0 = 0
    pub fn inv0(&self) -> R {
        if self.is_zero() {
            self.k(0)
        } else {
            ctx::inv(self)
        }
    }
    /// integer power, of either sign; 0^0 = 1 and 0^e = 0 otherwise
    pub fn pow(&self, e: &BigInt) -> R {
        if self.is_zero() {
            return if e.is_zero() { self.k(1) } else { self.k(0) };
        }
        let n: BigInt = &*self.p - 1;
        R { v: self.v.modpow(&e.mod_floor(&n), &self.p), p: self.p.clone() }
    }
    pub fn is_square(&self) -> bool {
        self.is_zero() || ctx::is_square_nz(self)
    }
    pub fn odd(&self) -> bool {
        self.v.is_odd()
    }
}
impl PartialEq for R {
    fn eq(&self, o: &R) -> bool {
        self.v == o.v
    }
}
macro_rules! op {
    ($T:ident,$f:ident,$o:tt) => {
        impl<'a, 'b> $T<&'b R> for &'a R {
            type Output = R;
            fn $f(self, o: &R) -> R {
                R { v: (&self.v $o &o.v).mod_floor(&self.p), p: self.p.clone() }
            }
        }
        impl<'b> $T<&'b R> for R {
            type Output = R;
            fn $f(self, o: &R) -> R { &self $o o }
        }
        impl<'a> $T<R> for &'a R {
            type Output = R;
            fn $f(self, o: R) -> R { self $o &o }
        }
        impl $T<R> for R {
            type Output = R;
            fn $f(self, o: R) -> R { &self $o &o }
        }
    };
}
op!(Add, add, +);
op!(Sub, sub, -);
op!(Mul, mul, *);
impl<'a> Neg for &'a R {
    type Output = R;
    fn neg(self) -> R {
        R { v: (-&self.v).mod_floor(&self.p), p: self.p.clone() }
    }
}
impl Neg for R {
    type Output = R;
    fn neg(self) -> R {
        -&self
    }
}

/// Affine point or the point at infinity (None).
pub type Aff = Option<(R, R)>;

/// Chord-and-tangent law on  b y^2 = x^3 + a2 x^2 + a4 x + a6.
/// Covers short Weierstrass (b=1, a2=0) and Montgomery (a4=1, a6=0).
#[derive(Clone)]
pub struct Cubic {
    pub b: R,
    pub a2: R,
    pub a4: R,
    pub a6: R,
}
impl Cubic {
    pub fn rhs(&self, x: &R) -> R {
        x * &(x * &(x + &self.a2) + &self.a4) + &self.a6
    }
    pub fn on(&self, p: &Aff) -> bool {
        match p {
            None => true,
            Some((x, y)) => &self.b * &y.sq() == self.rhs(x),
        }
    }
    pub fn neg(&self, p: &Aff) -> Aff {
        p.as_ref().map(|(x, y)| (x.clone(), -y))
    }
    pub fn add(&self, p: &Aff, q: &Aff) -> Aff {
        let (x1, y1) = match p {
            None => return q.clone(),
            Some(c) => c,
        };
        let (x2, y2) = match q {
            None => return p.clone(),
            Some(c) => c,
        };
        let l = if x1 == x2 {
            if y1 == &(-y2) {
                return None;
            }
            // y1 = y2 != 0 here
            let num = x1.k(3) * x1.sq() + x1.k(2) * &self.a2 * x1 + &self.a4;
            num * (x1.k(2) * &self.b * y1).inv()
        } else {
            (y2 - y1) * (x2 - x1).inv()
        };
        let x3 = &self.b * &l.sq() - &self.a2 - x1 - x2;
        let y3 = &l * &(x1 - &x3) - y1;
        Some((x3, y3))
    }
}
