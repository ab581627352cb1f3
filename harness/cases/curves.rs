//! Curve properties. The two cubic models share one harness text.
pub mod we {
    use super::super::util::*;
    use crate::consts::{self, K};
    use crate::ctx;
    use crate::refmath::{Aff, Cubic, R};
    use crate::variants;
    use crate::{case, Case};
    use num_bigint::{BigInt, Sign};
    use redox_ecc::ellipticcurve::{Decode, EcPoint, EllipticCurve, Encode};
    use redox_ecc::field::Field;
    use redox_ecc::instances::{self, GetCurve};
    use redox_ecc::primefield::FpElt;
    use redox_ecc::verif::{we_coords as coords, we_point as mkpt};
    use redox_ecc::weierstrass as lib;
    use std::rc::Rc;
    pub const MONT: bool = false;
    const ADDFNS: &str = "weierstrass::Point::{add,sub,neg,core_add,core_neg}, Curve::{new_proy_point,is_on_curve}, Fp ring";
    const MULFNS: &str = "weierstrass::Point::{mul,core_mul,core_doubling,core_add}, Scalar::iter_lr, Curve::{new_scalar,get_generator,get_order}";
    pub const KS: &[&K] = &[
        &consts::P256, &consts::P384, &consts::P521, &consts::SECP256K1, &consts::SECP256K1_3ISO,
        &consts::BLS12381G1, &consts::BLS12381G1_11ISO,
    ];
    pub const OTHER: &[&K] = &[];
    /// the built-in curves with one parameter changed
    pub const NEAR: &[&K] = &[
        &K { name: "p256_a", a: "5", ..consts::P256 },
        &K { name: "p256_b", b: "5", ..consts::P256 },
        &K { name: "secp256k1_r", r: "115792089237316195423570985008687907852837564279074904382605163141518161494336", ..consts::SECP256K1 },
        &K { name: "bls12381g1_h", h: "1", ..consts::BLS12381G1 },
    ];
    /// pairs of curves whose points must not mix
    pub const PAIRS: &[(&str, &str)] = &[
        ("secp256k1", "secp256k1_3iso"), ("secp256k1_3iso", "secp256k1"), ("bls12381g1", "bls12381g1_11iso"),
        ("p256", "p384"), ("p521", "secp256k1"), ("bls12381g1_11iso", "p384"), ("secp256k1", "p256"),
        ("p256", "p256_a"), ("p256", "p256_b"), ("p256_a", "p256_b"), ("secp256k1", "secp256k1_r"),
    ];
    pub fn getc(k: &K) -> lib::Curve {
        match k.name {
            "p256" => instances::P256.get(),
            "p384" => instances::P384.get(),
            "p521" => instances::P521.get(),
            "secp256k1" => instances::SECP256K1.get(),
            "secp256k1_3iso" => instances::SECP256K1_3ISO.get(),
            "bls12381g1" => instances::BLS12381G1.get(),
            "bls12381g1_11iso" => instances::BLS12381G1_11ISO.get(),
            _ => lib::Curve::from(&lib::Params { name: k.name, p: k.p, a: k.a, b: k.b, r: k.r, h: k.h, gx: k.gx, gy: k.gy }),
        }
    }
    include!("cubic.rs");
}
pub mod mt {
    use super::super::util::*;
    use crate::consts::{self, K};
    use crate::ctx;
    use crate::refmath::{Aff, Cubic, R};
    use crate::variants;
    use crate::{case, Case};
    use num_bigint::{BigInt, Sign};
    use redox_ecc::ellipticcurve::{Decode, EcPoint, EllipticCurve, Encode};
    use redox_ecc::field::Field;
    use redox_ecc::instances::{self, GetCurve};
    use redox_ecc::montgomery as lib;
    use redox_ecc::primefield::FpElt;
    use redox_ecc::verif::{mt_coords as coords, mt_point as mkpt};
    use std::rc::Rc;
    pub const MONT: bool = true;
    const ADDFNS: &str = "montgomery::Point::{add,sub,neg,core_add,core_neg}, Curve::{new_proy_point,is_on_curve}, Fp ring";
    const MULFNS: &str = "montgomery::Point::{mul,core_mul,core_add}, Scalar::iter_lr, Curve::{new_scalar,get_generator,get_order}";
    pub const KS: &[&K] = &[&consts::CURVE25519, &consts::CURVE448];
    /// curves that are not built in, with other coefficients b
    pub const OTHER: &[&K] = &[&consts::CURVE25519_B2, &consts::CURVE25519_B4, &consts::CURVE448_B5, &consts::CURVE448_BM1];
    /// the built-in curves with one parameter changed
    pub const NEAR: &[&K] = &[
        &K { name: "curve25519_a", a: "486666", ..consts::CURVE25519 },
        &K { name: "curve448_r", r: "181709681073901722637330951972001133588410340171829515070372549795146003961539585716195755291692375963310293709091662304773755859649781", ..consts::CURVE448 },
    ];
    /// pairs of curves whose points must not mix
    pub const PAIRS: &[(&str, &str)] = &[
        ("curve25519", "curve448"), ("curve448", "curve25519"), ("curve25519", "curve25519_b4"), ("curve25519_b2", "curve25519_b4"),
        ("curve25519", "curve25519_a"), ("curve448", "curve448_r"), ("curve448_b5", "curve448_bm1"),
    ];
    pub fn getc(k: &K) -> lib::Curve {
        match k.name {
            "curve25519" => instances::CURVE25519.get(),
            "curve448" => instances::CURVE448.get(),
            _ => lib::Curve::from(&lib::Params { name: k.name, p: k.p, a: k.a, b: k.b, s: k.s, r: k.r, h: k.h, gx: k.gx, gy: k.gy }),
        }
    }
    include!("cubic.rs");
}
pub fn add(v: &mut Vec<Case>) {
    we::add(v);
    mt::add(v);
}
use crate::Case;
