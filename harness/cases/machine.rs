//! Native side of the Kani harnesses: replays their counterexamples and validates their bodies.
use super::util::*;
use crate::bodies::*;
use crate::ctx;
use crate::{case, Case};
use num_bigint::BigInt;
use num_traits::ToPrimitive;

pub fn add(v: &mut Vec<Case>) {
    macro_rules! bits {
        ($($name:literal $body:ident;)+) => { $(
            v.push(case("C09", $name.to_string(), "", "", || {
                let k = ctx::int("k", &zi(0), &(BigInt::from(1) << 98usize));
                let sh = ctx::int("shift", &zi(0), &zi(99)).to_u32().unwrap();
                let k = k.to_u128().unwrap() >> sh;
                ctx::check("the iterator yields exactly the bits, then ends and stays ended", || $body(k, 3, 200));
            }));
        )+ };
    }
    bits! {
        "bits-lr/weierstrass" we_lr; "bits-rl/weierstrass" we_rl;
        "bits-lr/montgomery" mt_lr; "bits-rl/montgomery" mt_rl;
        "bits-lr/edwards" te_lr; "bits-rl/edwards" te_rl;
    }
    v.push(case("C13", "kmul-weierstrass".into(), "", "", || super::curves::we::kmul(&super::curves::we::inst(&crate::consts::SECP256K1))));
    v.push(case("C13", "kmul-montgomery".into(), "", "", || super::curves::mt::kmul(&super::curves::mt::inst(&crate::consts::CURVE25519))));
    v.push(case("C13", "kmul-edwards".into(), "", "", || super::edw::kmul(&super::edw::inst(&crate::consts::EDWARDS25519))));
    macro_rules! lift {
        ($($name:literal $body:ident $t:ident;)+) => { $(
            v.push(case("C07", $name.to_string(), "", "", || {
                let x = ctx::int("x", &BigInt::from($t::MIN), &(BigInt::from($t::MAX) + 1));
                let x: $t = num_traits::NumCast::from(x.to_i128().unwrap()).unwrap();
                ctx::check("a machine integer lifts to its residue", || $body(x));
            }));
        )+ };
    }
    lift! {
        "lift-u8" fp_u8 u8; "lift-u16" fp_u16 u16; "lift-u32" fp_u32 u32; "lift-u64" fp_u64 u64;
        "lift-i8" fp_i8 i8; "lift-i16" fp_i16 i16; "lift-i32" fp_i32 i32; "lift-i64" fp_i64 i64;
        "lift2-u8" fp2_u8 u8; "lift2-u16" fp2_u16 u16; "lift2-u32" fp2_u32 u32; "lift2-u64" fp2_u64 u64;
        "lift2-i8" fp2_i8 i8; "lift2-i16" fp2_i16 i16; "lift2-i32" fp2_i32 i32; "lift2-i64" fp2_i64 i64;
    }
    macro_rules! refuse {
        ($($prop:literal $name:literal $body:ident $ok:literal;)+) => { $(
            v.push(case($prop, $name.to_string(), "", "", || {
                let e = ctx::int("e", &zi(0), &(BigInt::from(1) << 32usize)).to_u32().unwrap();
                let owned = ctx::int("owned", &zi(0), &zi(2)) == zi(1);
                if e != $ok {
                    panics("an operand the operator does not document is refused", || $body(e, owned));
                } else {
                    ctx::check("the documented operand is accepted", || ctx::catch(|| $body(e, owned)).is_ok());
                }
            }));
        )+ };
    }
    refuse! {
        "C02" "refuse-fp_pow" fp_pow 2; "C04" "refuse-fp2_pow" fp2_pow 2;
        "C02" "refuse-fp_div" fp_div 1; "C04" "refuse-fp2_div" fp2_div 1;
        "C08" "refuse-we_div" we_div 1; "C08" "refuse-mt_div" mt_div 1; "C08" "refuse-te_div" te_div 1;
    }
}
