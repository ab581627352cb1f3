//! Bit-precise harnesses (Kani). The integers are the fixed-width stand-in of ../kshim.
#![cfg(kani)]
#[path = "../../harness/bodies.rs"]
mod bodies;
use bodies::*;

/// Every k with between `$lo` and `$hi` bits.
macro_rules! bits {
    ($($name:ident $body:ident $lo:literal $hi:literal $unw:literal;)+) => { $(
        #[kani::proof]
        #[kani::unwind($unw)]
        fn $name() {
            let k: u128 = kani::any();
            let n = 128 - k.leading_zeros();
            kani::assume($lo <= n && n <= $hi);
            assert!($body(k, 2, $hi + 2), "PROP the iterator yields exactly the bits, then ends and stays ended");
        }
    )+ };
}
macro_rules! lift {
    ($($name:ident $name2:ident $a:ident $b:ident $t:ty;)+) => { $(
        #[kani::proof]
        #[kani::unwind(3)]
        fn $name() {
            let x: $t = kani::any();
            assert!($a(x), "PROP a machine integer lifts to its residue in GF(p)");
        }
        #[kani::proof]
        #[kani::unwind(3)]
        fn $name2() {
            let x: $t = kani::any();
            assert!($b(x), "PROP a machine integer lifts to its residue in GF(p^2)");
        }
    )+ };
}
macro_rules! refuse {
    ($($name:ident $body:ident $ok:literal;)+) => { $(
        #[kani::proof]
        #[kani::unwind(4)]
        fn $name() {
            let e: u32 = kani::any();
            let owned: bool = kani::any();
            kani::assume(e != $ok);
            $body(e, owned);
            assert!(false, "PROP an operand the operator does not document is refused");
        }
    )+ };
}

bits! {
    bits_we_lr_0_12 we_lr 0 12 16;
    bits_we_lr_13_24 we_lr 13 24 28;
    bits_we_lr_25_34 we_lr 25 34 38;
    bits_we_lr_63_65 we_lr 63 65 69;
    bits_we_lr_94_98 we_lr 94 98 102;
    bits_we_lr_0_70 we_lr 0 70 74;
    bits_we_rl_0_34 we_rl 0 34 38;
    bits_we_rl_63_65 we_rl 63 65 69;
    bits_we_rl_94_98 we_rl 94 98 102;
    bits_we_rl_0_70 we_rl 0 70 74;
    bits_mt_lr_0_12 mt_lr 0 12 16;
    bits_mt_lr_13_24 mt_lr 13 24 28;
    bits_mt_lr_25_34 mt_lr 25 34 38;
    bits_mt_lr_63_65 mt_lr 63 65 69;
    bits_mt_lr_94_98 mt_lr 94 98 102;
    bits_mt_lr_0_70 mt_lr 0 70 74;
    bits_mt_rl_0_34 mt_rl 0 34 38;
    bits_mt_rl_63_65 mt_rl 63 65 69;
    bits_mt_rl_94_98 mt_rl 94 98 102;
    bits_mt_rl_0_70 mt_rl 0 70 74;
    bits_te_lr_0_12 te_lr 0 12 16;
    bits_te_lr_13_24 te_lr 13 24 28;
    bits_te_lr_25_34 te_lr 25 34 38;
    bits_te_lr_63_65 te_lr 63 65 69;
    bits_te_lr_94_98 te_lr 94 98 102;
    bits_te_lr_0_70 te_lr 0 70 74;
    bits_te_rl_0_34 te_rl 0 34 38;
    bits_te_rl_63_65 te_rl 63 65 69;
    bits_te_rl_94_98 te_rl 94 98 102;
    bits_te_rl_0_70 te_rl 0 70 74;
}
lift! {
    lift_u8 lift2_u8 fp_u8 fp2_u8 u8;
    lift_u16 lift2_u16 fp_u16 fp2_u16 u16;
    lift_u32 lift2_u32 fp_u32 fp2_u32 u32;
    lift_u64 lift2_u64 fp_u64 fp2_u64 u64;
    lift_i8 lift2_i8 fp_i8 fp2_i8 i8;
    lift_i16 lift2_i16 fp_i16 fp2_i16 i16;
    lift_i32 lift2_i32 fp_i32 fp2_i32 i32;
    lift_i64 lift2_i64 fp_i64 fp2_i64 i64;
}
refuse! {
    refuse_fp_pow fp_pow 2;
    refuse_fp2_pow fp2_pow 2;
    refuse_fp_div fp_div 1;
    refuse_fp2_div fp2_div 1;
    refuse_we_div we_div 1;
    refuse_mt_div mt_div 1;
    refuse_te_div te_div 1;
}
