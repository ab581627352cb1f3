// The num-bigint API over the value helpers (vadd, vmodf, ...) of the including crate.
#[derive(PartialEq, PartialOrd, Eq, Ord, Copy, Clone, Debug, Hash)]
pub enum Sign {
    Minus,
    NoSign,
    Plus,
}
impl Neg for Sign {
    type Output = Sign;
    fn neg(self) -> Sign {
        match self {
            Sign::Minus => Sign::Plus,
            Sign::NoSign => Sign::NoSign,
            Sign::Plus => Sign::Minus,
        }
    }
}
impl Mul<Sign> for Sign {
    type Output = Sign;
    fn mul(self, o: Sign) -> Sign {
        match (self, o) {
            (Sign::NoSign, _) | (_, Sign::NoSign) => Sign::NoSign,
            (a, b) if a == b => Sign::Plus,
            _ => Sign::Minus,
        }
    }
}

#[derive(Clone)]
pub struct BigInt(pub V);
#[derive(Clone)]
pub struct BigUint(pub V);

#[derive(Debug, Copy, Clone, PartialEq, Eq)]
pub struct TryFromBigIntError<T>(T);
impl<T> fmt::Display for TryFromBigIntError<T> {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        write!(f, "out of range conversion regarding big integer attempted")
    }
}
impl<T: fmt::Debug> std::error::Error for TryFromBigIntError<T> {}

pub trait ToBigInt {
    fn to_bigint(&self) -> Option<BigInt>;
}
pub trait ToBigUint {
    fn to_biguint(&self) -> Option<BigUint>;
}
impl ToBigInt for BigInt {
    fn to_bigint(&self) -> Option<BigInt> {
        Some(self.clone())
    }
}
impl ToBigInt for BigUint {
    fn to_bigint(&self) -> Option<BigInt> {
        Some(BigInt(self.0.clone()))
    }
}
impl ToBigUint for BigUint {
    fn to_biguint(&self) -> Option<BigUint> {
        Some(self.clone())
    }
}
impl ToBigUint for BigInt {
    fn to_biguint(&self) -> Option<BigUint> {
        if visneg(&self.0) {
            None
        } else {
            Some(BigUint(self.0.clone()))
        }
    }
}

impl BigInt {
    pub const ZERO: BigInt = BigInt(V::C(Z::ZERO));
    pub fn new(s: Sign, d: Vec<u32>) -> BigInt {
        BigInt(c(Z::new(rsign(s), d)))
    }
    pub fn from_biguint(s: Sign, d: BigUint) -> BigInt {
        match s {
            Sign::Minus => BigInt(vneg(&d.0)),
            Sign::NoSign => BigInt::zero(),
            Sign::Plus => BigInt(d.0),
        }
    }
    pub fn from_slice(s: Sign, d: &[u32]) -> BigInt {
        BigInt(c(Z::from_slice(rsign(s), d)))
    }
    pub fn from_bytes_be(s: Sign, b: &[u8]) -> BigInt {
        match s {
            Sign::NoSign => BigInt::zero(),
            Sign::Plus => BigInt(vfrom_be(b)),
            Sign::Minus => BigInt(vneg(&vfrom_be(b))),
        }
    }
    pub fn from_bytes_le(s: Sign, b: &[u8]) -> BigInt {
        match s {
            Sign::NoSign => BigInt::zero(),
            Sign::Plus => BigInt(vfrom_le(b)),
            Sign::Minus => BigInt(vneg(&vfrom_le(b))),
        }
    }
    pub fn parse_bytes(b: &[u8], radix: u32) -> Option<BigInt> {
        let s = std::str::from_utf8(b).ok()?;
        vparse(s, radix).ok().map(BigInt)
    }
    pub fn to_bytes_be(&self) -> (Sign, Vec<u8>) {
        (self.sign(), vbytes_be(&self.0))
    }
    pub fn to_bytes_le(&self) -> (Sign, Vec<u8>) {
        let mut b = vbytes_be(&self.0);
        b.reverse();
        (self.sign(), b)
    }
    pub fn to_u32_digits(&self) -> (Sign, Vec<u32>) {
        let s = self.sign();
        (s, self.magnitude_owned().to_u32_digits())
    }
    pub fn to_u64_digits(&self) -> (Sign, Vec<u64>) {
        let s = self.sign();
        (s, self.magnitude_owned().to_u64_digits())
    }
    pub fn iter_u32_digits(&self) -> std::vec::IntoIter<u32> {
        self.to_u32_digits().1.into_iter()
    }
    pub fn iter_u64_digits(&self) -> std::vec::IntoIter<u64> {
        self.to_u64_digits().1.into_iter()
    }
    pub fn to_signed_bytes_be(&self) -> Vec<u8> {
        conc(&self.0, "to_signed_bytes").to_signed_bytes_be()
    }
    pub fn to_signed_bytes_le(&self) -> Vec<u8> {
        conc(&self.0, "to_signed_bytes").to_signed_bytes_le()
    }
    pub fn from_signed_bytes_be(b: &[u8]) -> BigInt {
        BigInt(c(Z::from_signed_bytes_be(b)))
    }
    pub fn from_signed_bytes_le(b: &[u8]) -> BigInt {
        BigInt(c(Z::from_signed_bytes_le(b)))
    }
    pub fn from_radix_be(s: Sign, b: &[u8], r: u32) -> Option<BigInt> {
        if r == 256 {
            return Some(BigInt::from_bytes_be(s, b));
        }
        Z::from_radix_be(rsign(s), b, r).map(|z| BigInt(c(z)))
    }
    pub fn from_radix_le(s: Sign, b: &[u8], r: u32) -> Option<BigInt> {
        if r == 256 {
            return Some(BigInt::from_bytes_le(s, b));
        }
        Z::from_radix_le(rsign(s), b, r).map(|z| BigInt(c(z)))
    }
    pub fn to_str_radix(&self, r: u32) -> String {
        vfmtr(&self.0, r)
    }
    fn magnitude_owned(&self) -> BigUint {
        if visneg(&self.0) {
            BigUint(vneg(&self.0))
        } else {
            BigUint(self.0.clone())
        }
    }
    pub fn magnitude(&self) -> &BigUint {
        Box::leak(Box::new(self.magnitude_owned()))
    }
    pub fn into_parts(self) -> (Sign, BigUint) {
        (self.sign(), self.magnitude_owned())
    }
    pub fn sign(&self) -> Sign {
        vsign(&self.0)
    }
    pub fn bits(&self) -> u64 {
        vbits(&self.magnitude_owned().0)
    }
    pub fn to_biguint(&self) -> Option<BigUint> {
        ToBigUint::to_biguint(self)
    }
    pub fn pow(&self, e: u32) -> BigInt {
        BigInt(vpow(&self.0, e as u64))
    }
    pub fn modpow(&self, e: &BigInt, m: &BigInt) -> BigInt {
        BigInt(vmodpow(&self.0, &e.0, &m.0))
    }
    pub fn modinv(&self, m: &BigInt) -> Option<BigInt> {
        vmodinv(&self.0, &m.0).map(BigInt)
    }
    pub fn sqrt(&self) -> BigInt {
        BigInt(c(conc(&self.0, "integer sqrt").sqrt()))
    }
    pub fn bit(&self, k: u64) -> bool {
        vbit(&self.0, k)
    }
    pub fn set_bit(&mut self, k: u64, b: bool) {
        let cur = self.bit(k);
        if cur != b {
            let d = c(pow2(k as usize));
            self.0 = if b { vadd(&self.0, &d) } else { vsub(&self.0, &d) };
        }
    }
    pub fn trailing_zeros(&self) -> Option<u64> {
        conc(&self.0, "trailing_zeros").trailing_zeros()
    }
    pub fn checked_add(&self, o: &BigInt) -> Option<BigInt> {
        Some(self + o)
    }
    pub fn checked_sub(&self, o: &BigInt) -> Option<BigInt> {
        Some(self - o)
    }
    pub fn checked_mul(&self, o: &BigInt) -> Option<BigInt> {
        Some(self * o)
    }
    pub fn checked_div(&self, o: &BigInt) -> Option<BigInt> {
        if o.is_zero() {
            None
        } else {
            Some(self / o)
        }
    }
}

impl BigUint {
    pub const ZERO: BigUint = BigUint(V::C(Z::ZERO));
    pub fn new(d: Vec<u32>) -> BigUint {
        BigUint(c(Z::new(real::Sign::Plus, d)))
    }
    pub fn from_slice(d: &[u32]) -> BigUint {
        BigUint(c(Z::from_slice(real::Sign::Plus, d)))
    }
    pub fn from_bytes_be(b: &[u8]) -> BigUint {
        BigUint(vfrom_be(b))
    }
    pub fn from_bytes_le(b: &[u8]) -> BigUint {
        BigUint(vfrom_le(b))
    }
    pub fn parse_bytes(b: &[u8], radix: u32) -> Option<BigUint> {
        let s = std::str::from_utf8(b).ok()?;
        let v = vparse(s, radix).ok()?;
        if visneg(&v) {
            None
        } else {
            Some(BigUint(v))
        }
    }
    pub fn to_bytes_be(&self) -> Vec<u8> {
        vbytes_be(&self.0)
    }
    pub fn to_bytes_le(&self) -> Vec<u8> {
        let mut b = vbytes_be(&self.0);
        b.reverse();
        b
    }
    pub fn to_u32_digits(&self) -> Vec<u32> {
        vu32(&self.0)
    }
    pub fn to_u64_digits(&self) -> Vec<u64> {
        vu64(&self.0)
    }
    pub fn iter_u32_digits(&self) -> std::vec::IntoIter<u32> {
        self.to_u32_digits().into_iter()
    }
    pub fn iter_u64_digits(&self) -> std::vec::IntoIter<u64> {
        self.to_u64_digits().into_iter()
    }
    pub fn from_radix_be(b: &[u8], r: u32) -> Option<BigUint> {
        BigInt::from_radix_be(Sign::Plus, b, r).map(|x| BigUint(x.0))
    }
    pub fn from_radix_le(b: &[u8], r: u32) -> Option<BigUint> {
        BigInt::from_radix_le(Sign::Plus, b, r).map(|x| BigUint(x.0))
    }
    pub fn to_radix_be(&self, r: u32) -> Vec<u8> {
        conc(&self.0, "to_radix").magnitude().to_radix_be(r)
    }
    pub fn to_radix_le(&self, r: u32) -> Vec<u8> {
        conc(&self.0, "to_radix").magnitude().to_radix_le(r)
    }
    pub fn to_str_radix(&self, r: u32) -> String {
        vfmtr(&self.0, r)
    }
    pub fn bits(&self) -> u64 {
        vbits(&self.0)
    }
    pub fn pow(&self, e: u32) -> BigUint {
        BigUint(vpow(&self.0, e as u64))
    }
    pub fn modpow(&self, e: &BigUint, m: &BigUint) -> BigUint {
        BigUint(vmodpow(&self.0, &e.0, &m.0))
    }
    pub fn modinv(&self, m: &BigUint) -> Option<BigUint> {
        vmodinv(&self.0, &m.0).map(BigUint)
    }
    pub fn sqrt(&self) -> BigUint {
        BigUint(c(conc(&self.0, "integer sqrt").sqrt()))
    }
    pub fn bit(&self, k: u64) -> bool {
        vbit(&self.0, k)
    }
    pub fn set_bit(&mut self, k: u64, b: bool) {
        let cur = self.bit(k);
        if cur != b {
            let d = c(pow2(k as usize));
            self.0 = if b { vadd(&self.0, &d) } else { vsub(&self.0, &d) };
        }
    }
    pub fn trailing_zeros(&self) -> Option<u64> {
        conc(&self.0, "trailing_zeros").trailing_zeros()
    }
    pub fn trailing_ones(&self) -> u64 {
        conc(&self.0, "trailing_ones").magnitude().trailing_ones()
    }
    pub fn count_ones(&self) -> u64 {
        conc(&self.0, "count_ones").magnitude().count_ones()
    }
}

fn usub(a: &V, b: &V) -> V {
    if vlt(a, b) {
        panic!("Cannot subtract b from a because b is larger than a.")
    }
    vsub(a, b)
}

macro_rules! common {
    ($T:ident, $sub:path) => {
        impl PartialEq for $T {
            fn eq(&self, o: &$T) -> bool {
                veq(&self.0, &o.0)
            }
        }
        impl Eq for $T {}
        impl PartialOrd for $T {
            fn partial_cmp(&self, o: &$T) -> Option<Ordering> {
                Some(vcmp(&self.0, &o.0))
            }
            fn lt(&self, o: &$T) -> bool {
                vlt(&self.0, &o.0)
            }
            fn ge(&self, o: &$T) -> bool {
                !vlt(&self.0, &o.0)
            }
            fn gt(&self, o: &$T) -> bool {
                vlt(&o.0, &self.0)
            }
            fn le(&self, o: &$T) -> bool {
                !vlt(&o.0, &self.0)
            }
        }
        impl Ord for $T {
            fn cmp(&self, o: &$T) -> Ordering {
                vcmp(&self.0, &o.0)
            }
        }
        impl Hash for $T {
            fn hash<H: Hasher>(&self, h: &mut H) {
                conc(&self.0, "hash").hash(h)
            }
        }
        impl Default for $T {
            fn default() -> $T {
                $T(zero())
            }
        }
        impl fmt::Debug for $T {
            fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
                write!(f, "{}", vfmt(&self.0))
            }
        }
        impl fmt::Display for $T {
            fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
                match &self.0 {
                    V::C(z) => fmt::Display::fmt(z, f),
                    v => write!(f, "{}", vfmt(v)),
                }
            }
        }
        impl fmt::LowerHex for $T {
            fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
                match &self.0 {
                    V::C(z) => fmt::LowerHex::fmt(z, f),
                    v => write!(f, "{}", vfmt(v)),
                }
            }
        }
        impl fmt::UpperHex for $T {
            fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
                match &self.0 {
                    V::C(z) => fmt::UpperHex::fmt(z, f),
                    v => write!(f, "{}", vfmt(v)),
                }
            }
        }
        impl fmt::Binary for $T {
            fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
                match &self.0 {
                    V::C(z) => fmt::Binary::fmt(z, f),
                    v => write!(f, "{}", vfmt(v)),
                }
            }
        }
        impl Zero for $T {
            fn zero() -> $T {
                $T(zero())
            }
            fn is_zero(&self) -> bool {
                veq(&self.0, &zero())
            }
            fn set_zero(&mut self) {
                self.0 = zero()
            }
        }
        impl One for $T {
            fn one() -> $T {
                $T(c(Z::one()))
            }
            fn is_one(&self) -> bool {
                veq(&self.0, &c(Z::one()))
            }
            fn set_one(&mut self) {
                self.0 = c(Z::one())
            }
        }
        binop!($T, Add, add, AddAssign, add_assign, vadd);
        binop!($T, Sub, sub, SubAssign, sub_assign, $sub);
        binop!($T, Mul, mul, MulAssign, mul_assign, vmul);
        binop!($T, Div, div, DivAssign, div_assign, vdiv);
        binop!($T, Rem, rem, RemAssign, rem_assign, vrem);
        binop1!($T, BitAnd, bitand, BitAndAssign, bitand_assign, vand);
        binop1!($T, BitOr, bitor, BitOrAssign, bitor_assign, vor);
        binop1!($T, BitXor, bitxor, BitXorAssign, bitxor_assign, vxor);
        shifts!($T, u8 u16 u32 u64 u128 usize i8 i16 i32 i64 i128 isize);
        impl std::iter::Sum for $T {
            fn sum<I: Iterator<Item = $T>>(i: I) -> $T {
                i.fold($T::zero(), |a, b| a + b)
            }
        }
        impl<'a> std::iter::Sum<&'a $T> for $T {
            fn sum<I: Iterator<Item = &'a $T>>(i: I) -> $T {
                i.fold($T::zero(), |a, b| a + b)
            }
        }
        impl std::iter::Product for $T {
            fn product<I: Iterator<Item = $T>>(i: I) -> $T {
                i.fold($T::one(), |a, b| a * b)
            }
        }
        impl<'a> std::iter::Product<&'a $T> for $T {
            fn product<I: Iterator<Item = &'a $T>>(i: I) -> $T {
                i.fold($T::one(), |a, b| a * b)
            }
        }
        impl CheckedAdd for $T {
            fn checked_add(&self, o: &$T) -> Option<$T> {
                Some(self + o)
            }
        }
        impl CheckedMul for $T {
            fn checked_mul(&self, o: &$T) -> Option<$T> {
                Some(self * o)
            }
        }
        impl CheckedDiv for $T {
            fn checked_div(&self, o: &$T) -> Option<$T> {
                if o.is_zero() {
                    None
                } else {
                    Some(self / o)
                }
            }
        }
        pows!($T, u8 u16 u32 u64 usize);
        impl Integer for $T {
            fn div_floor(&self, o: &$T) -> $T {
                $T(vdivf(&self.0, &o.0))
            }
            fn mod_floor(&self, o: &$T) -> $T {
                $T(vmodf(&self.0, &o.0))
            }
            fn gcd(&self, o: &$T) -> $T {
                $T(c(conc(&self.0, "gcd").gcd(conc(&o.0, "gcd"))))
            }
            fn lcm(&self, o: &$T) -> $T {
                $T(c(conc(&self.0, "lcm").lcm(conc(&o.0, "lcm"))))
            }
            fn is_multiple_of(&self, o: &$T) -> bool {
                if o.is_zero() {
                    return self.is_zero();
                }
                veq(&vmodf(&self.0, &o.0), &zero())
            }
            fn is_even(&self) -> bool {
                !vodd(&self.0)
            }
            fn is_odd(&self) -> bool {
                vodd(&self.0)
            }
            fn div_rem(&self, o: &$T) -> ($T, $T) {
                ($T(vdiv(&self.0, &o.0)), $T(vrem(&self.0, &o.0)))
            }
            fn div_mod_floor(&self, o: &$T) -> ($T, $T) {
                ($T(vdivf(&self.0, &o.0)), $T(vmodf(&self.0, &o.0)))
            }
            fn divides(&self, o: &$T) -> bool {
                self.is_multiple_of(o)
            }
        }
        impl ToPrimitive for $T {
            fn to_i64(&self) -> Option<i64> {
                prim(&self.0, &Z::from(i64::MIN), &Z::from(i64::MAX))?.to_i64()
            }
            fn to_u64(&self) -> Option<u64> {
                prim(&self.0, &Z::zero(), &Z::from(u64::MAX))?.to_u64()
            }
            fn to_i128(&self) -> Option<i128> {
                prim(&self.0, &Z::from(i128::MIN), &Z::from(i128::MAX))?.to_i128()
            }
            fn to_u128(&self) -> Option<u128> {
                prim(&self.0, &Z::zero(), &Z::from(u128::MAX))?.to_u128()
            }
        }
        impl FromStr for $T {
            type Err = ParseBigIntError;
            fn from_str(s: &str) -> Result<$T, ParseBigIntError> {
                <$T as Num>::from_str_radix(s, 10)
            }
        }
    };
}
fn vor(a: &V, b: &V) -> V {
    c(conc(a, "bitwise or") | conc(b, "bitwise or"))
}
fn vxor(a: &V, b: &V) -> V {
    c(conc(a, "bitwise xor") ^ conc(b, "bitwise xor"))
}
/// Machine value of an integer, None when out of the given range.
fn prim(v: &V, lo: &Z, hi: &Z) -> Option<Z> {
    if let V::C(z) = v {
        return if z < lo || z > hi { None } else { Some(z.clone()) };
    }
    if vlt(v, &c(lo.clone())) || vlt(&c(hi.clone()), v) {
        return None;
    }
    Some(vconc(v))
}

macro_rules! binop1 {
    ($T:ident, $Tr:ident, $f:ident, $Ta:ident, $fa:ident, $v:path) => {
        impl $Tr<$T> for $T {
            type Output = $T;
            fn $f(self, o: $T) -> $T {
                $T($v(&self.0, &o.0))
            }
        }
        impl<'a> $Tr<&'a $T> for $T {
            type Output = $T;
            fn $f(self, o: &$T) -> $T {
                $T($v(&self.0, &o.0))
            }
        }
        impl<'a> $Tr<$T> for &'a $T {
            type Output = $T;
            fn $f(self, o: $T) -> $T {
                $T($v(&self.0, &o.0))
            }
        }
        impl<'a, 'b> $Tr<&'b $T> for &'a $T {
            type Output = $T;
            fn $f(self, o: &$T) -> $T {
                $T($v(&self.0, &o.0))
            }
        }
        impl $Ta<$T> for $T {
            fn $fa(&mut self, o: $T) {
                self.0 = $v(&self.0, &o.0)
            }
        }
        impl<'a> $Ta<&'a $T> for $T {
            fn $fa(&mut self, o: &$T) {
                self.0 = $v(&self.0, &o.0)
            }
        }
    };
}
macro_rules! binop {
    ($T:ident, $Tr:ident, $f:ident, $Ta:ident, $fa:ident, $v:path) => {
        binop1!($T, $Tr, $f, $Ta, $fa, $v);
        scal!($T, $Tr, $f, $Ta, $fa, $v, u8 u16 u32 u64 u128 usize);
        scalsel!($T, $Tr, $f, $Ta, $fa, $v);
    };
}
macro_rules! scalsel {
    (BigInt, $Tr:ident, $f:ident, $Ta:ident, $fa:ident, $v:path) => {
        scal!(BigInt, $Tr, $f, $Ta, $fa, $v, i8 i16 i32 i64 i128 isize);
    };
    (BigUint, $Tr:ident, $f:ident, $Ta:ident, $fa:ident, $v:path) => {};
    ($T:ident, $Tr:ident, $f:ident, $Ta:ident, $fa:ident, $v:path) => {};
}
macro_rules! scal {
    ($T:ident, $Tr:ident, $f:ident, $Ta:ident, $fa:ident, $v:path, $($s:ty)+) => { $(
        impl $Tr<$s> for $T {
            type Output = $T;
            fn $f(self, o: $s) -> $T { $T($v(&self.0, &c(Z::from(o)))) }
        }
        impl<'b> $Tr<&'b $s> for $T {
            type Output = $T;
            fn $f(self, o: &$s) -> $T { $T($v(&self.0, &c(Z::from(*o)))) }
        }
        impl<'a> $Tr<$s> for &'a $T {
            type Output = $T;
            fn $f(self, o: $s) -> $T { $T($v(&self.0, &c(Z::from(o)))) }
        }
        impl<'a, 'b> $Tr<&'b $s> for &'a $T {
            type Output = $T;
            fn $f(self, o: &$s) -> $T { $T($v(&self.0, &c(Z::from(*o)))) }
        }
        impl $Tr<$T> for $s {
            type Output = $T;
            fn $f(self, o: $T) -> $T { $T($v(&c(Z::from(self)), &o.0)) }
        }
        impl<'a> $Tr<&'a $T> for $s {
            type Output = $T;
            fn $f(self, o: &$T) -> $T { $T($v(&c(Z::from(self)), &o.0)) }
        }
        impl<'a, 'b> $Tr<&'a $T> for &'b $s {
            type Output = $T;
            fn $f(self, o: &$T) -> $T { $T($v(&c(Z::from(*self)), &o.0)) }
        }
        impl<'b> $Tr<$T> for &'b $s {
            type Output = $T;
            fn $f(self, o: $T) -> $T { $T($v(&c(Z::from(*self)), &o.0)) }
        }
        impl $Ta<$s> for $T {
            fn $fa(&mut self, o: $s) { self.0 = $v(&self.0, &c(Z::from(o))) }
        }
    )+ };
}
macro_rules! shifts {
    ($T:ident, $($s:ty)+) => { $(
        impl Shl<$s> for $T {
            type Output = $T;
            fn shl(self, k: $s) -> $T { $T(vshl(&self.0, k as usize)) }
        }
        impl<'a> Shl<$s> for &'a $T {
            type Output = $T;
            fn shl(self, k: $s) -> $T { $T(vshl(&self.0, k as usize)) }
        }
        impl Shr<$s> for $T {
            type Output = $T;
            fn shr(self, k: $s) -> $T { $T(vshr(&self.0, k as usize)) }
        }
        impl<'a> Shr<$s> for &'a $T {
            type Output = $T;
            fn shr(self, k: $s) -> $T { $T(vshr(&self.0, k as usize)) }
        }
        impl ShlAssign<$s> for $T {
            fn shl_assign(&mut self, k: $s) { self.0 = vshl(&self.0, k as usize) }
        }
        impl ShrAssign<$s> for $T {
            fn shr_assign(&mut self, k: $s) { self.0 = vshr(&self.0, k as usize) }
        }
    )+ };
}
macro_rules! pows {
    ($T:ident, $($s:ty)+) => { $(
        impl Pow<$s> for $T {
            type Output = $T;
            fn pow(self, k: $s) -> $T { $T(vpow(&self.0, k as u64)) }
        }
        impl<'a> Pow<$s> for &'a $T {
            type Output = $T;
            fn pow(self, k: $s) -> $T { $T(vpow(&self.0, k as u64)) }
        }
    )+ };
}
common!(BigInt, vsub);
common!(BigUint, usub);

impl CheckedSub for BigInt {
    fn checked_sub(&self, o: &BigInt) -> Option<BigInt> {
        Some(self - o)
    }
}
impl CheckedSub for BigUint {
    fn checked_sub(&self, o: &BigUint) -> Option<BigUint> {
        if vlt(&self.0, &o.0) {
            None
        } else {
            Some(BigUint(vsub(&self.0, &o.0)))
        }
    }
}
impl Neg for BigInt {
    type Output = BigInt;
    fn neg(self) -> BigInt {
        BigInt(vneg(&self.0))
    }
}
impl<'a> Neg for &'a BigInt {
    type Output = BigInt;
    fn neg(self) -> BigInt {
        BigInt(vneg(&self.0))
    }
}
impl Not for BigInt {
    type Output = BigInt;
    fn not(self) -> BigInt {
        BigInt(vsub(&c(Z::from(-1)), &self.0))
    }
}
impl Num for BigInt {
    type FromStrRadixErr = ParseBigIntError;
    fn from_str_radix(s: &str, r: u32) -> Result<BigInt, ParseBigIntError> {
        vparse(s, r).map(BigInt)
    }
}
impl Num for BigUint {
    type FromStrRadixErr = ParseBigIntError;
    fn from_str_radix(s: &str, r: u32) -> Result<BigUint, ParseBigIntError> {
        if s.contains('$') {
            return vparse(s, r).map(BigUint);
        }
        real::BigUint::from_str_radix(s, r).map(|x| BigUint(c(Z::from(x))))
    }
}
impl Signed for BigInt {
    fn abs(&self) -> BigInt {
        BigInt(self.magnitude_owned().0)
    }
    fn abs_sub(&self, o: &BigInt) -> BigInt {
        if vlt(&o.0, &self.0) {
            self - o
        } else {
            BigInt::zero()
        }
    }
    fn signum(&self) -> BigInt {
        BigInt::from(match self.sign() {
            Sign::Minus => -1,
            Sign::NoSign => 0,
            Sign::Plus => 1,
        })
    }
    fn is_positive(&self) -> bool {
        vlt(&zero(), &self.0)
    }
    fn is_negative(&self) -> bool {
        visneg(&self.0)
    }
}
impl Unsigned for BigUint {}
impl FromPrimitive for BigInt {
    fn from_i64(n: i64) -> Option<BigInt> {
        Some(BigInt::from(n))
    }
    fn from_u64(n: u64) -> Option<BigInt> {
        Some(BigInt::from(n))
    }
    fn from_i128(n: i128) -> Option<BigInt> {
        Some(BigInt::from(n))
    }
    fn from_u128(n: u128) -> Option<BigInt> {
        Some(BigInt::from(n))
    }
}
impl FromPrimitive for BigUint {
    fn from_i64(n: i64) -> Option<BigUint> {
        u64::try_from(n).ok().map(BigUint::from)
    }
    fn from_u64(n: u64) -> Option<BigUint> {
        Some(BigUint::from(n))
    }
    fn from_u128(n: u128) -> Option<BigUint> {
        Some(BigUint::from(n))
    }
}
macro_rules! from_prim {
    ($T:ident, $($s:ty)+) => { $(
        impl From<$s> for $T { fn from(n: $s) -> $T { $T(c(Z::from(n))) } }
    )+ };
}
from_prim!(BigInt, u8 u16 u32 u64 u128 usize i8 i16 i32 i64 i128 isize bool);
from_prim!(BigUint, u8 u16 u32 u64 u128 usize bool);
macro_rules! to_big {
    ($($s:ty)+) => { $(
        impl ToBigInt for $s { fn to_bigint(&self) -> Option<BigInt> { Some(BigInt::from(*self)) } }
        impl ToBigUint for $s { fn to_biguint(&self) -> Option<BigUint> { ToBigUint::to_biguint(&BigInt::from(*self)) } }
    )+ };
}
to_big!(u8 u16 u32 u64 u128 usize i8 i16 i32 i64 i128 isize);
macro_rules! try_from {
    ($($s:ty, $m:ident);+) => { $(
        impl TryFrom<&BigInt> for $s {
            type Error = TryFromBigIntError<()>;
            fn try_from(x: &BigInt) -> Result<$s, Self::Error> { x.$m().ok_or(TryFromBigIntError(())) }
        }
        impl TryFrom<BigInt> for $s {
            type Error = TryFromBigIntError<BigInt>;
            fn try_from(x: BigInt) -> Result<$s, Self::Error> { x.$m().ok_or(TryFromBigIntError(x)) }
        }
        impl TryFrom<&BigUint> for $s {
            type Error = TryFromBigIntError<()>;
            fn try_from(x: &BigUint) -> Result<$s, Self::Error> { x.$m().ok_or(TryFromBigIntError(())) }
        }
        impl TryFrom<BigUint> for $s {
            type Error = TryFromBigIntError<BigUint>;
            fn try_from(x: BigUint) -> Result<$s, Self::Error> { x.$m().ok_or(TryFromBigIntError(x)) }
        }
    )+ };
}
try_from!(u8, to_u8; u16, to_u16; u32, to_u32; u64, to_u64; u128, to_u128; usize, to_usize;
          i8, to_i8; i16, to_i16; i32, to_i32; i64, to_i64; i128, to_i128; isize, to_isize);
impl From<BigUint> for BigInt {
    fn from(x: BigUint) -> BigInt {
        BigInt(x.0)
    }
}
impl TryFrom<BigInt> for BigUint {
    type Error = TryFromBigIntError<BigInt>;
    fn try_from(x: BigInt) -> Result<BigUint, Self::Error> {
        ToBigUint::to_biguint(&x).ok_or(TryFromBigIntError(x))
    }
}
impl TryFrom<&BigInt> for BigUint {
    type Error = TryFromBigIntError<()>;
    fn try_from(x: &BigInt) -> Result<BigUint, Self::Error> {
        ToBigUint::to_biguint(x).ok_or(TryFromBigIntError(()))
    }
}
