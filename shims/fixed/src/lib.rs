//! Offline stand-in for the `fixed` crate (git dependency, not available here): the two types
//! openbook-v2 uses, with the published semantics of fixed 1.11.
//!  * products are exact then rounded towards minus infinity, quotients truncate towards zero
//!  * float -> fixed rounds to nearest, ties to even; None / panic when out of range or not finite
//!  * fixed -> integer rounds towards minus infinity
pub mod types {
    use std::cmp::Ordering;
    use std::ops::{Add, AddAssign, Div, DivAssign, Mul, MulAssign, Neg, Rem, Sub, SubAssign};

    const FRAC: u32 = 48;
    const ONE: i128 = 1 << FRAC;

    #[derive(Clone, Copy, Debug, Default, PartialEq, Eq, PartialOrd, Ord, Hash)]
    #[repr(transparent)]
    pub struct I80F48 {
        bits: i128,
    }

    /// What can be turned into / out of an I80F48.
    pub trait ToI80F48 {
        fn checked_to_bits(self) -> Option<i128>;
    }
    pub trait FromI80F48: Sized {
        fn checked_from_bits(bits: i128) -> Option<Self>;
    }
    macro_rules! ints {
        ($($t:ty)*) => {$(
            impl ToI80F48 for $t {
                fn checked_to_bits(self) -> Option<i128> {
                    let v: i128 = self.try_into().ok()?;
                    let r = v << FRAC;
                    if r >> FRAC == v { Some(r) } else { None }
                }
            }
            impl FromI80F48 for $t {
                fn checked_from_bits(bits: i128) -> Option<Self> {
                    (bits >> FRAC).try_into().ok()
                }
            }
            impl PartialEq<$t> for I80F48 {
                fn eq(&self, o: &$t) -> bool { self.partial_cmp(o) == Some(Ordering::Equal) }
            }
            impl PartialOrd<$t> for I80F48 {
                fn partial_cmp(&self, o: &$t) -> Option<Ordering> {
                    match (*o).checked_to_bits() {
                        Some(b) => Some(self.bits.cmp(&b)),
                        None => Some(if (*o as i128) < 0 { Ordering::Greater } else { Ordering::Less }),
                    }
                }
            }
        )*};
    }
    ints! { i8 i16 i32 i64 i128 u8 u16 u32 u64 u128 isize usize }
    macro_rules! lossless {
        ($($t:ty)*) => {$(
            impl From<$t> for I80F48 {
                fn from(v: $t) -> Self { I80F48 { bits: (v as i128) << FRAC } }
            }
        )*};
    }
    lossless! { i8 i16 i32 i64 u8 u16 u32 u64 }

    impl ToI80F48 for f64 {
        fn checked_to_bits(self) -> Option<i128> {
            if !self.is_finite() {
                return None;
            }
            let raw = self.to_bits();
            let neg = (raw >> 63) != 0;
            let e = ((raw >> 52) & 0x7ff) as i32;
            let m = (raw & ((1u64 << 52) - 1)) | if e == 0 { 0 } else { 1u64 << 52 };
            let e = if e == 0 { 1 } else { e };
            // value = m * 2^(e - 1075); bits = m * 2^(e - 1075 + 48)
            let s = e - 1075 + FRAC as i32;
            let mag: u128 = if s >= 0 {
                if s > 74 && m != 0 {
                    return None;
                }
                (m as u128) << (if m == 0 { 0 } else { s as u32 })
            } else {
                let s = (-s) as u32;
                if s > 54 {
                    0
                } else {
                    let q = m >> s;
                    let rem = m & ((1u64 << s) - 1);
                    let half = 1u64 << (s - 1);
                    (q + u64::from(rem > half || (rem == half && q & 1 == 1))) as u128
                }
            };
            if neg {
                if mag > 1u128 << 127 {
                    None
                } else {
                    Some((mag as i128).wrapping_neg())
                }
            } else if mag >= 1u128 << 127 {
                None
            } else {
                Some(mag as i128)
            }
        }
    }
    impl ToI80F48 for f32 {
        fn checked_to_bits(self) -> Option<i128> {
            (self as f64).checked_to_bits()
        }
    }
    impl ToI80F48 for I80F48 {
        fn checked_to_bits(self) -> Option<i128> {
            Some(self.bits)
        }
    }
    impl FromI80F48 for f64 {
        fn checked_from_bits(bits: i128) -> Option<Self> {
            Some(bits as f64 / ONE as f64)
        }
    }
    impl FromI80F48 for I80F48 {
        fn checked_from_bits(bits: i128) -> Option<Self> {
            Some(I80F48 { bits })
        }
    }

    /// (a * b) >> 48, None when it does not fit.
    fn mul_bits(a: i128, b: i128) -> Option<i128> {
        if b & (ONE - 1) == 0 {
            return a.checked_mul(b >> FRAC);
        }
        if a & (ONE - 1) == 0 {
            return b.checked_mul(a >> FRAC);
        }
        let neg = (a < 0) != (b < 0);
        let (x, y) = (a.unsigned_abs(), b.unsigned_abs());
        let m = u64::MAX as u128;
        let (xh, xl, yh, yl) = (x >> 64, x & m, y >> 64, y & m);
        let ll = xl * yl;
        let mid = (ll >> 64) + ((xl * yh) & m) + ((xh * yl) & m);
        let lo = (ll & m) | (mid << 64);
        let hi = xh * yh + ((xl * yh) >> 64) + ((xh * yl) >> 64) + (mid >> 64);
        if hi >> FRAC != 0 {
            return None;
        }
        let q = (hi << (128 - FRAC)) | (lo >> FRAC);
        let inexact = lo & (ONE as u128 - 1) != 0;
        if neg {
            let q = if inexact { q.checked_add(1)? } else { q };
            if q > 1u128 << 127 {
                None
            } else {
                Some((q as i128).wrapping_neg())
            }
        } else {
            q.try_into().ok()
        }
    }

    /// (a << 48) / b, None when it does not fit.
    fn div_bits(a: i128, b: i128) -> Option<i128> {
        if b == 0 {
            return None;
        }
        if b & (ONE - 1) == 0 {
            return a.checked_div(b >> FRAC);
        }
        let neg = (a < 0) != (b < 0);
        let (x, y) = (a.unsigned_abs(), b.unsigned_abs());
        let mut q = x / y;
        let mut r = x % y;
        for _ in 0..FRAC {
            if q >> 127 != 0 {
                return None;
            }
            q <<= 1;
            let carry = r >> 127 != 0;
            r = r.wrapping_shl(1);
            if carry || r >= y {
                r = r.wrapping_sub(y);
                q |= 1;
            }
        }
        if neg {
            if q > 1u128 << 127 {
                None
            } else {
                Some((q as i128).wrapping_neg())
            }
        } else {
            q.try_into().ok()
        }
    }

    impl I80F48 {
        pub const ZERO: I80F48 = I80F48 { bits: 0 };
        pub const ONE: I80F48 = I80F48 { bits: ONE };
        pub const MAX: I80F48 = I80F48 { bits: i128::MAX };
        pub const MIN: I80F48 = I80F48 { bits: i128::MIN };
        pub const DELTA: I80F48 = I80F48 { bits: 1 };
        pub const fn from_bits(bits: i128) -> Self {
            I80F48 { bits }
        }
        pub const fn to_bits(self) -> i128 {
            self.bits
        }
        pub fn from_num<T: ToI80F48>(v: T) -> Self {
            Self::checked_from_num(v).expect("overflow")
        }
        pub fn checked_from_num<T: ToI80F48>(v: T) -> Option<Self> {
            v.checked_to_bits().map(|bits| I80F48 { bits })
        }
        pub fn to_num<T: FromI80F48>(self) -> T {
            self.checked_to_num().expect("overflow")
        }
        pub fn checked_to_num<T: FromI80F48>(self) -> Option<T> {
            T::checked_from_bits(self.bits)
        }
        pub fn checked_mul(self, o: Self) -> Option<Self> {
            mul_bits(self.bits, o.bits).map(Self::from_bits)
        }
        pub fn checked_div(self, o: Self) -> Option<Self> {
            div_bits(self.bits, o.bits).map(Self::from_bits)
        }
        pub fn checked_add(self, o: Self) -> Option<Self> {
            self.bits.checked_add(o.bits).map(Self::from_bits)
        }
        pub fn checked_sub(self, o: Self) -> Option<Self> {
            self.bits.checked_sub(o.bits).map(Self::from_bits)
        }
        pub fn checked_neg(self) -> Option<Self> {
            self.bits.checked_neg().map(Self::from_bits)
        }
        pub fn abs(self) -> Self {
            I80F48 { bits: self.bits.abs() }
        }
        pub fn is_positive(self) -> bool {
            self.bits > 0
        }
        pub fn is_negative(self) -> bool {
            self.bits < 0
        }
        pub fn is_zero(self) -> bool {
            self.bits == 0
        }
        pub fn floor(self) -> Self {
            I80F48 { bits: self.bits & !(ONE - 1) }
        }
        pub fn ceil(self) -> Self {
            I80F48 { bits: self.bits.checked_add(ONE - 1).expect("overflow") & !(ONE - 1) }
        }
        pub fn frac(self) -> Self {
            I80F48 { bits: self.bits & (ONE - 1) }
        }
        pub fn int(self) -> Self {
            self.floor()
        }
    }
    impl Mul for I80F48 {
        type Output = Self;
        fn mul(self, o: Self) -> Self {
            self.checked_mul(o).expect("overflow")
        }
    }
    impl Div for I80F48 {
        type Output = Self;
        fn div(self, o: Self) -> Self {
            self.checked_div(o).expect("overflow or division by zero")
        }
    }
    impl Rem for I80F48 {
        type Output = Self;
        fn rem(self, o: Self) -> Self {
            I80F48 { bits: self.bits % o.bits }
        }
    }
    impl Add for I80F48 {
        type Output = Self;
        fn add(self, o: Self) -> Self {
            self.checked_add(o).expect("overflow")
        }
    }
    impl Sub for I80F48 {
        type Output = Self;
        fn sub(self, o: Self) -> Self {
            self.checked_sub(o).expect("overflow")
        }
    }
    impl Neg for I80F48 {
        type Output = Self;
        fn neg(self) -> Self {
            self.checked_neg().expect("overflow")
        }
    }
    impl MulAssign for I80F48 {
        fn mul_assign(&mut self, o: Self) {
            *self = *self * o;
        }
    }
    impl DivAssign for I80F48 {
        fn div_assign(&mut self, o: Self) {
            *self = *self / o;
        }
    }
    impl AddAssign for I80F48 {
        fn add_assign(&mut self, o: Self) {
            *self = *self + o;
        }
    }
    impl SubAssign for I80F48 {
        fn sub_assign(&mut self, o: Self) {
            *self = *self - o;
        }
    }
    impl std::fmt::Display for I80F48 {
        fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
            write!(f, "{}", self.to_num::<f64>())
        }
    }

    #[derive(Clone, Copy, Debug, Default, PartialEq, Eq, PartialOrd, Ord, Hash)]
    #[repr(transparent)]
    pub struct U64F64 {
        bits: u128,
    }
    impl U64F64 {
        pub const fn from_bits(bits: u128) -> Self {
            U64F64 { bits }
        }
        pub const fn to_bits(self) -> u128 {
            self.bits
        }
        pub fn to_num<T: FromU64F64>(self) -> T {
            T::from_u64f64(self.bits)
        }
        pub fn checked_mul(self, o: Self) -> Option<Self> {
            let m = u64::MAX as u128;
            let (xh, xl, yh, yl) = (self.bits >> 64, self.bits & m, o.bits >> 64, o.bits & m);
            let ll = xl * yl;
            let mid = (ll >> 64).checked_add(xl * yh)?.checked_add(xh * yl)?;
            let hi = xh * yh;
            if hi >> 64 != 0 {
                return None;
            }
            (hi << 64).checked_add(mid).map(Self::from_bits)
        }
    }
    pub trait FromU64F64 {
        fn from_u64f64(bits: u128) -> Self;
    }
    impl FromU64F64 for f64 {
        fn from_u64f64(bits: u128) -> f64 {
            bits as f64 / 18446744073709551616f64
        }
    }
    impl FromU64F64 for u64 {
        fn from_u64f64(bits: u128) -> u64 {
            (bits >> 64) as u64
        }
    }
    impl Mul for U64F64 {
        type Output = Self;
        fn mul(self, o: Self) -> Self {
            self.checked_mul(o).expect("overflow")
        }
    }
}
