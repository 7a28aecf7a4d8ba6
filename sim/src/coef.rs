//! Coefficient types: the simulated prime-field element `F` and the built-in types.
use crate::sim::{coef_event, coef_fmt_event};
use num::{One, Zero};
use std::fmt;
use std::ops::*;
use std::sync::atomic::{AtomicU64, Ordering};

/// Which arithmetic a run uses.
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Ring {
    Field(i128),
    Int { min: i128, max: i128 },
    Float,
}

pub static P: AtomicU64 = AtomicU64::new(101);

/// Element of GF(P). Every operation is a simulated event.
#[derive(Clone, Copy, Debug)]
pub struct F(pub u32);

#[inline]
fn p() -> u64 {
    P.load(Ordering::Relaxed)
}

impl F {
    fn inv(self) -> F {
        if self.0 == 0 {
            panic!("division by zero");
        }
        let m = p();
        let (mut b, mut e, mut r) = (self.0 as u64, m - 2, 1u64);
        while e > 0 {
            if e & 1 == 1 {
                r = r * b % m;
            }
            b = b * b % m;
            e >>= 1;
        }
        F(r as u32)
    }
    pub fn signed(self) -> i64 {
        let m = p();
        if self.0 as u64 > m / 2 {
            self.0 as i64 - m as i64
        } else {
            self.0 as i64
        }
    }
}

impl Zero for F {
    fn zero() -> F {
        F(0)
    }
    fn is_zero(&self) -> bool {
        coef_event(false);
        self.0 == 0
    }
}
impl One for F {
    fn one() -> F {
        F(1)
    }
    fn is_one(&self) -> bool {
        coef_event(false);
        self.0 == 1
    }
}
impl PartialEq for F {
    fn eq(&self, o: &F) -> bool {
        coef_event(false);
        self.0 == o.0
    }
}
impl Add for F {
    type Output = F;
    fn add(self, o: F) -> F {
        coef_event(true);
        F(((self.0 as u64 + o.0 as u64) % p()) as u32)
    }
}
impl Sub for F {
    type Output = F;
    fn sub(self, o: F) -> F {
        coef_event(true);
        F(((self.0 as u64 + p() - o.0 as u64) % p()) as u32)
    }
}
impl Mul for F {
    type Output = F;
    fn mul(self, o: F) -> F {
        coef_event(true);
        F((self.0 as u64 * o.0 as u64 % p()) as u32)
    }
}
impl Div for F {
    type Output = F;
    fn div(self, o: F) -> F {
        coef_event(true);
        F((self.0 as u64 * o.inv().0 as u64 % p()) as u32)
    }
}
impl Neg for F {
    type Output = F;
    fn neg(self) -> F {
        coef_event(true);
        F(((p() - self.0 as u64) % p()) as u32)
    }
}
impl AddAssign for F {
    fn add_assign(&mut self, o: F) {
        *self = *self + o;
    }
}
impl SubAssign for F {
    fn sub_assign(&mut self, o: F) {
        *self = *self - o;
    }
}
impl MulAssign for F {
    fn mul_assign(&mut self, o: F) {
        *self = *self * o;
    }
}
impl DivAssign for F {
    fn div_assign(&mut self, o: F) {
        *self = *self / o;
    }
}
impl fmt::Display for F {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        coef_event(false);
        if coef_fmt_event() {
            return Err(fmt::Error);
        }
        write!(f, "{}", self.signed())
    }
}

#[cfg(feature = "hooked")]
mod hooked {
    use super::*;
    use rustnomial::numerics::*;
    impl IsNegativeOne for F {
        fn is_negative_one(&self) -> bool {
            coef_event(false);
            self.0 as u64 == p() - 1
        }
    }
    impl Abs for F {
        fn abs(self) -> F {
            coef_event(true);
            F(self.signed().unsigned_abs() as u32)
        }
    }
    impl IsPositive for F {
        fn is_positive(&self) -> bool {
            coef_event(false);
            self.signed() > 0
        }
    }
    impl PowUsize for F {
        fn upow(self, exp: usize) -> F {
            coef_event(true);
            let m = p();
            let (mut b, mut e, mut r) = (self.0 as u64, exp, 1u64);
            while e > 0 {
                if e & 1 == 1 {
                    r = r * b % m;
                }
                b = b * b % m;
                e >>= 1;
            }
            F(r as u32)
        }
    }
    impl CanNegate for F {
        fn can_negate() -> bool {
            true
        }
    }
    impl TryFromUsizeExact for F {
        fn try_from_usize_exact(n: usize) -> Result<F, ExactConversionError> {
            coef_event(false);
            if (n as u64) < p() {
                Ok(F(n as u32))
            } else {
                Err(too_big_exact())
            }
        }
    }
    impl TryFromUsizeContinuous for F {
        fn try_from_usize_cont(n: usize) -> Result<F, ConversionError> {
            coef_event(false);
            if (n as u64) < p() {
                Ok(F(n as u32))
            } else {
                Err(too_big_cont())
            }
        }
    }
    // The error values are taken from the library itself, whatever they are called there.
    fn too_big_exact() -> ExactConversionError {
        <i8 as TryFromUsizeExact>::try_from_usize_exact(usize::MAX)
            .err()
            .expect("usize::MAX fits i8?")
    }
    fn too_big_cont() -> ConversionError {
        <i8 as TryFromUsizeContinuous>::try_from_usize_cont(usize::MAX)
            .err()
            .expect("usize::MAX fits i8?")
    }
}

/// What the executor needs of a coefficient type (public bounds only).
pub trait Coef:
    Copy
    + Zero
    + One
    + PartialEq
    + fmt::Debug
    + fmt::Display
    + Neg<Output = Self>
    + Add<Output = Self>
    + Sub<Output = Self>
    + Mul<Output = Self>
    + Div<Output = Self>
    + AddAssign
    + SubAssign
    + MulAssign
    + DivAssign
    + Send
    + Sync
    + 'static
    + crate::val::Priv
{
    fn ring() -> Ring;
    /// Coefficient for a number of the plan (total: every number means some coefficient).
    fn from_x(x: i64) -> Self;
    /// Coefficient for an exact model value; None if it does not fit.
    fn from_m(v: i128) -> Option<Self>;
    /// Exact model value; None if there is none (fractions, infinities).
    fn to_m(self) -> Option<i128>;
    /// Canonical comparable key; zero is 0.
    fn key(self) -> i128;
    fn key_is_zero(self) -> bool {
        self.key() == 0
    }
}

impl Coef for F {
    fn ring() -> Ring {
        Ring::Field(p() as i128)
    }
    fn from_x(x: i64) -> F {
        F(x.rem_euclid(p() as i64) as u32)
    }
    fn from_m(v: i128) -> Option<F> {
        Some(F(v.rem_euclid(p() as i128) as u32))
    }
    fn to_m(self) -> Option<i128> {
        Some(self.0 as i128)
    }
    fn key(self) -> i128 {
        self.0 as i128
    }
}

macro_rules! int_coef {
    ($T:ty) => {
        impl Coef for $T {
            fn ring() -> Ring {
                Ring::Int {
                    min: <$T>::MIN as i128,
                    max: <$T>::MAX as i128,
                }
            }
            fn from_x(x: i64) -> $T {
                x as $T
            }
            fn from_m(v: i128) -> Option<$T> {
                <$T>::try_from(v).ok()
            }
            fn to_m(self) -> Option<i128> {
                Some(self as i128)
            }
            fn key(self) -> i128 {
                self as i128
            }
        }
    };
}
int_coef!(i8);
int_coef!(i64);

pub const FSPECIAL: [f64; 12] = [
    1e200,
    -1e200,
    f64::MIN_POSITIVE,
    0.5,
    -0.0,
    5e-324,
    f64::MAX,
    0.1,
    1e-200,
    -0.1,
    1.0e16,
    3.3333333333333335,
];
pub const FSPECIAL_BASE: i64 = 1 << 60;

impl Coef for f64 {
    fn ring() -> Ring {
        Ring::Float
    }
    fn from_x(x: i64) -> f64 {
        if x >= FSPECIAL_BASE {
            FSPECIAL[((x - FSPECIAL_BASE) as usize) % FSPECIAL.len()]
        } else {
            x as f64
        }
    }
    fn from_m(v: i128) -> Option<f64> {
        if v.unsigned_abs() <= 1 << 53 {
            Some(v as f64)
        } else {
            None
        }
    }
    fn to_m(self) -> Option<i128> {
        if self.fract() == 0.0 && self.abs() <= 9.0e15 {
            Some(self as i128)
        } else {
            None
        }
    }
    fn key(self) -> i128 {
        if self == 0.0 {
            0
        } else if self.is_nan() {
            -1
        } else {
            self.to_bits() as i128
        }
    }
}
