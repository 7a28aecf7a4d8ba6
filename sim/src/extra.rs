//! Traits of ordinary numbers which rustnomial does not ask for today. They are there so that a change
//! to the library which asks for one more of them still builds with the simulated coefficient types.
use crate::coef::F;
use crate::sim::coef_event;
use crate::stress::{EvI, EvR};
use std::cmp::Ordering;
use std::iter::{Product, Sum};
use std::ops::*;

macro_rules! by_reference {
    ($T:ty: $($Op:ident $op:ident $As:ident $assign:ident),*) => {$(
        impl $Op<&$T> for $T {
            type Output = $T;
            fn $op(self, o: &$T) -> $T { $Op::$op(self, *o) }
        }
        impl $Op<$T> for &$T {
            type Output = $T;
            fn $op(self, o: $T) -> $T { $Op::$op(*self, o) }
        }
        impl $Op<&$T> for &$T {
            type Output = $T;
            fn $op(self, o: &$T) -> $T { $Op::$op(*self, *o) }
        }
        impl $As<&$T> for $T {
            fn $assign(&mut self, o: &$T) { $As::$assign(self, *o) }
        }
    )*};
}

macro_rules! ordinary {
    ($T:ty, $zero:expr, $one:expr) => {
        impl Default for $T {
            fn default() -> $T { $zero }
        }
        impl PartialOrd for $T {
            fn partial_cmp(&self, o: &$T) -> Option<Ordering> {
                coef_event(false);
                self.0.partial_cmp(&o.0)
            }
        }
        impl Rem for $T {
            type Output = $T;
            fn rem(self, o: $T) -> $T { self - self / o * o }
        }
        impl RemAssign for $T {
            fn rem_assign(&mut self, o: $T) { *self = *self % o }
        }
        impl Sum for $T {
            fn sum<I: Iterator<Item = $T>>(i: I) -> $T { i.fold($zero, |a, b| a + b) }
        }
        impl<'a> Sum<&'a $T> for $T {
            fn sum<I: Iterator<Item = &'a $T>>(i: I) -> $T { i.fold($zero, |a, b| a + *b) }
        }
        impl Product for $T {
            fn product<I: Iterator<Item = $T>>(i: I) -> $T { i.fold($one, |a, b| a * b) }
        }
        impl<'a> Product<&'a $T> for $T {
            fn product<I: Iterator<Item = &'a $T>>(i: I) -> $T { i.fold($one, |a, b| a * *b) }
        }
        impl Neg for &$T {
            type Output = $T;
            fn neg(self) -> $T { -*self }
        }
        by_reference!($T: Add add AddAssign add_assign, Sub sub SubAssign sub_assign, Mul mul MulAssign mul_assign,
            Div div DivAssign div_assign, Rem rem RemAssign rem_assign);
    };
}

ordinary!(F, F(0), F(1));
ordinary!(EvI, EvI(0), EvI(1));
ordinary!(EvR, EvR(0.0), EvR(1.0));
impl Eq for F {}
impl Eq for EvI {}
impl Ord for F {
    fn cmp(&self, o: &F) -> Ordering {
        coef_event(false);
        self.0.cmp(&o.0)
    }
}
impl Ord for EvI {
    fn cmp(&self, o: &EvI) -> Ordering {
        coef_event(false);
        self.0.cmp(&o.0)
    }
}
impl std::hash::Hash for F {
    fn hash<H: std::hash::Hasher>(&self, h: &mut H) { self.0.hash(h) }
}
