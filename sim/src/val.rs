//! The five polynomial types under one roof, and the calls whose bounds are private traits.
use crate::coef::Coef;
use crate::parties::{RecSink, SimStream};
use rustnomial::*;
use std::collections::BTreeMap;
use std::fmt::Write;

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Kind {
    D,
    S,
    M,
    B,
    Q,
}
pub const KINDS: [Kind; 5] = [Kind::D, Kind::S, Kind::M, Kind::B, Kind::Q];

#[derive(Clone, Debug)]
pub enum Val<N> {
    D(Polynomial<N>),
    S(SparsePolynomial<N>),
    M(Monomial<N>),
    B(LinearBinomial<N>),
    Q(QuadraticTrinomial<N>),
}

#[macro_export]
macro_rules! each {
    ($v:expr, $x:ident => $e:expr) => {
        match $v {
            $crate::val::Val::D($x) => $e,
            $crate::val::Val::S($x) => $e,
            $crate::val::Val::M($x) => $e,
            $crate::val::Val::B($x) => $e,
            $crate::val::Val::Q($x) => $e,
        }
    };
}

/// Denotation: degree -> canonical key of the non-zero coefficient.
pub type Den = BTreeMap<usize, i128>;

impl<N: Coef> Val<N> {
    pub fn kind(&self) -> Kind {
        match self {
            Val::D(_) => Kind::D,
            Val::S(_) => Kind::S,
            Val::M(_) => Kind::M,
            Val::B(_) => Kind::B,
            Val::Q(_) => Kind::Q,
        }
    }
    /// Every stored coefficient with its degree (read from the public fields, not by library code).
    pub fn stored(&self) -> Vec<(usize, N)> {
        match self {
            Val::D(p) => {
                let n = p.terms.len();
                p.terms.iter().enumerate().map(|(i, &c)| (n - 1 - i, c)).collect()
            }
            Val::S(p) => p.terms.iter().map(|(&d, &c)| (d, c)).collect(),
            Val::M(p) => vec![(p.deg, p.coefficient)],
            Val::B(p) => vec![(1, p.coefficients[0]), (0, p.coefficients[1])],
            Val::Q(p) => vec![
                (2, p.coefficients[0]),
                (1, p.coefficients[1]),
                (0, p.coefficients[2]),
            ],
        }
    }
    /// Number of stored coefficients.
    pub fn len(&self) -> usize {
        match self {
            Val::D(p) => p.terms.len(),
            Val::S(p) => p.terms.len(),
            Val::M(_) => 1,
            Val::B(_) => 2,
            Val::Q(_) => 3,
        }
    }
    pub fn den(&self) -> Den {
        self.stored()
            .into_iter()
            .filter(|(_, c)| !c.key_is_zero())
            .map(|(d, c)| (d, c.key()))
            .collect()
    }
    /// Exact stored representation, zeros included.
    pub fn raw(&self) -> Vec<(usize, i128)> {
        self.stored().into_iter().map(|(d, c)| (d, c.key())).collect()
    }
    /// Builds a value of kind `k` from (coefficient, degree) pairs taken in order, zeros stored.
    /// Pairs the kind cannot hold are dropped. No library code is involved.
    pub fn build(k: Kind, t: &[(N, usize)]) -> Val<N> {
        let z = N::zero();
        match k {
            Kind::D => {
                let n = t.iter().map(|e| e.1 + 1).max().unwrap_or(0);
                let mut v = vec![z; n];
                for &(c, d) in t {
                    v[n - 1 - d] = c;
                }
                Val::D(Polynomial { terms: v })
            }
            Kind::S => Val::S(SparsePolynomial {
                terms: t.iter().map(|&(c, d)| (d, c)).collect(),
            }),
            Kind::M => {
                let (c, d) = t.first().copied().unwrap_or((z, 0));
                Val::M(Monomial { coefficient: c, deg: d })
            }
            Kind::B => {
                let mut a = [z; 2];
                for &(c, d) in t {
                    if d <= 1 {
                        a[1 - d] = c;
                    }
                }
                Val::B(LinearBinomial { coefficients: a })
            }
            Kind::Q => {
                let mut a = [z; 3];
                for &(c, d) in t {
                    if d <= 2 {
                        a[2 - d] = c;
                    }
                }
                Val::Q(QuadraticTrinomial { coefficients: a })
            }
        }
    }
    pub fn zero(k: Kind) -> Val<N> {
        Val::build(k, &[])
    }
    /// A freshly built value with the same non-zero coefficients.
    pub fn fresh(&self) -> Val<N> {
        let t: Vec<(N, usize)> = self
            .stored()
            .into_iter()
            .filter(|(_, c)| !c.key_is_zero())
            .map(|(d, c)| (c, d))
            .collect();
        Val::build(self.kind(), &t)
    }
    /// Number of heap-relevant entries of a sparse value (0 for the other kinds).
    pub fn map_entries(&self) -> usize {
        match self {
            Val::S(p) => p.terms.len(),
            _ => 0,
        }
    }
    pub fn show(&self) -> String {
        let s: Vec<String> = self
            .stored()
            .iter()
            .map(|(d, c)| format!("{:?}@{}", c, d))
            .collect();
        format!("{:?}[{}]", self.kind(), s.join(" "))
    }
}

/// Integral of a value: the inner polynomial, its definite integral, and `replace_c`.
pub struct IntegralOut<N> {
    pub inner: Val<N>,
    pub area: N,
    pub with_c: Val<N>,
}

/// Calls bounded by the library's private numeric traits. `None`: not reachable for this type.
pub trait Priv: Sized + Copy {
    const REACHABLE: bool = false;
    fn try_term(_v: &mut Val<Self>, _c: Self, _d: usize, _sub: bool) -> Option<Result<(), TryAddError>> {
        None
    }
    fn eval(_v: &Val<Self>, _x: Self) -> Option<Self> {
        None
    }
    fn derivative(_v: &Val<Self>) -> Option<Val<Self>> {
        None
    }
    fn integral(_v: &Val<Self>, _a: Self, _b: Self, _c: Self) -> Option<IntegralOut<Self>> {
        None
    }
    fn mono_pow(_v: &Monomial<Self>, _e: usize) -> Option<Monomial<Self>> {
        None
    }
    fn write_text(_v: &Val<Self>, _integral: bool, _spec: u8, _w: &mut dyn Write) -> Option<std::fmt::Result> {
        None
    }
    /// mode 0 add_poly, 1 sub_poly, 2 mul_poly_vec
    fn stream(
        _mode: u8,
        _s: &mut SimStream<Self>,
        _l: &[(Self, usize)],
        _sink: &mut Val<Self>,
    ) -> Option<Result<(), TryAddError>> {
        None
    }
    fn stream_rec(
        _mode: u8,
        _s: &mut SimStream<Self>,
        _l: &[(Self, usize)],
        _sink: &mut RecSink<Self>,
    ) -> Option<Result<(), TryAddError>> {
        None
    }
    /// The real term iterators as streams (poly_add!/poly_sub! and add_poly over library iterators).
    fn macro_sum(_sink: &mut Val<Self>, _a: &Val<Self>, _b: &Val<Self>, _n: u8, _sub: bool) -> Option<Result<(), TryAddError>> {
        None
    }
}

pub trait Shown: std::fmt::Display + std::fmt::Debug {}
impl<T: std::fmt::Display + std::fmt::Debug> Shown for T {}

/// Write a value under one of the format specifications a caller can choose (`SPECS`).
pub fn put(w: &mut dyn Write, spec: u8, p: &dyn Shown) -> std::fmt::Result {
    match spec {
        0 => write!(w, "{}", p),
        1 => write!(w, "{:#}", p),
        2 => write!(w, "{:+}", p),
        3 => write!(w, "{:14}", p),
        4 => write!(w, "{:.1}", p),
        5 => write!(w, "{:*>+#024.3}", p),
        6 => write!(w, "{:?}", p),
        _ => write!(w, "{:#?}", p),
    }
}
pub const SPECS: [&str; 8] = ["{}", "{:#}", "{:+}", "{:14}", "{:.1}", "{:*>+#024.3}", "{:?}", "{:#?}"];

macro_rules! run_stream {
    ($mode:expr, $s:expr, $l:expr, $sink:expr) => {
        match $mode {
            0 => poly_math::add_poly($s, $sink),
            1 => poly_math::sub_poly($s, $sink),
            _ => poly_math::mul_poly_vec($s, $l, $sink),
        }
    };
}

macro_rules! priv_impl {
    ($T:ty) => {
        impl Priv for $T {
            const REACHABLE: bool = true;
            fn try_term(v: &mut Val<$T>, c: $T, d: usize, sub: bool) -> Option<Result<(), TryAddError>> {
                Some(each!(v, p => if sub { p.try_sub_term(c, d) } else { p.try_add_term(c, d) }))
            }
            fn eval(v: &Val<$T>, x: $T) -> Option<$T> {
                Some(each!(v, p => p.eval(x)))
            }
            fn derivative(v: &Val<$T>) -> Option<Val<$T>> {
                Some(match v {
                    Val::D(p) => Val::D(p.derivative()),
                    Val::S(p) => Val::S(p.derivative()),
                    Val::M(p) => Val::M(p.derivative()),
                    Val::B(p) => Val::B(p.derivative()),
                    Val::Q(p) => Val::Q(p.derivative()),
                })
            }
            fn integral(v: &Val<$T>, a: $T, b: $T, c: $T) -> Option<IntegralOut<$T>> {
                Some(match v {
                    Val::D(p) => {
                        let i = p.integral();
                        IntegralOut { area: i.eval(a, b), with_c: Val::D(i.replace_c(c)), inner: Val::D(i.inner().clone()) }
                    }
                    Val::S(p) => {
                        let i = p.integral();
                        IntegralOut { area: i.eval(a, b), with_c: Val::S(i.replace_c(c)), inner: Val::S(i.inner().clone()) }
                    }
                    Val::M(p) => {
                        let i = p.integral();
                        IntegralOut { area: i.eval(a, b), with_c: Val::S(i.replace_c(c)), inner: Val::S(i.inner().clone()) }
                    }
                    Val::B(p) => {
                        let i = p.integral();
                        IntegralOut { area: i.eval(a, b), with_c: Val::D(i.replace_c(c)), inner: Val::D(i.inner().clone()) }
                    }
                    Val::Q(p) => {
                        let i = p.integral();
                        IntegralOut { area: i.eval(a, b), with_c: Val::D(i.replace_c(c)), inner: Val::D(i.inner().clone()) }
                    }
                })
            }
            fn mono_pow(v: &Monomial<$T>, e: usize) -> Option<Monomial<$T>> {
                Some(v.pow(e))
            }
            fn write_text(v: &Val<$T>, integral: bool, spec: u8, w: &mut dyn Write) -> Option<std::fmt::Result> {
                Some(if integral {
                    match v {
                        Val::D(p) => put(w, spec, &Integral::new(p.clone())),
                        Val::S(p) => put(w, spec, &Integral::new(p.clone())),
                        _ => each!(v, p => put(w, spec, p)),
                    }
                } else {
                    each!(v, p => put(w, spec, p))
                })
            }
            fn stream(mode: u8, s: &mut SimStream<$T>, l: &[($T, usize)], sink: &mut Val<$T>) -> Option<Result<(), TryAddError>> {
                Some(each!(sink, k => run_stream!(mode, s, l, k)))
            }
            fn stream_rec(mode: u8, s: &mut SimStream<$T>, l: &[($T, usize)], sink: &mut RecSink<$T>) -> Option<Result<(), TryAddError>> {
                Some(run_stream!(mode, s, l, sink))
            }
            fn macro_sum(sink: &mut Val<$T>, a: &Val<$T>, b: &Val<$T>, n: u8, sub: bool) -> Option<Result<(), TryAddError>> {
                Some(each!(sink, k => each!(a, x => each!(b, y => {
                    match (sub, n) {
                        (true, 1) => poly_sub!(*k; x),
                        (true, 2) => poly_sub!(*k; x, y),
                        (true, _) => poly_sub!(*k; x, y, x),
                        (false, 1) => poly_add!(*k; x),
                        (false, 2) => poly_add!(*k; x, y),
                        (false, _) => poly_add!(*k; x, y, x),
                    }
                }))))
            }
        }
    };
}

priv_impl!(i8);
priv_impl!(i64);
priv_impl!(f64);
#[cfg(feature = "hooked")]
priv_impl!(crate::coef::F);
#[cfg(not(feature = "hooked"))]
impl Priv for crate::coef::F {}
