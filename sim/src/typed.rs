//! Every built-in coefficient type: exact results (C06), independence of stored zeros (C08), and
//! formatting into failing sinks (C05).
use crate::by_type;
use crate::coef::{Coef, Ring};
use crate::each;
use crate::exec::*;
use crate::model::Model;
use crate::ops::eval_bound;
use crate::parties::*;
use crate::plan::*;
use crate::sim::*;
use crate::special::{judge_text, pick_spec, sink_fault, tally, Wrote};
use crate::text::{build, den, show, stored, Num};
use crate::val::{put, SPECS, IntegralOut, Kind, Val, KINDS};
use rustnomial::*;
use std::cell::Cell;
use std::fmt::{self, Write};

/// An exact value of any coefficient type.
#[derive(Clone, Copy, Debug)]
pub enum Ex {
    I(i128),
    U(u128),
    F(f64),
}

impl Ex {
    fn same(self, o: Ex) -> bool {
        match (self, o) {
            (Ex::I(a), Ex::I(b)) => a == b,
            (Ex::U(a), Ex::U(b)) => a == b,
            (Ex::F(a), Ex::F(b)) => a == b,
            (Ex::I(a), Ex::U(b)) | (Ex::U(b), Ex::I(a)) => u128::try_from(a) == Ok(b),
            (Ex::I(a), Ex::F(b)) | (Ex::F(b), Ex::I(a)) => b.fract() == 0.0 && b.abs() < 1e38 && b as i128 == a,
            (Ex::U(a), Ex::F(b)) | (Ex::F(b), Ex::U(a)) => b.fract() == 0.0 && b >= 0.0 && b < 3e38 && b as u128 == a,
        }
    }
}

pub type Converted = Vec<(&'static str, Vec<(usize, Ex)>)>;

pub trait TNum: Num {
    const MAX: i128;
    const MIN: i128;
    /// Derivatives and integrals exist.
    const CALC: bool;
    fn of(v: i128) -> Option<Self>;
    fn val(self) -> Option<i128>;
    fn ex(self) -> Ex;
    fn t_eval(v: &Val<Self>, x: Self) -> Self;
    fn t_derivative(_v: &Val<Self>) -> Option<Val<Self>> {
        None
    }
    fn t_integral(_v: &Val<Self>, _a: Self, _b: Self, _c: Self) -> Option<IntegralOut<Self>> {
        None
    }
    fn t_pow(v: &Val<Self>, e: usize) -> Option<Val<Self>>;
    fn t_add(a: Val<Self>, b: Val<Self>) -> Option<Val<Self>>;
    fn t_sub(a: Val<Self>, b: Val<Self>) -> Option<Val<Self>>;
    fn t_mul(a: Val<Self>, b: Val<Self>) -> Option<Val<Self>>;
    fn t_scale(a: Val<Self>, x: Self, div: bool) -> Val<Self>;
    /// A positive amount is multiplied with, in one of four equivalent ways.
    fn t_shift(a: Val<Self>, up: i32, form: u8) -> Option<Val<Self>>;
    /// For types with negative values.
    fn t_neg(_a: Val<Self>) -> Option<Val<Self>> {
        None
    }
    fn t_minus(_a: Val<Self>, _b: Val<Self>) -> Option<Val<Self>> {
        None
    }
    fn t_conv(v: &Val<Self>) -> Converted;
    /// form 0 poly_add!(a, b), 1 poly_sub!(a, b), 2 poly_add!(sink; a, b), 3 poly_sub!(sink; a, b),
    /// 4 poly_add!(a, b, a), 5 poly_sub!(a, b, a), 6 poly_add!(sink; a, b, a), 7 poly_sub!(sink; a, b, a)
    fn t_macro(form: u8, sink: &mut Polynomial<Self>, a: &Val<Self>, b: &Val<Self>) -> Result<Option<Polynomial<Self>>, TryAddError>;
    fn t_terms(v: &Val<Self>) -> (Vec<(Self, usize)>, Vec<(Self, usize)>, Degree, bool);
    fn t_text(v: &Val<Self>, integral: bool, spec: u8, w: &mut dyn Write) -> fmt::Result;
}

macro_rules! same_kind {
    ($a:expr, $b:expr, [$($K:ident),*], $x:ident, $y:ident => $e:expr) => {
        match ($a, $b) {
            $((Val::$K($x), Val::$K($y)) => Some(Val::$K($e)),)*
            _ => None,
        }
    };
}

fn exact_terms<T: TNum>(v: &Val<T>) -> Vec<(usize, Ex)> {
    den(v).into_iter().map(|(d, c)| (d, c.ex())).collect()
}

/// An integral made by the macro, where the rest takes a polynomial to integrate.
struct Whole<I>(I);
impl<I> Whole<I> {
    fn integral(self) -> I {
        self.0
    }
}

macro_rules! calc {
    ($T:ty, true) => {
        fn t_derivative(v: &Val<$T>) -> Option<Val<$T>> {
            Some(match v {
                Val::D(p) => Val::D(match p.terms[..] {
                    [a, b, c] => derivative!(a, b, c),
                    [a, b, c, d, e] => derivative!(a, b, c, d, e),
                    _ => p.derivative(),
                }),
                Val::S(p) => Val::S(p.derivative()),
                Val::M(p) => Val::M(p.derivative()),
                Val::B(p) => Val::B(p.derivative()),
                Val::Q(p) => Val::Q(p.derivative()),
            })
        }
        fn t_integral(v: &Val<$T>, a: $T, b: $T, c: $T) -> Option<IntegralOut<$T>> {
            macro_rules! go {
                ($p:expr, $W:ident) => {{
                    let i = $p.integral();
                    IntegralOut { area: i.eval(a, b), with_c: Val::$W(i.replace_c(c)), inner: Val::$W(i.inner().clone()) }
                }};
            }
            Some(match v {
                Val::D(p) => match p.terms[..] {
                    [a, b, c] => go!(Whole(integral!(a, b, c)), D),
                    [a, b, c, d] => go!(Whole(integral!(a, b, c, d)), D),
                    _ => go!(p, D),
                },
                Val::S(p) => go!(p, S),
                Val::M(p) => go!(p, S),
                Val::B(p) => go!(p, D),
                Val::Q(p) => go!(p, D),
            })
        }
    };
    ($T:ty, false) => {};
}

macro_rules! signed {
    ($T:ty, u) => {};
    ($T:ty, i) => {
        fn t_neg(a: Val<$T>) -> Option<Val<$T>> {
            Some(match a {
                Val::D(p) => Val::D(-p),
                Val::S(p) => Val::S(-p),
                Val::M(p) => Val::M(-p),
                Val::B(p) => Val::B(-p),
                Val::Q(p) => Val::Q(-p),
            })
        }
        fn t_minus(a: Val<$T>, b: Val<$T>) -> Option<Val<$T>> {
            match (a, b) {
                (Val::D(x), Val::D(y)) => Some(Val::D(x - y)),
                (Val::S(x), Val::S(y)) => Some(Val::S(x - y)),
                (a, b) => <$T as TNum>::t_sub(a, b),
            }
        }
    };
}

macro_rules! tnum {
    ($T:ident, $calc:tt, $sign:tt, $ex:expr, [$($W:ident),*], { $($rest:tt)* }) => {
        impl TNum for $T {
            $($rest)*
            const CALC: bool = $calc;
            calc!($T, $calc);
            signed!($T, $sign);
            fn ex(self) -> Ex {
                $ex(self)
            }
            fn t_eval(v: &Val<$T>, x: $T) -> $T {
                each!(v, p => p.eval(x))
            }
            fn t_pow(v: &Val<$T>, e: usize) -> Option<Val<$T>> {
                match v {
                    Val::D(p) => Some(Val::D(p.pow(e))),
                    Val::S(p) => Some(Val::S(p.pow(e))),
                    Val::M(p) => Some(Val::M(p.pow(e))),
                    _ => None,
                }
            }
            fn t_add(a: Val<$T>, b: Val<$T>) -> Option<Val<$T>> {
                same_kind!(a, b, [D, S, B, Q], x, y => x + y)
            }
            fn t_sub(a: Val<$T>, b: Val<$T>) -> Option<Val<$T>> {
                same_kind!(a, b, [B, Q], x, y => x - y)
            }
            fn t_mul(a: Val<$T>, b: Val<$T>) -> Option<Val<$T>> {
                same_kind!(a, b, [D, S, M], x, y => x * y)
            }
            fn t_scale(a: Val<$T>, x: $T, div: bool) -> Val<$T> {
                macro_rules! go {
                    ($p:expr) => {
                        if div { $p / x } else { $p * x }
                    };
                }
                match a {
                    Val::D(p) => Val::D(go!(p)),
                    Val::S(p) => Val::S(go!(p)),
                    Val::M(p) => Val::M(go!(p)),
                    Val::B(p) => Val::B(go!(p)),
                    Val::Q(p) => Val::Q(go!(p)),
                }
            }
            fn t_shift(a: Val<$T>, up: i32, form: u8) -> Option<Val<$T>> {
                macro_rules! go {
                    ($p:expr) => {{
                        let mut p = $p;
                        match form % 4 {
                            0 => p << up,
                            1 => p >> -up,
                            2 => {
                                p <<= up;
                                p
                            }
                            _ => {
                                p >>= -up;
                                p
                            }
                        }
                    }};
                }
                macro_rules! down {
                    ($p:expr) => {{
                        let mut p = $p;
                        if form % 2 == 0 {
                            p >> up.unsigned_abs()
                        } else {
                            p >>= up.unsigned_abs();
                            p
                        }
                    }};
                }
                Some(match a {
                    Val::D(p) => Val::D(go!(p)),
                    Val::S(p) => Val::S(go!(p)),
                    Val::M(p) => Val::M(go!(p)),
                    Val::B(p) if up <= 0 => Val::B(down!(p)),
                    Val::Q(p) if up <= 0 => Val::Q(down!(p)),
                    _ => return None,
                })
            }
            #[allow(unused_variables, unused_mut)]
            fn t_conv(v: &Val<$T>) -> Converted {
                let mut o: Converted = vec![];
                $({
                    let c: Val<$W> = match v.clone() {
                        Val::D(p) => Val::D(p.into()),
                        Val::S(p) => Val::S(p.into()),
                        Val::M(p) => Val::M(p.into()),
                        Val::B(p) => Val::B(p.into()),
                        Val::Q(p) => Val::Q(p.into()),
                    };
                    outside(|| o.push((stringify!($W), exact_terms(&c))));
                })*
                o
            }
            fn t_macro(form: u8, sink: &mut Polynomial<$T>, a: &Val<$T>, b: &Val<$T>) -> Result<Option<Polynomial<$T>>, TryAddError> {
                each!(a, x => each!(b, y => match form {
                    0 => Ok(Some(poly_add!(x, y))),
                    1 => Ok(Some(poly_sub!(x, y))),
                    2 => poly_add!(*sink; x, y).map(|_| None),
                    3 => poly_sub!(*sink; x, y).map(|_| None),
                    4 => Ok(Some(poly_add!(x, y, x))),
                    5 => Ok(Some(poly_sub!(x, y, x))),
                    6 => poly_add!(*sink; x, y, x).map(|_| None),
                    _ => poly_sub!(*sink; x, y, x).map(|_| None),
                }))
            }
            fn t_terms(v: &Val<$T>) -> (Vec<($T, usize)>, Vec<($T, usize)>, Degree, bool) {
                each!(v, p => (p.terms_as_vec(), p.ordered_term_iter().collect(), p.degree(), p.is_zero()))
            }
            fn t_text(v: &Val<$T>, integral: bool, spec: u8, w: &mut dyn Write) -> fmt::Result {
                match (v, integral) {
                    (Val::D(p), true) => put(w, spec, &Integral::new(p.clone())),
                    (Val::S(p), true) => put(w, spec, &Integral::new(p.clone())),
                    _ => each!(v, p => put(w, spec, p)),
                }
            }
        }
    };
}

macro_rules! int {
    ($T:ident, $calc:tt, $sign:tt, [$($W:ident),*]) => {
        tnum!($T, $calc, $sign, |v: $T| i128::try_from(v).map_or_else(|_| Ex::U(v as u128), Ex::I), [$($W),*], {
            const MAX: i128 = if ($T::MAX as u128) > i128::MAX as u128 { i128::MAX } else { $T::MAX as i128 };
            const MIN: i128 = $T::MIN as i128;
            fn of(v: i128) -> Option<$T> {
                $T::try_from(v).ok()
            }
            fn val(self) -> Option<i128> {
                i128::try_from(self).ok()
            }
        });
    };
}
macro_rules! float {
    ($T:ident, $bits:expr, [$($W:ident),*]) => {
        tnum!($T, true, i, |v: $T| Ex::F(v as f64), [$($W),*], {
            const MAX: i128 = 1 << $bits;
            const MIN: i128 = -(1 << $bits);
            fn of(v: i128) -> Option<$T> {
                (v.unsigned_abs() <= 1 << $bits).then_some(v as $T)
            }
            fn val(self) -> Option<i128> {
                (self.fract() == 0.0 && self.abs() <= (1u64 << $bits) as $T).then_some(self as i128)
            }
        });
    };
}
int!(u8, true, u, [u16, u32, u64, u128, i16, i32, i64, i128, f32, f64]);
int!(u16, true, u, [u32, u64, u128, i32, i64, i128, f32, f64]);
int!(u32, true, u, [u64, u128, i64, i128, f64]);
int!(u64, true, u, [u128, i128]);
int!(u128, true, u, []);
int!(usize, false, u, []);
int!(i8, true, i, [i16, i32, i64, i128, f32, f64]);
int!(i16, true, i, [i32, i64, i128, f32, f64]);
int!(i32, true, i, [i64, i128, f64]);
int!(i64, true, i, [i128]);
int!(i128, true, i, []);
int!(isize, false, i, []);
float!(f32, 24, [f64]);
float!(f64, 53, []);

pub fn typed_op<C: Coef>(cx: &Ctx<C>, at: At, g: &Gene) {
    by_type!(g.a, typed(cx, at, g))
}
pub fn fmt_typed_op<C: Coef>(cx: &Ctx<C>, at: At, g: &Gene) {
    by_type!(g.a, fmt_typed(cx, at, g))
}

fn coef<T: TNum>(x: i64) -> T {
    let small = (x >> 2).rem_euclid(25) as i128;
    match x & 3 {
        0 => T::pick(x >> 2),
        1 if !T::UNSIGNED => T::of(-small).unwrap(),
        _ => T::of(small).unwrap(),
    }
}

fn operand<T: TNum>(k: Kind, t: &[(i64, i64)], cap: usize) -> Val<T> {
    let t: Vec<(T, usize)> = t
        .iter()
        .map(|&(x, d)| {
            let u = d.unsigned_abs() as usize;
            let d = match k {
                Kind::D => u % cap,
                Kind::B => u % 2,
                Kind::Q => u % 3,
                _ if d < 0 => d as usize, // from 2^63 up
                _ => u,
            };
            (coef::<T>(x), d)
        })
        .collect();
    build(k, &t)
}

fn model<T: TNum>(v: &Val<T>) -> Option<Model> {
    let mut m = Model::default();
    for (d, c) in den(v) {
        m.0.insert(d, c.val()?);
    }
    Some(m)
}

fn is<T: TNum>(v: &Val<T>, m: &Model) -> bool {
    let d = den(v);
    d.len() == m.0.len() && d.iter().zip(m.0.iter()).all(|(a, b)| a.0 == *b.0 && a.1.val() == Some(*b.1))
}

fn sat_pow(b: u128, e: u128) -> u128 {
    if b <= 1 {
        return b;
    }
    (0..e.min(130)).fold(1u128, |r, _| r.saturating_mul(b))
}

enum TRes<T> {
    V(Val<T>),
    N(T),
    I(IntegralOut<T>),
    Conv(Converted),
    Terms(Vec<(T, usize)>, Vec<(T, usize)>, Degree, bool),
    Err(TryAddError),
    None,
}

const WHAT: [&str; 15] = [
    "eval", "derivative", "integral", "pow", "+", "-", "*", "* scalar", "/ scalar", "conversion", "poly_add!/poly_sub!", "terms",
    "shift", "neg", "minus",
];

/// The violation, if there is one.
fn dense<T>(v: &mut Val<T>) -> &mut Polynomial<T> {
    match v {
        Val::D(p) => p,
        _ => unreachable!(),
    }
}

fn judge<T: TNum, C: Coef>(cx: &Ctx<C>, g: &Gene, a: &Val<T>, b: &Val<T>, oom_at: u64, allocs: &Cell<u64>) -> Option<String> {
    let what = (g.y.unsigned_abs() % WHAT.len() as u64) as usize;
    let (am, bm) = (model(a)?, model(b)?);
    let r = Ring::Int { min: i128::MIN, max: i128::MAX };
    let (x, z, w) = (coef::<T>(g.x), coef::<T>(g.z), coef::<T>(g.x ^ g.z));
    let (xv, zv) = (x.val(), z.val());
    let da = am.deg().unwrap_or(0);
    let k = match a {
        Val::D(_) => Kind::D,
        Val::S(_) => Kind::S,
        Val::M(_) => Kind::M,
        Val::B(_) => Kind::B,
        Val::Q(_) => Kind::Q,
    };
    // What is asked for is kept to a size the simulation can hold.
    let e = {
        let e = (g.z.unsigned_abs() >> 3) as usize;
        let e = if g.z & 1 == 0 { e % 6 } else { e };
        let top = stored(a).iter().map(|t| t.0).max().unwrap_or(0);
        let fits = match k {
            Kind::M => top.checked_mul(e).is_some(),
            Kind::D => top * e.min(1000) <= 200 && e < 1000,
            _ => stored(a).len() <= 1 && e < 1000 && top.checked_mul(e).is_some() || top.saturating_mul(e.min(1000)) <= 120 && e < 200,
        };
        // A degree no usize holds has to be refused.
        let refused = matches!(k, Kind::M | Kind::S) && stored(a).len() == 1 && top.checked_mul(e).is_none() && (k == Kind::M || e < 1000);
        if fits || refused && g.z & 8 == 0 {
            e
        } else {
            (e & 1) + 1
        }
    };
    let top2 = stored(a).iter().chain(stored(b).iter()).map(|t| t.0).max().unwrap_or(0);
    let up = {
        let n = (g.x.unsigned_abs() >> 1) as i64;
        let n = match k {
            Kind::D => n % if g.x & 8 == 0 { 12 } else { 1500 },
            _ if g.x & 8 == 0 => n % 12,
            _ if g.x & 16 == 0 => i32::MAX as i64 - n % 3,
            _ => n % (1 << 31),
        } as i32;
        if g.x & 1 == 0 || matches!(k, Kind::B | Kind::Q) {
            -n
        } else {
            n
        }
    };
    // The degree of the result, if a usize holds it.
    let reach = |am: Option<usize>, bm: Option<usize>| match what {
        2 => am.map_or(Some(0), |d| d.checked_add(1)),
        3 => am.map_or(Some(0), |d| d.checked_mul(e)),
        6 => am.zip(bm).map_or(Some(0), |(x, y)| x.checked_add(y)),
        12 => am.map_or(Some(0), |d| d.checked_add(up.max(0) as usize)),
        _ => Some(0),
    };
    let refused = reach(am.deg(), bm.deg()).is_none();
    let highest = |v: &Val<T>| stored(v).iter().map(|t| t.0).max();
    if !refused && reach(highest(a), highest(b)).is_none() {
        return None; // stored zeros only
    }
    if what == 10 && top2 >= 400 {
        return None;
    }
    let form = (g.z.unsigned_abs() % 8) as u8;
    let mut sink: Val<T> = build(Kind::D, &[]);
    if what == 10 && form & 2 != 0 {
        // something to subtract from
        sink = build(Kind::D, &stored(b).into_iter().map(|(d, c)| (c, d)).collect::<Vec<_>>());
    }
    let sm = model(&sink)?;
    let (a2, b2) = (a.clone(), b.clone());
    let arm = Arm { budget: 0, oom_at, ..Arm::default() };
    let opt = |v: Option<Val<T>>| v.map_or(TRes::None, TRes::V);
    let (out, cnt) = lib(true, arm, None, || match what {
        12 => opt(T::t_shift(a2, up, form)),
        13 => opt(T::t_neg(a2)),
        14 => opt(T::t_minus(a2, b2)),
        0 => TRes::N(T::t_eval(a, x)),
        1 => opt(T::t_derivative(a)),
        2 => T::t_integral(a, x, z, w).map_or(TRes::None, TRes::I),
        3 => opt(T::t_pow(a, e)),
        4 => opt(T::t_add(a2, b2)),
        5 => opt(T::t_sub(a2, b2)),
        6 => opt(T::t_mul(a2, b2)),
        7 => TRes::V(T::t_scale(a2, x, false)),
        8 => TRes::V(T::t_scale(a2, x, true)),
        9 => TRes::Conv(T::t_conv(a)),
        10 => match T::t_macro(form, dense(&mut sink), a, b) {
            Ok(Some(p)) => TRes::V(Val::D(p)),
            Ok(None) => TRes::None,
            Err(e) => TRes::Err(e),
        },
        _ => {
            let (t, u, d, n) = T::t_terms(a);
            TRes::Terms(t, u, d, n)
        }
    });
    tally(cx, &cnt);
    // a panic allocates for its message
    allocs.set(if matches!(out, Out::Done(_)) { cnt.allocs } else { 0 });
    if cnt.oom_fired && oom_at > 0 {
        cx.count_fault("allocation-failure");
        if matches!(out, Out::Hit(_)) {
            return None;
        }
    }
    // The exact answer; `bound`: no intermediate exceeds it; None: not modelled.
    let mut want: Option<Model> = None;
    let mut want2: Option<Model> = None;
    let mut scalar: Option<i128> = None;
    let mut bound = u128::MAX;
    let mut panic_ok = refused;
    match what {
        2 | 3 | 6 | 12 if refused => {}
        0 => {
            if let Some(x) = xv {
                bound = eval_bound(&am, x.unsigned_abs());
                scalar = am.eval(r, x);
            }
        }
        1 => {
            bound = am.0.iter().map(|(&d, &c)| c.unsigned_abs().saturating_mul(d.max(1) as u128)).max().unwrap_or(0);
            want = am.derivative(r);
            panic_ok |= da as i128 > T::MAX;
        }
        2 => {
            panic_ok |= da as i128 >= T::MAX;
            if !T::FLOAT || am.0.iter().all(|(&d, &c)| c % (d as i128 + 1) == 0) {
                if let (Some(m), Some(lo), Some(hi)) = (am.integral(r), xv, zv) {
                    bound = eval_bound(&m, lo.unsigned_abs()).saturating_add(eval_bound(&m, hi.unsigned_abs())).max(am.max_abs());
                    scalar = m.eval(r, hi).and_then(|h| r.sub(h, m.eval(r, lo)?));
                    want2 = w.val().and_then(|w| m.add(r, &Model::term(r, w, 0)));
                    want = Some(m);
                }
            }
        }
        3 => {
            bound = sat_pow(am.sum_abs(), 2 * e as u128);
            want = match am.0.len() {
                0 if e > 0 => Some(Model::default()),
                1 => {
                    let (&d, &c) = am.0.iter().next().unwrap();
                    if k == Kind::M {
                        bound = sat_pow(c.unsigned_abs(), e as u128);
                    }
                    r.pow(c, e).map(|v| Model::term(r, v, d * e))
                }
                _ => am.pow(r, e),
            };
        }
        4 => {
            bound = am.max_abs().saturating_add(bm.max_abs());
            want = am.add(r, &bm);
        }
        5 => {
            bound = am.max_abs().saturating_add(bm.max_abs());
            want = am.sub(r, &bm);
        }
        6 => {
            bound = am.sum_abs().saturating_mul(bm.sum_abs());
            want = am.mul(r, &bm);
        }
        7 => {
            if let Some(x) = xv {
                bound = am.max_abs().saturating_mul(x.unsigned_abs());
                want = am.map(r, |_, c| r.mul(c, x));
            }
        }
        8 => match xv {
            Some(0) if !T::FLOAT => panic_ok = true,
            Some(x) if x != 0 && (!T::FLOAT || am.0.values().all(|c| c % x == 0)) => {
                bound = am.max_abs();
                want = am.map(r, |_, c| r.div(c, x));
            }
            _ => {}
        },
        12 => {
            bound = am.max_abs();
            want = (!refused).then(|| am.shl(up as i64));
        }
        13 => {
            bound = am.max_abs();
            want = am.neg(r);
        }
        14 => {
            bound = am.max_abs().saturating_add(bm.max_abs());
            want = am.sub(r, &bm);
        }
        10 => {
            bound = am.max_abs().saturating_mul(2).saturating_add(bm.max_abs()).saturating_add(sm.max_abs());
            want = match form & 3 {
                0 => am.add(r, &bm),
                1 => am.sub(r, &bm),
                2 => sm.add(r, &am).and_then(|m| m.add(r, &bm)),
                _ => sm.sub(r, &am).and_then(|m| m.sub(r, &bm)),
            };
            if form > 3 {
                want = want.and_then(|m| if form & 1 == 0 { m.add(r, &am) } else { m.sub(r, &am) });
            }
        }
        _ => bound = 0,
    }
    let out_of_range = |m: &Option<Model>| m.as_ref().is_some_and(|m| m.0.values().any(|v| *v > T::MAX || *v < T::MIN));
    let fits = bound <= T::MAX as u128;
    let mut decided = fits;
    if !T::FLOAT {
        panic_ok |= !fits || out_of_range(&want) || out_of_range(&want2) || scalar.is_some_and(|v| v < T::MIN);
        decided = true;
    }
    let exact = |d: usize| match T::NAME {
        "f32" => d as f32 as u128 == d as u128,
        "f64" => d as f64 as u128 == d as u128,
        _ => true,
    };
    let calculus = !matches!(&out, Out::Done(TRes::None));
    let rounded = match what {
        1 if calculus => am.0.keys().copied().find(|&d| !exact(d)),
        2 if calculus && !refused => am.0.keys().map(|d| d + 1).find(|&d| !exact(d)),
        _ => None,
    };
    match &out {
        Out::Hit(SimPanic::Budget) => Some("does not finish".into()),
        Out::Hit(_) => Some("asks for an unbounded amount of memory".into()),
        Out::Natural(m) => (!panic_ok).then(|| format!("panicked with '{}' although the exact result exists", m)),
        Out::Done(res) if refused && !matches!(res, TRes::None) => Some("completed although the result has a degree which no usize holds".into()),
        // A degree the type cannot represent is refused, never rounded.
        Out::Done(_) if rounded.is_some() => Some(format!("completed although {} cannot represent the degree {}", T::NAME, rounded.unwrap())),
        Out::Done(res) => match res {
            TRes::V(v) => {
                match &want {
                    Some(m) if decided && !is(v, m) => Some(format!("result is {}, exact answer {}", show(v), show_model(m))),
                    _ => None,
                }
            }
            TRes::N(n) => match scalar {
                Some(s) if decided && n.val() != Some(s) => Some(format!("value is {:?}, exact answer {}", n, s)),
                _ => None,
            },
            TRes::I(i) => {
                if !decided {
                    return None;
                }
                match (&want, &want2, scalar) {
                    (Some(m), _, _) if !is(&i.inner, m) => Some(format!("integral is {}, exact answer {}", show(&i.inner), show_model(m))),
                    (_, Some(m), _) if !is(&i.with_c, m) => Some(format!("integral with constant is {}, exact answer {}", show(&i.with_c), show_model(m))),
                    (_, _, Some(s)) if i.area.val() != Some(s) => Some(format!("definite integral is {:?}, exact answer {}", i.area, s)),
                    _ => None,
                }
            }
            TRes::Conv(c) => {
                let want: Vec<(usize, Ex)> = exact_terms(a);
                for (to, got) in c {
                    if got.len() != want.len() || !got.iter().zip(want.iter()).all(|(x, y)| x.0 == y.0 && x.1.same(y.1)) {
                        return Some(format!("converted to {} it is {:?}, not {:?}", to, got, want));
                    }
                }
                None
            }
            TRes::Terms(t, u, d, z) => {
                let want: Vec<(i128, usize)> = am.0.iter().rev().map(|(&d, &c)| (c, d)).collect();
                for l in [t, u] {
                    if l.iter().map(|e| (e.0.val().unwrap_or(0), e.1)).collect::<Vec<_>>() != want {
                        return Some(format!("its terms are listed as {:?}, should be {:?}", l, want));
                    }
                }
                let wd = am.deg().map_or(Degree::NegInf, Degree::Num);
                if *d != wd || *z != am.is_zero() {
                    return Some(format!("degree {:?}, zero {}, should be {:?}", d, z, wd));
                }
                None
            }
            TRes::Err(e) => {
                let lacking = T::UNSIGNED && form & 3 == 3 && (!fits || out_of_range(&want));
                (!lacking).then(|| format!("rejected with {:?} although the sink can hold the result", e))
            }
            TRes::None => {
                if what == 10 {
                    if let Some(m) = &want {
                        if decided && !is(&sink, m) {
                            return Some(format!("the sink is {}, exact answer {}", show(&sink), show_model(m)));
                        }
                    }
                }
                None
            }
        },
    }
}

fn typed<T: TNum, C: Coef>(cx: &Ctx<C>, at: At, g: &Gene) {
    let k = KINDS[g.b as usize % 5];
    let what = WHAT[(g.y.unsigned_abs() % WHAT.len() as u64) as usize];
    let split = (g.c as usize).min(g.t.len());
    let cap = match g.flags & ALT {
        0 => 14,
        _ if g.c % 2 == 0 => 1500,
        _ => 300,
    };
    let a: Val<T> = operand(k, &g.t[..split], cap);
    let b: Val<T> = operand(if what.starts_with("poly") { KINDS[g.x.unsigned_abs() as usize % 5] } else { k }, &g.t[split..], cap.min(40));
    cx.log(|| format!("task {} op {}: Typed {} of {} {:?} {} and {}, x={:?} z={:?} ({})", at.task, at.op, what, T::NAME, k, show(&a), show(&b), coef::<T>(g.x), coef::<T>(g.z), g.z));
    let allocs = Cell::new(0);
    let Some(m) = judge(cx, g, &a, &b, 0, &allocs) else {
        // Once more, with one of the allocations refused.
        let small = |v: &Val<T>| !matches!(v, Val::S(_)) || stored(v).len() <= 3;
        if g.fault == Fault::Oom && allocs.get() > 0 && small(&a) && small(&b) && what != "pow" {
            if let Some(m) = judge(cx, g, &a, &b, 1 + g.at as u64 % allocs.get(), &allocs) {
                cx.report(C09, at, || format!("{} of {} with {} coefficients and {}, x={:?} z={:?} ({}), with an allocation refused: {}", what, show(&a), T::NAME, show(&b), coef::<T>(g.x), coef::<T>(g.z), g.z, m));
            }
        }
        return;
    };
    // Right on freshly built operands: then it is the stored zeros that show.
    let fresh = |v: &Val<T>, k: Kind| build(k, &den(v).into_iter().map(|(d, c)| (c, d)).collect::<Vec<_>>());
    let kb = match b {
        Val::D(_) => Kind::D,
        Val::S(_) => Kind::S,
        Val::M(_) => Kind::M,
        Val::B(_) => Kind::B,
        Val::Q(_) => Kind::Q,
    };
    let shows = judge(cx, g, &fresh(&a, k), &fresh(&b, kb), 0, &allocs).is_none();
    cx.report(C06 | if shows { C08 } else { 0 }, at, || {
        format!("{} of {} with {} coefficients and {}, x={:?} z={:?} ({}): {}", what, show(&a), T::NAME, show(&b), coef::<T>(g.x), coef::<T>(g.z), g.z, m)
    });
}

fn fmt_typed<T: TNum, C: Coef>(cx: &Ctx<C>, at: At, g: &Gene) {
    let k = KINDS[g.b as usize % 5];
    let v: Val<T> = operand(k, &g.t, 30);
    let integral = g.flags & ALT != 0 && matches!(k, Kind::D | Kind::S);
    let spec = pick_spec(g, k);
    let arm = Arm { budget: 0, ..Arm::default() };
    let mut dry = TextSink::new(SinkFault::None, false);
    let (o1, c1) = lib(false, arm, None, || Some(T::t_text(&v, integral, spec, &mut dry)));
    tally(cx, &c1);
    let full = dry.got.clone();
    let mut sink = TextSink::new(sink_fault(g, dry.calls, full.len() as u64), g.flags & TRANSIENT != 0);
    let bad = judge_text(&Wrote { sink: &dry, out: &o1, coef_failed: false }, &full);
    let (o2, c2) = lib(true, arm, None, || Some(T::t_text(&v, integral, spec, &mut sink)));
    tally(cx, &c2);
    let w = Wrote { sink: &sink, out: &o2, coef_failed: false };
    crate::special::count_text_fault(cx, &w);
    let bad = bad.or_else(|| judge_text(&w, &full));
    let say = || {
        format!(
            "formatting {} with {} coefficients{} with {} into a sink with {:?}{}",
            show(&v),
            T::NAME,
            if integral { " as an integral" } else { "" },
            SPECS[spec as usize],
            sink.fault,
            if sink.transient { " (transient)" } else { "" }
        )
    };
    cx.log(|| format!("task {} op {}: {}, accepted {:?}", at.task, at.op, say(), sink.got));
    if let Some(m) = bad {
        cx.report(C05, at, || format!("{}: {} (accepted {:?})", say(), m, sink.got));
    }
}
