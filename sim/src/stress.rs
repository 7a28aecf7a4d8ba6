//! Division with coefficient types whose division is not exact: truncating integers that wrap, and
//! floats including infinities and NaN. Every coefficient operation is a counted event.
use crate::coef::Coef;
use crate::exec::*;
use crate::plan::*;
use crate::sim::*;
use crate::special::tally;
use num::{One, Zero};
use rustnomial::*;
use std::fmt::Debug;
use std::ops::*;

macro_rules! event_type {
    ($E:ident, $T:ty, $zero:expr, $one:expr, $add:expr, $sub:expr, $mul:expr, $div:expr, $neg:expr) => {
        #[derive(Clone, Copy, Debug)]
        pub struct $E(pub $T);
        impl Zero for $E {
            fn zero() -> $E {
                $E($zero)
            }
            fn is_zero(&self) -> bool {
                coef_event(false);
                self.0 == $zero
            }
        }
        impl One for $E {
            fn one() -> $E {
                $E($one)
            }
        }
        impl PartialEq for $E {
            fn eq(&self, o: &$E) -> bool {
                coef_event(false);
                self.0 == o.0
            }
        }
        impl Add for $E {
            type Output = $E;
            fn add(self, o: $E) -> $E {
                coef_event(true);
                $E($add(self.0, o.0))
            }
        }
        impl Sub for $E {
            type Output = $E;
            fn sub(self, o: $E) -> $E {
                coef_event(true);
                $E($sub(self.0, o.0))
            }
        }
        impl Mul for $E {
            type Output = $E;
            fn mul(self, o: $E) -> $E {
                coef_event(true);
                $E($mul(self.0, o.0))
            }
        }
        impl Div for $E {
            type Output = $E;
            fn div(self, o: $E) -> $E {
                coef_event(true);
                $E($div(self.0, o.0))
            }
        }
        impl Neg for $E {
            type Output = $E;
            fn neg(self) -> $E {
                coef_event(true);
                $E($neg(self.0))
            }
        }
        impl AddAssign for $E {
            fn add_assign(&mut self, o: $E) {
                *self = *self + o;
            }
        }
        impl SubAssign for $E {
            fn sub_assign(&mut self, o: $E) {
                *self = *self - o;
            }
        }
        impl MulAssign for $E {
            fn mul_assign(&mut self, o: $E) {
                *self = *self * o;
            }
        }
        impl DivAssign for $E {
            fn div_assign(&mut self, o: $E) {
                *self = *self / o;
            }
        }
    };
}

event_type!(EvI, i64, 0, 1, i64::wrapping_add, i64::wrapping_sub, i64::wrapping_mul, i64::wrapping_div, i64::wrapping_neg);
event_type!(
    EvR,
    f64,
    0.0,
    1.0,
    |a: f64, b: f64| a + b,
    |a: f64, b: f64| a - b,
    |a: f64, b: f64| a * b,
    |a: f64, b: f64| a / b,
    |a: f64| -a
);

trait Ev: Copy + Debug + 'static {
    fn from_x(x: i64) -> Self;
    fn bits(self) -> u64;
    fn sparse(q: u8, a: &mut SparsePolynomial<Self>, b: &SparsePolynomial<Self>) -> Vec<(usize, u64)>;
    fn dense(q: u8, a: &mut Polynomial<Self>, b: &Polynomial<Self>) -> Vec<(usize, u64)>;
}

fn bits_d<E: Ev>(p: &Polynomial<E>) -> Vec<(usize, u64)> {
    let n = p.terms.len();
    p.terms.iter().enumerate().map(|(i, c)| (n - 1 - i, c.bits())).filter(|e| e.1 != 0).collect()
}
fn bits_s<E: Ev>(p: &SparsePolynomial<E>) -> Vec<(usize, u64)> {
    p.terms.iter().map(|(d, c)| (*d, c.bits())).filter(|e| e.1 != 0).collect()
}

macro_rules! ev {
    ($E:ident, $from:expr, $bits:expr) => {
        impl Ev for $E {
            fn from_x(x: i64) -> $E {
                $E($from(x))
            }
            fn bits(self) -> u64 {
                $bits(self.0)
            }
            fn dense(q: u8, a: &mut Polynomial<$E>, b: &Polynomial<$E>) -> Vec<(usize, u64)> {
                match q {
                    0 => {
                        let (q, r) = a.div_mod(b);
                        outside(|| [bits_d(&q), bits_d(&r)].concat())
                    }
                    1 => {
                        let q = a.floor_div(b);
                        outside(|| bits_d(&q))
                    }
                    2 => {
                        let r = a.clone() % b.clone();
                        outside(|| bits_d(&r))
                    }
                    _ => {
                        *a %= b.clone();
                        outside(|| bits_d(a))
                    }
                }
            }
            fn sparse(q: u8, a: &mut SparsePolynomial<$E>, b: &SparsePolynomial<$E>) -> Vec<(usize, u64)> {
                match q {
                    0 | 1 => {
                        let (q, r) = a.div_mod(b);
                        outside(|| [bits_s(&q), bits_s(&r)].concat())
                    }
                    2 => {
                        let r = a.clone() % b.clone();
                        outside(|| bits_s(&r))
                    }
                    _ => {
                        *a %= b.clone();
                        outside(|| bits_s(a))
                    }
                }
            }
        }
    };
}
ev!(EvI, |x: i64| x, |v: i64| v as u64);
ev!(
    EvR,
    |x: i64| match x.rem_euclid(23) {
        19 => f64::INFINITY,
        20 => f64::NAN,
        21 => 1e308,
        22 => 5e-324,
        7 => 0.0,
        _ => (x.rem_euclid(1999) - 999) as f64 / [1.0, 3.0, 7.0, 10.0][x.rem_euclid(4) as usize],
    },
    |v: f64| if v == 0.0 { 0 } else if v.is_nan() { 1 } else { v.to_bits() }
);

pub fn div_stress<C: Coef>(cx: &Ctx<C>, at: At, g: &Gene) {
    if g.flags & ALT == 0 {
        stress::<EvI, C>(cx, at, g)
    } else {
        stress::<EvR, C>(cx, at, g)
    }
}

fn stress<E: Ev, C: Coef>(cx: &Ctx<C>, at: At, g: &Gene) {
    let split = (g.c as usize).min(g.t.len());
    let sparse = g.b & 1 == 1;
    let q = (g.y.unsigned_abs() % 4) as u8;
    let top = if sparse { 60 } else { 40 };
    let mk = |t: &[(i64, i64)]| -> Vec<(E, usize)> { t.iter().map(|&(c, d)| (E::from_x(c), d.unsigned_abs() as usize % top)).collect() };
    let (ta, tb) = (mk(&g.t[..split]), mk(&g.t[split..]));
    // Of several terms of one degree the last one counts.
    let last: std::collections::BTreeMap<usize, u64> = tb.iter().map(|e| (e.1, e.0.bits())).collect();
    if last.values().all(|b| *b == 0) {
        return; // division by zero
    }
    let dense = |t: &[(E, usize)]| {
        let n = t.iter().map(|e| e.1 + 1).max().unwrap_or(0);
        let mut v = vec![E::from_x(0); n];
        if E::from_x(0).bits() != 0 {
            v = vec![E::from_x(7); n];
        }
        for &(c, d) in t {
            v[n - 1 - d] = c;
        }
        Polynomial { terms: v }
    };
    let sp = |t: &[(E, usize)]| SparsePolynomial { terms: t.iter().map(|&(c, d)| (d, c)).collect() };
    let n = (top + ta.len() + tb.len() + 4) as u64;
    let arm = Arm { budget: 3_000 + 400 * n * n, ..Arm::default() };
    let name = ["div_mod", "floor_div", "%", "%="][q as usize];
    let desc = |m: &str| {
        format!(
            "{} {} of {:?} by {:?}: {}",
            if sparse { "sparse" } else { "dense" },
            name,
            ta,
            tb,
            m
        )
    };
    let go = |arm: Arm| {
        if sparse {
            let (mut a, b) = (sp(&ta), sp(&tb));
            let before = bits_s(&a);
            let (o, c) = lib(true, arm, None, || E::sparse(q, &mut a, &b));
            (o, c, bits_s(&a) == before)
        } else {
            let (mut a, b) = (dense(&ta), dense(&tb));
            let before = bits_d(&a);
            let (o, c) = lib(true, arm, None, || E::dense(q, &mut a, &b));
            (o, c, bits_d(&a) == before)
        }
    };
    let (o, cnt, _) = go(arm);
    tally(cx, &cnt);
    cx.log(|| format!("task {} op {}: {}", at.task, at.op, desc(&format!("{} coefficient operations", cnt.steps))));
    let first = match o {
        Out::Done(r) => r,
        Out::Hit(SimPanic::Budget) => {
            return cx.report(C07, at, || desc(&format!("not finished after {} coefficient operations", arm.budget)))
        }
        Out::Hit(k) => return cx.report(C07, at, || desc(&format!("asks for an unbounded amount of memory ({:?})", k))),
        Out::Natural(m) => {
            // A zero leading coefficient cannot be divided by; nothing else may fail here.
            return cx.report(C07, at, || desc(&format!("panicked '{}'", m)));
        }
    };
    if g.fault == Fault::Coef && cnt.arith > 0 {
        let (o, c2, same) = go(Arm { panic_at: 1 + g.at as u64 % cnt.arith, ..arm });
        tally(cx, &c2);
        if matches!(o, Out::Hit(SimPanic::Coef)) {
            cx.count_fault("coefficient-panic");
            if q == 3 && !same {
                cx.report(C01, at, || desc("interrupted, and the target changed"));
            }
        }
        let (o, c3, _) = go(arm);
        tally(cx, &c3);
        match o {
            Out::Done(r) if r == first => {}
            _ => cx.report(C07, at, || desc("the retry after an interruption does not give the result")),
        }
    }
}
