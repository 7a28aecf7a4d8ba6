//! Root finding: it finishes for every operand, and depends on the polynomial denoted only. (Whether
//! the roots are right is a pure question of numerics and not asked here.)
use crate::coef::{Coef, FSPECIAL};
use crate::exec::*;
use crate::plan::*;
use crate::sim::*;
use crate::special::tally;
use rustnomial::*;

fn float(x: i64) -> f64 {
    let s = if x & 1024 == 0 { 1.0 } else { -1.0 };
    s * match x.rem_euclid(16) {
        0 => FSPECIAL[(x / 16).rem_euclid(12) as usize],
        1 if x & 2048 == 0 => f64::INFINITY,
        2 if x & 6144 == 0 => f64::NAN,
        3 | 4 => 0.0,
        5 | 6 => 1.0,
        7 => (x / 16).rem_euclid(1000) as f64 / 7.0,
        _ => (x / 16).rem_euclid(20) as f64,
    }
}

/// What was found, as text; `Err` if it panicked.
fn call<C: Coef>(cx: &Ctx<C>, live: bool, f: impl FnOnce() -> String) -> Result<String, String> {
    // the text is made inside: formatting is the library's or the compiler's, never ours
    let (o, c) = lib(live, Arm::default(), None, f);
    tally(cx, &c);
    match o {
        Out::Done(s) => Ok(s),
        Out::Hit(k) => Err(format!("{:?}", k)),
        Out::Natural(m) => Err(m),
    }
}

macro_rules! fixed {
    ($cx:expr, $at:expr, $T:ty, $c:expr, $small:expr) => {{
        let c: [$T; 3] = $c;
        let q = QuadraticTrinomial::new(c);
        let b = LinearBinomial::new([c[0], c[1]]);
        let m = Monomial::new(c[0], c[2] as usize % 9);
        let all = |live: bool| {
            call($cx, live, || {
                format!("{:?} {:?} {:?} {:?}", q.discriminant(), q.roots(), q.real_factors().is_some(), {
                    let (k, _, _) = q.complex_factors();
                    k
                })
            })
            .and_then(|s| call($cx, live, || format!("{} {:?} {:?}", s, b.root(), m.root())))
        };
        let (x, y) = (all(true), all(false));
        if x != y {
            $cx.report(C06 | C08, $at, || format!("roots of {} {:?}: {:?} interleaved, {:?} alone", stringify!($T), c, x, y));
        }
        if let (Err(e), true) = (&x, $small) {
            $cx.report(C07, $at, || format!("roots of {} {:?}: panicked '{}'", stringify!($T), c, e));
        }
    }};
}

pub fn roots_op<C: Coef>(cx: &Ctx<C>, at: At, g: &Gene) {
    let x = [g.x, g.y, g.z];
    let small = |m: i64| x.map(|v| (v / 16).rem_euclid(2 * m + 1) - m);
    match g.a % 8 {
        0 => fixed!(cx, at, f64, x.map(float), true),
        1 => fixed!(cx, at, f32, x.map(|v| float(v) as f32), true),
        2 => fixed!(cx, at, i16, small(50).map(|v| v as i16), small(50)[0] != 0),
        3 => {
            let wide = g.flags & ALT != 0;
            let c = if wide { x.map(|v| (v >> (v & 31)) as i64) } else { small(1000) };
            let small = !wide && c[0] != 0;
            match g.b % 4 {
                0 => fixed!(cx, at, i32, c.map(|v| v as i32), small),
                1 => fixed!(cx, at, i128, c.map(|v| v as i128), small),
                2 => fixed!(cx, at, isize, c.map(|v| v as isize), small),
                _ => fixed!(cx, at, i64, c, small),
            }
        }
        _ => {
            let mut t: Vec<(f64, usize)> = g.t.iter().map(|e| (float(e.0), e.1.unsigned_abs() as usize % 14)).collect();
            t.sort_by_key(|e| std::cmp::Reverse(e.1));
            t.dedup_by_key(|e| e.1);
            let dense = g.a % 2 == 0;
            let extra = 1 + g.b as usize % 4;
            let all = |live: bool, dressed: bool| {
                if dense {
                    let n = t.first().map_or(0, |e| e.1 + 1) + if dressed { extra } else { 0 };
                    let mut v = vec![0.0; n];
                    t.iter().for_each(|e| v[n - 1 - e.1] = e.0);
                    let p = if dressed { Polynomial { terms: v } } else { Polynomial::new(v) };
                    call(cx, live, || format!("{:?}", p.roots()))
                } else {
                    let mut m: std::collections::BTreeMap<usize, f64> = t.iter().filter(|e| e.0 != 0.0).map(|e| (e.1, e.0)).collect();
                    if dressed {
                        t.iter().for_each(|e| {
                            m.entry(e.1).or_insert(0.0);
                            m.entry(e.1 + extra).or_insert(0.0);
                        });
                    }
                    let p = SparsePolynomial { terms: m };
                    call(cx, live, || format!("{:?}", p.roots()))
                }
            };
            let what = || format!("roots of {} {:?}", if dense { "Polynomial" } else { "SparsePolynomial" }, t);
            let (plain, dressed) = (all(true, false), all(false, true));
            if let Err(e) = &plain {
                cx.report(C07, at, || format!("{}: panicked '{}'", what(), e));
            }
            if plain != dressed {
                cx.report(C08, at, || format!("{}: {:?}, with stored zeros {:?}", what(), plain, dressed));
            }
            cx.log(|| format!("task {} op {}: {} -> {:?}", at.task, at.op, what(), plain));
        }
    }
}
