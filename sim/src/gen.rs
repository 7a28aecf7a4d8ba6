//! Plans from seeds.
use crate::coef::FSPECIAL_BASE;
use crate::exec::{slot_kind, ACC, OWN, RO};
use crate::ops::{class, Class};
use crate::plan::*;
use crate::rng::{mix, Rng};
use crate::val::Kind;

const PRIMES: [u64; 5] = [7, 101, 257, 65521, 2147483647];

/// Relative weights of what a run of a property does.
struct Profile {
    worlds: [u64; 4],
    ops: Vec<(Op, u64)>,
    /// permille of operations that get a fault, and which
    fault: u64,
    kinds: Vec<(Fault, u64)>,
    retry: u64,
    /// weights of 1..4 tasks
    tasks: [u64; 4],
    len: (i64, i64),
    /// permille of Observe after each operation
    observe: u64,
}

fn every(w: u64) -> Vec<(Op, u64)> {
    use Op::*;
    [
        AddAssign, SubAssign, SubAssignRef, MulAssign, MulAssignRef, RemAssign, MulScalarAssign, DivScalarAssign,
        ShlAssign, ShrAssign, AddTerm, TryAdd, TrySub, SetZero, Trim, Add, Sub, SubRef, SubDense, Neg, Mul, MulOwnRef,
        MulRefOwn, MulRefRef, MulScalar, DivScalar, Shl, Shr, Pow, DivMod, FloorDiv, Rem, Derivative, Integral, Eq,
        Degree, IsZero, TermAt, Terms, Eval, Clone, FromTerms, FromVec,
    ]
    .iter()
    .map(|o| (*o, w))
    .collect()
}

fn boosted(base: u64, more: &[(Op, u64)]) -> Vec<(Op, u64)> {
    let mut v = every(base);
    v.extend_from_slice(more);
    v
}

fn profile(prop: u8) -> Profile {
    use Fault::*;
    use Op::*;
    let mutators: &[(Op, u64)] = &[
        (AddAssign, 6),
        (SubAssign, 6),
        (SubAssignRef, 5),
        (MulScalarAssign, 6),
        (DivScalarAssign, 6),
        (AddTerm, 6),
        (TryAdd, 6),
        (TrySub, 6),
        (SetZero, 1),
        (Trim, 1),
    ];
    let base = Profile {
        worlds: [60, 12, 18, 10],
        ops: every(10),
        fault: 300,
        kinds: vec![(Coef, 6), (Oom, 2), (Reenter, 2)],
        retry: 500,
        tasks: [50, 20, 20, 10],
        len: (4, 20),
        observe: 0,
    };
    match prop {
        1 => Profile {
            ops: boosted(2, &[(MulAssign, 60), (MulAssignRef, 60), (RemAssign, 60), (ShlAssign, 40), (ShrAssign, 40), (DivStress, 6)]),
            worlds: [70, 12, 12, 6],
            fault: 750,
            kinds: vec![(Coef, 7), (Oom, 4), (Reenter, 1)],
            retry: 700,
            ..base
        },
        2 => Profile {
            ops: boosted(2, &mutators.iter().map(|(o, w)| (*o, w * 12)).collect::<Vec<_>>()),
            worlds: [66, 16, 14, 4],
            fault: 750,
            kinds: vec![(Coef, 10), (Reenter, 1)],
            ..base
        },
        3 => Profile {
            ops: boosted(2, &[(TryAdd, 200), (TrySub, 200), (AddTerm, 20), (SetZero, 20), (UTerm, 80)]),
            worlds: [45, 20, 25, 10],
            fault: 150,
            ..base
        },
        4 => Profile {
            ops: boosted(1, &[(Stream, 200), (MacroSum, 30), (SetZero, 5)]),
            worlds: [55, 20, 20, 5],
            fault: 700,
            kinds: vec![(Coef, 3), (SinkErr, 5), (SinkPanic, 3), (StreamPanic, 4), (StreamEnd, 4)],
            ..base
        },
        5 => Profile {
            ops: boosted(1, &[(Fmt, 160), (FmtT, 60), (FmtErr, 12)]),
            worlds: [50, 20, 20, 10],
            fault: 800,
            kinds: vec![(SinkErr, 6), (SinkTorn, 6), (SinkPanic, 2), (CoefFmt, 5), (Coef, 1), (Reenter, 1)],
            ..base
        },
        6 => Profile {
            ops: boosted(10, &[(Typed, 120)]),
            fault: 180,
            kinds: vec![(Coef, 4), (Oom, 2), (Reenter, 5)],
            tasks: [25, 30, 30, 15],
            len: (6, 24),
            ..base
        },
        7 => Profile {
            ops: boosted(3, &[(DivMod, 25), (FloorDiv, 15), (Rem, 25), (RemAssign, 25), (Pow, 25), (DivStress, 60), (Mul, 5), (Eval, 5), (Roots, 25)]),
            worlds: [70, 6, 16, 8],
            fault: 350,
            retry: 1000,
            ..base
        },
        8 => Profile {
            ops: boosted(2, &mutators.iter().map(|(o, w)| (*o, w * 5)).chain([(ShrAssign, 15), (ShlAssign, 15), (Sub, 15), (Rem, 10), (MulScalar, 5), (SetZero, 10), (Observe, 60), (Typed, 25), (Roots, 20)]).collect::<Vec<_>>()),
            worlds: [40, 15, 20, 25],
            fault: 250,
            tasks: [70, 15, 10, 5],
            observe: 350,
            ..base
        },
        9 => Profile {
            ops: boosted(10, &[(Stream, 25), (MacroSum, 10), (Fmt, 10), (Text, 25), (Typed, 20), (Roots, 5)]),
            worlds: [60, 10, 20, 10],
            fault: 800,
            kinds: vec![(Oom, 10), (Coef, 3), (StreamPanic, 1), (SinkPanic, 1)],
            retry: 800,
            ..base
        },
        _ => Profile {
            ops: vec![(Text, 100)],
            worlds: [0, 1, 0, 0],
            fault: 0,
            tasks: [85, 10, 4, 1],
            len: (6, 24),
            ..base
        },
    }
}

/// What all of a run has in common.
#[derive(Clone, Copy)]
struct Env {
    w: World,
    /// Smallest degree of most sparse terms.
    base: i64,
    big: bool,
    huge: bool,
}

/// A number for the plan that means a useful coefficient in the world.
fn num(r: &mut Rng, e: Env) -> i64 {
    match e.w {
        World::F => match r.below(10) {
            0 => 0,
            1 => 1,
            2 => -1,
            3..=6 => r.range(-9, 9),
            _ => r.range(-1_000_000, 1_000_000),
        },
        World::I8 => match r.below(20) {
            0 | 1 => 0,
            2 => -128,
            3 => 127,
            4 => r.range(-128, 127),
            5 | 6 => 1,
            7 => -1,
            _ => r.range(-6, 6),
        },
        World::I64 => match r.below(24) {
            0 | 1 => 0,
            2 => *r.pick(&[i64::MIN, i64::MAX, i64::MIN + 1]),
            3 => r.range(-1_000_000_000_000, 1_000_000_000_000),
            4 | 5 => 1,
            6 => -1,
            _ => r.range(-20, 20),
        },
        World::F64 => match r.below(24) {
            0 | 1 => 0,
            2 | 3 => FSPECIAL_BASE + r.below(12) as i64,
            4 | 5 => 1,
            6 => -1,
            7 => r.range(-1_000_000, 1_000_000),
            _ => r.range(-20, 20),
        },
    }
}

/// Degrees around the widths of the integer types; negative numbers stand for 2^63 and up.
/// Format specification: plain more often than not.
fn spec(r: &mut Rng) -> u8 {
    if r.chance(500) {
        0
    } else {
        r.below(8) as u8
    }
}

fn odd_degree(r: &mut Rng) -> i64 {
    let near = r.range(-2, 3);
    match r.below(11) {
        0 => (1 << 8) + near,
        1 => (1 << 16) + near,
        8 => (1 << *r.pick(&[24, 25, 53, 54])) + near,
        6 | 7 => (1 << r.range(3, 62)) + r.range(-2, 8),
        2 => (1 << 31) + near,
        3 => (1 << 32) + near,
        4 => i64::MAX - r.range(0, 3),
        5 => i64::MIN + r.range(0, 3),
        _ => -1 - r.range(0, 3),
    }
}

fn degree(r: &mut Rng, e: Env, k: Kind) -> i64 {
    if e.base > 0 && matches!(k, Kind::S | Kind::M) && r.chance(800) {
        return e.base + r.range(0, 8);
    }
    match k {
        Kind::D if e.huge && r.chance(700) => match r.below(20) {
            0 => r.range(0, 70_000),
            1 => (1 << 16) + r.range(-2, 3),
            2..=10 => r.range(0, 5000),
            _ => (1 << r.range(9, 13)) + r.range(-2, 3),
        },
        Kind::D if e.big && r.chance(500) => r.range(0, 300),
        Kind::D => match r.below(12) {
            0 => r.range(0, 60),
            1..=4 => r.range(0, 16),
            _ => r.range(0, 7),
        },
        Kind::S | Kind::M => match r.below(17) {
            0 => r.range(0, 1 << 40),
            16 => (1 << r.range(3, 61)) + r.range(-2, 8),
            1 => *r.pick(&[(1i64 << 31) - 1, 1 << 31, (1 << 32) - 1, 1 << 32, (1 << 32) + 1, 1 << 33, 127, 128, 255, 256]),
            2..=4 => r.range(0, 40),
            _ => r.range(0, 7),
        },
        _ => match r.below(4) {
            0 => r.range(0, 6),
            _ => r.range(0, 3),
        },
    }
}

/// Terms of a polynomial, with stored zeros now and then.
fn poly(r: &mut Rng, w: Env, k: Kind) -> Vec<(i64, i64)> {
    let mut t: Vec<(i64, i64)> = vec![];
    match k {
        Kind::M => t.push((num(r, w), degree(r, w, k))),
        Kind::B => (0..2).for_each(|d| t.push((num(r, w), d))),
        Kind::Q => (0..3).for_each(|d| t.push((num(r, w), d))),
        Kind::D => {
            let n = match r.below(12) {
                0 => 0,
                9.. if w.huge => r.range(200, 3000),
                5.. if w.big => r.range(40, 200),
                4 if w.big => *r.pick(&[127, 128, 129, 130, 255, 256, 257, 258]),
                1 => r.range(13, 40),
                2..=4 => r.range(6, 12),
                _ => r.range(1, 6),
            };
            let sparse = r.chance(250);
            for d in 0..n {
                t.push((if sparse && r.chance(600) { 0 } else { num(r, w) }, d));
            }
            if n > 0 && r.chance(300) {
                t[n as usize - 1].0 = 1;
            }
            if w.huge && r.chance(400) {
                let d = if r.chance(300) { (1 << 16) + r.range(-2, 3) } else { degree(r, w, k) };
                t.push((num(r, w), d));
            }
            if r.chance(150) {
                // leading zeros
                for i in 0..r.range(1, 3) {
                    t.push((0, n + i));
                }
            }
        }
        Kind::S => {
            let n = match r.below(10) {
                0 => 0,
                7.. if w.huge => r.range(70, 900),
                5.. if w.big => r.range(12, 70),
                1 | 2 => r.range(6, 11),
                _ => r.range(1, 5),
            };
            let small = w.base == 0 && r.chance(650);
            let wide = if w.huge { 1500 } else if w.big { 90 } else { 10 };
            for _ in 0..n {
                let d = if small { r.range(0, wide) } else { degree(r, w, k) };
                t.push((num(r, w), d));
            }
            if r.chance(150) {
                t.push((0, degree(r, w, k)));
            }
            if r.chance(300) {
                if let Some(e) = t.iter_mut().max_by_key(|e| e.1) {
                    e.0 = 1;
                }
            }
        }
    }
    t
}

fn slots_of(k: Kind, lo: usize, hi: usize) -> Vec<usize> {
    (lo..hi).filter(|&i| slot_kind(i) == k).collect()
}

fn pick_slot(r: &mut Rng, k: Kind, pure_op: bool) -> u8 {
    let (o, ro) = (OWN.len(), OWN.len() + RO.len());
    let mut all: Vec<usize> = slots_of(k, 0, o);
    if pure_op && r.chance(350) {
        all = slots_of(k, o, ro);
    } else if r.chance(120) {
        let acc = slots_of(k, ro, ro + ACC.len());
        if !acc.is_empty() {
            all = acc;
        }
    }
    *r.pick(&all) as u8
}

/// Kinds of the left operand an operation exists for.
fn lhs_kinds(op: Op) -> &'static [Kind] {
    use Kind::*;
    use Op::*;
    match op {
        AddAssign | SubAssign | Add | Sub => &[D, D, D, S, S, S, B, Q],
        SubAssignRef | SubRef | MulRefOwn | FloorDiv => &[D],
        SubDense => &[S],
        MulAssign | MulAssignRef | Mul | MulOwnRef => &[D, D, D, S, S, S, M],
        MulRefRef | RemAssign | DivMod | Rem | AddTerm | FromTerms | FromVec | Trim => &[D, S],
        ShlAssign | Shl => &[D, D, S, S, M],
        Pow => &[D, D, S, S, M],
        _ => &[D, D, D, S, S, S, M, B, Q],
    }
}

fn gene(r: &mut Rng, w: Env, op: Op, p: &Profile) -> Gene {
    use Op::*;
    let mut g = Gene::new(op);
    let k = *r.pick(lhs_kinds(op));
    let pure_op = class(op) == Class::Pure;
    g.a = pick_slot(r, k, pure_op);
    let bk = if op == SubDense { Kind::D } else { k };
    g.b = if r.chance(500) {
        let l = slots_of(bk, OWN.len(), OWN.len() + RO.len());
        *r.pick(&l) as u8
    } else {
        pick_slot(r, bk, true)
    };
    g.c = *r.pick(&slots_of(k, 0, OWN.len())) as u8;
    if r.chance(500) {
        g.flags |= STORE;
    }
    if r.chance(p.retry) {
        g.flags |= RETRY;
    }
    if r.chance(300) {
        g.flags |= ALT;
    }
    if r.chance(500) {
        g.flags |= TRANSIENT;
    }
    g.x = num(r, w);
    g.z = num(r, w);
    g.y = match op {
        ShlAssign | Shl if r.below(100) == 0 => i32::MIN as i64,
        ShlAssign | Shl | ShrAssign | Shr if w.huge && r.chance(600) => {
            let n = degree(r, w, Kind::D);
            if r.chance(700) {
                n
            } else {
                -n
            }
        }
        ShlAssign | Shl | ShrAssign | Shr => match r.below(10) {
            0 => 0,
            1 => r.range(-40, 40),
            2 => {
                let n = ((1i64 << r.range(5, 31)) + r.range(-2, 3)).min(i32::MAX as i64);
                if r.chance(500) {
                    n
                } else {
                    -n
                }
            }
            _ => r.range(-6, 6),
        },
        Pow => match r.below(9) {
            0 => 0,
            8 => match r.below(4) {
                0 => r.range(1, 1 << 40),
                1 => (1 << *r.pick(&[8, 16, 31, 32])) + r.range(-1, 2),
                _ => r.range(60, 1030),
            },
            1 => r.range(8, 40),
            2 | 3 => r.range(4, 8),
            _ => r.range(1, 4),
        },
        TryAdd | TrySub if matches!(k, Kind::M | Kind::B | Kind::Q) && r.chance(130) => odd_degree(r),
        TermAt if r.chance(150) => odd_degree(r),
        AddTerm | TryAdd | TrySub | TermAt => degree(r, w, k),
        Integral => num(r, w),
        _ => r.range(0, 11),
    };
    if matches!(op, DivScalarAssign | DivScalar) && g.x == 0 && r.chance(700) {
        g.x = 1 + r.below(5) as i64;
    }
    if matches!(op, Eval | Integral) && w.w != World::F {
        // keep values of high powers in range more often
        if r.chance(700) {
            g.x = r.range(-2, 2);
            g.z = r.range(-2, 2);
        }
    }
    match op {
        FromTerms => {
            g.t = poly(r, w, k);
            if r.chance(500) {
                // repeated degrees, any order
                let odds = *r.pick(&[100u64, 300, 600]);
                for i in 1..g.t.len() {
                    if r.chance(odds) {
                        let j = if r.chance(500) { i - 1 } else { r.below(g.t.len() as u64) as usize };
                        g.t[i].1 = g.t[j].1;
                    }
                    if r.chance(odds) {
                        let j = r.below(g.t.len() as u64) as usize;
                        g.t.swap(i, j);
                    }
                }
            }
        }
        FromVec => g.t = poly(r, w, Kind::D),
        Build => {
            let i = r.below(OWN.len() as u64) as usize;
            g.a = i as u8;
            g.t = poly(r, w, OWN[i]);
        }
        Stream => {
            let i = r.below(OWN.len() as u64) as usize;
            g.a = i as u8;
            g.b = r.below((OWN.len() + RO.len()) as u64) as u8;
            let kk = OWN[i];
            let d0 = degree(r, w, kk);
            g.c = r.below(32) as u8;
            let n = if r.chance(40) { r.range(10, 110) } else { r.range(0, 9) };
            for _ in 0..n {
                let d = match kk {
                    // mostly what the sink can hold, so that rejections come at any place
                    Kind::M if r.chance(850) => d0,
                    Kind::B if r.chance(850) => r.range(0, 1),
                    Kind::Q if r.chance(850) => r.range(0, 2),
                    Kind::M | Kind::B | Kind::Q if r.chance(300) => odd_degree(r),
                    _ => degree(r, w, kk),
                };
                g.t.push((num(r, w), d));
            }
            g.z = r.range(0, 2);
        }
        MacroSum => {
            g.a = r.below(OWN.len() as u64) as u8;
            g.b = r.below((OWN.len() + RO.len()) as u64) as u8;
            g.c = r.below((OWN.len() + RO.len()) as u64) as u8;
            g.y = r.range(0, 7);
        }
        Observe | Fmt => {
            g.a = r.below((OWN.len() + RO.len()) as u64) as u8;
            g.y = degree(r, w, Kind::D);
            if op == Fmt {
                g.c = spec(r);
            }
            if op == Observe {
                for _ in 0..r.below(4) {
                    g.t.push((0, degree(r, w, Kind::S)));
                }
            }
        }
        FmtErr => {
            g.c = spec(r);
            g.y = r.range(0, 6);
            g.x = r.range(0, 0x3000);
        }
        UTerm => {
            g.a = r.below(crate::text::NTYPES as u64) as u8;
            g.b = r.below(5) as u8;
            for _ in 0..r.range(1, 14) {
                // mostly small amounts that cancel each other
                let x = if r.chance(750) { (5 + 10 * r.range(0, 6)) << 1 | r.range(0, 1) } else { r.range(0, 1 << 40) };
                let d = match r.below(20) {
                    0 | 1 => r.range(0, 1 << 44),
                    2 | 3 => odd_degree(r),
                    _ => r.range(0, 5),
                };
                g.t.push((x, d));
            }
        }
        DivStress => {
            g.b = r.below(2) as u8;
            g.y = r.range(0, 3);
            if r.chance(500) {
                g.flags ^= ALT;
            }
            let (n, m) = (r.range(1, 10), r.range(1, 5));
            let wide = r.chance(200);
            for i in 0..n + m {
                let d = match r.below(5) {
                    0 => r.range(0, 59),
                    _ => r.range(0, if i < n { 12 } else { 5 }),
                };
                let c = if wide { r.u64() as i64 } else { r.range(-30, 30) };
                g.t.push((c, d));
            }
            g.c = n as u8;
        }
        Typed | FmtT => {
            if op == FmtT {
                g.c = spec(r);
            }
            g.a = r.below(crate::text::NTYPES as u64) as u8;
            g.b = r.below(5) as u8;
            g.flags &= !ALT;
            if r.chance(80) || op == FmtT && r.chance(300) {
                g.flags |= ALT;
            }
            let n = r.range(1, 6);
            let base = if r.chance(150) { odd_degree(r) } else { 0 };
            for _ in 0..n + r.range(0, 4) {
                let d = match r.below(12) {
                    0 => odd_degree(r),
                    1 => r.range(0, 400),
                    _ => base.saturating_add(r.range(0, 9)),
                };
                g.t.push((r.range(0, 1 << 40), d));
            }
            g.c = n as u8;
            g.x = r.range(0, 1 << 40);
            g.z = r.range(0, 1 << 40);
            if r.chance(500) {
                // small points and exponents
                g.x = r.range(0, 16) << 2 | 2;
                g.z = r.range(0, 16) << 2 | 2;
            }
            g.y = r.range(0, 14);
        }
        Roots => {
            g.a = r.below(8) as u8;
            g.b = r.below(4) as u8;
            g.x = r.range(0, 1 << 40);
            g.y = r.range(0, 1 << 40);
            g.z = r.range(0, 1 << 40);
            for _ in 0..r.range(0, 8) {
                g.t.push((r.range(0, 1 << 40), r.range(0, 13)));
            }
        }
        Text => {
            g.a = r.below(crate::text::NTYPES as u64) as u8;
            g.b = r.below(5) as u8;
            g.c = if r.chance(400) { 1 + r.below(200) as u8 } else { 0 };
            let n = if r.chance(10) { r.range(20, 400) } else { r.range(0, 6) };
            for _ in 0..n {
                let d = if n > 6 || r.chance(200) { r.range(0, i64::MAX) } else { r.range(0, 60) };
                g.t.push((r.range(0, i64::MAX), d));
            }
            g.z = match r.below(10) {
                0..=2 => 0,
                3..=7 => r.range(1, 9),
                8 => r.range(1, 9) * 10 + r.range(1, 9),
                _ => r.range(1, 9) * 100 + r.range(0, 9) * 10 + r.range(1, 9),
            };
            g.x = r.range(0, i64::MAX);
            g.y = r.range(0, i64::MAX);
            g.at = r.u64() as u32;
            let tails = [" + 1", "x^2 - 4", "5", "^3", "x", "12x^7 + 3x - 1", "-", " ", " - 0.5x"];
            g.s = r.pick(&tails).to_string();
        }
        _ => {}
    }
    g
}

fn build(r: &mut Rng, w: Env, slot: usize) -> Gene {
    let mut g = Gene::new(Op::Build);
    g.a = slot as u8;
    g.t = poly(r, w, OWN[slot]);
    g
}

pub fn plan(prop: u8, seed: u64, run: u64, reachable_f: bool) -> Plan {
    let mut r = Rng::new(mix(mix(seed, 0x5EED_0000 + prop as u64), run));
    let p = profile(prop);
    let mut world = World::ALL[r.weighted(&p.worlds)];
    if !reachable_f && world == World::F && matches!(prop, 4 | 5) {
        world = *r.pick(&[World::I8, World::I64, World::F64]);
    }
    let prime = *r.pick(&PRIMES);
    let big = prop != 10 && r.chance(20);
    let huge = big && r.chance(125);
    let base = if r.chance(250) {
        *r.pick(&[(1i64 << 31) - 4, (1 << 32) - 4, (1 << 32) + 1, 1 << 33, 1 << 40, (1 << 53) - 4, 1 << 61])
    } else {
        0
    };
    let env = Env { w: world, base, big, huge };
    let mut ntasks = 1 + r.weighted(&p.tasks);
    if world != World::F && ntasks > 1 && r.chance(500) {
        // without coefficient events tasks switch only between operations
        ntasks = 1;
    }
    let ro = RO.iter().map(|&k| poly(&mut r, env, k)).collect();
    let ws: Vec<u64> = p.ops.iter().map(|e| e.1).collect();
    let fw: Vec<u64> = p.kinds.iter().map(|e| e.1).collect();
    let mut tasks = vec![];
    for _ in 0..ntasks {
        let mut t = vec![];
        if prop != 10 {
            for i in 0..OWN.len() {
                if r.chance(750) {
                    t.push(build(&mut r, env, i));
                }
            }
        }
        let n = if big { r.range(2, 8) } else { r.range(p.len.0, p.len.1) };
        for _ in 0..n {
            let op = p.ops[r.weighted(&ws)].0;
            let mut g = gene(&mut r, env, op, &p);
            if op == Op::Text {
                // `at` decides the storage fault
                if prop == 9 && r.chance(p.fault) {
                    g.fault = Fault::Oom;
                }
            } else if r.chance(p.fault) {
                g.fault = p.kinds[r.weighted(&fw)].0;
                g.at = r.u64() as u32;
            }
            let a = g.a;
            let fixed = class(g.op) != Class::Pure;
            t.push(g);
            if fixed && r.chance(p.observe) && (a as usize) < OWN.len() {
                let mut o = gene(&mut r, env, Op::Observe, &p);
                o.a = a;
                t.push(o);
            }
            if prop != 10 && r.chance(40) {
                let s = r.below(OWN.len() as u64) as usize;
                t.push(build(&mut r, env, s));
            }
        }
        tasks.push(t);
    }
    let mut sched = vec![];
    if ntasks > 1 {
        // Switch-happy and lazy schedules.
        let scale = *r.pick(&[2u64, 8, 40, 200]);
        for _ in 0..r.range(2, 120) {
            sched.push((r.below(scale) as u32, r.below(ntasks as u64) as u8));
        }
    }
    Plan { prop, world, p: prime, big: big as u8 + huge as u8, tasks, ro, sched }
}
