//! One operation: how to call it, what the exact answer is, and what an interruption may leave.
use crate::each;
use crate::coef::{Coef, Ring};
use crate::model::Model;
use crate::plan::{Gene, Op};
use crate::val::{IntegralOut, Kind, Priv, Val};
use rustnomial::*;
use std::sync::atomic::{AtomicU8, Ordering};

pub enum Res<N> {
    Unit,
    V(Val<N>),
    VV(Val<N>, Val<N>),
    N(N),
    B(bool),
    T(Vec<(N, usize)>, Vec<(N, usize)>),
    Dg(Degree),
    Tm(Term<N>),
    E(Result<(), TryAddError>),
    I(IntegralOut<N>),
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Class {
    /// In place; interrupted: the target denotes what it denoted.
    Strong,
    /// In place; interrupted: each degree old or new.
    TermWise,
    /// Borrows only.
    Pure,
}

pub fn class(op: Op) -> Class {
    use Op::*;
    match op {
        MulAssign | MulAssignRef | RemAssign | ShlAssign | ShrAssign => Class::Strong,
        AddAssign | SubAssign | SubAssignRef | MulScalarAssign | DivScalarAssign | AddTerm | TryAdd
        | TrySub | SetZero | Trim => Class::TermWise,
        _ => Class::Pure,
    }
}

/// Which kinds of operands the operation exists for.
pub fn applicable<N: Coef>(op: Op, a: Kind, b: Kind) -> bool {
    use Kind::*;
    use Op::*;
    let r = N::REACHABLE;
    match op {
        AddAssign | SubAssign | Add | Sub => a == b && a != M,
        SubAssignRef | SubRef => a == D && b == D,
        SubDense => a == S && b == D,
        MulAssign | MulAssignRef | Mul | MulOwnRef => a == b && matches!(a, D | S | M),
        MulRefOwn => a == D && b == D,
        MulRefRef => a == b && matches!(a, D | S),
        RemAssign | DivMod | Rem => a == b && matches!(a, D | S),
        FloorDiv => a == D && b == D,
        MulScalarAssign | DivScalarAssign | MulScalar | DivScalar | Neg => true,
        ShlAssign | Shl => matches!(a, D | S | M),
        ShrAssign | Shr => true,
        AddTerm | FromTerms | FromVec => matches!(a, D | S),
        TryAdd | TrySub => r || matches!(a, M | B | Q),
        SetZero => true,
        Trim => matches!(a, D | S),
        Pow => matches!(a, D | S) || (a == M && r),
        Derivative | Integral => r,
        Eval => r || matches!(a, D | B | Q),
        Eq => a == b,
        Degree | IsZero | TermAt | Terms | Clone => true,
        _ => false,
    }
}

pub fn uses_b(op: Op) -> bool {
    use Op::*;
    matches!(
        op,
        AddAssign | SubAssign | SubAssignRef | MulAssign | MulAssignRef | RemAssign | Add | Sub | SubRef
            | SubDense | Mul | MulOwnRef | MulRefOwn | MulRefRef | DivMod | FloorDiv | Rem | Eq
    )
}

/// Inputs prepared outside library code.
pub struct Args<N> {
    pub ao: Option<Val<N>>,
    pub bo: Option<Val<N>>,
    pub terms: Vec<(N, usize)>,
    pub vec: Option<Vec<N>>,
}

pub fn args<N: Coef>(g: &Gene, a: &Val<N>, b: &Val<N>) -> Args<N> {
    use Op::*;
    let ao = matches!(
        g.op,
        Add | Sub | SubRef | SubDense | Neg | Mul | MulOwnRef | MulScalar | DivScalar | Shl | Shr | Rem
    )
    .then(|| a.clone());
    let bo = matches!(
        g.op,
        AddAssign | SubAssign | MulAssign | RemAssign | Add | Sub | SubDense | Mul | MulRefOwn | Rem
    )
    .then(|| b.clone());
    let (mut terms, mut vec) = (vec![], None);
    if g.op == FromTerms {
        terms = g.t.iter().map(|e| (N::from_x(e.0), e.1 as usize)).collect();
    }
    if g.op == FromVec {
        vec = Some(g.t.iter().map(|e| N::from_x(e.0)).collect());
    }
    Args { ao, bo, terms, vec }
}

macro_rules! two {
    ($a:expr, $b:expr, $x:ident, $y:ident, [$($K:ident),*], $e:expr) => {
        match ($a, $b) {
            $((Val::$K($x), Val::$K($y)) => Val::$K($e),)*
            _ => unreachable!(),
        }
    };
}
macro_rules! two_u {
    ($a:expr, $b:expr, $x:ident, $y:ident, [$($K:ident),*], $e:expr) => {
        match ($a, $b) {
            $((Val::$K($x), Val::$K($y)) => $e,)*
            _ => unreachable!(),
        }
    };
}
macro_rules! one {
    ($a:expr, $x:ident, [$($K:ident),*], $e:expr) => {
        match $a {
            $(Val::$K($x) => Val::$K($e),)*
            _ => unreachable!(),
        }
    };
}

/// Calls the library, in place on `a`. Only library code runs in here.
#[allow(unreachable_patterns)]
pub fn apply<N: Coef>(g: &Gene, a: &mut Val<N>, b: &Val<N>, ar: Args<N>) -> Res<N> {
    use Op::*;
    if class(g.op) == Class::Pure {
        return apply_ref(g, a, b, ar);
    }
    let bo = ar.bo;
    let sc = N::from_x(g.x);
    let sh = g.y as i32;
    let d = g.y as usize;
    macro_rules! bo {
        () => {
            bo.unwrap()
        };
    }
    match g.op {
        AddAssign => {
            two_u!(a, bo!(), x, y, [D, S, B, Q], *x += y);
            Res::Unit
        }
        SubAssign => {
            two_u!(a, bo!(), x, y, [D, S, B, Q], *x -= y);
            Res::Unit
        }
        SubAssignRef => {
            two_u!(a, b, x, y, [D], *x -= y);
            Res::Unit
        }
        MulAssign => {
            two_u!(a, bo!(), x, y, [D, S, M], *x *= y);
            Res::Unit
        }
        MulAssignRef => {
            two_u!(a, b, x, y, [D, S, M], *x *= y);
            Res::Unit
        }
        RemAssign => {
            two_u!(a, bo!(), x, y, [D, S], *x %= y);
            Res::Unit
        }
        MulScalarAssign => {
            each!(a, x => *x *= sc);
            Res::Unit
        }
        DivScalarAssign => {
            each!(a, x => *x /= sc);
            Res::Unit
        }
        ShlAssign => {
            match a {
                Val::D(x) => *x <<= sh,
                Val::S(x) => *x <<= sh,
                Val::M(x) => *x <<= sh,
                _ => unreachable!(),
            }
            Res::Unit
        }
        ShrAssign => {
            match a {
                Val::D(x) => *x >>= sh,
                Val::S(x) => *x >>= sh,
                Val::M(x) => *x >>= sh,
                Val::B(x) => *x >>= sh.unsigned_abs(),
                Val::Q(x) => *x >>= sh.unsigned_abs(),
            }
            Res::Unit
        }
        AddTerm => {
            match a {
                Val::D(x) => x.add_term(sc, d),
                Val::S(x) => x.add_term(sc, d),
                _ => unreachable!(),
            }
            Res::Unit
        }
        TryAdd | TrySub => {
            let sub = g.op == TrySub;
            let r = match a {
                Val::M(x) => {
                    if sub {
                        x.try_sub_term(sc, d)
                    } else {
                        x.try_add_term(sc, d)
                    }
                }
                Val::B(x) => {
                    if sub {
                        x.try_sub_term(sc, d)
                    } else {
                        x.try_add_term(sc, d)
                    }
                }
                Val::Q(x) => {
                    if sub {
                        x.try_sub_term(sc, d)
                    } else {
                        x.try_add_term(sc, d)
                    }
                }
                v => N::try_term(v, sc, d, sub).unwrap(),
            };
            Res::E(r)
        }
        SetZero => {
            each!(a, x => x.set_to_zero());
            Res::Unit
        }
        Trim => {
            match a {
                Val::D(x) => x.trim(),
                Val::S(x) => x.trim(),
                _ => unreachable!(),
            }
            Res::Unit
        }
        _ => unreachable!("not an in-place operation"),
    }
}

/// Calls the library on borrowed operands (or copies prepared in `ar`).
#[allow(unreachable_patterns)]
pub fn apply_ref<N: Coef>(g: &Gene, a: &Val<N>, b: &Val<N>, ar: Args<N>) -> Res<N> {
    use Op::*;
    let Args { ao, bo, terms, vec } = ar;
    let sc = N::from_x(g.x);
    let sh = g.y as i32;
    let d = g.y as usize;
    macro_rules! ao {
        () => {
            ao.unwrap()
        };
    }
    macro_rules! bo {
        () => {
            bo.unwrap()
        };
    }
    match g.op {
        Add => Res::V(two!(ao!(), bo!(), x, y, [D, S, B, Q], x + y)),
        Sub => Res::V(two!(ao!(), bo!(), x, y, [D, S, B, Q], x - y)),
        SubRef => Res::V(two!(ao!(), b, x, y, [D], x - y)),
        SubDense => match (ao!(), bo!()) {
            (Val::S(x), Val::D(y)) => Res::V(Val::S(x - y)),
            _ => unreachable!(),
        },
        Neg => Res::V(one!(ao!(), x, [D, S, M, B, Q], -x)),
        Mul => Res::V(two!(ao!(), bo!(), x, y, [D, S, M], x * y)),
        MulOwnRef => Res::V(two!(ao!(), b, x, y, [D, S, M], x * y)),
        MulRefOwn => Res::V(two!(a, bo!(), x, y, [D], x * y)),
        MulRefRef => Res::V(match (a, b) {
            (Val::D(x), Val::D(y)) => Val::D(x * y),
            (Val::S(x), Val::S(y)) => Val::S(x.borrow_mul(y)),
            _ => unreachable!(),
        }),
        MulScalar => Res::V(one!(ao!(), x, [D, S, M, B, Q], x * sc)),
        DivScalar => Res::V(one!(ao!(), x, [D, S, M, B, Q], x / sc)),
        Shl => Res::V(one!(ao!(), x, [D, S, M], x << sh)),
        Shr => Res::V(match ao!() {
            Val::D(x) => Val::D(x >> sh),
            Val::S(x) => Val::S(x >> sh),
            Val::M(x) => Val::M(x >> sh),
            Val::B(x) => Val::B(x >> sh.unsigned_abs()),
            Val::Q(x) => Val::Q(x >> sh.unsigned_abs()),
        }),
        Pow => Res::V(match a {
            Val::D(x) => Val::D(x.pow(d)),
            Val::S(x) => Val::S(x.pow(d)),
            Val::M(x) => Val::M(N::mono_pow(x, d).unwrap()),
            _ => unreachable!(),
        }),
        DivMod => match (a, b) {
            (Val::D(x), Val::D(y)) => {
                let (q, r) = x.div_mod(y);
                Res::VV(Val::D(q), Val::D(r))
            }
            (Val::S(x), Val::S(y)) => {
                let (q, r) = x.div_mod(y);
                Res::VV(Val::S(q), Val::S(r))
            }
            _ => unreachable!(),
        },
        FloorDiv => Res::V(match (a, b) {
            (Val::D(x), Val::D(y)) => Val::D(x.floor_div(y)),
            _ => unreachable!(),
        }),
        Rem => Res::V(match (ao!(), bo!()) {
            (Val::D(x), Val::D(y)) => Val::D(x % y),
            (Val::S(x), Val::S(y)) => Val::S(x % y),
            _ => unreachable!(),
        }),
        Derivative => Res::V(N::derivative(a).unwrap()),
        Integral => Res::I(N::integral(a, sc, N::from_x(g.z), N::from_x(g.y)).unwrap()),
        Eq => Res::B(two_u!(a, b, x, y, [D, S, M, B, Q], x == y)),
        Degree => Res::Dg(each!(a, x => x.degree())),
        IsZero => Res::B(each!(a, x => x.is_zero())),
        TermAt => Res::Tm(each!(a, x => x.term_with_degree(d))),
        Terms => Res::T(
            each!(a, x => x.terms_as_vec()),
            each!(a, x => x.ordered_term_iter().collect()),
        ),
        Eval => Res::N(match a {
            Val::D(x) => x.eval(sc),
            Val::B(x) => x.eval(sc),
            Val::Q(x) => x.eval(sc),
            v => N::eval(v, sc).unwrap(),
        }),
        Clone => Res::V(match a {
            Val::D(x) => Val::D(x.clone()),
            Val::S(x) => Val::S(x.clone()),
            Val::M(x) => Val::M(x.clone()),
            Val::B(x) => Val::B(x.clone()),
            Val::Q(x) => Val::Q(x.clone()),
        }),
        FromTerms => Res::V(match a {
            Val::D(_) => Val::D(Polynomial::from_terms(&terms)),
            Val::S(_) => Val::S(SparsePolynomial::from_terms(&terms)),
            _ => unreachable!(),
        }),
        FromVec => Res::V(match a {
            Val::D(_) => Val::D(match (g.y & 3, vec.as_deref().unwrap()) {
                (2 | 3, &[a]) => polynomial!(a),
                (2 | 3, &[a, b]) => polynomial!(a, b),
                (2 | 3, &[a, b, c, d]) => polynomial!(a, b, c, d),
                (1 | 3, _) => Polynomial::from(vec.unwrap()),
                _ => Polynomial::new(vec.unwrap()),
            }),
            Val::S(_) => Val::S(SparsePolynomial::from(vec.unwrap())),
            _ => unreachable!(),
        }),
        _ => unreachable!("not a plain operation"),
    }
}

/// How large a dense polynomial / map may become before an operation is left out.
pub static BIG: AtomicU8 = AtomicU8::new(0);
pub const BIG_DENSE: usize = 420;
pub const HUGE_DENSE: usize = 140_000;
pub fn max_dense() -> usize {
    [120, BIG_DENSE, HUGE_DENSE][BIG.load(Ordering::Relaxed) as usize % 3]
}
pub fn max_map() -> usize {
    [40, 600, 2000][BIG.load(Ordering::Relaxed) as usize % 3]
}
pub const MAX_DEG: usize = 1 << 62;

fn span<N: Coef>(v: &Val<N>) -> usize {
    v.len()
}

fn top<N: Coef>(v: &Val<N>) -> usize {
    v.stored().iter().map(|e| e.0).max().unwrap_or(0)
}

/// Degree difference that a division has to bridge.
fn gap<N: Coef>(a: &Val<N>, b: &Val<N>) -> usize {
    let da = a.den().keys().next_back().copied().unwrap_or(0);
    let db = b.den().keys().next_back().copied().unwrap_or(0);
    da.saturating_sub(db)
}

/// Keeps sizes and degrees in the simulated range.
pub fn admissible<N: Coef>(g: &Gene, a: &Val<N>, b: &Val<N>) -> bool {
    use Op::*;
    let (la, lb) = (span(a), span(b));
    let dense = a.kind() == Kind::D;
    match g.op {
        MulAssign | MulAssignRef | Mul | MulOwnRef | MulRefOwn | MulRefRef => {
            if dense {
                la + lb <= max_dense() && la * lb <= BIG_DENSE * BIG_DENSE
            } else {
                la * lb <= max_map() && top(a).saturating_add(top(b)) <= MAX_DEG
            }
        }
        AddAssign | Add | Sub | SubAssign | SubDense => a.kind() != Kind::S || la + lb <= max_map(),
        AddTerm | TryAdd | TrySub => {
            // negative numbers stand for the degrees from 2^63 up
            match a.kind() {
                Kind::D => g.y >= 0 && (g.y as usize) < max_dense(),
                Kind::S => g.y >= 0 && la < max_map() && (g.y as usize) < MAX_DEG,
                _ => true,
            }
        }
        ShlAssign | Shl | ShrAssign | Shr => {
            let up = if matches!(g.op, ShlAssign | Shl) { g.y } else { -g.y };
            (g.y.abs() <= i32::MAX as i64 || g.y == i32::MIN as i64 && up < 0)
                && match a.kind() {
                    Kind::D => up <= 0 || la + up as usize <= max_dense(),
                    _ => up <= 0 || top(a).saturating_add(up as usize) < MAX_DEG,
                }
        }
        Pow => {
            if g.y < 0 {
                return false;
            }
            let e = g.y as usize;
            let t = top(a);
            match a.kind() {
                Kind::D => t * e.max(1) <= max_dense().min(BIG_DENSE) && (e <= 64 || t == 0 && (e <= 5000 || la <= 1)),
                Kind::S => {
                    let n = la.max(1) as f64;
                    t.saturating_mul(e) <= MAX_DEG
                        && (e <= 64 || la <= 1)
                        && (la <= 1 || t.saturating_mul(e) <= 120 || n.powi(e as i32) <= max_map() as f64)
                }
                _ => t.saturating_mul(e) <= MAX_DEG,
            }
        }
        DivMod | FloorDiv | Rem | RemAssign => dense && la <= 2000 || !dense && (gap(a, b) <= 60 && la + lb <= max_map()),
        FromTerms => g.t.iter().all(|e| {
            e.1 >= 0 && (e.1 as usize) < if dense { max_dense() } else { MAX_DEG }
        }),
        Integral => top(a) < MAX_DEG && (!dense || la < max_dense()),
        _ => true,
    }
}

/// Whether a failing allocation can be injected without leaving the guarantees of the standard
/// containers: a `BTreeMap` may lose entries when the allocation for splitting a node fails, so all
/// maps involved have to fit one node (11 entries).
///
/// Where the operation may not touch its target before it has the result, only the allocation of
/// inner nodes is unsafe (see `alloc::INNER_NODE`). That can leak memory inside the standard
/// library, so not where leaks are counted.
pub fn oom_safe<N: Coef>(g: &Gene, a: &Val<N>, b: &Val<N>, leaks_count: bool) -> bool {
    use Op::*;
    if !leaks_count && class(g.op) != Class::TermWise {
        return true;
    }
    const CAP: usize = 11;
    let (ea, eb) = (a.map_entries(), b.map_entries());
    let any_map = ea > 0
        || eb > 0
        || a.kind() == Kind::S
        || (a.kind() == Kind::M && g.op == Integral);
    if !any_map {
        return true;
    }
    if ea > CAP || eb > CAP {
        return false;
    }
    match g.op {
        MulAssign | MulAssignRef | Mul | MulOwnRef | MulRefRef => ea * eb <= CAP,
        Pow => ea <= 1 || (ea as f64).powi(g.y.min(64) as i32) <= CAP as f64,
        DivMod | Rem | RemAssign => top(a) < CAP && top(b) < CAP,
        SubDense => ea + b.len() <= CAP,
        FromTerms | FromVec => g.t.len() <= CAP,
        _ => ea + eb + 1 <= CAP,
    }
}

/// Bound on the number of coefficient events of the operation.
pub fn budget<N: Coef>(g: &Gene, a: &Val<N>, b: &Val<N>) -> u64 {
    use Op::*;
    let (la, lb) = (a.len() as u64, b.len() as u64);
    match g.op {
        Pow => {
            let e = g.y.max(0) as u64;
            let r = match a.kind() {
                Kind::D => top(a) as u64 * e + 1,
                Kind::S => {
                    let n = (la as f64).powi(e.min(64) as i32).min((top(a) as f64) * e as f64 + 1.0);
                    n.min(4.0 * BIG_DENSE as f64) as u64
                }
                _ => 1,
            };
            // at most one factor more than the sizes: the exponent itself is no measure of work
            5_000 + 40 * (e.min(64 * (r + la)) + 1) * (r + la + 4) * (r + la + 4)
        }
        DivMod | FloorDiv | Rem | RemAssign => {
            let n = la + lb + gap(a, b) as u64 + 4;
            3_000 + 400 * n * n
        }
        _ => {
            let n = la + lb + g.t.len() as u64 + 4 + if matches!(g.op, AddTerm | TryAdd | TrySub | Shl | Shr | ShlAssign | ShrAssign) && a.kind() == Kind::D { g.y.unsigned_abs().min(HUGE_DENSE as u64) } else { 0 };
            3_000 + 400 * n * n
        }
    }
}

/// The exact answer.
pub struct Expect {
    /// A panic of the operation is legitimate (overflow possible, division by zero, ...).
    pub panic_ok: bool,
    /// The answer is not modelled exactly (float rounding).
    pub inexact: bool,
    pub new: Option<Model>,
    pub second: Option<Model>,
    /// q*b + r must be a (integer division).
    pub identity: bool,
    pub scalar: Option<i128>,
    pub reject: Option<TryAddError>,
    /// Zero coefficient at a degree the type cannot hold: accepting and rejecting are both right.
    pub either: bool,
}

fn sat_pow(b: u128, e: u128) -> u128 {
    if b <= 1 {
        return b;
    }
    let mut r: u128 = 1;
    for _ in 0..e {
        r = r.saturating_mul(b);
        if r == u128::MAX {
            break;
        }
    }
    r
}

/// Upper bound for any intermediate of evaluating `m` at magnitude `x`.
pub fn eval_bound(m: &Model, x: u128) -> u128 {
    let mut s: u128 = 0;
    let mut top = 1u128;
    for (&d, &c) in &m.0 {
        let p = sat_pow(x, d as u128);
        s = s.saturating_add(c.unsigned_abs().saturating_mul(p.max(1)));
        top = top.max(sat_pow(x, d as u128 + 1));
    }
    s.max(top)
}

/// Whether the given kind can take the term, starting from model `a`.
pub fn rejection(k: Kind, a: &Model, d: usize) -> Option<TryAddError> {
    match k {
        Kind::B if d > 1 => Some(TryAddError::DegreeOutOfBounds),
        Kind::Q if d > 2 => Some(TryAddError::DegreeOutOfBounds),
        Kind::M if !a.is_zero() && a.deg() != Some(d) => Some(TryAddError::TooManyTerms),
        _ => None,
    }
}

pub fn expect<N: Coef>(g: &Gene, r: Ring, k: Kind, a: &Model, b: &Model) -> Expect {
    use Op::*;
    let x = N::from_x(g.x).to_m();
    let mut e = Expect {
        panic_ok: false,
        inexact: false,
        new: None,
        second: None,
        identity: false,
        scalar: None,
        reject: None,
        either: false,
    };
    let mut bound = 0u128;
    let rep_max: u128 = match r {
        Ring::Field(p) => (p - 1) as u128,
        Ring::Int { max, .. } => max as u128,
        Ring::Float => 1 << 53,
    };
    match g.op {
        AddAssign | Add => {
            bound = a.max_abs().saturating_add(b.max_abs());
            e.new = a.add(r, b);
        }
        SubAssign | SubAssignRef | Sub | SubRef | SubDense => {
            bound = a.max_abs().saturating_add(b.max_abs());
            e.new = a.sub(r, b);
        }
        Neg => {
            bound = a.max_abs();
            e.new = a.neg(r);
        }
        MulAssign | MulAssignRef | Mul | MulOwnRef | MulRefOwn | MulRefRef => {
            bound = a.sum_abs().saturating_mul(b.sum_abs());
            e.new = a.mul(r, b);
        }
        MulScalarAssign | MulScalar => match x {
            Some(x) => {
                bound = a.max_abs().saturating_mul(x.unsigned_abs());
                e.new = a.map(r, |_, c| r.mul(c, x));
            }
            None => e.inexact = true,
        },
        DivScalarAssign | DivScalar => match x {
            Some(x) if !r.is_float() => {
                bound = a.max_abs();
                e.panic_ok = x == 0;
                e.new = a.map(r, |_, c| r.div(c, x));
            }
            _ => e.inexact = true,
        },
        ShlAssign | Shl => e.new = Some(a.shl(g.y)),
        ShrAssign | Shr => {
            let s = if matches!(k, Kind::B | Kind::Q) { g.y.abs() } else { g.y };
            e.new = Some(a.shl(-s));
        }
        AddTerm | TryAdd | TrySub => match x {
            Some(x) => {
                bound = a.max_abs().saturating_add(x.unsigned_abs());
                let d = g.y as usize;
                let t = Model::term(r, x, d);
                e.new = if g.op == TrySub { a.sub(r, &t) } else { a.add(r, &t) };
                e.reject = rejection(k, a, d);
                if e.reject.is_some() {
                    e.either = x == 0;
                    e.new = Some(a.clone());
                }
            }
            None => e.inexact = true,
        },
        SetZero => e.new = Some(Model::default()),
        Trim | Clone => e.new = Some(a.clone()),
        Pow => {
            let ex = g.y as usize;
            bound = if a.0.len() == 1 && k == Kind::M {
                sat_pow(a.max_abs(), ex as u128)
            } else {
                sat_pow(a.sum_abs(), 2 * ex as u128)
            };
            e.new = if k == Kind::M {
                if ex == 0 {
                    Some(Model::term(r, 1, 0))
                } else {
                    match a.0.iter().next() {
                        None => Some(Model::default()),
                        Some((&d, &c)) => r.pow(c, ex).map(|v| Model::term(r, v, d * ex)),
                    }
                }
            } else if a.is_zero() && ex > 0 {
                Some(Model::default())
            } else if a.0.len() == 1 {
                let (&d, &c) = a.0.iter().next().unwrap();
                r.pow(c, ex).map(|v| Model::term(r, v, d * ex))
            } else {
                a.pow(r, ex)
            };
        }
        DivMod | FloorDiv | Rem | RemAssign => {
            if b.is_zero() {
                e.panic_ok = true;
                e.inexact = true;
            } else {
                match r {
                    Ring::Field(_) => {
                        if let Some((q, m)) = a.divmod(r, b) {
                            if matches!(g.op, Rem | RemAssign) {
                                e.new = Some(m);
                            } else {
                                e.new = Some(q);
                                e.second = Some(m);
                            }
                        }
                    }
                    Ring::Int { .. } => {
                        let steps = match (a.deg(), b.deg()) {
                            (Some(p), Some(q)) if p >= q => (p - q + 1) as u128,
                            _ => 0,
                        };
                        bound = a
                            .max_abs()
                            .saturating_mul(sat_pow(b.max_abs().saturating_add(1), steps))
                            .max(b.max_abs());
                        if steps == 0 {
                            if matches!(g.op, Rem | RemAssign) {
                                e.new = Some(a.clone());
                            } else {
                                e.new = Some(Model::default());
                                e.second = Some(a.clone());
                            }
                        } else if let Some((q, m)) = exact_int_division(r, a, b) {
                            if matches!(g.op, Rem | RemAssign) {
                                e.new = Some(m);
                            } else {
                                e.new = Some(q);
                                e.second = Some(m);
                            }
                        } else {
                            e.inexact = true;
                            e.identity = true;
                        }
                    }
                    Ring::Float => e.inexact = true,
                }
            }
        }
        Derivative => {
            let d = a.deg().unwrap_or(0) as u128;
            bound = a
                .0
                .iter()
                .map(|(&d, &c)| c.unsigned_abs().saturating_mul(d.max(1) as u128))
                .max()
                .unwrap_or(0);
            e.panic_ok = d > rep_max;
            e.new = a.derivative(r);
        }
        Integral => {
            let d = a.deg().map_or(0, |d| d as u128 + 1);
            e.panic_ok = d > rep_max;
            if r.is_float() {
                e.inexact = true;
            } else if let Some(m) = a.integral(r) {
                let (lo, hi, c) = (N::from_x(g.x).to_m(), N::from_x(g.z).to_m(), N::from_x(g.y).to_m());
                if let (Some(lo), Some(hi), Some(c)) = (lo, hi, c) {
                    bound = eval_bound(&m, lo.unsigned_abs())
                        .saturating_add(eval_bound(&m, hi.unsigned_abs()))
                        .max(a.max_abs());
                    e.scalar = match (m.eval(r, hi), m.eval(r, lo)) {
                        (Some(h), Some(l)) => r.sub(h, l),
                        _ => None,
                    };
                    e.second = m.add(r, &Model::term(r, c, 0));
                }
                e.new = Some(m);
            }
        }
        Eval => match x {
            Some(x) => {
                bound = eval_bound(a, x.unsigned_abs());
                e.scalar = a.eval(r, x);
            }
            None => e.inexact = true,
        },
        FromTerms => {
            let mut m = Some(Model::default());
            for &(c, d) in &g.t {
                match N::from_x(c).to_m() {
                    Some(c) => {
                        bound = bound.saturating_add(c.unsigned_abs());
                        m = m.and_then(|m| m.add(r, &Model::term(r, c, d as usize)));
                    }
                    None => m = None,
                }
            }
            e.inexact = m.is_none();
            e.new = m;
        }
        FromVec => {
            let n = g.t.len();
            let mut m = Some(Model::default());
            for (i, &(c, _)) in g.t.iter().enumerate() {
                match N::from_x(c).to_m() {
                    Some(c) => m = m.and_then(|m| m.add(r, &Model::term(r, c, n - 1 - i))),
                    None => m = None,
                }
            }
            e.inexact = m.is_none();
            e.new = m;
        }
        _ => {}
    }
    if !r.fits(bound) {
        match r {
            Ring::Float => e.inexact = true,
            _ => e.panic_ok = true,
        }
    }
    e
}

/// Long division over the integers when every step divides exactly (then the answer is unique).
fn exact_int_division(r: Ring, a: &Model, b: &Model) -> Option<(Model, Model)> {
    let od = b.deg()?;
    let lead = b.get(od);
    let mut rem = a.clone();
    let mut q = Model::default();
    while let Some(d) = rem.deg() {
        if d < od {
            break;
        }
        let top = rem.get(d);
        if top % lead != 0 {
            return None;
        }
        let k = top / lead;
        let step = Model::term(r, k, d - od);
        rem = rem.sub(r, &step.mul(r, b)?)?;
        q = q.add(r, &step)?;
    }
    Some((q, rem))
}

/// Some product of a stream item and a multiplicand does not fit the coefficient type.
pub fn product_overflow<N: Coef>(items: &[(N, usize)], lhs: &[(N, usize)]) -> bool {
    if N::ring().is_float() {
        return false;
    }
    items.iter().any(|a| {
        lhs.iter().any(|b| match (a.0.to_m(), b.0.to_m()) {
            (Some(x), Some(y)) => N::ring().mul(x, y).and_then(N::from_m).is_none(),
            _ => true,
        })
    })
}
