//! Text on simulated storage (C10), and term histories for every built-in coefficient type (C03).
use crate::coef::Coef;
use crate::each;
use crate::exec::*;
use crate::plan::*;
use crate::rng::mix;
use crate::sim::*;
use crate::special::tally;
use crate::val::{Kind, Val, KINDS};
use rustnomial::err::PolynomialFromStringError;
use rustnomial::*;
use std::collections::BTreeMap;
use std::fmt::{self, Write};

/// A built-in coefficient type.
pub trait Num: Copy + PartialEq + fmt::Debug + 'static {
    const NAME: &'static str;
    const FLOAT: bool;
    const UNSIGNED: bool;
    fn pick(x: i64) -> Self;
    fn zero() -> Self;
    fn read(s: &str) -> Option<Self>;
    fn plus(self, o: Self) -> Option<Self>;
    fn minus(self, o: Self) -> Option<Self>;
    fn lib_fmt(v: &Val<Self>, w: &mut dyn Write) -> fmt::Result;
    fn lib_parse(k: Kind, s: &str) -> Result<Val<Self>, PolynomialFromStringError>;
    fn lib_parse_term(s: &str) -> Result<Term<Self>, rustnomial::err::TermFromStringError>;
    fn lib_eq(a: &Val<Self>, b: &Val<Self>) -> bool;
    fn lib_term(v: &mut Val<Self>, c: Self, d: usize, sub: bool) -> Result<(), TryAddError>;
}

macro_rules! lib_calls {
    ($T:ty) => {
        fn read(s: &str) -> Option<$T> {
            s.parse().ok()
        }
        fn lib_fmt(v: &Val<$T>, w: &mut dyn Write) -> fmt::Result {
            each!(v, p => write!(w, "{}", p))
        }
        fn lib_parse(k: Kind, s: &str) -> Result<Val<$T>, PolynomialFromStringError> {
            Ok(match k {
                Kind::D => Val::D(s.parse::<Polynomial<$T>>()?),
                Kind::S => Val::S(s.parse::<SparsePolynomial<$T>>()?),
                Kind::M => Val::M(s.parse::<Monomial<$T>>()?),
                Kind::B => Val::B(s.parse::<LinearBinomial<$T>>()?),
                Kind::Q => Val::Q(s.parse::<QuadraticTrinomial<$T>>()?),
            })
        }
        fn lib_parse_term(s: &str) -> Result<Term<$T>, rustnomial::err::TermFromStringError> {
            s.parse()
        }
        fn lib_eq(a: &Val<$T>, b: &Val<$T>) -> bool {
            match (a, b) {
                (Val::D(x), Val::D(y)) => x == y,
                (Val::S(x), Val::S(y)) => x == y,
                (Val::M(x), Val::M(y)) => x == y,
                (Val::B(x), Val::B(y)) => x == y,
                (Val::Q(x), Val::Q(y)) => x == y,
                _ => false,
            }
        }
        fn lib_term(v: &mut Val<$T>, c: $T, d: usize, sub: bool) -> Result<(), TryAddError> {
            each!(v, p => if sub { p.try_sub_term(c, d) } else { p.try_add_term(c, d) })
        }
    };
}

fn wide(x: i64) -> u128 {
    let a = mix(x as u64, 77);
    (a as u128) << 64 | mix(a, 78) as u128
}

macro_rules! int_num {
    ($T:ident, $U:expr) => {
        impl Num for $T {
            const NAME: &'static str = stringify!($T);
            const FLOAT: bool = false;
            const UNSIGNED: bool = $U;
            fn pick(x: i64) -> $T {
                match x.rem_euclid(10) {
                    0 => $T::MIN,
                    1 => $T::MAX,
                    2 => (0 as $T).wrapping_sub(if $U { $T::MAX } else { 1 }),
                    3 => 1,
                    4 => 0,
                    5 => (x / 10).rem_euclid(7) as $T,
                    6 => (x / 10).rem_euclid(120) as $T,
                    7 if !$U => (0 as $T).wrapping_sub((x / 10).rem_euclid(120) as $T),
                    8 => $T::MAX - (x / 10).rem_euclid(3) as $T,
                    _ => {
                        let sh = (x / 10).rem_euclid($T::BITS as i64) as u32;
                        (wide(x) as $T).wrapping_shr(sh)
                    }
                }
            }
            fn zero() -> $T {
                0
            }
            fn plus(self, o: $T) -> Option<$T> {
                self.checked_add(o)
            }
            fn minus(self, o: $T) -> Option<$T> {
                self.checked_sub(o)
            }
            lib_calls!($T);
        }
    };
}
int_num!(u8, true);
int_num!(u16, true);
int_num!(u32, true);
int_num!(u64, true);
int_num!(u128, true);
int_num!(usize, true);
int_num!(i8, false);
int_num!(i16, false);
int_num!(i32, false);
int_num!(i64, false);
int_num!(i128, false);
int_num!(isize, false);

macro_rules! float_num {
    ($T:ident, $B:ty) => {
        impl Num for $T {
            const NAME: &'static str = stringify!($T);
            const FLOAT: bool = true;
            const UNSIGNED: bool = false;
            fn pick(x: i64) -> $T {
                let s = if x & 1024 == 0 { 1.0 } else { -1.0 };
                s * match x.rem_euclid(12) {
                    0 => $T::MAX,
                    1 => $T::MIN_POSITIVE,
                    2 => 1.0,
                    3 => $T::from_bits(1),
                    4 => 0.0,
                    5 => (x / 12).rem_euclid(7) as $T,
                    6 => (x / 12).rem_euclid(100_000) as $T,
                    7 => (x / 12).rem_euclid(1000) as $T / 10.0,
                    8 => $T::EPSILON + 1.0,
                    9 => 1.0 / 3.0,
                    _ => {
                        let f = $T::from_bits(wide(x) as $B);
                        if f.is_finite() {
                            f
                        } else {
                            0.5
                        }
                    }
                }
            }
            fn zero() -> $T {
                0.0
            }
            fn plus(self, o: $T) -> Option<$T> {
                Some(self + o)
            }
            fn minus(self, o: $T) -> Option<$T> {
                Some(self - o)
            }
            lib_calls!($T);
        }
    };
}
float_num!(f32, u32);
float_num!(f64, u64);

pub const NTYPES: u8 = 14;

#[macro_export]
macro_rules! by_type {
    ($i:expr, $f:ident ( $($a:expr),* )) => {
        match $i % $crate::text::NTYPES {
            0 => $f::<u8, _>($($a),*),
            1 => $f::<u16, _>($($a),*),
            2 => $f::<u32, _>($($a),*),
            3 => $f::<u64, _>($($a),*),
            4 => $f::<u128, _>($($a),*),
            5 => $f::<usize, _>($($a),*),
            6 => $f::<i8, _>($($a),*),
            7 => $f::<i16, _>($($a),*),
            8 => $f::<i32, _>($($a),*),
            9 => $f::<i64, _>($($a),*),
            10 => $f::<i128, _>($($a),*),
            11 => $f::<isize, _>($($a),*),
            12 => $f::<f32, _>($($a),*),
            _ => $f::<f64, _>($($a),*),
        }
    };
}

pub fn text_op<C: Coef>(cx: &Ctx<C>, at: At, g: &Gene) {
    by_type!(g.a, text_of(cx, at, g))
}
pub fn uterm_op<C: Coef>(cx: &Ctx<C>, at: At, g: &Gene) {
    by_type!(g.a, terms_of(cx, at, g))
}

/// Stored coefficients, read from the public fields.
pub fn stored<T: Num>(v: &Val<T>) -> Vec<(usize, T)> {
    match v {
        Val::D(p) => {
            let n = p.terms.len();
            p.terms.iter().enumerate().map(|(i, &c)| (n - 1 - i, c)).collect()
        }
        Val::S(p) => p.terms.iter().map(|(&d, &c)| (d, c)).collect(),
        Val::M(p) => vec![(p.deg, p.coefficient)],
        Val::B(p) => vec![(1, p.coefficients[0]), (0, p.coefficients[1])],
        Val::Q(p) => vec![(2, p.coefficients[0]), (1, p.coefficients[1]), (0, p.coefficients[2])],
    }
}

/// Non-zero coefficients. Comparing values is enough: a finite non-zero value has one representation.
pub fn den<T: Num>(v: &Val<T>) -> Vec<(usize, T)> {
    let mut t: Vec<(usize, T)> = stored(v).into_iter().filter(|e| e.1 != T::zero()).collect();
    t.sort_by_key(|e| e.0);
    t
}

pub fn show<T: Num>(v: &Val<T>) -> String {
    let s: Vec<String> = stored(v).iter().map(|(d, c)| format!("{:?}@{}", c, d)).collect();
    format!("[{}]", s.join(" "))
}

pub fn build<T: Num>(k: Kind, t: &[(T, usize)]) -> Val<T> {
    let z = T::zero();
    match k {
        Kind::D => {
            let n = t.iter().map(|e| e.1 + 1).max().unwrap_or(0);
            let mut v = vec![z; n];
            for &(c, d) in t {
                v[n - 1 - d] = c;
            }
            Val::D(Polynomial { terms: v })
        }
        Kind::S => Val::S(SparsePolynomial { terms: t.iter().map(|&(c, d)| (d, c)).collect() }),
        Kind::M => {
            let (c, d) = t.first().copied().unwrap_or((z, 0));
            Val::M(Monomial { coefficient: c, deg: d })
        }
        Kind::B => {
            let mut a = [z; 2];
            t.iter().filter(|e| e.1 < 2).for_each(|e| a[1 - e.1] = e.0);
            Val::B(LinearBinomial { coefficients: a })
        }
        Kind::Q => {
            let mut a = [z; 3];
            t.iter().filter(|e| e.1 < 3).for_each(|e| a[2 - e.1] = e.0);
            Val::Q(QuadraticTrinomial { coefficients: a })
        }
    }
}

fn kind_degree(k: Kind, d: i64, many: bool) -> usize {
    let d = d.unsigned_abs() as usize;
    match k {
        Kind::D => d % if many { 1500 } else { 64 },
        Kind::B => d % 2,
        Kind::Q => d % 3,
        // every degree up to the largest a usize can name
        _ => {
            if d % 11 == 0 {
                usize::MAX - d % 5
            } else if d % 7 == 0 {
                d
            } else {
                d % if many { 3000 } else { 40 }
            }
        }
    }
}

// ------------------------------------------------------------------ simulated storage

/// An append-only file: every write is a chunk that reaches the platter or not.
struct Disk {
    chunks: Vec<Vec<u8>>,
    /// A write call takes at most this many bytes (short writes; the writer continues).
    limit: usize,
    short: u64,
}

impl fmt::Write for Disk {
    fn write_str(&mut self, s: &str) -> fmt::Result {
        party_event();
        outside(|| {
            let mut b = s.as_bytes();
            while !b.is_empty() {
                let n = b.len().min(self.limit);
                if n < b.len() {
                    self.short += 1;
                }
                self.chunks.push(b[..n].to_vec());
                b = &b[n..];
            }
            Ok(())
        })
    }
}

const ALPHA: &[u8] = b"+-.0123456789x^ ,_\0eXa";

/// Characters of several bytes that look like, or count as, something that belongs there.
const WIDE: &[&str] = &["\u{a0}", "\u{2212}", "\u{b2}", "\u{663}", "\u{3000}", "\u{445}", "\u{feff}", "\u{ff11}"];

/// What is read back after the faults `z` (decimal digits, one fault each).
fn read_back(d: &Disk, g: &Gene, note: &mut Vec<&'static str>) -> Vec<u8> {
    let mut chunks = d.chunks.clone();
    let mut r = crate::rng::Rng::new(mix(g.x as u64, g.y as u64));
    let mut codes = g.z.unsigned_abs();
    let mut bytes: Option<Vec<u8>> = None;
    while codes > 0 {
        let code = codes % 10;
        codes /= 10;
        match code {
            // a write never reached the platter
            4 if bytes.is_none() && chunks.len() > 1 => {
                let i = (g.at as usize).wrapping_add(r.below(3) as usize) % chunks.len();
                chunks.remove(i);
                note.push("lost-write");
                continue;
            }
            // a write was applied twice
            5 if bytes.is_none() && !chunks.is_empty() => {
                let i = (g.at as usize).wrapping_add(r.below(3) as usize) % chunks.len();
                let c = chunks[i].clone();
                chunks.insert(i, c);
                note.push("duplicated-write");
                continue;
            }
            // two writes reached the platter in the other order
            6 if bytes.is_none() && chunks.len() > 1 => {
                let i = g.at as usize % (chunks.len() - 1);
                chunks.swap(i, i + 1);
                note.push("reordered-write");
                continue;
            }
            _ => {}
        }
        let b = bytes.get_or_insert_with(|| chunks.concat());
        let n = b.len();
        match code {
            // crash: only a prefix is durable (torn at any byte)
            1 => {
                b.truncate(g.at as usize % (n + 1));
                note.push("crash-truncation");
            }
            // one byte damaged
            2 | 3 if n > 0 => {
                let i = if code == 2 { g.at as usize % n } else { r.below(n as u64) as usize };
                match r.below(20) {
                    0..=13 => b[i] = *r.pick(ALPHA),
                    14..=16 => b[i] ^= 1 << r.below(8),
                    17 | 18 => b[i] = r.below(256) as u8,
                    _ => drop(b.splice(i..i + 1, r.pick(WIDE).bytes())),
                }
                note.push("damaged-byte");
            }
            // the old, longer content shows behind the new one
            7 => {
                b.extend_from_slice(g.s.as_bytes());
                note.push("stale-tail");
            }
            // a block was zeroed
            8 if n > 0 => {
                let i = r.below(n as u64) as usize;
                let j = (i + 1 + r.below(6) as usize).min(n);
                b[i..j].iter_mut().for_each(|x| *x = 0);
                note.push("zeroed-block");
            }
            // a block is missing in the middle
            9 if n > 0 => {
                let i = r.below(n as u64) as usize;
                let j = (i + 1 + r.below(4) as usize).min(n);
                b.drain(i..j);
                note.push("missing-block");
            }
            _ => {}
        }
    }
    bytes.unwrap_or_else(|| chunks.concat())
}

/// What an independent reader makes of a text.
#[derive(Debug)]
enum Reading<T> {
    /// Well-formed terms. `canonical`: spelled the way the library writes (so it has to be accepted).
    Terms { terms: Vec<(T, usize)>, canonical: bool },
    Malformed,
    /// Not decided (a degree without caret).
    Open { several: bool },
}

fn read_text<T: Num>(s: &str) -> Reading<T> {
    if !s.bytes().all(|b| b"+-.0123456789x^ ,_".contains(&b)) {
        return Reading::Malformed;
    }
    let b = s.as_bytes();
    let canonical = !s.contains([',', '_'])
        && (0..b.len()).all(|i| {
            b[i] != b' '
                || (i > 0 && matches!(b[i - 1], b'+' | b'-'))
                || (i + 1 < b.len() && matches!(b[i + 1], b'+' | b'-'))
        });
    let t: String = s.chars().filter(|c| ![' ', ',', '_'].contains(c)).collect();
    if t.is_empty() {
        return Reading::Malformed;
    }
    let mut words: Vec<String> = vec![String::new()];
    for c in t.chars() {
        if (c == '+' || c == '-') && !words.last().unwrap().is_empty() {
            words.push(String::new());
        }
        words.last_mut().unwrap().push(c);
    }
    let several = words.len() > 1;
    let mut terms = vec![];
    let mut open = false;
    for w in &words {
        let (coef, degree) = match w.split_once('x') {
            None => {
                if w.contains('^') {
                    return Reading::Malformed;
                }
                (w.clone(), 0)
            }
            Some((c, rest)) => {
                if c.contains('^') || rest.contains('x') {
                    return Reading::Malformed;
                }
                let c = match c {
                    "" => "1".to_string(),
                    "+" | "-" => format!("{}1", c),
                    c => c.to_string(),
                };
                let deg = match rest.split_once('^') {
                    None if rest.is_empty() => 1,
                    None => {
                        open = true;
                        0
                    }
                    Some(("", e)) if !e.is_empty() && e.bytes().all(|b| b.is_ascii_digit()) => match e.parse::<usize>() {
                        Ok(d) => d,
                        Err(_) => return Reading::Malformed,
                    },
                    _ => return Reading::Malformed,
                };
                (c, deg)
            }
        };
        match T::read(&coef) {
            Some(c) => terms.push((c, degree)),
            None => return Reading::Malformed,
        }
    }
    if open {
        return Reading::Open { several };
    }
    Reading::Terms { terms, canonical }
}

/// A dense polynomial of such a degree is not built here.
fn too_long(s: &str) -> bool {
    let t: String = s.chars().filter(|c| ![' ', ',', '_'].contains(c)).collect();
    t.split(['+', '-']).any(|w| match w.split_once('x') {
        Some((_, r)) => {
            let d: String = r.chars().filter(|c| c.is_ascii_digit()).collect();
            d.trim_start_matches('0').len() > 4
        }
        None => false,
    })
}

/// What adding the terms one by one has to give.
enum Sum<T> {
    Is(Vec<(usize, T)>),
    Rejected,
    /// Overflow, or not modelled.
    Unknown,
}

fn sum_up<T: Num>(k: Kind, terms: &[(T, usize)], may_err: &mut bool) -> Sum<T> {
    let mut m: BTreeMap<usize, T> = BTreeMap::new();
    let mut hits: BTreeMap<usize, u32> = BTreeMap::new();
    for &(c, d) in terms {
        let cannot = match k {
            Kind::B => d > 1,
            Kind::Q => d > 2,
            Kind::M => m.keys().next().is_some_and(|e| *e != d),
            _ => false,
        };
        if c == T::zero() {
            if cannot {
                *may_err = true;
            }
            continue;
        }
        if cannot {
            return Sum::Rejected;
        }
        let n = hits.entry(d).or_insert(0);
        *n += 1;
        if T::FLOAT && *n > 2 {
            return Sum::Unknown;
        }
        let old = m.get(&d).copied().unwrap_or(T::zero());
        match old.plus(c) {
            None => return Sum::Unknown,
            #[allow(clippy::eq_op)]
            Some(v) if v != v => return Sum::Unknown, // infinities that cancel
            Some(v) if v == T::zero() => {
                m.remove(&d);
            }
            Some(v) => {
                m.insert(d, v);
            }
        }
    }
    Sum::Is(m.into_iter().collect())
}

fn text_of<T: Num, C: Coef>(cx: &Ctx<C>, at: At, g: &Gene) {
    let k = KINDS[g.b as usize % 5];
    let terms: Vec<(T, usize)> = g.t.iter().map(|&(c, d)| (T::pick(c), kind_degree(k, d, g.t.len() > 10))).collect();
    let v = build(k, &terms);
    let mut disk = Disk { chunks: vec![], limit: if g.c == 0 { usize::MAX } else { 1 + g.c as usize % 7 }, short: 0 };
    let (o, c1) = lib(true, Arm::default(), None, || T::lib_fmt(&v, &mut disk));
    tally(cx, &c1);
    let who = || format!("{:?} of {} {}", k, T::NAME, show(&v));
    match o {
        Out::Done(Ok(())) => {}
        Out::Done(Err(_)) => return cx.report(C10 | C05, at, || format!("{}: writing reported an error although no write failed", who())),
        Out::Hit(_) => return,
        Out::Natural(m) => return cx.report(C10 | C05, at, || format!("{}: writing the text panicked '{}'", who(), m)),
    }
    if disk.short > 0 {
        cx.count_fault("short-write");
    }
    let written = disk.chunks.concat();
    let mut note = vec![];
    let bytes = read_back(&disk, g, &mut note);
    for n in &note {
        cx.count_fault(n);
    }
    let intact = bytes == written;
    let text = String::from_utf8_lossy(&bytes).into_owned();
    cx.log(|| {
        format!(
            "task {} op {}: {} written as {:?}, faults {:?}, read back {:?}",
            at.task,
            at.op,
            who(),
            String::from_utf8_lossy(&written),
            note,
            text
        )
    });
    if k == Kind::D && too_long(&text) {
        return;
    }
    let (p, c2) = lib(true, Arm::default(), None, || T::lib_parse(k, &text));
    tally(cx, &c2);
    cx.reached(text.as_bytes(), T::NAME.len() as u64 * 8 + matches!(p, Out::Done(Ok(_))) as u64);
    if g.fault == Fault::Oom && c2.allocs > 0 && matches!(p, Out::Done(_)) && text.split(['+', '-']).count() <= 11 {
        out_of_memory(cx, at, k, &text, &p, 1 + g.y as u64 % c2.allocs);
        if cx.stop.get() {
            return;
        }
    }
    if intact {
        match &p {
            Out::Done(Ok(w)) => {
                let (e, c3) = lib(false, Arm::default(), None, || T::lib_eq(w, &v));
                tally(cx, &c3);
                if den(w) != den(&v) || !matches!(e, Out::Done(true)) {
                    cx.report(C10, at, || format!("{}: its text {:?} reads back as {}", who(), text, show(w)));
                }
            }
            Out::Done(Err(e)) => cx.report(C10, at, || format!("{}: its own text {:?} is rejected: {:?}", who(), text, e)),
            Out::Natural(m) => cx.report(C10, at, || format!("{}: reading its own text {:?} panicked '{}'", who(), text, m)),
            Out::Hit(_) => {}
        }
        if !cx.stop.get() {
            several_as_one::<T, C>(cx, at, &text);
        }
        return;
    }
    judge_parse(cx, at, k, &text, &p);
    if cx.stop.get() {
        return;
    }
    // The single-term reader on the same damaged text.
    let first = text.char_indices().find(|&(i, c)| i > 0 && (c == '+' || c == '-')).map_or(text.len(), |e| e.0);
    let word = &text[..first];
    let (p, c4) = lib(true, Arm::default(), None, || T::lib_parse_term(word));
    tally(cx, &c4);
    let bad = |m: &str| cx.report(C10, at, || format!("Term::<{}>::from_str({:?}): {} (outcome {:?})", T::NAME, word, m, show_term(&p)));
    match (read_text::<T>(word), &p) {
        (_, Out::Hit(_)) => {}
        (_, Out::Natural(m)) => bad(&format!("panicked '{}'", m)),
        (Reading::Malformed, Out::Done(Ok(_))) => bad("malformed text was accepted"),
        (Reading::Terms { terms, canonical }, Out::Done(r)) if terms.len() == 1 => match r {
            Ok(Term::ZeroTerm) if terms[0].0 != T::zero() => bad("read as zero"),
            Ok(Term::Term(c, d)) if (*c, *d) != terms[0] => bad("read as another term"),
            Err(_) if canonical => bad("a well-formed term was rejected"),
            _ => {}
        },
        _ => {}
    }
    if !cx.stop.get() && first < text.len() {
        several_as_one::<T, C>(cx, at, &text);
    }
}

/// The single-term reader on text that holds more than one term.
fn several_as_one<T: Num, C: Coef>(cx: &Ctx<C>, at: At, text: &str) {
    let (p, c5) = lib(true, Arm::default(), None, || T::lib_parse_term(text));
    tally(cx, &c5);
    let bad = |m: &str| cx.report(C10, at, || format!("Term::<{}>::from_str({:?}): {} (outcome {:?})", T::NAME, text, m, show_term(&p)));
    match &p {
        Out::Natural(m) => bad(&format!("panicked '{}'", m)),
        Out::Done(Ok(t)) if !matches!(read_text::<T>(text), Reading::Terms { terms, .. } if terms.len() == 1 && agree(t, &terms)) => {
            // A degree with a plus sign of its own: only that one may be dropped.
            let bare: String = text.chars().filter(|c| ![' ', ',', '_'].contains(c)).collect();
            let once = bare.replacen("^+", "^", 1);
            match read_text::<T>(&once) {
                Reading::Terms { terms, .. } if once.len() < bare.len() && terms.len() == 1 && agree(t, &terms) => {}
                Reading::Open { several: false } => {}
                _ => bad("text that is not one term was read as a term"),
            }
        }
        _ => {}
    }
}

fn agree<T: Num>(t: &Term<T>, terms: &[(T, usize)]) -> bool {
    match t {
        Term::ZeroTerm => terms[0].0 == T::zero(),
        Term::Term(c, d) => (*c, *d) == terms[0],
    }
}

/// Reading fails for lack of memory and is repeated when there is memory again.
fn out_of_memory<T: Num, C: Coef>(cx: &Ctx<C>, at: At, k: Kind, text: &str, p: &Out<Result<Val<T>, PolynomialFromStringError>>, oom_at: u64) {
    let say = |o: &Out<Result<Val<T>, PolynomialFromStringError>>| match o {
        Out::Done(Ok(v)) => show(v),
        Out::Done(Err(e)) => format!("rejected {:?}", e),
        Out::Hit(k) => format!("interrupted ({:?})", k),
        Out::Natural(m) => format!("panicked '{}'", m),
    };
    let (o, c) = lib(true, Arm { oom_at, ..Arm::default() }, None, || T::lib_parse(k, text));
    tally(cx, &c);
    cx.count_fault("allocation-failure");
    let who = || format!("reading {:?} as {:?} of {}", text, k, T::NAME);
    match (&o, p) {
        (Out::Done(Ok(_)), _) if say(&o) == say(p) => {}
        (Out::Done(Ok(_)), _) => return cx.report(C09, at, || format!("{}: with an allocation failing {}, otherwise {}", who(), say(&o), say(p))),
        (Out::Natural(m), _) => return cx.report(C09, at, || format!("{}: panicked '{}' after an allocation failed", who(), m)),
        _ => {}
    }
    drop(o);
    let (o, c) = lib(true, Arm::default(), None, || T::lib_parse(k, text));
    tally(cx, &c);
    if say(&o) != say(p) {
        cx.report(C09 | C10, at, || format!("{}: after a failed allocation {}, before it {}", who(), say(&o), say(p)));
    }
}

fn show_term<T: Num>(o: &Out<Result<Term<T>, rustnomial::err::TermFromStringError>>) -> String {
    match o {
        Out::Done(r) => format!("{:?}", r),
        Out::Hit(k) => format!("{:?}", k),
        Out::Natural(m) => m.clone(),
    }
}

fn judge_parse<T: Num, C: Coef>(cx: &Ctx<C>, at: At, k: Kind, text: &str, p: &Out<Result<Val<T>, PolynomialFromStringError>>) {
    let who = || format!("damaged text {:?} read as {:?} of {}", text, k, T::NAME);
    let reading = read_text::<T>(text);
    match p {
        Out::Hit(_) => {}
        Out::Natural(m) => {
            let overflow = match &reading {
                Reading::Terms { terms, .. } => matches!(sum_up(k, terms, &mut false), Sum::Unknown),
                Reading::Malformed => prefix_overflows::<T>(k, text),
                Reading::Open { several } => *several,
            };
            if !overflow {
                cx.report(C10, at, || format!("{}: panicked '{}'", who(), m));
            }
        }
        Out::Done(r) => match reading {
            Reading::Open { .. } => {}
            Reading::Malformed => {
                if let Ok(v) = r {
                    cx.report(C10, at, || format!("{}: malformed, but accepted as {}", who(), show(v)));
                }
            }
            Reading::Terms { terms, canonical } => {
                let mut may_err = !canonical;
                match (sum_up(k, &terms, &mut may_err), r) {
                    (Sum::Unknown, _) => {}
                    (Sum::Rejected, Ok(v)) => cx.report(C10, at, || format!("{}: accepted as {} although the type cannot hold it", who(), show(v))),
                    (Sum::Rejected, Err(_)) => {}
                    (Sum::Is(m), Ok(v)) => {
                        if den(v) != m {
                            cx.report(C10, at, || format!("{}: it spells {:?}, read as {}", who(), m, show(v)));
                        }
                    }
                    (Sum::Is(_), Err(e)) => {
                        if !may_err {
                            cx.report(C10, at, || format!("{}: well-formed, but rejected with {:?}", who(), e));
                        }
                    }
                }
            }
        },
    }
}

/// Terms in front of the malformed place may overflow when they are added up.
fn prefix_overflows<T: Num>(k: Kind, text: &str) -> bool {
    (0..=text.len()).filter(|i| text.is_char_boundary(*i)).any(|i| match read_text::<T>(&text[..i]) {
        Reading::Terms { terms, .. } => matches!(sum_up(k, &terms, &mut false), Sum::Unknown),
        Reading::Open { several } => several,
        _ => false,
    })
}

// ------------------------------------------------------------------ terms of every type (C03)

fn terms_of<T: Num, C: Coef>(cx: &Ctx<C>, at: At, g: &Gene) {
    let k = KINDS[g.b as usize % 5];
    let mut v: Val<T> = build(k, &[]);
    let mut m: BTreeMap<usize, T> = BTreeMap::new();
    for (i, &(x, d)) in g.t.iter().enumerate() {
        let sub = x & 1 == 1;
        let mut c = T::pick(x >> 1);
        if T::FLOAT {
            c = T::pick(5 + 12 * ((x >> 1).rem_euclid(7)));
        }
        let d = match k {
            Kind::D => d.unsigned_abs() as usize % 24,
            // negative numbers stand for the degrees from 2^63 up
            Kind::S | Kind::M if d < 0 || d % 5 == 0 => d as usize,
            Kind::S | Kind::M => d as usize % 6,
            _ if !(0..200).contains(&d) => d as usize,
            _ => d as usize % 5,
        };
        let before = v.clone();
        let old = m.get(&d).copied().unwrap_or(T::zero());
        let new = if sub { old.minus(c) } else { old.plus(c) };
        let reject = match k {
            Kind::B if d > 1 => Some(TryAddError::DegreeOutOfBounds),
            Kind::Q if d > 2 => Some(TryAddError::DegreeOutOfBounds),
            Kind::M if m.keys().next().is_some_and(|e| *e != d) => Some(TryAddError::TooManyTerms),
            _ => None,
        };
        let is_stored = matches!(k, Kind::M | Kind::B | Kind::Q) || stored(&v).iter().any(|e| e.0 == d);
        let (out, cnt) = lib(true, Arm::default(), None, || T::lib_term(&mut v, c, d, sub));
        tally(cx, &cnt);
        let desc = || {
            format!(
                "step {}: {} of ({:?}, {}) on {:?} of {} {} -> {}; now {}",
                i,
                if sub { "try_sub_term" } else { "try_add_term" },
                c,
                d,
                k,
                T::NAME,
                show(&before),
                match &out {
                    Out::Done(r) => format!("{:?}", r),
                    Out::Hit(k) => format!("{:?}", k),
                    Out::Natural(m) => format!("panicked '{}'", m),
                },
                show(&v)
            )
        };
        cx.log(|| format!("task {} op {}: {}", at.task, at.op, desc()));
        let bad = |m: &str| cx.report(C03, at, || format!("{}: {}", desc(), m));
        let unchanged = den(&v) == den(&before);
        let zero = c == T::zero();
        match (&out, reject, new) {
            (Out::Hit(_), _, _) => {}
            (Out::Done(Err(e)), Some(r), _) => {
                if *e != r && !(zero && T::UNSIGNED) {
                    // An unsigned type may name either of two reasons.
                    if !(sub && T::UNSIGNED && *e == TryAddError::CanNotNegate) {
                        return bad("the error names another reason");
                    }
                }
                cx.count_fault("sink-rejection");
                if !unchanged {
                    return bad("rejected, but changed");
                }
            }
            (Out::Done(Ok(())), Some(_), _) => {
                if !zero || !unchanged {
                    return bad("accepted although the type cannot hold it");
                }
            }
            (Out::Done(Ok(())), None, Some(n)) => {
                if n == T::zero() {
                    m.remove(&d);
                } else {
                    m.insert(d, n);
                }
                let want: Vec<(usize, T)> = m.iter().map(|(a, b)| (*a, *b)).collect();
                if den(&v) != want {
                    return bad(&format!("should hold {:?}", want));
                }
            }
            (Out::Done(Ok(())), None, None) => return bad("accepted although the coefficient cannot be represented"),
            (Out::Done(Err(e)), None, n) => {
                let negative = sub && T::UNSIGNED && n.is_none();
                if !negative {
                    return bad("rejected although the type can hold it");
                }
                if *e != TryAddError::CanNotNegate {
                    return bad("the error names another reason");
                }
                cx.count_fault("sink-rejection");
                if !unchanged {
                    return bad("rejected, but changed");
                }
            }
            (Out::Natural(_), r, n) => {
                cx.count_fault("natural-panic");
                if r.is_some() || n.is_some() {
                    return bad("panicked although nothing overflows");
                }
                if T::UNSIGNED && sub && !is_stored {
                    return bad("panicked instead of rejecting a negative coefficient");
                }
                if !unchanged {
                    return bad("interrupted, and changed");
                }
            }
        }
    }
}
