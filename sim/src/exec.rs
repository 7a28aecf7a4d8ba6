//! Runs one plan: tasks, operations, faults, and the checks on every step of the history.
use crate::coef::{Coef, Ring, F, P};
use crate::model::Model;
use crate::ops::*;
use crate::plan::*;
use crate::rng::mix;
use crate::sim::*;
use crate::val::*;
use std::cell::{Cell, UnsafeCell};
use std::collections::BTreeMap;
use std::sync::atomic::Ordering;
use std::sync::Mutex;

/// Bit set of property numbers (C01 = bit 1, ...).
pub type Props = u32;
pub const fn c(n: u32) -> Props {
    1 << n
}
pub const C01: Props = c(1);
pub const C02: Props = c(2);
pub const C03: Props = c(3);
pub const C04: Props = c(4);
pub const C05: Props = c(5);
pub const C06: Props = c(6);
pub const C07: Props = c(7);
pub const C08: Props = c(8);
pub const C09: Props = c(9);
pub const C10: Props = c(10);

#[derive(Clone, Debug)]
pub struct Viol {
    pub msg: String,
    pub task: usize,
    pub op: usize,
}

#[derive(Clone, Default, Debug)]
pub struct Stats {
    pub ops: u64,
    pub lib_calls: u64,
    pub steps: u64,
    pub allocs: u64,
    pub interrupted: u64,
    pub natural: u64,
    pub retries: u64,
    pub checked: u64,
    pub switches: u64,
    pub foreign: u64,
    pub skipped: u64,
    pub faults: BTreeMap<&'static str, u64>,
    /// Listed findings met (see known_findings.txt).
    pub known: BTreeMap<&'static str, u64>,
    pub opcount: BTreeMap<&'static str, u64>,
    pub run_hash: u64,
    pub sched_hash: u64,
    pub state_hashes: Vec<u64>,
}

impl Stats {
    pub fn fault(&mut self, k: &'static str) {
        *self.faults.entry(k).or_insert(0) += 1;
    }
}

pub struct Slot<N> {
    pub v: Val<N>,
    pub m: Option<Model>,
}

pub const OWN: [Kind; 7] = [Kind::D, Kind::D, Kind::S, Kind::S, Kind::M, Kind::B, Kind::Q];
pub const RO: [Kind; 6] = [Kind::D, Kind::D, Kind::S, Kind::M, Kind::B, Kind::Q];
pub const ACC: [Kind; 2] = [Kind::D, Kind::S];
pub const NSLOT: usize = OWN.len() + RO.len() + ACC.len();

pub fn slot_kind(i: usize) -> Kind {
    if i < OWN.len() {
        OWN[i]
    } else if i < OWN.len() + RO.len() {
        RO[i - OWN.len()]
    } else {
        ACC[(i - OWN.len() - RO.len()) % 2]
    }
}

pub struct Ctx<N: Coef> {
    pub prop: Props,
    pub ring: Ring,
    pub ro: Vec<Slot<N>>,
    acc: UnsafeCell<Vec<Slot<N>>>,
    acc_locked: Cell<bool>,
    viol: Mutex<Option<Viol>>,
    pub stop: Cell<bool>,
    pub trace: Option<Mutex<Vec<String>>>,
    pub stats: Mutex<Stats>,
}
unsafe impl<N: Coef> Sync for Ctx<N> {}

/// Findings of known_findings.txt ("known: property=<id> key=<key> ..."), by key.
pub static KNOWN: std::sync::OnceLock<Vec<(String, String)>> = std::sync::OnceLock::new();

fn listed(key: &str) -> bool {
    KNOWN.get().is_some_and(|k| k.iter().any(|e| e.0 == key))
}

/// Position in the plan, for reports.
#[derive(Clone, Copy)]
pub struct At {
    pub task: usize,
    pub op: usize,
}

impl<N: Coef> Ctx<N> {
    pub fn report(&self, props: Props, at: At, msg: impl FnOnce() -> String) {
        if props & self.prop != 0 {
            let mut v = self.viol.lock().unwrap();
            if v.is_none() {
                *v = Some(Viol {
                    msg: msg(),
                    task: at.task,
                    op: at.op,
                });
            }
            self.stop.set(true);
        } else {
            self.stats.lock().unwrap().foreign += 1;
            if std::env::var_os("RSIM_FOREIGN").is_some() {
                eprintln!("of other properties {:x}: {}", props, msg());
            }
        }
    }
    pub fn log(&self, f: impl FnOnce() -> String) {
        if let Some(t) = &self.trace {
            t.lock().unwrap().push(f());
        }
    }
    /// Adds something reached outside the slots (texts, outcomes) to the history hash.
    pub fn reached(&self, what: &[u8], tag: u64) {
        let mut h = tag;
        for c in what.chunks(8) {
            let mut b = [0u8; 8];
            b[..c.len()].copy_from_slice(c);
            h = mix(h, u64::from_ne_bytes(b));
        }
        let mut st = self.stats.lock().unwrap();
        st.run_hash = mix(st.run_hash, h);
        st.state_hashes.push(h);
    }
    pub fn count_fault(&self, k: &'static str) {
        self.stats.lock().unwrap().fault(k);
    }
    fn lock_acc(&self) {
        let mut spins = 0;
        while self.acc_locked.get() {
            blocked();
            spins += 1;
            assert!(spins < 1_000_000, "simulated lock never released");
        }
        self.acc_locked.set(true);
    }
    fn unlock_acc(&self) {
        self.acc_locked.set(false);
    }
}

thread_local! {
    static REENTER_BAD: Cell<bool> = const { Cell::new(false) };
}

/// Library calls made from inside coefficient arithmetic.
fn reenter_body<N: Coef>() {
    use rustnomial::*;
    let f = |x: i64| N::from_x(x);
    let p = Polynomial { terms: vec![f(1), f(1)] };
    let k = |v: &[i64]| v.iter().map(|&x| f(x).key()).collect::<Vec<_>>();
    let kk = |p: &Polynomial<N>| p.terms.iter().map(|c| c.key()).collect::<Vec<_>>();
    let ok = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
        let sq = &p * &p;
        let cube = p.pow(3);
        let sum = sq.clone() + p.clone();
        let (q, r) = sq.div_mod(&p);
        let mut s: SparsePolynomial<N> = SparsePolynomial { terms: BTreeMap::new() };
        s.add_term(f(1), 1);
        s.add_term(f(1), 0);
        let s2 = s.borrow_mul(&s);
        let sp = s.pow(2);
        let (sq_, sr_) = s2.div_mod(&s);
        kk(&sq) == k(&[1, 2, 1])
            && kk(&cube) == k(&[1, 3, 3, 1])
            && kk(&sum) == k(&[1, 3, 2])
            && kk(&q) == k(&[1, 1])
            && r.is_zero()
            && sq.degree() == Degree::Num(2)
            && sum.eval(f(1)).key() == f(6).key()
            && s2 == sp
            && s2.degree() == Degree::Num(2)
            && sq_ == s
            && sr_.is_zero()
            && (kk(&(sq.clone() << 1)) == k(&[1, 2, 1, 0]))
            && (kk(&(sq << -1)) == k(&[1, 2]))
    }));
    if !matches!(ok, Ok(true)) {
        REENTER_BAD.set(true);
    }
}

pub fn reenter_fn<N: Coef>() -> Option<fn()> {
    Some(reenter_body::<N>)
}

pub fn take_reenter_bad() -> bool {
    REENTER_BAD.replace(false)
}

pub fn observe<N: Coef>(v: &Val<N>) -> Option<Model> {
    let mut m = BTreeMap::new();
    for (d, k) in v.stored() {
        let x = k.to_m()?;
        if x != 0 {
            m.insert(d, x);
        }
    }
    Some(Model(m))
}

/// Model as denotation keys; entries that do not fit the type are None.
pub fn keys<N: Coef>(m: &Model) -> BTreeMap<usize, Option<i128>> {
    m.0.iter().map(|(&d, &v)| (d, N::from_m(v).map(|c| c.key()))).collect()
}

pub fn den_is<N: Coef>(v: &Val<N>, m: &Model) -> bool {
    let d = v.den();
    d.len() == m.0.len() && keys::<N>(m).iter().all(|(k, x)| x.is_some() && d.get(k).copied() == *x)
}

pub fn show_model(m: &Model) -> String {
    let s: Vec<String> = m.0.iter().rev().map(|(d, c)| format!("{}@{}", c, d)).collect();
    format!("[{}]", s.join(" "))
}

fn degree_of(m: &Model) -> rustnomial::Degree {
    match m.deg() {
        None => rustnomial::Degree::NegInf,
        Some(d) => rustnomial::Degree::Num(d),
    }
}

/// Compares a completed operation with the exact answer. None = right or not modelled.
fn wrong<N: Coef>(g: &Gene, ring: Ring, ex: &Expect, am: &Model, bm: &Model, res: &Res<N>, after: &Val<N>) -> Option<String> {
    use Op::*;
    let val = |v: &Val<N>, m: &Option<Model>, what: &str| -> Option<String> {
        match m {
            Some(m) if !den_is(v, m) => Some(format!(
                "{} is {}, exact answer {}",
                what,
                v.show(),
                show_model(m)
            )),
            _ => None,
        }
    };
    if ex.inexact {
        if ex.identity {
            // q*b + r = a has to hold over the integers whatever the rounding of the quotient.
            let id = |q: &Model, r: &Model| {
                q.mul(ring, bm).and_then(|p| p.add(ring, r)).is_none_or(|s| &s == am)
            };
            if let Res::VV(q, r) = res {
                if let (Some(q), Some(r)) = (observe(q), observe(r)) {
                    if !id(&q, &r) {
                        return Some(format!(
                            "quotient {} and remainder {} do not satisfy a = q*b + r",
                            show_model(&q),
                            show_model(&r)
                        ));
                    }
                }
            }
        }
        return None;
    }
    match res {
        Res::Unit => val(after, &ex.new, "target"),
        Res::V(v) => val(v, &ex.new, "result"),
        Res::VV(q, r) => val(q, &ex.new, "quotient").or_else(|| val(r, &ex.second, "remainder")),
        Res::N(n) => match ex.scalar {
            Some(s) if N::from_m(s).map(|c| c.key()) != Some(n.key()) => {
                Some(format!("value is {:?}, exact answer {}", n, s))
            }
            _ => None,
        },
        Res::B(b) => {
            let want = match g.op {
                Eq => am == bm,
                _ => am.is_zero(),
            };
            (*b != want).then(|| format!("answer {}, should be {}", b, want))
        }
        Res::Dg(d) => (*d != degree_of(am)).then(|| format!("degree {:?}, should be {:?}", d, degree_of(am))),
        Res::Tm(t) => {
            let d = g.y as usize;
            let w = am.get(d);
            let ok = match t {
                rustnomial::Term::ZeroTerm => w == 0,
                rustnomial::Term::Term(c, dd) => *dd == d && w != 0 && c.to_m() == Some(w),
            };
            (!ok).then(|| format!("term {:?} at degree {}, should be {}", t, d, w))
        }
        Res::T(t, u) => {
            let want: Vec<(i128, usize)> = am.0.iter().rev().map(|(&d, &c)| (c, d)).collect();
            for l in [t, u] {
                let got: Vec<(i128, usize)> = l.iter().map(|(c, d)| (c.to_m().unwrap_or(0), *d)).collect();
                if got != want {
                    return Some(format!("term list {:?}, should be {:?}", got, want));
                }
            }
            None
        }
        Res::E(r) => {
            if ex.reject.is_some() {
                return None; // judged separately (C03)
            }
            match r {
                Ok(()) => val(after, &ex.new, "target"),
                Err(_) => None,
            }
        }
        Res::I(i) => val(&i.inner, &ex.new, "integral")
            .or_else(|| val(&i.with_c, &ex.second, "integral with constant"))
            .or_else(|| match ex.scalar {
                Some(s) if N::from_m(s).map(|c| c.key()) != Some(i.area.key()) => {
                    Some(format!("definite integral {:?}, exact answer {}", i.area, s))
                }
                _ => None,
            }),
    }
}

/// After an interruption of an element-wise update: each degree old or new.
/// `new` None at a degree: the new coefficient does not exist in the type.
pub fn term_wise<N: Coef>(before: &Den, new: &BTreeMap<usize, Option<i128>>, now: &Den) -> Option<String> {
    let mut degs: Vec<usize> = before.keys().chain(new.keys()).chain(now.keys()).copied().collect();
    degs.sort();
    degs.dedup();
    for d in degs {
        let o = before.get(&d).copied().unwrap_or(0);
        let w = new.get(&d).copied().unwrap_or(Some(0));
        let n = now.get(&d).copied().unwrap_or(0);
        if n != o && Some(n) != w {
            return Some(format!(
                "degree {} holds {}, neither its old coefficient {} nor the completed one {}",
                d,
                n,
                o,
                w.map_or("(not representable)".to_string(), |v| v.to_string())
            ));
        }
    }
    None
}

pub fn hash_den(d: &Den, k: u64) -> u64 {
    let mut h = k;
    for (a, b) in d {
        h = mix(h ^ *a as u64, *b as u64 ^ (*b >> 64) as u64);
    }
    h
}

fn op_props(op: Op) -> Props {
    match class(op) {
        Class::Strong => C01,
        Class::TermWise => {
            if matches!(op, Op::TryAdd | Op::TrySub) {
                C02 | C03
            } else {
                C02
            }
        }
        Class::Pure => 0,
    }
}

/// Properties that a hang or a process abort inside this operation breaks.
pub fn crash_props(op: Op) -> Props {
    let own = match op {
        Op::Stream | Op::MacroSum => C04,
        Op::Fmt | Op::FmtErr | Op::FmtT => C05,
        Op::Text => C10,
        Op::UTerm => C03,
        Op::Observe => C08,
        o => op_props(o),
    };
    own | C06 | C07 | C09
}

/// One plain operation of the history.
#[allow(clippy::too_many_arguments)]
pub fn plain<N: Coef>(cx: &Ctx<N>, at: At, g: &Gene, a: &mut Slot<N>, b: &Slot<N>, lhs: Option<&Slot<N>>, depth: u32) -> Option<Val<N>> {
    let kind = a.v.kind();
    if !applicable::<N>(g.op, kind, b.v.kind()) || !admissible(g, &a.v, &b.v) {
        cx.stats.lock().unwrap().skipped += 1;
        return None;
    }
    let before = a.v.clone();
    let den0 = before.den();
    let raw_b = b.v.raw();
    let known = a.m.is_some() && (b.m.is_some() || !uses_b(g.op));
    let zero = Model::default();
    let (am, bm) = (a.m.clone().unwrap_or_default(), b.m.as_ref().unwrap_or(&zero));
    let ex = if known {
        Some(expect::<N>(g, cx.ring, kind, &am, bm))
    } else {
        None
    };
    let bud = budget(g, &a.v, &b.v);
    let cls = class(g.op);
    // Counting run on copies: how many coefficient operations and allocations there are to fault.
    let mut copy = before.clone();
    let ar = args(g, &copy, &b.v);
    let (dry, cnt) = lib(false, Arm { budget: bud, ..Arm::default() }, None, || apply(g, &mut copy, &b.v, ar));
    {
        let mut st = cx.stats.lock().unwrap();
        st.lib_calls += 1;
        st.steps += cnt.steps;
        st.allocs += cnt.allocs;
        *st.opcount.entry(g.op.name()).or_insert(0) += 1;
        if depth == 0 {
            st.ops += 1;
        }
    }
    let desc = |extra: &str| -> String {
        format!(
            "{} on {}{} x={} y={} z={}{}",
            g.op.name(),
            before.show(),
            if uses_b(g.op) { format!(" with {}", b.v.show()) } else { String::new() },
            g.x,
            g.y,
            g.z,
            extra
        )
    };
    let retry_props = if depth > 0 { retry_mask(g) } else { 0 };
    let mut dry_new: Option<Den> = None;
    match &dry {
        Out::Done(_) => dry_new = Some(copy.den()),
        Out::Hit(SimPanic::Budget) => {
            cx.report(C07 | C06 | retry_props, at, || {
                desc(&format!(": not finished after {} coefficient operations", bud))
            });
            return None;
        }
        Out::Hit(_) => {
            cx.report(C07 | C06 | retry_props, at, || desc(": asks for an unbounded amount of memory"));
            return None;
        }
        Out::Natural(m) => {
            let fault = ex.as_ref().is_some_and(|e| !e.panic_ok);
            if fault && matches!(g.op, Op::Shl | Op::ShlAssign) && g.y == i32::MIN as i64 && m.contains("negate with overflow") && listed("shift-by-i32-min") {
                *cx.stats.lock().unwrap().known.entry("shift-by-i32-min").or_insert(0) += 1;
                return None;
            }
            if fault {
                cx.report(C06 | retry_props | if depth > 0 { C07 } else { 0 }, at, || {
                    desc(&format!(": panicked with '{}' although the exact result exists", m))
                });
                return None;
            }
        }
    }
    let dry_done = matches!(dry, Out::Done(_));
    drop(dry);
    // The live run, with scheduling and the planned fault.
    let mut arm = Arm { budget: bud, ..Arm::default() };
    let mut armed = Fault::None;
    if depth == 0 && dry_done {
        match g.fault {
            Fault::Coef if cnt.arith > 0 => {
                arm.panic_at = 1 + g.at as u64 % cnt.arith;
                armed = Fault::Coef;
            }
            Fault::Oom if cnt.allocs > 0 && oom_safe(g, &before, &b.v, cx.prop == C09) => {
                arm.oom_at = 1 + g.at as u64 % cnt.allocs;
                armed = Fault::Oom;
            }
            Fault::Reenter if cnt.steps > 0 => {
                arm.reenter_at = 1 + g.at as u64 % cnt.steps;
                armed = Fault::Reenter;
            }
            _ => {}
        }
    }
    let ar = args(g, &before, &b.v);
    let (out, lc) = match lhs {
        Some(l) => lib(true, arm, reenter_fn::<N>(), || apply_ref(g, &l.v, &b.v, ar)),
        None => lib(true, arm, reenter_fn::<N>(), || apply(g, &mut a.v, &b.v, ar)),
    };
    if armed != Fault::None && (lc.reentered > 0 || lc.oom_fired || matches!(out, Out::Hit(_))) {
        cx.count_fault(match armed {
            Fault::Coef => "coefficient-panic",
            Fault::Oom => "allocation-failure",
            _ => "reentrant-call",
        });
    }
    {
        let mut st = cx.stats.lock().unwrap();
        st.lib_calls += 1;
        st.steps += lc.steps;
        st.checked += 1;
        match &out {
            Out::Hit(_) => st.interrupted += 1,
            Out::Natural(_) => {
                st.natural += 1;
                st.fault("natural-panic");
            }
            _ => {}
        }
    }
    cx.log(|| {
        let o = match &out {
            Out::Done(Res::E(Err(e))) => format!("rejected {:?}", e),
            Out::Done(_) => "done".into(),
            Out::Hit(k) => format!("interrupted ({:?})", k),
            Out::Natural(m) => format!("panicked '{}'", m),
        };
        format!(
            "task {} op {}: {} fault={:?}@{} -> {}; target now {}",
            at.task,
            at.op,
            desc(""),
            armed,
            match armed {
                Fault::Coef => arm.panic_at,
                Fault::Oom => arm.oom_at,
                Fault::Reenter => arm.reenter_at,
                _ => 0,
            },
            o,
            a.v.show()
        )
    });
    if take_reenter_bad() {
        cx.report(C06, at, || desc(": a nested library call made from coefficient arithmetic gave a wrong result"));
    }
    // Borrowed operands.
    let oom = armed == Fault::Oom;
    if b.v.raw() != raw_b {
        cx.report(C06 | if oom { C09 } else { 0 }, at, || desc(&format!(": borrowed operand changed to {}", b.v.show())));
    }
    let lv = lhs.map_or(&a.v, |l| &l.v);
    if cls == Class::Pure && lv.raw() != before.raw() {
        cx.report(C06 | if oom { C09 } else { 0 }, at, || desc(&format!(": borrowed operand changed to {}", lv.show())));
    }
    let mut result = None;
    let mut interrupted = false;
    match out {
        Out::Done(res) => {
            if !dry_done {
                cx.report(C06, at, || desc(": panicked on copies of the operands but completed on the operands"));
            }
            if let Some(e) = &ex {
                if let Some(w) = wrong(g, cx.ring, e, &am, bm, &res, &a.v) {
                    let own = if matches!(g.op, Op::TryAdd | Op::TrySub) { C03 } else { 0 };
                    // Hit by a fault and completed all the same: then the result has to be right, too.
                    let props = match cls {
                        _ if lc.oom_fired => C09,
                        Class::Strong if lc.panic_fired => C01 | C06,
                        Class::TermWise if lc.panic_fired => C02 | C06 | own,
                        _ => C06 | own | retry_props,
                    };
                    let hit = if lc.oom_fired || lc.panic_fired { " (completed in spite of a fault)" } else { "" };
                    cx.report(props, at, || desc(&format!(": {}{}", w, hit)));
                }
                if let (Res::E(r), false) = (&res, lc.oom_fired) {
                    judge_term(cx, at, g, e, r, &a.v, &den0, &desc, retry_props);
                }
            }
            match res {
                Res::V(v) => result = Some(v),
                Res::VV(v, w) => result = Some(if g.flags & ALT != 0 { w } else { v }),
                Res::I(i) => result = Some(i.with_c),
                _ => {}
            }
        }
        Out::Hit(SimPanic::Budget) => {
            cx.report(C07 | C06 | retry_props, at, || {
                desc(&format!(": not finished after {} coefficient operations", bud))
            });
        }
        o => {
            interrupted = matches!(o, Out::Hit(_));
            if !interrupted && dry_done {
                if let Out::Natural(m) = &o {
                    let m = m.clone();
                    cx.report(C06 | if oom { C09 } else { 0 }, at, || desc(&format!(": panicked with '{}' when run interleaved, not when run alone", m)));
                }
            }
            let now = a.v.den();
            match cls {
                Class::Strong => {
                    if now != den0 {
                        cx.report(C01 | if oom { C09 } else { 0 }, at, || {
                            desc(&format!(
                                ": interrupted ({}), and the target now is {}",
                                if oom { "allocation failed" } else { "coefficient operation panicked" },
                                a.v.show()
                            ))
                        });
                    }
                }
                Class::TermWise => {
                    let new: Option<BTreeMap<usize, Option<i128>>> = match (&dry_new, &ex) {
                        (Some(d), _) => Some(d.iter().map(|(&k, &v)| (k, Some(v))).collect()),
                        (None, Some(e)) => match &e.new {
                            Some(m) => Some(keys::<N>(m)),
                            // Division by zero and the like: nothing may have changed.
                            None => Some(den0.iter().map(|(&k, &v)| (k, Some(v))).collect()),
                        },
                        _ => None,
                    };
                    if let Some(new) = new {
                        if let Some(w) = term_wise::<N>(&den0, &new, &now) {
                            cx.report(if oom { C09 } else { C02 }, at, || {
                                desc(&format!(": interrupted, and {}; target now {}", w, a.v.show()))
                            });
                        }
                    }
                }
                Class::Pure => {}
            }
        }
    }
    // The model follows what is there now (checked above).
    a.m = observe(&a.v);
    if cx.stop.get() {
        return None;
    }
    if interrupted && depth == 0 && g.flags & RETRY != 0 {
        cx.stats.lock().unwrap().retries += 1;
        let mut g2 = g.clone();
        g2.fault = Fault::None;
        // keep the armed fault visible to the retry's attribution
        g2.at = if oom { 2 } else { 1 };
        return plain(cx, at, &g2, a, b, lhs, 1);
    }
    if interrupted {
        return None;
    }
    result
}

/// Which properties a failed retry breaks (besides C06).
fn retry_mask(g: &Gene) -> Props {
    let mut m = if class(g.op) == Class::Strong { C01 } else { 0 };
    if g.at == 2 {
        m |= C09;
    }
    m
}

#[allow(clippy::too_many_arguments)]
fn judge_term<N: Coef>(
    cx: &Ctx<N>,
    at: At,
    g: &Gene,
    e: &Expect,
    r: &Result<(), rustnomial::TryAddError>,
    now: &Val<N>,
    den0: &Den,
    desc: &dyn Fn(&str) -> String,
    extra: Props,
) {
    if e.inexact {
        return;
    }
    let _ = g;
    match (r, &e.reject) {
        (Ok(()), None) => {}
        (Err(x), None) => cx.report(C03 | C06 | extra, at, || desc(&format!(": rejected with {:?} although the type can hold the term", x))),
        (Ok(()), Some(w)) => {
            if !e.either {
                cx.report(C03 | C06 | extra, at, || desc(&format!(": accepted although the type cannot hold the term (should be {:?}); target now {}", w, now.show())));
            }
        }
        (Err(x), Some(w)) => {
            if x != w {
                cx.report(C03 | extra, at, || desc(&format!(": rejected with {:?}, the reason is {:?}", x, w)));
            }
        }
    }
    if (r.is_err() || e.reject.is_some()) && now.den() != *den0 {
        cx.report(C03 | C06 | extra, at, || desc(&format!(": rejected, but the target changed to {}", now.show())));
    }
}

fn build_terms<N: Coef>(k: Kind, t: &[(i64, i64)]) -> Vec<(N, usize)> {
    t.iter()
        .map(|&(c, d)| {
            let d = d.unsigned_abs() as usize;
            let d = match k {
                Kind::D => d % max_dense(),
                _ => d % MAX_DEG,
            };
            (N::from_x(c), d)
        })
        .collect()
}

pub struct TaskState<N> {
    pub slots: Vec<Slot<N>>,
}

fn run_task<N: Coef>(cx: &Ctx<N>, task: usize, genes: &[Gene], ts: &mut TaskState<N>, run: u64) {
    for (i, g) in genes.iter().enumerate() {
        if cx.stop.get() {
            break;
        }
        let at = At { task, op: i };
        set_status((run << 16) | ((i as u64 & 0xfff) << 4) | task as u64);
        yield_point();
        if crate::special::is_special(g.op) {
            crate::special::run(cx, at, g, ts);
        } else if g.op == Op::Build {
            let n = ts.slots.len();
            let s = &mut ts.slots[g.a as usize % n];
            let k = s.v.kind();
            s.v = Val::build(k, &build_terms(k, &g.t));
            s.m = observe(&s.v);
            cx.log(|| format!("task {} op {}: Build {}", task, i, s.v.show()));
        } else {
            history_op(cx, at, g, ts);
        }
        if cx.stop.get() {
            break;
        }
        let mut h = 0;
        for (j, s) in ts.slots.iter().enumerate() {
            h ^= hash_den(&s.v.den(), j as u64 + 1);
        }
        let mut st = cx.stats.lock().unwrap();
        st.run_hash = mix(st.run_hash, h);
        st.state_hashes.push(h);
    }
    // Values this task never touched again still denote what the history says.
    if !cx.stop.get() {
        for (j, s) in ts.slots.iter().enumerate() {
            if let Some(m) = &s.m {
                if !den_is(&s.v, m) {
                    cx.report(C06 | C09, At { task, op: genes.len() }, || {
                        format!("slot {} changed without an operation on it: {} instead of {}", j, s.v.show(), show_model(m))
                    });
                }
            }
        }
    }
}

fn history_op<N: Coef>(cx: &Ctx<N>, at: At, g: &Gene, ts: &mut TaskState<N>) {
    let nown = ts.slots.len();
    let ai = g.a as usize % NSLOT;
    let bi = g.b as usize % NSLOT;
    let acc0 = OWN.len() + RO.len();
    let needs_lock = ai >= acc0 || (bi >= acc0 && uses_b(g.op));
    if needs_lock {
        cx.lock_acc();
    }
    let result = {
        // Right operand: a shared read-only polynomial is really shared, others are snapshots.
        let tmp;
        let b: &Slot<N> = if bi >= OWN.len() && bi < acc0 {
            &cx.ro[bi - OWN.len()]
        } else {
            let s = if bi >= acc0 {
                if uses_b(g.op) {
                    unsafe { &(&*cx.acc.get())[bi - acc0] }
                } else {
                    &ts.slots[0]
                }
            } else {
                &ts.slots[bi]
            };
            tmp = Slot { v: s.v.clone(), m: s.m.clone() };
            &tmp
        };
        if ai >= acc0 {
            let acc = unsafe { &mut *cx.acc.get() };
            plain(cx, at, g, &mut acc[ai - acc0], b, None, 0)
        } else if ai >= OWN.len() {
            // Shared read-only values are lent to borrowing operations only.
            if class(g.op) == Class::Pure {
                let l = &cx.ro[ai - OWN.len()];
                let mut s = Slot { v: l.v.clone(), m: l.m.clone() };
                plain(cx, at, g, &mut s, b, Some(l), 0)
            } else {
                None
            }
        } else {
            plain(cx, at, g, &mut ts.slots[ai], b, None, 0)
        }
    };
    if needs_lock {
        cx.unlock_acc();
    }
    if let Some(v) = result {
        let ci = g.c as usize % nown;
        if g.flags & STORE != 0 && v.kind() == ts.slots[ci].v.kind() {
            let ok = match &v {
                Val::D(p) => p.terms.len() <= max_dense(),
                Val::S(p) => p.terms.len() <= max_map() && p.terms.keys().all(|d| *d < MAX_DEG),
                Val::M(p) => p.deg < MAX_DEG,
                _ => true,
            };
            if ok {
                let s = &mut ts.slots[ci];
                s.m = observe(&v);
                s.v = v;
            }
        }
    }
}

pub struct RunOut {
    pub viol: Option<Viol>,
    pub stats: Stats,
    pub trace: Vec<String>,
    pub sched: Vec<(u64, usize, usize)>,
}

pub fn run_plan(plan: &Plan, run: u64, trace: bool) -> RunOut {
    P.store(plan.p, Ordering::Relaxed);
    BIG.store(plan.big, Ordering::Relaxed);
    match plan.world {
        World::F => run_world::<F>(plan, run, trace),
        World::I8 => run_world::<i8>(plan, run, trace),
        World::I64 => run_world::<i64>(plan, run, trace),
        World::F64 => run_world::<f64>(plan, run, trace),
    }
}

fn run_world<N: Coef>(plan: &Plan, run: u64, trace: bool) -> RunOut {
    crate::alloc::probe_nodes(N::from_x(0));
    let live0 = crate::alloc::LIVE_LIB_BLOCKS.load(Ordering::Relaxed);
    let n = plan.tasks.len().max(1);
    let slot = |k: Kind, t: &[(i64, i64)]| {
        let v: Val<N> = Val::build(k, &build_terms(k, t));
        let m = observe(&v);
        Slot { v, m }
    };
    let cx = Ctx::<N> {
        prop: c(plan.prop as u32),
        ring: N::ring(),
        ro: RO
            .iter()
            .enumerate()
            .map(|(i, &k)| slot(k, plan.ro.get(i).map_or(&[], |v| &v[..])))
            .collect(),
        acc: UnsafeCell::new(ACC.iter().map(|&k| slot(k, &[])).collect()),
        acc_locked: Cell::new(false),
        viol: Mutex::new(None),
        stop: Cell::new(false),
        trace: trace.then(|| Mutex::new(vec![])),
        stats: Mutex::new(Stats::default()),
    };
    let ro_raw: Vec<_> = cx.ro.iter().map(|s| s.v.raw()).collect();
    let states: Vec<Mutex<TaskState<N>>> = (0..n)
        .map(|_| {
            Mutex::new(TaskState {
                slots: OWN.iter().map(|&k| slot(k, &[])).collect(),
            })
        })
        .collect();
    let empty = vec![];
    let rs = run_tasks(n, &plan.sched, trace, plan.big == 2, |i| {
        let mut ts = states[i].lock().unwrap();
        run_task(&cx, i, plan.tasks.get(i).unwrap_or(&empty), &mut ts, run);
    });
    let end = At { task: 0, op: plan.tasks.first().map_or(0, |t| t.len()) };
    for (i, s) in cx.ro.iter().enumerate() {
        if s.v.raw() != ro_raw[i] {
            cx.report(C06, end, || format!("shared read-only value {} changed to {}", i, s.v.show()));
        }
    }
    for s in unsafe { &*cx.acc.get() }.iter() {
        if let Some(m) = &s.m {
            if !den_is(&s.v, m) {
                cx.report(C06 | C09, end, || format!("shared accumulator {} instead of {}", s.v.show(), show_model(m)));
            }
        }
    }
    drop(states);
    let Ctx { ro, acc, viol, trace, stats, prop, .. } = cx;
    drop(ro);
    drop(acc);
    let mut viol = viol.into_inner().unwrap();
    let live1 = crate::alloc::LIVE_LIB_BLOCKS.load(Ordering::Relaxed);
    if live1 != live0 && prop == C09 && viol.is_none() {
        viol = Some(Viol {
            msg: format!(
                "{} memory blocks obtained inside library calls are still held after every polynomial was dropped",
                live1 - live0
            ),
            task: 0,
            op: plan.tasks.first().map_or(0, |t| t.len()),
        });
    }
    let mut stats = stats.into_inner().unwrap();
    stats.switches = rs.switches;
    stats.sched_hash = rs.hash;
    stats.run_hash = mix(mix(stats.run_hash, rs.hash), rs.steps);
    RunOut {
        viol,
        stats,
        trace: trace.map(|t| t.into_inner().unwrap()).unwrap_or_default(),
        sched: rs.trace,
    }
}
