//! Operations with caller-supplied parties, observers, and division stress.
use crate::each;
use crate::coef::Coef;
use crate::exec::*;
use crate::model::Model;
use crate::ops::{max_dense, max_map, rejection, MAX_DEG};
use crate::parties::*;
use crate::plan::*;
use crate::sim::*;
use crate::val::*;
use rustnomial::TryAddError;

pub fn is_special(op: Op) -> bool {
    matches!(
        op,
        Op::Observe | Op::Stream | Op::MacroSum | Op::Fmt | Op::FmtErr | Op::Text | Op::UTerm | Op::DivStress | Op::Typed | Op::FmtT | Op::Roots
    )
}

pub fn run<N: Coef>(cx: &Ctx<N>, at: At, g: &Gene, ts: &mut TaskState<N>) {
    {
        let mut st = cx.stats.lock().unwrap();
        st.ops += 1;
        *st.opcount.entry(g.op.name()).or_insert(0) += 1;
    }
    match g.op {
        Op::Observe => observe_op(cx, at, g, ts),
        Op::Stream => stream_op(cx, at, g, ts),
        Op::MacroSum => macro_op(cx, at, g, ts),
        Op::Fmt => fmt_op(cx, at, g, ts),
        Op::FmtErr => fmt_err_op(cx, at, g),
        Op::Text => crate::text::text_op(cx, at, g),
        Op::UTerm => crate::text::uterm_op(cx, at, g),
        Op::Typed => crate::typed::typed_op(cx, at, g),
        Op::FmtT => crate::typed::fmt_typed_op(cx, at, g),
        Op::Roots => crate::roots::roots_op(cx, at, g),
        Op::DivStress => crate::stress::div_stress(cx, at, g),
        _ => unreachable!(),
    }
}

/// A slot to read: own or shared read-only.
fn readable<'a, N: Coef>(cx: &'a Ctx<N>, ts: &'a TaskState<N>, i: u8) -> &'a Slot<N> {
    let i = i as usize % (OWN.len() + RO.len());
    if i < OWN.len() {
        &ts.slots[i]
    } else {
        &cx.ro[i - OWN.len()]
    }
}

pub fn tally<N: Coef>(cx: &Ctx<N>, c: &Counts) {
    let mut st = cx.stats.lock().unwrap();
    st.lib_calls += 1;
    st.steps += c.steps;
    st.allocs += c.allocs;
    st.checked += 1;
}

// ------------------------------------------------------------------ observers (C08)

const OBS: [&str; 11] = [
    "degree",
    "is_zero",
    "term_with_degree",
    "terms_as_vec",
    "ordered_term_iter",
    "eval",
    "Display",
    "derivative",
    "integral",
    "== another polynomial",
    "Display as integral",
];

struct Seen {
    k: Vec<i128>,
    s: String,
}

fn observer<N: Coef>(which: usize, v: &Val<N>, probes: &[usize], pts: &[N], other: &Val<N>) -> Option<Seen> {
    use rustnomial::*;
    let mut k: Vec<i128> = vec![];
    let mut s = String::new();
    let deg = |d: Degree| match d {
        Degree::NegInf => -1,
        Degree::Num(n) => n as i128,
    };
    let push_den = |k: &mut Vec<i128>, v: &Val<N>| {
        outside(|| {
            for (d, c) in v.den() {
                k.push(d as i128);
                k.push(c);
            }
        })
    };
    match which {
        0 => k.push(deg(each!(v, p => p.degree()))),
        1 => k.push(each!(v, p => p.is_zero()) as i128),
        2 => {
            for &d in probes {
                match each!(v, p => p.term_with_degree(d)) {
                    Term::ZeroTerm => k.push(-1),
                    Term::Term(c, e) => {
                        k.push(e as i128);
                        k.push(c.key());
                    }
                }
            }
        }
        3 => {
            for (c, d) in each!(v, p => p.terms_as_vec()) {
                k.push(c.key());
                k.push(d as i128);
            }
        }
        4 => each!(v, p => {
            for (c, d) in p.ordered_term_iter() {
                k.push(c.key());
                k.push(d as i128);
            }
        }),
        5 => {
            let x = pts[0];
            let y = match v {
                Val::D(p) => p.eval(x),
                Val::B(p) => p.eval(x),
                Val::Q(p) => p.eval(x),
                v => N::eval(v, x)?,
            };
            k.push(y.key());
        }
        6 => {
            N::write_text(v, false, 0, &mut s)?.ok();
        }
        7 => push_den(&mut k, &N::derivative(v)?),
        8 => {
            let i = N::integral(v, pts[0], pts[1], pts[2])?;
            push_den(&mut k, &i.inner);
            k.push(i128::MAX);
            push_den(&mut k, &i.with_c);
            k.push(i.area.key());
        }
        9 => {
            let e = match (v, other) {
                (Val::D(x), Val::D(y)) => (x == y, y == x),
                (Val::S(x), Val::S(y)) => (x == y, y == x),
                (Val::M(x), Val::M(y)) => (x == y, y == x),
                (Val::B(x), Val::B(y)) => (x == y, y == x),
                (Val::Q(x), Val::Q(y)) => (x == y, y == x),
                _ => return None,
            };
            k.push(e.0 as i128);
            k.push(e.1 as i128);
        }
        _ => {
            if !matches!(v, Val::D(_) | Val::S(_)) {
                return None;
            }
            N::write_text(v, true, 0, &mut s)?.ok();
        }
    }
    Some(Seen { k, s })
}

fn observe_op<N: Coef>(cx: &Ctx<N>, at: At, g: &Gene, ts: &mut TaskState<N>) {
    let slot = readable(cx, ts, g.a);
    let v = slot.v.clone();
    if v.den().values().any(|k| *k == -1 && cx.ring.is_float()) {
        return; // NaN coefficients equal nothing, not even themselves
    }
    let f = v.fresh();
    let mut probes: Vec<usize> = v.stored().iter().map(|e| e.0).collect();
    probes.truncate(40);
    probes.push(g.y.unsigned_abs() as usize);
    probes.push(0);
    let pts = [N::from_x(g.x), N::from_x(g.z), N::from_x(g.y)];
    // Another polynomial: the same one, and one that differs in one coefficient.
    let mut t: Vec<(N, usize)> = f.stored().into_iter().map(|(d, c)| (c, d)).collect();
    let same = f.clone();
    let changed = {
        let d = match v.kind() {
            Kind::B => g.y.unsigned_abs() as usize % 2,
            Kind::Q => g.y.unsigned_abs() as usize % 3,
            Kind::D => g.y.unsigned_abs() as usize % max_dense(),
            _ => g.y.unsigned_abs() as usize % MAX_DEG,
        };
        let keep = t.iter().find(|e| e.1 == d).copied();
        t.retain(|e| e.1 != d);
        let k = match keep {
            Some((k, _)) if !k.key_is_zero() => N::zero(),
            _ => N::one(),
        };
        if v.kind() == Kind::M {
            t.clear();
        }
        t.push((k, d));
        Val::build(v.kind(), &t)
    };
    let equal_other = changed.den() == v.den();
    // The same two with zero coefficients stored at other degrees.
    let dress = |o: &Val<N>| {
        let mut t: Vec<(N, usize)> = g.t.iter().map(|e| (N::zero(), e.1.unsigned_abs() as usize % if v.kind() == Kind::D { max_dense() } else { MAX_DEG })).collect();
        t.extend(o.stored().into_iter().filter(|(_, c)| !c.key_is_zero()).map(|(d, c)| (c, d)));
        if v.kind() == Kind::M && t.len() > g.t.len() {
            t.drain(..g.t.len());
        }
        Val::build(v.kind(), &t)
    };
    let (same_dressed, changed_dressed) = (dress(&same), dress(&changed));
    let show = |o: &Out<Option<Seen>>| match o {
        Out::Done(Some(s)) => format!("{:?} {:?}", s.k, s.s),
        Out::Done(None) => "-".into(),
        Out::Hit(k) => format!("interrupted {:?}", k),
        Out::Natural(m) => format!("panic '{}'", m),
    };
    let mut other_is = vec![(&same, true)];
    for (w, name) in OBS.iter().enumerate() {
        if w != 9 {
            other_is.truncate(1);
        } else {
            other_is.extend([(&changed, equal_other), (&same_dressed, true), (&changed_dressed, equal_other)]);
        }
        for (other, should) in &other_is {
            let arm = Arm { budget: 2_000_000, ..Arm::default() };
            let (x, c1) = lib(true, arm, None, || observer(w, &v, &probes, &pts, other));
            let (y, c2) = lib(false, arm, None, || observer(w, &f, &probes, &pts, other));
            tally(cx, &c1);
            tally(cx, &c2);
            let ok = match (&x, &y) {
                (Out::Done(Some(a)), Out::Done(Some(b))) => {
                    a.k == b.k && a.s == b.s && (w != 9 || a.k == vec![*should as i128; 2])
                }
                (Out::Done(None), Out::Done(None)) => true,
                (Out::Natural(_), Out::Natural(_)) => true,
                _ => false,
            };
            if !ok {
                cx.report(C08, at, || {
                    format!(
                        "{} of {} differs from that of a fresh equal value {}: {} / {}{}",
                        name,
                        v.show(),
                        f.show(),
                        show(&x),
                        show(&y),
                        if w == 9 { format!(" (compared with {}, equal: {})", other.show(), should) } else { String::new() }
                    )
                });
                return;
            }
        }
    }
    cx.log(|| format!("task {} op {}: Observe {}", at.task, at.op, v.show()));
}

// ------------------------------------------------------------------ term streams (C04)

fn item_terms<N: Coef>(g: &Gene, k: Kind, mode: u8) -> Vec<(N, usize)> {
    g.t.iter()
        .map(|&(c, d)| {
            let u = d.unsigned_abs() as usize;
            let d = match k {
                Kind::D => u % 48,
                // negative numbers stand for the degrees from 2^63 up
                Kind::B | Kind::Q | Kind::M if mode != 2 => d as usize,
                _ => u % MAX_DEG,
            };
            (N::from_x(c), d)
        })
        .collect()
}

fn same(a: &(impl Coef, usize), c: impl Coef, d: usize) -> bool {
    a.0.key() == c.key() && a.1 == d
}

fn stream_op<N: Coef>(cx: &Ctx<N>, at: At, g: &Gene, ts: &mut TaskState<N>) {
    if !N::REACHABLE {
        return;
    }
    let mode = (g.y.unsigned_abs() % 3) as u8;
    let rec = g.flags & ALT != 0;
    let ai = g.a as usize % OWN.len();
    let kind = OWN[ai];
    // Multiplicands for mul_poly_vec.
    let lhs: Vec<(N, usize)> = {
        let b = readable(cx, ts, g.b);
        let mut l: Vec<(N, usize)> = b.v.stored().into_iter().map(|(d, c)| (c, d)).filter(|e| !e.0.key_is_zero()).collect();
        l.truncate(4);
        for e in l.iter_mut() {
            e.1 %= 40;
        }
        // Any list of terms will do: repeated, vanishing, unordered ones too.
        if g.c & 1 != 0 {
            l.extend(l.first().copied());
        }
        if g.c & 2 != 0 && (rec || kind == Kind::D) {
            l.push((N::zero(), 3));
        }
        if g.c & 4 != 0 {
            l.reverse();
        }
        l
    };
    let mut items: Vec<(N, usize)> = item_terms(g, kind, mode);
    if rec && mode == 2 && g.y / 3 % 4 == 3 {
        // degrees up to where the product has none
        for e in items.iter_mut().filter(|e| e.1 % 2 == 0) {
            e.1 = usize::MAX - e.1 % 48;
        }
    }
    if !rec {
        // Zero terms of a degree the sink cannot hold may be taken or rejected (see C03): leave them
        // to the recording sink.
        if matches!(kind, Kind::M | Kind::B | Kind::Q) {
            items.retain(|e| !e.0.key_is_zero());
        }
        items.truncate(120);
    }
    let n = items.len() as u64;
    let stream_panic = if g.fault == Fault::StreamPanic { 1 + g.at as u64 % (n + 1) } else { 0 };
    let end_at = if g.fault == Fault::StreamEnd { 1 + g.at as u64 % (n + 1) } else { 0 };
    let name = ["add_poly", "sub_poly", "mul_poly_vec"][mode as usize];
    let show_items = || {
        items.iter().map(|(c, d)| format!("{:?}@{}", c, d)).collect::<Vec<_>>().join(" ")
    };
    if rec {
        if mode == 2 && crate::ops::product_overflow(&items, &lhs) {
            return;
        }
        let calls = if mode == 2 { n * lhs.len() as u64 } else { n };
        let mk = || RecSink::<N> {
            log: Vec::with_capacity(64),
            calls: 0,
            reject_at: if g.fault == Fault::SinkErr && calls > 0 { 1 + g.at as u64 % calls } else { 0 },
            reject_with: [TryAddError::DegreeOutOfBounds, TryAddError::TooManyTerms, TryAddError::CanNotNegate]
                [g.z.unsigned_abs() as usize % 3],
            sticky: g.flags & TRANSIENT == 0,
            panic_at: if g.fault == Fault::SinkPanic && calls > 0 { 1 + g.at as u64 % calls } else { 0 },
            rejected: false,
            calls_after_rejection: 0,
        };
        let mut arm = Arm { budget: 200_000, ..Arm::default() };
        if g.fault == Fault::Coef {
            let mut s0 = SimStream::new(items.clone(), 0, 0, g.c >> 3);
            let mut k0 = mk();
            let (_, cnt) = lib(false, arm, None, || N::stream_rec(mode, &mut s0, &lhs, &mut k0));
            if cnt.arith > 0 {
                arm.panic_at = 1 + g.at as u64 % cnt.arith;
            }
        }
        let mut st = SimStream::new(items.clone(), stream_panic, end_at, g.c >> 3);
        let mut sink = mk();
        let (out, cnt) = lib(true, arm, reenter_fn::<N>(), || N::stream_rec(mode, &mut st, &lhs, &mut sink));
        tally(cx, &cnt);
        count_stream_fault(cx, &out, &st, sink.rejected);
        cx.log(|| {
            format!(
                "task {} op {}: {} of [{}] x [{}] into a recording sink (reject at call {}, sink panic at call {}, stream panic at poll {}, early end at poll {}) -> {}; sink was offered {:?}",
                at.task, at.op, name, show_items(),
                lhs.iter().map(|(c, d)| format!("{:?}@{}", c, d)).collect::<Vec<_>>().join(" "),
                sink.reject_at, sink.panic_at, stream_panic, end_at, show_out(&out), sink.log
            )
        });
        let bad = |m: &str| {
            cx.report(C04, at, || {
                format!(
                    "{} of [{}] x [{}]: {} (offered {:?}, {} polls, outcome {})",
                    name, show_items(),
                    lhs.iter().map(|(c, d)| format!("{:?}@{}", c, d)).collect::<Vec<_>>().join(" "),
                    m, sink.log, st.polls, show_out(&out)
                )
            })
        };
        if sink.calls_after_rejection > 0 {
            return bad("the sink was called again after it rejected a term");
        }
        if st.polls_after_end > 0 {
            return bad("the stream was read again after it ended");
        }
        let delivered = &items[..st.pos];
        // What had to be offered, in stream order.
        // A product whose degree no usize holds has to be refused (one that vanishes may be).
        let (mut may_refuse, mut refused) = (false, None);
        let group: Vec<Vec<(N, usize)>> = delivered
            .iter()
            .enumerate()
            .map(|(gi, &(c, d))| {
                if mode == 2 {
                    let mut v = vec![];
                    for &(k, e) in &lhs {
                        match d.checked_add(e) {
                            Some(d) => v.push((c * k, d)),
                            None => {
                                may_refuse = true;
                                if refused.is_none() && !(c * k).key_is_zero() {
                                    refused = Some(gi);
                                }
                            }
                        }
                    }
                    v
                } else {
                    vec![(c, d)]
                }
            })
            .collect();
        let mut log = sink.log.iter().peekable();
        let mut complete = true;
        for (gi, gr) in group.iter().enumerate() {
            let mut left: Vec<(N, usize)> = gr.clone();
            while let Some(&&(k, d, sub)) = log.peek() {
                if sub != (mode == 1) {
                    return bad("a term was added instead of subtracted, or the other way round");
                }
                match left.iter().position(|e| same(e, k, d)) {
                    Some(p) => {
                        left.remove(p);
                        log.next();
                    }
                    None => break,
                }
            }
            left.retain(|e| !e.0.key_is_zero());
            if !left.is_empty() {
                complete = false;
                if gi + 1 < group.len() {
                    return bad("a delivered term was skipped or reordered");
                }
            }
        }
        if log.next().is_some() {
            return bad("a term was offered that the stream did not deliver");
        }
        if let Some(gi) = refused {
            if gi + 1 < group.len() || matches!(out, Out::Done(Some(Ok(())))) {
                return bad("went on past a product with a degree which no usize holds");
            }
        }
        match &out {
            Out::Done(Some(Ok(()))) => {
                if sink.rejected {
                    return bad("the sink's rejection was not returned");
                }
                if !complete {
                    return bad("success although delivered terms were not applied");
                }
                if !st.ended {
                    return bad("success although the stream had not ended");
                }
            }
            Out::Done(Some(Err(e))) => {
                if !sink.rejected && may_refuse {
                    return;
                }
                if !sink.rejected {
                    return bad("an error was returned although the sink rejected nothing");
                }
                if *e != sink.reject_with {
                    return bad("the sink's rejection was changed");
                }
            }
            Out::Done(None) => {}
            Out::Hit(SimPanic::Stream) => {
                if !complete {
                    return bad("the stream was read ahead of applying what it had delivered");
                }
            }
            Out::Hit(SimPanic::Budget) => return bad("does not finish"),
            Out::Hit(_) => {}
            Out::Natural(_) if may_refuse => {}
            Out::Natural(m) => return bad(&format!("panicked '{}'", m)),
        }
        return;
    }
    // A real polynomial as sink.
    let ring = cx.ring;
    let slot = &mut ts.slots[ai];
    let Some(m0) = slot.m.clone() else { return };
    if items.iter().chain(lhs.iter()).any(|e| e.0.to_m().is_none()) {
        return; // not modelled exactly
    }
    let products: Vec<Vec<(N, usize)>> = items
        .iter()
        .map(|&(c, d)| {
            if mode == 2 {
                lhs.iter()
                    .map(|&(k, e)| {
                        let v = ring.mul(c.to_m().unwrap_or(0), k.to_m().unwrap_or(0)).and_then(N::from_m);
                        (v.unwrap_or(N::zero()), d + e)
                    })
                    .collect()
            } else {
                vec![(c, d)]
            }
        })
        .collect();
    let total: usize = products.iter().map(|p| p.len()).sum();
    if kind == Kind::S && slot.v.len() + total > max_map() {
        return;
    }
    if kind != Kind::D && products.iter().flatten().any(|e| e.0.key_is_zero()) {
        return; // products that vanish: see above
    }
    let bound = products
        .iter()
        .flatten()
        .fold(m0.max_abs(), |s, e| s.saturating_add(e.0.to_m().unwrap_or(0).unsigned_abs()));
    if mode == 2 && !ring.fits(items.iter().map(|e| e.0.to_m().unwrap_or(0).unsigned_abs()).max().unwrap_or(0).saturating_mul(lhs.iter().map(|e| e.0.to_m().unwrap_or(0).unsigned_abs()).max().unwrap_or(0))) {
        return;
    }
    let fits = ring.fits(bound);
    if !fits && ring.is_float() {
        return;
    }
    let step = |m: &Model, e: &(N, usize)| -> Result<Model, TryAddError> {
        if let Some(r) = rejection(kind, m, e.1) {
            return Err(r);
        }
        let t = Model::term(ring, e.0.to_m().unwrap(), e.1);
        Ok(if mode == 1 { m.sub(ring, &t).unwrap() } else { m.add(ring, &t).unwrap() })
    };
    let mut arm = Arm { budget: 400_000, ..Arm::default() };
    // a map that needs more than one node is not safe to refuse memory to (see `oom_safe`)
    let oom = g.fault == Fault::Oom && (kind != Kind::S || slot.v.len() + total <= 10);
    if g.fault == Fault::Coef || oom {
        let mut s0 = SimStream::new(items.clone(), 0, 0, g.c >> 3);
        let mut v0 = slot.v.clone();
        let (o0, cnt) = lib(false, arm, None, || N::stream(mode, &mut s0, &lhs, &mut v0));
        if oom && cnt.allocs > 0 && matches!(o0, Out::Done(_)) {
            arm.oom_at = 1 + g.at as u64 % cnt.allocs;
        } else if cnt.arith > 0 && !oom {
            arm.panic_at = 1 + g.at as u64 % cnt.arith;
        }
    }
    let before = slot.v.clone();
    let mut st = SimStream::new(items.clone(), stream_panic, end_at, g.c >> 3);
    let (out, cnt) = lib(true, arm, reenter_fn::<N>(), || N::stream(mode, &mut st, &lhs, &mut slot.v));
    tally(cx, &cnt);
    count_stream_fault(cx, &out, &st, matches!(out, Out::Done(Some(Err(_)))));
    cx.log(|| {
        format!(
            "task {} op {}: {} of [{}] x [{}] into {} (stream panic at poll {}, early end at poll {}, coefficient panic at {}, refused allocation {}) -> {}; sink now {}",
            at.task, at.op, name, show_items(),
            lhs.iter().map(|(c, d)| format!("{:?}@{}", c, d)).collect::<Vec<_>>().join(" "),
            before.show(), stream_panic, end_at, arm.panic_at, arm.oom_at, show_out(&out), slot.v.show()
        )
    });
    let now = slot.v.clone();
    if cnt.oom_fired {
        cx.count_fault("allocation-failure");
    }
    let bad = |m: &str| {
        cx.report(if cnt.oom_fired { C04 | C09 } else { C04 }, at, || {
            format!(
                "{} of [{}] x [{}] into {}: {} ({} polls, outcome {}, sink now {})",
                name, show_items(),
                lhs.iter().map(|(c, d)| format!("{:?}@{}", c, d)).collect::<Vec<_>>().join(" "),
                before.show(), m, st.polls, show_out(&out), now.show()
            )
        })
    };
    // Expected effect of everything delivered, or up to the first rejection.
    let mut m = m0.clone();
    let mut before_last = m0.clone();
    let mut rejected: Option<(usize, TryAddError)> = None;
    'outer: for (i, gr) in products[..st.pos].iter().enumerate() {
        before_last = m.clone();
        for e in gr {
            match step(&m, e) {
                Ok(x) => m = x,
                Err(r) => {
                    rejected = Some((i, r));
                    break 'outer;
                }
            }
        }
    }
    if st.polls_after_end > 0 {
        bad("the stream was read again after it ended");
    } else {
        match &out {
            Out::Done(Some(Ok(()))) => {
                if rejected.is_some() {
                    bad("success although the sink cannot hold a delivered term");
                } else if !st.ended {
                    bad("success although the stream had not ended");
                } else if !den_is(&now, &m) {
                    bad(&format!("the sink should hold {}", show_model(&m)));
                }
            }
            Out::Done(Some(Err(e))) => match &rejected {
                None => bad("an error although the sink can hold every delivered term"),
                Some((i, r)) => {
                    if r != e {
                        bad(&format!("wrong error, the sink rejects with {:?}", r));
                    } else if *i + 1 != st.pos {
                        bad("the stream was read after the rejection");
                    } else if !den_is(&now, &m) && !(mode == 2 && subset_ok(&before_last, &products[*i], &now, &step)) {
                        bad(&format!("the sink should hold the terms before the rejection: {}", show_model(&m)));
                    }
                }
            },
            Out::Done(None) => {}
            Out::Hit(SimPanic::Stream) => {
                if rejected.is_some() {
                    bad("the stream was read after a rejection");
                } else if !den_is(&now, &m) {
                    bad(&format!("the sink should hold what was delivered before the panic: {}", show_model(&m)));
                }
            }
            Out::Hit(SimPanic::Budget) => bad("does not finish"),
            Out::Hit(_) | Out::Natural(_) => {
                let natural = matches!(&out, Out::Natural(_));
                if natural && fits {
                    bad("panicked although nothing can overflow");
                } else if st.pos == 0 {
                    if !den_is(&now, &m0) {
                        bad("the sink changed before anything was delivered");
                    }
                } else {
                    // The term in progress is applied or not, everything before it is applied.
                    let base = {
                        let mut b = m0.clone();
                        let mut ok = true;
                        for e in products[..st.pos - 1].iter().flatten() {
                            match step(&b, e) {
                                Ok(x) => b = x,
                                Err(_) => ok = false,
                            }
                        }
                        ok.then_some(b)
                    };
                    match base {
                        None => bad("the stream was read after a rejection"),
                        Some(b) => {
                            if !subset_ok(&b, &products[st.pos - 1], &now, &step) {
                                bad(&format!("interrupted; the sink should hold {} plus at most the term in progress", show_model(&b)));
                            }
                        }
                    }
                }
            }
        }
    }
    if take_reenter_bad() {
        cx.report(C06, at, || "nested library call from a stream or coefficient went wrong".into());
    }
    slot.m = observe(&slot.v);
}

/// Whether `now` is `base` plus some subset of the products in progress.
fn subset_ok<N: Coef>(base: &Model, gr: &[(N, usize)], now: &Val<N>, step: &dyn Fn(&Model, &(N, usize)) -> Result<Model, TryAddError>) -> bool {
    (0..1u32 << gr.len().min(6)).any(|mask| {
        let mut m = base.clone();
        for (i, e) in gr.iter().enumerate() {
            if mask >> i & 1 == 1 {
                match step(&m, e) {
                    Ok(x) => m = x,
                    Err(_) => return false,
                }
            }
        }
        den_is(now, &m)
    })
}

fn count_stream_fault<N: Coef>(cx: &Ctx<N>, out: &Out<Option<Result<(), TryAddError>>>, st: &SimStream<N>, rejected: bool) {
    if rejected {
        cx.count_fault("sink-rejection");
    }
    match out {
        Out::Hit(SimPanic::Stream) => cx.count_fault("stream-panic"),
        Out::Hit(SimPanic::Sink) => cx.count_fault("sink-panic"),
        Out::Hit(SimPanic::Coef) => cx.count_fault("coefficient-panic"),
        Out::Natural(_) => cx.count_fault("natural-panic"),
        _ => {}
    }
    if st.end_at != 0 && st.ended && st.pos < st.items.len() {
        cx.count_fault("stream-early-end");
    }
}

fn show_out(o: &Out<Option<Result<(), TryAddError>>>) -> String {
    match o {
        Out::Done(Some(r)) => format!("{:?}", r),
        Out::Done(None) => "-".into(),
        Out::Hit(k) => format!("interrupted ({:?})", k),
        Out::Natural(m) => format!("panicked '{}'", m),
    }
}

fn macro_op<N: Coef>(cx: &Ctx<N>, at: At, g: &Gene, ts: &mut TaskState<N>) {
    if !N::REACHABLE {
        return;
    }
    let (b, c) = (readable(cx, ts, g.b), readable(cx, ts, g.c));
    let (bv, cv) = (b.v.clone(), c.v.clone());
    let (Some(bm), Some(cm)) = (b.m.clone(), c.m.clone()) else { return };
    let sub = g.y & 1 == 1;
    let n = [2, 1, 3, 2][(g.y >> 1 & 3) as usize];
    let ring = cx.ring;
    let ai = g.a as usize % OWN.len();
    let slot = &mut ts.slots[ai];
    let Some(m0) = slot.m.clone() else { return };
    let kind = OWN[ai];
    if kind == Kind::D && (bm.deg().unwrap_or(0) >= max_dense() || cm.deg().unwrap_or(0) >= max_dense()) {
        return;
    }
    if kind == Kind::S && slot.v.len() + bm.0.len() + cm.0.len() > max_map() {
        return;
    }
    if !ring.fits(m0.max_abs().saturating_add(bm.max_abs()).saturating_add(bm.max_abs()).saturating_add(cm.max_abs())) {
        return;
    }
    // Up to the first rejection, in operand order.
    let mut m = m0;
    let mut first = None;
    'o: for src in &[&bm, &cm, &bm][..n] {
        for (&d, &k) in src.0.iter().rev() {
            if let Some(r) = rejection(kind, &m, d) {
                first = Some(r);
                break 'o;
            }
            let t = Model::term(ring, k, d);
            m = if sub { m.sub(ring, &t) } else { m.add(ring, &t) }.unwrap();
        }
    }
    let before = slot.v.clone();
    let (out, cnt) = lib(true, Arm { budget: 400_000, ..Arm::default() }, None, || N::macro_sum(&mut slot.v, &bv, &cv, n as u8, sub));
    tally(cx, &cnt);
    let name = if sub { "poly_sub!" } else { "poly_add!" };
    let desc = || format!("{}({}; {}) -> {}", name, before.show(), [bv.show(), cv.show(), bv.show()][..n].join(", "), show_out(&out));
    cx.log(|| format!("task {} op {}: {}", at.task, at.op, desc()));
    if matches!(out, Out::Done(Some(Err(_)))) {
        cx.count_fault("sink-rejection");
    }
    match (&out, first) {
        (Out::Done(Some(Ok(()))), None) => {
            if !den_is(&slot.v, &m) {
                cx.report(C04, at, || format!("{}: the sink should hold {}, holds {}", desc(), show_model(&m), slot.v.show()));
            }
        }
        (Out::Done(Some(Err(e))), Some(r)) if *e == r => {
            if !den_is(&slot.v, &m) {
                cx.report(C04, at, || {
                    format!("{}: at the rejection the sink should hold {}, afterwards it holds {}", desc(), show_model(&m), slot.v.show())
                });
            }
        }
        (Out::Done(None), _) => {}
        _ => cx.report(C04, at, || format!("{}: should be {:?}", desc(), first)),
    }
    slot.m = observe(&slot.v);
}

// ------------------------------------------------------------------ formatting (C05)

/// The text the documentation promises, built without library code.
pub fn ref_text<N: Coef>(terms: &[(N, usize)]) -> String {
    let mut o = String::new();
    for (i, (c, d)) in terms.iter().enumerate() {
        let t = format!("{}", c);
        let (neg, mag) = match t.strip_prefix('-') {
            Some(r) => (true, r.to_string()),
            None => (false, t),
        };
        if i > 0 {
            o += if neg { " - " } else { " + " };
        } else if neg {
            o += "-";
        }
        if *d == 0 || mag != "1" {
            o += &mag;
        }
        match d {
            0 => {}
            1 => o += "x",
            d => o += &format!("x^{}", d),
        }
    }
    if terms.is_empty() {
        o += "0";
    }
    o
}

/// Sink fault for a text of `len` bytes written in `calls` calls.
pub fn sink_fault(g: &Gene, calls: u64, len: u64) -> SinkFault {
    let calls = calls.max(1);
    match g.fault {
        Fault::SinkErr => SinkFault::Call(1 + g.at as u64 % calls),
        Fault::SinkTorn => SinkFault::Byte(g.at as u64 % len.max(1)),
        Fault::SinkPanic => SinkFault::Panic(1 + g.at as u64 % calls),
        _ => SinkFault::None,
    }
}

pub struct Wrote<'a> {
    pub sink: &'a TextSink,
    pub out: &'a Out<Option<std::fmt::Result>>,
    pub coef_failed: bool,
}

/// The formatting oracle: error iff something failed, prefix, nothing after the failure.
pub fn judge_text(w: &Wrote, full: &str) -> Option<String> {
    if !full.starts_with(&w.sink.got) {
        return Some(format!("the sink accepted {:?}, which is no prefix of {:?}", w.sink.got, full));
    }
    if w.sink.calls_after_failure > 0 {
        return Some("the sink was written to again after a failed write".into());
    }
    match w.out {
        Out::Done(Some(Ok(()))) => {
            if w.sink.failed {
                return Some("success was reported although a write failed".into());
            }
            if w.coef_failed {
                return Some("success was reported although formatting a coefficient failed".into());
            }
            if w.sink.got != full {
                return Some(format!("success, but only {:?} of {:?} was written", w.sink.got, full));
            }
            None
        }
        Out::Done(Some(Err(_))) => {
            if !w.sink.failed && !w.coef_failed {
                return Some("an error was reported although nothing failed".into());
            }
            None
        }
        Out::Done(None) => None,
        Out::Hit(SimPanic::Budget) => Some("does not finish".into()),
        Out::Hit(_) => None,
        Out::Natural(m) => Some(format!("panicked '{}'", m)),
    }
}

pub fn count_text_fault<N: Coef>(cx: &Ctx<N>, w: &Wrote) {
    if w.sink.failed {
        cx.count_fault(match w.sink.fault {
            SinkFault::Call(_) => "text-sink-error",
            SinkFault::Byte(_) => "text-sink-torn-write",
            _ => "text-sink-panic",
        });
    }
    if w.coef_failed {
        cx.count_fault("coefficient-format-failure");
    }
    if let Out::Hit(SimPanic::Coef) = w.out {
        cx.count_fault("coefficient-panic");
    }
}

/// The format specification; the order in which a hash map shows its entries is left alone.
pub fn pick_spec(g: &Gene, k: Kind) -> u8 {
    if k == Kind::S {
        g.c % 6
    } else {
        g.c % 8
    }
}

fn fmt_op<N: Coef>(cx: &Ctx<N>, at: At, g: &Gene, ts: &mut TaskState<N>) {
    if !N::REACHABLE {
        return;
    }
    let slot = readable(cx, ts, g.a);
    let v = &slot.v;
    let raw = v.raw();
    let integral = g.flags & ALT != 0 && matches!(v.kind(), Kind::D | Kind::S);
    let mut terms: Vec<(N, usize)> = v
        .stored()
        .into_iter()
        .filter(|e| !e.1.key_is_zero())
        .map(|(d, c)| (c, d))
        .collect();
    terms.sort_by(|a, b| b.1.cmp(&a.1));
    let mut full = ref_text(&terms);
    if integral {
        full = if terms.is_empty() { "C".into() } else { format!("{} + C", full) };
    }
    let spec = pick_spec(g, v.kind());
    let mut arm = Arm { budget: 200_000, ..Arm::default() };
    let mut dry_sink = TextSink::new(SinkFault::None, false);
    let (dry, cnt) = lib(false, arm, None, || N::write_text(v, integral, spec, &mut dry_sink));
    tally(cx, &cnt);
    #[allow(clippy::eq_op)]
    if spec != 0 || terms.iter().any(|t| t.0 != t.0) {
        // Which sign is shown for NaN, and what the flags do, is nobody's promise.
        full = dry_sink.got.clone();
    }
    let w = Wrote { sink: &dry_sink, out: &dry, coef_failed: false };
    if let Some(m) = judge_text(&w, &full) {
        cx.report(C05, at, || format!("formatting {}{} with {}: {}", v.show(), if integral { " as an integral" } else { "" }, SPECS[spec as usize], m));
        return;
    }
    let sf = sink_fault(g, dry_sink.calls, full.len() as u64);
    match g.fault {
        Fault::CoefFmt if cnt.fmt > 0 => arm.fmt_fail_at = 1 + g.at as u64 % cnt.fmt,
        Fault::Coef if cnt.arith > 0 => arm.panic_at = 1 + g.at as u64 % cnt.arith,
        Fault::Reenter if cnt.steps > 0 => arm.reenter_at = 1 + g.at as u64 % cnt.steps,
        _ => {}
    }
    let mut sink = TextSink::new(sf, g.flags & TRANSIENT != 0);
    let (out, lc) = lib(true, arm, reenter_fn::<N>(), || N::write_text(v, integral, spec, &mut sink));
    tally(cx, &lc);
    cx.reached(sink.got.as_bytes(), 5 + matches!(out, Out::Done(Some(Ok(())))) as u64);
    let w = Wrote { sink: &sink, out: &out, coef_failed: lc.fmt_fired };
    count_text_fault(cx, &w);
    let o = match &out {
        Out::Done(Some(r)) => format!("{:?}", r),
        Out::Done(None) => "-".into(),
        Out::Hit(k) => format!("interrupted ({:?})", k),
        Out::Natural(m) => format!("panicked '{}'", m),
    };
    cx.log(|| format!("task {} op {}: Fmt {} with {} sink {:?}{} coefficient format failure at {} -> {}, accepted {:?}", at.task, at.op, v.show(), SPECS[spec as usize], sf, if sink.transient { " (transient)" } else { "" }, arm.fmt_fail_at, o, sink.got));
    if let Some(m) = judge_text(&w, &full) {
        cx.report(C05, at, || {
            format!(
                "formatting {}{} with {} into a sink with {:?}{}, coefficient format failure at {}: {} (reported {}, accepted {:?})",
                v.show(),
                if integral { " as an integral" } else { "" },
                SPECS[spec as usize],
                sf,
                if sink.transient { " (transient)" } else { "" },
                arm.fmt_fail_at,
                m,
                o,
                sink.got
            )
        });
    }
    if v.raw() != raw {
        cx.report(C06, at, || "formatting changed the polynomial".into());
    }
    take_reenter_bad();
}

fn fmt_err_op<N: Coef>(cx: &Ctx<N>, at: At, g: &Gene) {
    use rustnomial::err::TermFromStringError as E;
    use std::fmt::Write;
    let ch = char::from_u32(g.x.unsigned_abs() as u32 % 0x3000 + 33).unwrap_or('?');
    let all = [
        E::MoreThanOneX,
        E::CoeffCouldNotBeParsed,
        E::UnexpectedChar(ch),
        E::CaretWithoutXInFront,
        E::CaretWithoutDegree,
        E::MultipleCarets,
        E::DegreeCouldNotBeParsed,
    ];
    let e = all[g.y.unsigned_abs() as usize % all.len()];
    let spec = g.c % 8;
    let mut dry = TextSink::new(SinkFault::None, false);
    let (o1, c1) = lib(false, Arm::default(), None, || Some(put(&mut dry, spec, &e)));
    tally(cx, &c1);
    let full = dry.got.clone();
    let w = Wrote { sink: &dry, out: &o1, coef_failed: false };
    let mut bad = judge_text(&w, &full);
    if full.is_empty() {
        bad = Some("empty text".into());
    }
    let mut sink = TextSink::new(sink_fault(g, dry.calls, full.len() as u64), g.flags & TRANSIENT != 0);
    let (out, c2) = lib(true, Arm::default(), None, || Some(put(&mut sink, spec, &e)));
    tally(cx, &c2);
    let w = Wrote { sink: &sink, out: &out, coef_failed: false };
    count_text_fault(cx, &w);
    if let Some(m) = bad.or_else(|| judge_text(&w, &full)) {
        cx.report(C05, at, || format!("formatting the error {:?} with {} into a sink with {:?}: {}", e, SPECS[spec as usize], sink.fault, m));
    }
}
