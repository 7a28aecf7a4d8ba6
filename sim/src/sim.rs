//! Execution context of simulated tasks: event counting, fault injection, baton scheduler.
use crate::alloc::{ALLOCS, IN_LIB, OOM_AT, OOM_FIRED};
use std::any::Any;
use std::cell::{Cell, UnsafeCell};
use std::panic::{catch_unwind, panic_any, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering};
use std::sync::Mutex;
use std::thread::Thread;

/// Panic payloads raised by the simulator itself.
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum SimPanic {
    Coef,
    Oom,
    Budget,
    Sink,
    Stream,
}

thread_local! {
    static LIVE: Cell<bool> = const { Cell::new(false) };
    static STEPS: Cell<u64> = const { Cell::new(0) };
    static BUDGET: Cell<u64> = const { Cell::new(u64::MAX) };
    static ARITH: Cell<u64> = const { Cell::new(0) };
    static PANIC_AT: Cell<u64> = const { Cell::new(0) };
    static PANIC_FIRED: Cell<bool> = const { Cell::new(false) };
    static REENTER_AT: Cell<u64> = const { Cell::new(0) };
    static REENTER_FN: Cell<Option<fn()>> = const { Cell::new(None) };
    static REENTERED: Cell<u64> = const { Cell::new(0) };
    static FMT_CALLS: Cell<u64> = const { Cell::new(0) };
    static FMT_FAIL_AT: Cell<u64> = const { Cell::new(0) };
    static FMT_FIRED: Cell<bool> = const { Cell::new(false) };
    static TASK: Cell<usize> = const { Cell::new(usize::MAX) };
    static STATUS_WORD: Cell<u64> = const { Cell::new(0) };
}

static STATUS: AtomicU64 = AtomicU64::new(0);
/// Where workers publish what the running task is doing (shared with the parent process).
pub static SHARED_STATUS: std::sync::OnceLock<&'static AtomicU64> = std::sync::OnceLock::new();

fn publish(w: u64) {
    SHARED_STATUS.get().copied().unwrap_or(&STATUS).store(w, Ordering::Relaxed);
}

/// Names the operation this task is in: published now and whenever the task is resumed.
pub fn set_status(w: u64) {
    STATUS_WORD.set(w);
    publish(w);
}

/// One event of the simulated coefficient type. `arith`: an operation that user code may panic in.
#[inline]
pub fn coef_event(arith: bool) {
    if !IN_LIB.get() {
        return;
    }
    let s = STEPS.get() + 1;
    STEPS.set(s);
    if s > BUDGET.get() {
        IN_LIB.set(false);
        panic_any(SimPanic::Budget);
    }
    if arith {
        let a = ARITH.get() + 1;
        ARITH.set(a);
        if a == PANIC_AT.get() {
            PANIC_AT.set(0);
            PANIC_FIRED.set(true);
            IN_LIB.set(false);
            panic_any(SimPanic::Coef);
        }
    }
    if LIVE.get() {
        if s == REENTER_AT.get() {
            reenter();
        }
        yield_point();
    }
}

#[cold]
fn reenter() {
    REENTER_AT.set(0);
    if let Some(f) = REENTER_FN.get() {
        // The nested library call is part of user code: its events are not counted or faulted.
        let allocs = ALLOCS.get();
        let oom = OOM_AT.replace(0);
        IN_LIB.set(false);
        f();
        IN_LIB.set(true);
        OOM_AT.set(oom);
        ALLOCS.set(allocs);
        REENTERED.set(REENTERED.get() + 1);
    }
}

/// Called by the simulated coefficient type when it is formatted; true = the formatting fails.
pub fn coef_fmt_event() -> bool {
    if !IN_LIB.get() {
        return false;
    }
    let n = FMT_CALLS.get() + 1;
    FMT_CALLS.set(n);
    if n == FMT_FAIL_AT.get() {
        FMT_FIRED.set(true);
        return true;
    }
    false
}

/// A point at which a caller-supplied party (sink, stream) runs inside a library call.
pub fn party_event() {
    if IN_LIB.get() && LIVE.get() {
        let s = STEPS.get() + 1;
        STEPS.set(s);
        if s == REENTER_AT.get() {
            reenter();
        }
        yield_point();
    }
}

/// An allocation inside a library call: other callers may run here too.
#[inline]
pub fn alloc_event() {
    if LIVE.get() && !std::thread::panicking() {
        yield_point();
    }
}

#[derive(Clone, Copy, Debug, Default, PartialEq, Eq)]
pub struct Arm {
    pub panic_at: u64,
    pub oom_at: u64,
    pub reenter_at: u64,
    pub fmt_fail_at: u64,
    pub budget: u64,
}

#[derive(Clone, Copy, Debug, Default)]
pub struct Counts {
    pub steps: u64,
    pub arith: u64,
    pub allocs: u64,
    pub fmt: u64,
    pub reentered: u64,
    pub fmt_fired: bool,
    /// An allocation was refused, or a coefficient operation panicked.
    pub oom_fired: bool,
    pub panic_fired: bool,
}

pub enum Out<R> {
    Done(R),
    /// Interrupted by an injected fault (or a simulated party's panic).
    Hit(SimPanic),
    /// Any other panic, with its message.
    Natural(String),
}

pub fn describe(p: &(dyn Any + Send)) -> String {
    if let Some(s) = p.downcast_ref::<&str>() {
        s.to_string()
    } else if let Some(s) = p.downcast_ref::<String>() {
        s.clone()
    } else {
        "non-string panic".into()
    }
}

/// Runs library code. `live`: scheduling and re-entrancy on (false for the dry counting run).
pub fn lib<R>(live: bool, arm: Arm, re: Option<fn()>, f: impl FnOnce() -> R) -> (Out<R>, Counts) {
    STEPS.set(0);
    ARITH.set(0);
    ALLOCS.set(0);
    FMT_CALLS.set(0);
    REENTERED.set(0);
    OOM_FIRED.set(false);
    PANIC_FIRED.set(false);
    FMT_FIRED.set(false);
    BUDGET.set(if arm.budget == 0 { u64::MAX } else { arm.budget });
    PANIC_AT.set(arm.panic_at);
    OOM_AT.set(arm.oom_at);
    FMT_FAIL_AT.set(arm.fmt_fail_at);
    REENTER_AT.set(arm.reenter_at);
    REENTER_FN.set(re);
    LIVE.set(live);
    IN_LIB.set(true);
    let r = catch_unwind(AssertUnwindSafe(f));
    IN_LIB.set(false);
    LIVE.set(false);
    OOM_AT.set(0);
    PANIC_AT.set(0);
    FMT_FAIL_AT.set(0);
    REENTER_AT.set(0);
    let c = Counts {
        steps: STEPS.get(),
        arith: ARITH.get(),
        allocs: ALLOCS.get(),
        fmt: FMT_CALLS.get(),
        reentered: REENTERED.get(),
        fmt_fired: FMT_FIRED.get(),
        oom_fired: OOM_FIRED.get(),
        panic_fired: PANIC_FIRED.get(),
    };
    let out = match r {
        Ok(v) => Out::Done(v),
        Err(p) => match p.downcast_ref::<SimPanic>() {
            Some(k) => Out::Hit(*k),
            None => {
                if OOM_FIRED.get() {
                    // e.g. a capacity-overflow style panic after a refused allocation
                    Out::Hit(SimPanic::Oom)
                } else {
                    Out::Natural(describe(&*p))
                }
            }
        },
    };
    (out, c)
}

/// Temporarily leave the library section (for harness code called back from library code).
pub fn outside<R>(f: impl FnOnce() -> R) -> R {
    let was = IN_LIB.replace(false);
    let r = f();
    IN_LIB.set(was);
    r
}

// ---------------------------------------------------------------------------------------------
// Baton scheduler: real threads, exactly one of which runs; who runs next is decided by the plan.

#[derive(Default)]
pub struct SchedState {
    pub step: u64,
    next_at: u64,
    pos: usize,
    /// (gap in steps, task) pairs.
    plan: Vec<(u32, u8)>,
    alive: Vec<bool>,
    pub switches: u64,
    pub hash: u64,
    pub trace: Option<Vec<(u64, usize, usize)>>,
}

pub struct Sched {
    cur: AtomicUsize,
    on: AtomicBool,
    threads: Mutex<Vec<Option<Thread>>>,
    st: UnsafeCell<SchedState>,
}

unsafe impl Sync for Sched {}

pub static SCHED: Sched = Sched {
    cur: AtomicUsize::new(usize::MAX),
    on: AtomicBool::new(false),
    threads: Mutex::new(Vec::new()),
    st: UnsafeCell::new(SchedState {
        step: 0,
        next_at: u64::MAX,
        pos: 0,
        plan: Vec::new(),
        alive: Vec::new(),
        switches: 0,
        hash: 0,
        trace: None,
    }),
};

/// Only the baton holder may call this.
#[allow(clippy::mut_from_ref)]
fn st() -> &'static mut SchedState {
    unsafe { &mut *SCHED.st.get() }
}

#[inline]
pub fn yield_point() {
    let me = TASK.get();
    if me == usize::MAX {
        return;
    }
    let s = st();
    s.step += 1;
    if s.step >= s.next_at {
        planned_switch(me);
    }
}

#[cold]
fn planned_switch(me: usize) {
    // Harness work: no counting of its (few) allocations.
    outside(|| {
        let s = st();
        let want = s.plan[s.pos].1 as usize;
        s.pos += 1;
        s.next_at = match s.plan.get(s.pos) {
            Some(e) => s.step + 1 + e.0 as u64,
            None => u64::MAX,
        };
        let n = s.alive.len();
        let mut t = want % n;
        while !s.alive[t] {
            t = (t + 1) % n;
        }
        if t != me {
            transfer(me, t, true);
        }
    })
}

fn transfer(me: usize, to: usize, wait: bool) {
    let s = st();
    s.switches += 1;
    s.hash = crate::rng::mix(s.hash ^ s.step, to as u64 + 1);
    if let Some(t) = s.trace.as_mut() {
        t.push((s.step, me, to));
    }
    let th = SCHED.threads.lock().unwrap()[to].clone();
    SCHED.cur.store(to, Ordering::SeqCst);
    if let Some(th) = th {
        th.unpark();
    }
    if wait {
        while SCHED.cur.load(Ordering::SeqCst) != me {
            std::thread::park();
        }
        publish(STATUS_WORD.get());
    }
}

/// The running task cannot proceed: let another one run.
pub fn blocked() {
    let me = TASK.get();
    let s = st();
    s.step += 1;
    let n = s.alive.len();
    let mut t = (me + 1) % n;
    while !s.alive[t] {
        t = (t + 1) % n;
    }
    if t != me {
        transfer(me, t, true);
    }
}

pub struct RunSched {
    pub steps: u64,
    pub switches: u64,
    pub hash: u64,
    pub trace: Vec<(u64, usize, usize)>,
}

/// Callers may be short of stack: a depth that grows with the operands does not fit.
const STACK: usize = 192 << 10;

/// Runs `n` tasks to completion under the given switch plan.
pub fn run_tasks<F: Fn(usize) + Sync>(n: usize, plan: &[(u32, u8)], trace: bool, small_stack: bool, body: F) -> RunSched {
    let s = st();
    *s = SchedState {
        step: 0,
        next_at: plan.first().map_or(u64::MAX, |e| 1 + e.0 as u64),
        pos: 0,
        plan: plan.to_vec(),
        alive: vec![true; n],
        switches: 0,
        hash: n as u64,
        trace: if trace { Some(vec![]) } else { None },
    };
    if n == 1 {
        s.next_at = u64::MAX;
        let alone = || {
            TASK.set(0);
            body(0);
            TASK.set(usize::MAX);
        };
        if small_stack {
            let ok = std::thread::scope(|sc| {
                let h = std::thread::Builder::new().stack_size(STACK).spawn_scoped(sc, alone).expect("thread");
                h.join().is_ok()
            });
            if !ok {
                eprintln!("harness: a task thread panicked outside library code");
                std::process::exit(70);
            }
        } else {
            alone();
        }
    } else {
        *SCHED.threads.lock().unwrap() = vec![None; n];
        SCHED.cur.store(usize::MAX, Ordering::SeqCst);
        SCHED.on.store(true, Ordering::SeqCst);
        std::thread::scope(|sc| {
            let body = &body;
            let mut hs = vec![];
            for i in 0..n {
                let h = std::thread::Builder::new().stack_size(STACK).spawn_scoped(sc, move || {
                    TASK.set(i);
                    while SCHED.cur.load(Ordering::SeqCst) != i {
                        std::thread::park();
                    }
                    body(i);
                    let s = st();
                    s.alive[i] = false;
                    if let Some(t) = (0..s.alive.len()).find(|&t| s.alive[(t + i) % s.alive.len()]) {
                        let t = (t + i) % s.alive.len();
                        transfer(i, t, false);
                    }
                }).expect("thread");
                SCHED.threads.lock().unwrap()[i] = Some(h.thread().clone());
                hs.push(h);
            }
            SCHED.cur.store(0, Ordering::SeqCst);
            hs[0].thread().unpark();
            for h in hs {
                if h.join().is_err() {
                    eprintln!("harness: a task thread panicked outside library code");
                    std::process::exit(70);
                }
            }
        });
        SCHED.on.store(false, Ordering::SeqCst);
    }
    let s = st();
    RunSched {
        steps: s.step,
        switches: s.switches,
        hash: s.hash,
        trace: s.trace.take().unwrap_or_default(),
    }
}
