//! Parent and worker processes, replay files, evidence.
use crate::exec::{crash_props, run_plan, RunOut, Stats};
use crate::sim::SHARED_STATUS;
use crate::minimise::minimise;
use crate::plan::Plan;
use crate::val::Priv;
use std::collections::{BTreeMap, BTreeSet};
use std::fs;
use std::io::Write;
use std::path::{Path, PathBuf};
use std::process::{Child, Command, ExitStatus, Stdio};
use std::sync::atomic::{AtomicU64, Ordering};
use std::time::{Duration, Instant};

extern "C" {
    fn mmap(a: *mut u8, n: usize, prot: i32, flags: i32, fd: i32, off: i64) -> *mut u8;
    fn setrlimit(what: i32, r: *const [u64; 2]) -> i32;
}

const HANG_CPU_S: u64 = 20;
const HANG_WALL_S: u64 = 45;
const STATE_CAP: usize = 150_000;
const TICKS: u64 = 100;

fn shared_word(path: &Path, init: u64) -> &'static AtomicU64 {
    use std::os::fd::IntoRawFd;
    if !path.exists() {
        fs::write(path, init.to_ne_bytes().repeat(8)).expect("work directory");
    }
    let f = fs::OpenOptions::new().read(true).write(true).open(path).expect("work file");
    let p = unsafe { mmap(std::ptr::null_mut(), 64, 3, 1, f.into_raw_fd(), 0) };
    assert!(p as isize != -1, "mmap failed");
    unsafe { &*(p as *const AtomicU64) }
}

fn reachable_f() -> bool {
    <crate::coef::F as Priv>::REACHABLE
}

fn make(prop: u8, seed: u64, run: u64) -> Plan {
    crate::gen::plan(prop, seed, run, reachable_f())
}

/// (key, line) of each listed finding. The file is never written by a check.
fn load_known() {
    let mut v = vec![];
    if let Ok(f) = std::env::var("RSIM_KNOWN") {
        for l in fs::read_to_string(f).unwrap_or_default().lines() {
            if let Some(rest) = l.strip_prefix("known: ") {
                if let Some(k) = rest.split_whitespace().find_map(|w| w.strip_prefix("key=")) {
                    v.push((k.to_string(), rest.to_string()));
                }
            }
        }
    }
    crate::exec::KNOWN.set(v).ok();
}

pub fn main(args: &[String]) -> i32 {
    load_known();
    let s = |i: usize| args.get(i).map(|s| s.as_str()).unwrap_or("");
    let n = |i: usize| s(i).parse::<u64>().unwrap_or(0);
    match s(0) {
        "check" => check(args),
        "worker" => worker(n(1) as u8, n(2), n(3), n(4), n(5), n(6), Path::new(s(7)), n(8)),
        "replay" => replay(Path::new(s(1))),
        "replay-child" => replay_child(Path::new(s(1)), s(2) == "quiet"),
        "minimise" => minimise_cmd(Path::new(s(1)), Path::new(s(2)), s(3) == "crash"),
        "show" => {
            let p = make(n(1) as u8, n(2), n(3));
            print!("{}", p.dump());
            let o = run_plan(&p, n(3), true);
            for l in &o.trace {
                println!("# {}", l);
            }
            println!("{:?}", o.viol);
            0
        }
        // Hashes of runs, for comparing executions of the same seeds.
        "hash" => {
            for run in n(3)..n(4) {
                let o = run_plan(&make(n(1) as u8, n(2), run), run, false);
                println!("{} {:016x} {:016x} {} {}", run, o.stats.run_hash, o.stats.sched_hash, o.stats.steps, o.viol.is_some());
            }
            0
        }
        "again" => {
            for run in args[3..].iter().filter_map(|a| a.parse().ok()) {
                println!("{} {}", run, fingerprint(&run_plan(&make(n(1) as u8, n(2), run), run, false)));
            }
            0
        }
        _ => {
            eprintln!("usage: rsim check --prop N --seed S --runs R --tier T --evidence FILE --replays DIR | replay FILE");
            2
        }
    }
}

// ------------------------------------------------------------------ workers

/// Of everything that happened in a run: states, outcomes, schedule, steps.
fn fingerprint(o: &RunOut) -> u64 {
    let st = &o.stats;
    let mut h = st.run_hash;
    for x in [st.sched_hash, st.steps, st.ops, st.switches, st.lib_calls, st.faults.values().sum::<u64>(), o.viol.is_some() as u64] {
        h = (h ^ x).wrapping_mul(0x9E37_79B9_7F4A_7C15).rotate_left(23);
    }
    h
}

#[allow(clippy::too_many_arguments)]
fn worker(prop: u8, seed: u64, from: u64, to: u64, w: u64, step: u64, dir: &Path, seconds: u64) -> i32 {
    unsafe {
        setrlimit(9, &[6 << 30, 6 << 30]); // address space
        setrlimit(4, &[0, 0]); // no core files
    }
    let status = shared_word(&dir.join(format!("status.{}", w)), 0);
    SHARED_STATUS.set(status).ok();
    let stop = shared_word(&dir.join("stop"), u64::MAX);
    let t0 = Instant::now();
    let mut tot = Stats::default();
    let mut runs = 0u64;
    let mut nontrivial: BTreeSet<u64> = BTreeSet::new();
    let mut scheds: BTreeSet<u64> = BTreeSet::new();
    let mut states: BTreeSet<u64> = BTreeSet::new();
    let mut multi = 0u64;
    let mut worlds: BTreeMap<&'static str, u64> = BTreeMap::new();
    let mut samples = vec![];
    let mut picks = vec![];
    let mut again = vec![];
    let mut run = from;
    while run < to {
        if run > stop.load(Ordering::Relaxed) || (seconds > 0 && t0.elapsed().as_secs() >= seconds) {
            break;
        }
        let plan = make(prop, seed, run);
        status.store(run << 16 | 0xfff0, Ordering::Relaxed);
        let o = run_plan(&plan, run, false);
        runs += 1;
        if runs % 256 == 1 && again.len() < 40 {
            again.push((run, fingerprint(&o)));
        }
        let st = &o.stats;
        tot.ops += st.ops;
        tot.lib_calls += st.lib_calls;
        tot.steps += st.steps;
        tot.allocs += st.allocs;
        tot.interrupted += st.interrupted;
        tot.natural += st.natural;
        tot.retries += st.retries;
        tot.checked += st.checked;
        tot.switches += st.switches;
        tot.foreign += st.foreign;
        tot.skipped += st.skipped;
        let fired: u64 = st.faults.values().sum();
        for (k, v) in &st.faults {
            *tot.faults.entry(k).or_insert(0) += v;
        }
        for (k, v) in &st.known {
            *tot.known.entry(k).or_insert(0) += v;
        }
        for (k, v) in &st.opcount {
            *tot.opcount.entry(k).or_insert(0) += v;
        }
        *worlds.entry(plan.world.name()).or_insert(0) += 1;
        if plan.tasks.len() > 1 {
            multi += 1;
            scheds.insert(st.sched_hash);
        }
        if st.checked > 0 && (fired > 0 || st.switches > 0) {
            nontrivial.insert(st.run_hash ^ st.steps.wrapping_mul(0x9E37_79B9_7F4A_7C15));
        }
        if states.len() < STATE_CAP {
            states.extend(st.state_hashes.iter().copied());
        }
        if picks.len() < 2 && fired > 0 && plan.tasks.iter().all(|t| t.len() > 3 && t.len() < 14) {
            picks.push(run);
        }
        if let Some(v) = o.viol {
            stop.fetch_min(run, Ordering::SeqCst);
            fs::write(dir.join(format!("viol.{}", run)), format!("{} {}\n{}", from, v.msg.replace('\n', " "), plan.dump())).expect("work directory");
            picks.clear();
            break;
        }
        run += step;
    }
    // Run again for the record, after the search: the search executes each run once, in order.
    for run in picks {
        let plan = make(prop, seed, run);
        let t = run_plan(&plan, run, true);
        let st = &t.stats;
        let hit: Vec<String> = t.trace.iter().filter(|l| ["interrupted", "rejected", "panicked", "(stream", "sink ", "faults ["].iter().any(|w| l.contains(w))).take(3).cloned().collect();
        samples.push(format!(
            "seed {} run {}: {} tasks, {} operations, {} switches, {} faults, run hash {:016x}; of its history: {}",
            seed,
            run,
            plan.tasks.len(),
            st.ops,
            st.switches,
            st.faults.values().sum::<u64>(),
            st.run_hash,
            hit.join(" | ")
        ));
    }
    let mut out = String::new();
    let mut kv = |k: &str, v: u64| out += &format!("{} {}\n", k, v);
    kv("runs", runs);
    kv("ops", tot.ops);
    kv("lib_calls", tot.lib_calls);
    kv("steps", tot.steps);
    kv("allocs", tot.allocs);
    kv("interrupted", tot.interrupted);
    kv("natural", tot.natural);
    kv("retries", tot.retries);
    kv("checked", tot.checked);
    kv("switches", tot.switches);
    kv("foreign", tot.foreign);
    kv("skipped", tot.skipped);
    kv("multi", multi);
    kv("capped", (states.len() >= STATE_CAP) as u64);
    tot.faults.iter().for_each(|(k, v)| kv(&format!("fault:{}", k), *v));
    tot.known.iter().for_each(|(k, v)| kv(&format!("known:{}", k), *v));
    tot.opcount.iter().for_each(|(k, v)| kv(&format!("op:{}", k), *v));
    worlds.iter().for_each(|(k, v)| kv(&format!("world:{}", k), *v));
    for s in samples {
        out += &format!("sample {}\n", s);
    }
    for (run, h) in again {
        out += &format!("again {} {}\n", run, h);
    }
    fs::write(dir.join(format!("stats.{}.{}", w, from)), out).expect("work directory");
    let dump = |name: &str, s: &BTreeSet<u64>| {
        let b: Vec<u8> = s.iter().flat_map(|x| x.to_ne_bytes()).collect();
        fs::write(dir.join(format!("{}.{}.{}", name, w, from)), b).expect("work directory");
    };
    dump("nontrivial", &nontrivial);
    dump("scheds", &scheds);
    dump("states", &states);
    0
}

fn cpu_ticks(pid: u32) -> Option<u64> {
    let s = fs::read_to_string(format!("/proc/{}/stat", pid)).ok()?;
    let f: Vec<&str> = s.rsplit_once(')')?.1.split_whitespace().collect();
    Some(f.get(11)?.parse::<u64>().ok()? + f.get(12)?.parse::<u64>().ok()?)
}

/// How a child process ended.
enum End {
    Exit(i32),
    Crash(String),
    Hang(String),
}

fn end_of(st: ExitStatus) -> End {
    use std::os::unix::process::ExitStatusExt;
    match (st.code(), st.signal()) {
        (Some(c), _) => End::Exit(c),
        (None, s) => End::Crash(format!("the process was killed by signal {}", s.unwrap_or(0))),
    }
}

struct Watch {
    last: u64,
    cpu0: u64,
    t0: Instant,
}

impl Watch {
    fn new() -> Watch {
        Watch { last: u64::MAX, cpu0: 0, t0: Instant::now() }
    }
    /// Some = the child makes no progress any more.
    fn stuck(&mut self, status: u64, cpu: u64, cpu_s: u64) -> Option<String> {
        if status != self.last {
            *self = Watch { last: status, cpu0: cpu, t0: Instant::now() };
            return None;
        }
        let used = cpu.saturating_sub(self.cpu0);
        if used >= cpu_s * TICKS {
            return Some(format!("an operation did not finish within {} s of processor time", cpu_s));
        }
        if self.t0.elapsed().as_secs() >= HANG_WALL_S && used < TICKS / 2 {
            return Some(format!("no task could proceed for {} s (deadlock)", HANG_WALL_S));
        }
        None
    }
}

fn self_exe() -> PathBuf {
    std::env::current_exe().expect("own path")
}

struct Work(PathBuf);
impl Drop for Work {
    fn drop(&mut self) {
        fs::remove_dir_all(&self.0).ok();
    }
}

fn opt<'a>(args: &'a [String], name: &str, default: &'a str) -> &'a str {
    args.iter().position(|a| a == name).and_then(|i| args.get(i + 1)).map_or(default, |s| s.as_str())
}

struct Found {
    run: u64,
    /// The first run of the process that found it; it executed every `step`th run from there.
    from: u64,
    msg: String,
    plan: Plan,
    crash: bool,
}

/// Addresses are the same in every process from here on, where the system allows it.
fn fixed_addresses() {
    extern "C" {
        fn personality(p: std::ffi::c_ulong) -> std::ffi::c_int;
    }
    unsafe {
        let p = personality(0xffff_ffff);
        if p >= 0 {
            personality(p as std::ffi::c_ulong | 0x0004_0000);
        }
    }
}

fn check(args: &[String]) -> i32 {
    fixed_addresses();
    let prop: u8 = opt(args, "--prop", "0").trim_start_matches('C').parse().expect("--prop");
    let seed: u64 = opt(args, "--seed", "1").parse().expect("--seed");
    let runs: u64 = opt(args, "--runs", "1000").parse().expect("--runs");
    let seconds: u64 = opt(args, "--seconds", "0").parse().expect("--seconds");
    let n: u64 = opt(args, "--workers", "8").parse().expect("--workers");
    let tier = opt(args, "--tier", "quick");
    let t0 = Instant::now();
    let work = Work(std::env::temp_dir().join(format!("rsim-{}-C{:02}", std::process::id(), prop)));
    fs::remove_dir_all(&work.0).ok();
    fs::create_dir_all(&work.0).expect("work directory");
    let stop = shared_word(&work.0.join("stop"), u64::MAX);
    struct W {
        child: Option<Child>,
        status: &'static AtomicU64,
        watch: Watch,
        from: u64,
    }
    let spawn = |w: u64, from: u64| -> Child {
        Command::new(self_exe())
            .args(["worker", &prop.to_string(), &seed.to_string(), &from.to_string(), &runs.to_string(), &w.to_string(), &n.to_string()])
            .arg(&work.0)
            .arg(seconds.saturating_sub(t0.elapsed().as_secs()).max((seconds > 0) as u64).to_string())
            .stdin(Stdio::null())
            .spawn()
            .expect("worker")
    };
    let mut ws: Vec<W> = (0..n)
        .map(|w| W {
            status: shared_word(&work.0.join(format!("status.{}", w)), 0),
            child: Some(spawn(w, w)),
            watch: Watch::new(),
            from: w,
        })
        .collect();
    let mut found: Vec<Found> = vec![];
    let mut foreign_crashes = 0u64;
    let mut broken: Option<String> = None;
    while ws.iter().any(|w| w.child.is_some()) && broken.is_none() {
        std::thread::sleep(Duration::from_millis(40));
        for i in 0..ws.len() {
            let w = &mut ws[i];
            let Some(child) = w.child.as_mut() else { continue };
            let end = match child.try_wait().expect("wait") {
                Some(st) => end_of(st),
                None => {
                    let cpu = cpu_ticks(child.id()).unwrap_or(0);
                    match w.watch.stuck(w.status.load(Ordering::Relaxed), cpu, HANG_CPU_S) {
                        None => continue,
                        Some(m) => {
                            child.kill().ok();
                            child.wait().ok();
                            End::Hang(m)
                        }
                    }
                }
            };
            w.child = None;
            let why = match end {
                End::Exit(0) => continue,
                End::Exit(c) => {
                    broken = Some(format!("worker {} ended with code {}", i, c));
                    break;
                }
                End::Crash(m) | End::Hang(m) => m,
            };
            let s = w.status.load(Ordering::Relaxed);
            let run = s >> 16;
            let plan = make(prop, seed, run);
            let (op, task) = ((s >> 4 & 0xfff) as usize, (s & 15) as usize);
            let gene = plan.tasks.get(task).and_then(|t| t.get(op));
            let mask = gene.map_or(0, |g| crash_props(g.op));
            if mask >> prop & 1 == 1 {
                stop.fetch_min(run, Ordering::SeqCst);
                found.push(Found {
                    run,
                    from: w.from,
                    msg: format!("task {} op {} ({}): {}", task, op, gene.map_or("?", |g| g.op.name()), why),
                    plan,
                    crash: true,
                });
            } else {
                foreign_crashes += 1;
                if gene.is_none() {
                    broken = Some(format!("run {}: {}", run, why));
                    break;
                }
                // Another property's check reports it; go on behind it, but not for ever.
                if foreign_crashes < 24 {
                    w.watch = Watch::new();
                    w.from = run + n;
                    w.child = Some(spawn(i as u64, run + n));
                }
            }
        }
    }
    for w in ws.iter_mut() {
        if let Some(c) = w.child.as_mut() {
            c.kill().ok();
            c.wait().ok();
        }
    }
    if let Some(b) = broken {
        eprintln!("C{:02}: the simulation itself failed: {}", prop, b);
        return 2;
    }
    // Collect.
    let mut kv: BTreeMap<String, u64> = BTreeMap::new();
    let mut samples: Vec<String> = vec![];
    let mut again: BTreeMap<String, String> = BTreeMap::new();
    let mut sets: BTreeMap<&str, BTreeSet<u64>> = BTreeMap::new();
    for e in fs::read_dir(&work.0).expect("work directory").flatten() {
        let name = e.file_name().to_string_lossy().into_owned();
        if name.starts_with("stats.") {
            for l in fs::read_to_string(e.path()).unwrap_or_default().lines() {
                if let Some(s) = l.strip_prefix("sample ") {
                    samples.push(s.to_string());
                } else if let Some((run, h)) = l.strip_prefix("again ").and_then(|l| l.split_once(' ')) {
                    again.insert(run.to_string(), h.to_string());
                } else if let Some((k, v)) = l.split_once(' ') {
                    *kv.entry(k.to_string()).or_insert(0) += v.parse::<u64>().unwrap_or(0);
                }
            }
        } else if let Some(r) = name.strip_prefix("viol.") {
            let t = fs::read_to_string(e.path()).unwrap_or_default();
            if let (Some((m, p)), Ok(run)) = (t.split_once('\n'), r.parse()) {
                let (from, m) = m.split_once(' ').unwrap_or(("0", m));
                found.push(Found { run, from: from.parse().unwrap_or(0), msg: m.to_string(), plan: Plan::load(p).expect("plan"), crash: false });
            }
        } else {
            for k in ["nontrivial", "scheds", "states"] {
                if name.starts_with(k) {
                    let b = fs::read(e.path()).unwrap_or_default();
                    sets.entry(k).or_default().extend(b.chunks_exact(8).map(|c| u64::from_ne_bytes(c.try_into().unwrap())));
                }
            }
        }
    }
    samples.sort();
    samples.dedup();
    found.sort_by_key(|f| f.run);
    let search_s = t0.elapsed().as_secs_f64();
    let mut code = 0;
    let mut violations = 0;
    let mut report = String::new();
    let replays = Path::new(opt(args, "--replays", "/verif/replays"));
    // The first one that a fresh process repeats. What the library was seen doing wrong and no process
    // repeats depends on something outside of the simulation (addresses, say), and is reported too.
    let tried = found.iter().take(3).map(|f| (f, false)).chain(found.iter().filter(|f| !f.crash).take(1).map(|f| (f, true)));
    for (f, anyway) in tried {
        match write_replay(f, prop, seed, replays, &work.0, n, search_s, anyway) {
            Ok((path, msg)) => {
                violations = 1;
                code = 1;
                report = format!("C{:02} seed {} run {}: {}\nVIOLATION property=C{:02} replay={}", prop, seed, f.run, msg, prop, path.display());
                break;
            }
            Err(m) => {
                eprintln!("C{:02}: seed {} run {}: {}; but {}", prop, seed, f.run, f.msg, m);
                code = 2;
            }
        }
    }
    if found.is_empty() && !again.is_empty() {
        let out = Command::new(self_exe()).args(["again", &prop.to_string(), &seed.to_string()]).args(again.keys()).stdin(Stdio::null()).output().expect("child");
        let same = String::from_utf8_lossy(&out.stdout).lines().filter(|l| l.split_once(' ').map_or(false, |(r, h)| again.get(r).map_or(false, |x| x == h))).count();
        kv.insert("again".into(), again.len() as u64);
        kv.insert("again_same".into(), same as u64);
    }
    let ev = evidence(prop, tier, seed, search_s, t0.elapsed().as_secs_f64(), &kv, &sets, &samples, violations, n, foreign_crashes);
    let evp = opt(args, "--evidence", "");
    if !evp.is_empty() {
        if let Some(d) = Path::new(evp).parent() {
            fs::create_dir_all(d).ok();
        }
        fs::write(evp, ev).expect("evidence file");
    }
    let g = |k: &str| kv.get(k).copied().unwrap_or(0);
    let faults: Vec<String> = kv.iter().filter_map(|(k, v)| k.strip_prefix("fault:").map(|k| format!("{} {}", k, v))).collect();
    println!(
        "C{:02} {} seed {}: {} runs, {} operations, {} simulated steps, {} switches, faults: {}; {} distinct states; {:.1} s",
        prop,
        tier,
        seed,
        g("runs"),
        g("ops"),
        g("steps"),
        g("switches"),
        faults.join(", "),
        sets.get("states").map_or(0, |s| s.len()),
        search_s
    );
    if g("foreign") > 0 || foreign_crashes > 0 {
        println!("C{:02}: {} violations of other properties seen ({} of them crashes or hangs); their own checks report them", prop, g("foreign") + foreign_crashes, foreign_crashes);
    }
    for (key, line) in crate::exec::KNOWN.get().into_iter().flatten() {
        if g(&format!("known:{}", key)) > 0 && line.contains(&format!("property=C{:02} ", prop)) {
            println!("KNOWN-FINDING: {}", line);
        }
    }
    if !report.is_empty() {
        println!("{}", report);
    }
    std::io::stdout().flush().ok();
    code
}

// ------------------------------------------------------------------ replay files

fn same_failure(o: &RunOut) -> bool {
    o.viol.is_some()
}

fn run_child(args: &[&str], file: &Path, cpu_s: u64) -> (End, String) {
    let out = file.with_extension("out");
    let f = fs::File::create(&out).expect("work directory");
    let mut c = Command::new(self_exe()).args(args).arg(file).arg("quiet").stdin(Stdio::null()).stdout(f).stderr(Stdio::null()).spawn().expect("child");
    let mut w = Watch::new();
    let end = loop {
        if let Some(st) = c.try_wait().expect("wait") {
            break end_of(st);
        }
        std::thread::sleep(Duration::from_millis(10));
        if let Some(m) = w.stuck(0, cpu_ticks(c.id()).unwrap_or(0), cpu_s) {
            c.kill().ok();
            c.wait().ok();
            break End::Hang(m);
        }
    };
    let text = fs::read_to_string(&out).unwrap_or_default();
    (end, text)
}

/// Runs executed in the same process before the failing one: state the library keeps outside of its
/// values shows only with them.
#[derive(Clone, Default)]
struct Before {
    prop: u8,
    seed: u64,
    runs: Vec<u64>,
}

impl Before {
    fn dump(&self) -> String {
        if self.runs.is_empty() {
            return String::new();
        }
        let r = &self.runs;
        let step = if r.len() > 1 { r[1] - r[0] } else { 1 };
        let list = if r.len() > 8 && r.windows(2).all(|w| w[1] - w[0] == step) {
            format!("{}..={}/{}", r[0], r[r.len() - 1], step)
        } else {
            r.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(",")
        };
        format!("before C{:02} {} {}\n", self.prop, self.seed, list)
    }
    fn load(text: &str) -> Before {
        let Some(l) = text.lines().find_map(|l| l.strip_prefix("before C")) else { return Before::default() };
        let w: Vec<&str> = l.split_whitespace().collect();
        let num = |s: &str| s.parse::<u64>().unwrap_or(0);
        let runs = match w.get(2).copied().unwrap_or("").split_once("..=") {
            Some((a, r)) => {
                let (b, s) = r.split_once('/').unwrap_or((r, "1"));
                (num(a)..=num(b)).step_by(num(s).max(1) as usize).collect()
            }
            None => w.get(2).copied().unwrap_or("").split(',').map(num).collect(),
        };
        Before { prop: w.first().map_or(0, |s| num(s) as u8), seed: w.get(1).map_or(0, |s| num(s)), runs }
    }
    fn execute(&self) {
        for &run in &self.runs {
            run_plan(&make(self.prop, self.seed, run), run, false);
        }
    }
}

#[allow(clippy::too_many_arguments)]
fn write_replay(f: &Found, prop: u8, seed: u64, dir: &Path, work: &Path, step: u64, search_s: f64, anyway: bool) -> Result<(PathBuf, String), String> {
    let (a, b) = (work.join("full.plan"), work.join("min.plan"));
    fs::write(&a, f.plan.dump()).expect("work directory");
    fs::write(&b, f.plan.dump()).expect("work directory");
    let mut c = Command::new(self_exe())
        .arg("minimise")
        .arg(&a)
        .arg(&b)
        .arg(if f.crash { "crash" } else { "plain" })
        .stdin(Stdio::null())
        .spawn()
        .expect("minimiser");
    let t = Instant::now();
    while c.try_wait().expect("wait").is_none() {
        std::thread::sleep(Duration::from_millis(20));
        if t.elapsed().as_secs() > 100 {
            c.kill().ok();
            c.wait().ok();
        }
    }
    let mut plan = fs::read_to_string(&b).ok().and_then(|t| Plan::load(&t)).unwrap_or_else(|| f.plan.clone());
    // Confirm in a fresh process; fall back to the unminimised plan.
    let confirm_after = |b: &Before, p: &Plan| -> Option<(String, String)> {
        let x = work.join("confirm.plan");
        fs::write(&x, b.dump() + &p.dump()).expect("work directory");
        let extra = if b.runs.is_empty() { 0 } else { 10 + 2 * search_s as u64 };
        let (end, text) = run_child(&["replay-child"], &x, HANG_CPU_S + extra);
        match end {
            End::Exit(1) => {
                let msg = text.lines().find_map(|l| l.strip_prefix("violation: ")).unwrap_or("").to_string();
                Some((msg, text))
            }
            End::Exit(_) => None,
            End::Crash(m) | End::Hang(m) => Some((format!("{} ({})", m, f.msg), text)),
        }
    };
    let mut before = Before::default();
    let mut got = confirm_after(&before, &plan);
    if got.is_none() {
        plan = f.plan.clone();
        got = confirm_after(&before, &plan);
    }
    if got.is_none() && anyway {
        before = Before { prop, seed, runs: (f.from..f.run).step_by(step as usize).collect() };
    } else if got.is_none() {
        // It takes the runs before it in the same process: the shortest stretch of them, then fewer.
        let all: Vec<u64> = (f.from..f.run).step_by(step as usize).collect();
        let mut n = 1;
        while got.is_none() && !all.is_empty() {
            let runs = all[all.len().saturating_sub(n)..].to_vec();
            let last = runs.len() == all.len();
            before = Before { prop, seed, runs };
            got = confirm_after(&before, &plan);
            if last {
                break;
            }
            n *= 4;
        }
        let t = Instant::now();
        let mut block = before.runs.len() / 2;
        while got.is_some() && block > 0 && t.elapsed().as_secs() < 60 {
            let mut i = 0;
            while i < before.runs.len() && t.elapsed().as_secs() < 60 {
                let mut b = before.clone();
                let j = (i + block).min(b.runs.len());
                b.runs.drain(i..j);
                match confirm_after(&b, &plan) {
                    Some(x) => {
                        before = b;
                        got = Some(x);
                    }
                    None => i += block,
                }
            }
            block /= 2;
        }
    }
    if got.is_none() && anyway {
        got = Some((f.msg.clone(), "seen once, with the runs before it; a fresh process did not repeat it".into()));
    }
    let (msg, text) = got.ok_or("it did not reproduce in a fresh process".to_string())?;
    let ops: usize = plan.tasks.iter().map(|t| t.len()).sum();
    fs::create_dir_all(dir).map_err(|e| e.to_string())?;
    let path = dir.join(format!("C{:02}-seed{}-run{}.replay", prop, seed, f.run));
    let mut o = format!(
        "# property C{:02}, seed {}, run {}; minimised to {} operations in {} tasks, {} planned switches{}\n# violation: {}\n# replay with: bash /verif/replay.sh {}\n",
        prop,
        seed,
        f.run,
        ops,
        plan.tasks.len(),
        plan.sched.len(),
        if before.runs.is_empty() { String::new() } else { format!(", after {} earlier runs in the same process", before.runs.len()) },
        msg,
        path.display()
    );
    o += &before.dump();
    o += &plan.dump();
    for l in text.lines() {
        o += &format!("# {}\n", l);
    }
    fs::write(&path, o).map_err(|e| e.to_string())?;
    Ok((path, msg))
}

fn minimise_cmd(from: &Path, to: &Path, crash: bool) -> i32 {
    let Some(plan) = fs::read_to_string(from).ok().and_then(|t| Plan::load(&t)) else { return 2 };
    let t = Instant::now();
    let save = |p: &Plan| {
        let tmp = to.with_extension("tmp");
        fs::write(&tmp, p.dump()).ok();
        fs::rename(&tmp, to).ok();
    };
    let tmp = to.with_extension("try");
    let mut fails = |p: &Plan| -> bool {
        if t.elapsed().as_secs() > 60 {
            return false;
        }
        let bad = if crash {
            fs::write(&tmp, p.dump()).ok();
            !matches!(run_child(&["replay-child"], &tmp, 2).0, End::Exit(_))
        } else {
            same_failure(&run_plan(p, 0, false))
        };
        if bad {
            save(p);
        }
        bad
    };
    minimise(&plan, if crash { 60 } else { 30_000 }, &mut fails);
    0
}

fn replay_child(file: &Path, _quiet: bool) -> i32 {
    unsafe {
        setrlimit(9, &[6 << 30, 6 << 30]);
        setrlimit(4, &[0, 0]);
    }
    let Some(plan) = fs::read_to_string(file).ok().and_then(|t| Plan::load(&t)) else {
        eprintln!("cannot read the plan in {}", file.display());
        return 2;
    };
    Before::load(&fs::read_to_string(file).unwrap_or_default()).execute();
    let o = run_plan(&plan, 0, true);
    for l in &o.trace {
        println!("{}", l);
    }
    for (s, a, b) in &o.sched {
        println!("switch at step {}: task {} -> task {}", s, a, b);
    }
    println!("run hash {:016x}, {} steps", o.stats.run_hash, o.stats.steps);
    match o.viol {
        Some(v) => {
            println!("violation: task {} op {}: {}", v.task, v.op, v.msg.replace('\n', " "));
            1
        }
        None => {
            println!("no violation");
            0
        }
    }
}

fn replay(file: &Path) -> i32 {
    fixed_addresses();
    let Some(plan) = fs::read_to_string(file).ok().and_then(|t| Plan::load(&t)) else {
        eprintln!("cannot read the plan in {}", file.display());
        return 2;
    };
    let work = Work(std::env::temp_dir().join(format!("rsim-replay-{}", std::process::id())));
    fs::create_dir_all(&work.0).expect("work directory");
    let x = work.0.join("replay.plan");
    let before = Before::load(&fs::read_to_string(file).unwrap_or_default());
    fs::write(&x, before.dump() + &plan.dump()).expect("work directory");
    let (end, text) = run_child(&["replay-child"], &x, HANG_CPU_S + before.runs.len() as u64 / 50);
    print!("{}", text);
    match end {
        End::Exit(1) => {
            println!("VIOLATION property=C{:02} replay={}", plan.prop, file.display());
            1
        }
        End::Exit(0) => 0,
        End::Exit(_) => 2,
        End::Crash(m) | End::Hang(m) => {
            println!("{}", m);
            println!("VIOLATION property=C{:02} replay={}", plan.prop, file.display());
            1
        }
    }
}

// ------------------------------------------------------------------ evidence

fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o += "\\\"",
            '\\' => o += "\\\\",
            '\n' => o += "\\n",
            c if (c as u32) < 32 => o += &format!("\\u{:04x}", c as u32),
            c => o.push(c),
        }
    }
    o + "\""
}

#[allow(clippy::too_many_arguments)]
fn evidence(
    prop: u8,
    tier: &str,
    seed: u64,
    search_s: f64,
    wall_s: f64,
    kv: &BTreeMap<String, u64>,
    sets: &BTreeMap<&str, BTreeSet<u64>>,
    samples: &[String],
    violations: u64,
    workers: u64,
    crashes: u64,
) -> String {
    let g = |k: &str| kv.get(k).copied().unwrap_or(0);
    let set = |k: &str| sets.get(k).map_or(0, |s| s.len());
    let group = |pre: &str| {
        let v: Vec<String> = kv.iter().filter_map(|(k, v)| k.strip_prefix(pre).map(|k| format!("{}: {}", js(k), v))).collect();
        format!("{{{}}}", v.join(", "))
    };
    let per_hour = |n: u64| (n as f64 / search_s.max(0.001) * 3600.0) as u64;
    let sm: Vec<String> = samples.iter().take(8).map(|s| js(&s.chars().take(1200).collect::<String>())).collect();
    let assumptions = [
        "zero(), one(), is_zero() and == of a coefficient type do not panic; arithmetic may",
        "standard containers behave as documented; the allocation of an inner BTreeMap node never fails, and where the target is updated term by term or memory is counted, allocations fail only while the maps fit one node: the standard library itself may lose entries otherwise",
        "the build has overflow checks, so integer overflow is a panic",
    ];
    format!(
        "{{\n \"property\": \"C{:02}\",\n \"tier\": {},\n \"seed\": {},\n \"level\": \"exploration\",\n \"coverage\": {{\n  \"evaluations\": {},\n  \"distinct_nontrivial\": {},\n  \"rule\": {},\n  \"samples\": [{}],\n  \"runs_per_hour\": {},\n  \"operations\": {},\n  \"library_calls\": {},\n  \"simulated_steps\": {},\n  \"allocations_seen\": {},\n  \"checked_operations\": {},\n  \"interrupted_operations\": {},\n  \"retries_after_faults\": {},\n  \"faults_injected\": {},\n  \"operations_by_kind\": {},\n  \"runs_by_coefficient_world\": {},\n  \"multi_task_runs\": {},\n  \"task_switches\": {},\n  \"distinct_interleavings\": {},\n  \"distinct_states\": {},\n  \"state_measure\": {},\n  \"states_capped\": {},\n  \"simulated_time\": {},\n  \"components\": {},\n  \"private_traits_reachable\": {},\n  \"runs_repeated_in_another_process\": {},\n  \"of_these_identical\": {},\n  \"worker_processes\": {},\n  \"violations_of_other_properties_seen\": {},\n  \"known_findings_met\": {},\n  \"search_s\": {:.2}\n }},\n \"assumptions\": [{}],\n \"wall_s\": {:.2},\n \"violations\": {}\n}}\n",
        prop,
        js(tier),
        seed,
        g("runs"),
        set("nontrivial"),
        js("one evaluation = one simulated run: a plan (worlds, tasks, operations, fault points, switch points) drawn from (seed, property, run index) and executed against the real library; each run has its own derived seed, so runs per hour are seeds per hour. Non-trivial: at least one operation was checked and at least one fault fired or one task switch happened inside the run; distinct by the hash of all states reached, the schedule and the step count"),
        sm.join(", "),
        per_hour(g("runs")),
        g("ops"),
        g("lib_calls"),
        g("steps"),
        g("allocs"),
        g("checked"),
        g("interrupted"),
        g("retries"),
        group("fault:"),
        group("op:"),
        group("world:"),
        g("multi"),
        g("switches"),
        set("scheds"),
        set("states"),
        js("hash of the denotations of all polynomials of a task after an operation, or of a text and its outcome; interleavings are distinct by their sequence of (step, task) switches"),
        g("capped") > 0,
        js("the library has no clock; simulated time is counted in coefficient operations and caller-party calls (simulated_steps)"),
        js("real: all of rustnomial (dense, sparse, monomial, binomial, trinomial, integrals, term streams, formatting, parsing) and the standard containers; simulated: coefficient type F (prime field) where the world is F, global allocator, term streams, term sinks, text sinks, storage, task scheduler"),
        reachable_f(),
        g("again"),
        g("again_same"),
        workers,
        g("foreign") + crashes,
        group("known:"),
        search_s,
        assumptions.iter().map(|a| js(a)).collect::<Vec<_>>().join(", "),
        wall_s,
        violations
    )
}
