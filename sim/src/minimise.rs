//! Shrinks a failing plan while it keeps failing.
use crate::plan::*;

pub fn minimise(plan: &Plan, mut tries: u32, fails: &mut dyn FnMut(&Plan) -> bool) -> Plan {
    let mut best = plan.clone();
    let mut attempt = |best: &mut Plan, cand: Plan, tries: &mut u32| -> bool {
        if *tries == 0 || cand == *best {
            return false;
        }
        *tries -= 1;
        if fails(&cand) {
            *best = cand;
            true
        } else {
            false
        }
    };
    loop {
        let before = best.clone();
        // tasks
        let mut i = 0;
        while best.tasks.len() > 1 && i < best.tasks.len() {
            let mut c = best.clone();
            c.tasks.remove(i);
            for e in c.sched.iter_mut() {
                if e.1 as usize > i {
                    e.1 -= 1;
                }
            }
            if !attempt(&mut best, c, &mut tries) {
                i += 1;
            }
        }
        // the schedule
        let mut c = best.clone();
        c.sched.clear();
        attempt(&mut best, c, &mut tries);
        let mut n = best.sched.len() / 2;
        while n > 0 {
            let mut i = 0;
            while i < best.sched.len() {
                let mut c = best.clone();
                let j = (i + n).min(c.sched.len());
                c.sched.drain(i..j);
                if !attempt(&mut best, c, &mut tries) {
                    i += n;
                }
            }
            n /= 2;
        }
        // operations, in shrinking blocks
        for t in 0..best.tasks.len() {
            let mut n = best.tasks[t].len().max(1);
            while n > 0 {
                let mut i = 0;
                while i < best.tasks[t].len() {
                    let mut c = best.clone();
                    let j = (i + n).min(c.tasks[t].len());
                    c.tasks[t].drain(i..j);
                    if !attempt(&mut best, c, &mut tries) {
                        i += n;
                    }
                }
                n /= 2;
            }
        }
        // shared values
        for i in 0..best.ro.len() {
            let mut c = best.clone();
            c.ro[i].clear();
            attempt(&mut best, c, &mut tries);
            shrink_terms(&mut best, &mut tries, &mut attempt, &|p| &mut p.ro[i]);
        }
        // faults and arguments
        for t in 0..best.tasks.len() {
            for i in 0..best.tasks[t].len() {
                if best.tasks[t][i].fault != Fault::None {
                    let mut c = best.clone();
                    c.tasks[t][i].fault = Fault::None;
                    c.tasks[t][i].at = 0;
                    attempt(&mut best, c, &mut tries);
                    for at in 0..3 {
                        if best.tasks[t][i].at > at {
                            let mut c = best.clone();
                            c.tasks[t][i].at = at;
                            if attempt(&mut best, c, &mut tries) {
                                break;
                            }
                        }
                    }
                }
                for bit in 0..4 {
                    let mut c = best.clone();
                    c.tasks[t][i].flags &= !(1 << bit);
                    attempt(&mut best, c, &mut tries);
                }
                shrink_terms(&mut best, &mut tries, &mut attempt, &|p| &mut p.tasks[t][i].t);
                for f in 0..3 {
                    for v in [0, 1, 2] {
                        let mut c = best.clone();
                        let g = &mut c.tasks[t][i];
                        let s = [&mut g.x, &mut g.y, &mut g.z];
                        let [x, y, z] = s;
                        let x = [x, y, z].into_iter().nth(f).unwrap();
                        if x.abs() <= v {
                            break;
                        }
                        *x = v;
                        if attempt(&mut best, c, &mut tries) {
                            break;
                        }
                    }
                }
            }
        }
        if best == before || tries == 0 {
            return best;
        }
    }
}

type Attempt<'a> = dyn FnMut(&mut Plan, Plan, &mut u32) -> bool + 'a;

fn shrink_terms(best: &mut Plan, tries: &mut u32, attempt: &mut Attempt, get: &dyn Fn(&mut Plan) -> &mut Vec<(i64, i64)>) {
    let mut i = 0;
    while i < get(best).len() {
        let mut c = best.clone();
        get(&mut c).remove(i);
        if !attempt(best, c, tries) {
            i += 1;
        }
    }
    for i in 0..get(best).len() {
        let (x, d) = get(best)[i];
        for v in [(0, d), (1, d), (x, 0), (x, 1), (x, 2)] {
            if v == get(best)[i] || (v.0 == 0 && x == 1) {
                continue;
            }
            let mut c = best.clone();
            get(&mut c)[i] = v;
            if attempt(best, c, tries) {
                break;
            }
        }
    }
}
