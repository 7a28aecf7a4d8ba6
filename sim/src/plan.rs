//! A run is fully described by a plan: plain data, printed to and read from replay files.
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Gene {
    pub op: Op,
    pub a: u8,
    pub b: u8,
    pub c: u8,
    pub x: i64,
    pub y: i64,
    pub z: i64,
    pub fault: Fault,
    pub at: u32,
    pub flags: u8,
    pub t: Vec<(i64, i64)>,
    pub s: String,
}

pub const RETRY: u8 = 1;
pub const STORE: u8 = 2;
/// Stream: use a recording sink. Format: format as an integral.
pub const ALT: u8 = 4;
/// Sinks: the failure goes away after one call / does not stick.
pub const TRANSIENT: u8 = 8;

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Fault {
    None,
    /// A coefficient operation panics.
    Coef,
    /// An allocation fails.
    Oom,
    /// A coefficient operation calls back into the library.
    Reenter,
    /// Formatting of a coefficient fails.
    CoefFmt,
    /// A caller-supplied sink rejects / errors.
    SinkErr,
    /// A sink accepts part of a write, then errors.
    SinkTorn,
    /// A caller-supplied sink panics.
    SinkPanic,
    /// A caller-supplied stream panics.
    StreamPanic,
    /// A stream ends early and would deliver more if polled again.
    StreamEnd,
}

macro_rules! named {
    ($E:ident, $all:ident : $($v:ident),* $(,)?) => {
        impl $E {
            pub const $all: &'static [$E] = &[$($E::$v),*];
            pub fn name(self) -> &'static str {
                match self { $($E::$v => stringify!($v)),* }
            }
            pub fn parse(s: &str) -> Option<$E> {
                match s { $(stringify!($v) => Some($E::$v),)* _ => None }
            }
        }
    };
}
named!(Fault, ALL: None, Coef, Oom, Reenter, CoefFmt, SinkErr, SinkTorn, SinkPanic, StreamPanic, StreamEnd);

macro_rules! ops {
    ($($v:ident),* $(,)?) => {
        #[derive(Clone, Copy, Debug, PartialEq, Eq)]
        pub enum Op { $($v),* }
        named!(Op, ALL: $($v),*);
    };
}
ops!(
    Build, AddAssign, SubAssign, SubAssignRef, MulAssign, MulAssignRef, RemAssign, MulScalarAssign,
    DivScalarAssign, ShlAssign, ShrAssign, AddTerm, TryAdd, TrySub, SetZero, Trim, Add, Sub, SubRef,
    SubDense, Neg, Mul, MulOwnRef, MulRefOwn, MulRefRef, MulScalar, DivScalar, Shl, Shr, Pow, DivMod,
    FloorDiv, Rem, Derivative, Integral, Eq, Degree, IsZero, TermAt, Terms, Eval, Clone, FromTerms,
    FromVec, Observe, Stream, MacroSum, Fmt, FmtErr, Text, UTerm, DivStress, Typed, FmtT, Roots,
);

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum World {
    F,
    I8,
    I64,
    F64,
}
named!(World, ALL: F, I8, I64, F64);

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Plan {
    pub prop: u8,
    pub world: World,
    pub p: u64,
    /// Large operands: higher size limits.
    /// 0 small operands, 1 hundreds of terms, 2 dense polynomials with up to `HUGE_DENSE` coefficients.
    pub big: u8,
    pub tasks: Vec<Vec<Gene>>,
    /// Shared read-only polynomials: (kind index, terms).
    pub ro: Vec<Vec<(i64, i64)>>,
    pub sched: Vec<(u32, u8)>,
}

impl Gene {
    pub fn new(op: Op) -> Gene {
        Gene {
            op,
            a: 0,
            b: 0,
            c: 0,
            x: 0,
            y: 0,
            z: 0,
            fault: Fault::None,
            at: 0,
            flags: 0,
            t: vec![],
            s: String::new(),
        }
    }
}

fn pairs(t: &[(i64, i64)]) -> String {
    if t.is_empty() {
        return "-".into();
    }
    t.iter()
        .map(|(a, b)| format!("{}@{}", a, b))
        .collect::<Vec<_>>()
        .join(",")
}

fn unpairs(s: &str) -> Option<Vec<(i64, i64)>> {
    if s == "-" {
        return Some(vec![]);
    }
    s.split(',')
        .map(|e| {
            let (a, b) = e.split_once('@')?;
            Some((a.parse().ok()?, b.parse().ok()?))
        })
        .collect()
}

fn hex(s: &str) -> String {
    if s.is_empty() {
        return "-".into();
    }
    s.bytes().map(|b| format!("{:02x}", b)).collect()
}

fn unhex(s: &str) -> Option<String> {
    if s == "-" {
        return Some(String::new());
    }
    let b: Option<Vec<u8>> = (0..s.len() / 2)
        .map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).ok())
        .collect();
    String::from_utf8(b?).ok()
}

impl Plan {
    pub fn dump(&self) -> String {
        let mut o = String::new();
        o += &format!("plan C{:02} {} {} {}\n", self.prop, self.world.name(), self.p, ["small", "big", "huge"][self.big as usize % 3]);
        for r in &self.ro {
            o += &format!("ro {}\n", pairs(r));
        }
        for (i, t) in self.tasks.iter().enumerate() {
            o += &format!("task {}\n", i);
            for g in t {
                o += &format!(
                    "op {} a={} b={} c={} x={} y={} z={} fault={} at={} flags={} t={} s={}\n",
                    g.op.name(),
                    g.a,
                    g.b,
                    g.c,
                    g.x,
                    g.y,
                    g.z,
                    g.fault.name(),
                    g.at,
                    g.flags,
                    pairs(&g.t),
                    hex(&g.s)
                );
            }
        }
        let s: Vec<(i64, i64)> = self.sched.iter().map(|e| (e.0 as i64, e.1 as i64)).collect();
        o += &format!("sched {}\nend\n", pairs(&s));
        o
    }

    pub fn load(text: &str) -> Option<Plan> {
        let mut plan: Option<Plan> = None;
        for line in text.lines() {
            if line.starts_with('#') || line.starts_with("before ") || line.trim().is_empty() {
                continue;
            }
            let mut w = line.split_whitespace();
            match w.next()? {
                "plan" => {
                    plan = Some(Plan {
                        prop: w.next()?.trim_start_matches('C').parse().ok()?,
                        world: World::parse(w.next()?)?,
                        p: w.next()?.parse().ok()?,
                        big: match w.next() {
                            Some("big") => 1,
                            Some("huge") => 2,
                            _ => 0,
                        },
                        tasks: vec![],
                        ro: vec![],
                        sched: vec![],
                    })
                }
                "ro" => plan.as_mut()?.ro.push(unpairs(w.next()?)?),
                "task" => plan.as_mut()?.tasks.push(vec![]),
                "op" => {
                    let mut g = Gene::new(Op::parse(w.next()?)?);
                    for f in w {
                        let (k, v) = f.split_once('=')?;
                        match k {
                            "a" => g.a = v.parse().ok()?,
                            "b" => g.b = v.parse().ok()?,
                            "c" => g.c = v.parse().ok()?,
                            "x" => g.x = v.parse().ok()?,
                            "y" => g.y = v.parse().ok()?,
                            "z" => g.z = v.parse().ok()?,
                            "fault" => g.fault = Fault::parse(v)?,
                            "at" => g.at = v.parse().ok()?,
                            "flags" => g.flags = v.parse().ok()?,
                            "t" => g.t = unpairs(v)?,
                            "s" => g.s = unhex(v)?,
                            _ => return None,
                        }
                    }
                    plan.as_mut()?.tasks.last_mut()?.push(g);
                }
                "sched" => {
                    plan.as_mut()?.sched = unpairs(w.next()?)?
                        .into_iter()
                        .map(|(a, b)| (a as u32, b as u8))
                        .collect()
                }
                "end" => return plan,
                _ => return None,
            }
        }
        None
    }
}
