//! Reference model: exact polynomials over the integers or GF(P), as maps degree -> coefficient.
use crate::coef::Ring;
use std::collections::BTreeMap;

#[derive(Clone, Debug, PartialEq, Eq, Default)]
pub struct Model(pub BTreeMap<usize, i128>);

impl Ring {
    pub fn norm(self, v: i128) -> i128 {
        match self {
            Ring::Field(p) => v.rem_euclid(p),
            _ => v,
        }
    }
    pub fn add(self, a: i128, b: i128) -> Option<i128> {
        a.checked_add(b).map(|v| self.norm(v))
    }
    pub fn sub(self, a: i128, b: i128) -> Option<i128> {
        a.checked_sub(b).map(|v| self.norm(v))
    }
    pub fn mul(self, a: i128, b: i128) -> Option<i128> {
        a.checked_mul(b).map(|v| self.norm(v))
    }
    /// Field division, or truncating integer division. None: not defined.
    pub fn div(self, a: i128, b: i128) -> Option<i128> {
        if b == 0 {
            return None;
        }
        match self {
            Ring::Field(p) => {
                let (mut base, mut e, mut r) = (b, p - 2, 1i128);
                while e > 0 {
                    if e & 1 == 1 {
                        r = r * base % p;
                    }
                    base = base * base % p;
                    e >>= 1;
                }
                Some((a * r).rem_euclid(p))
            }
            Ring::Int { .. } => a.checked_div(b),
            Ring::Float => None,
        }
    }
    pub fn pow(self, a: i128, mut e: usize) -> Option<i128> {
        if a == 0 {
            return Some(if e == 0 { self.norm(1) } else { 0 });
        }
        if a == 1 {
            return Some(1);
        }
        if a == -1 {
            return Some(if e % 2 == 0 { 1 } else { self.norm(-1) });
        }
        let (mut b, mut r) = (a, self.norm(1));
        while e > 0 {
            if e & 1 == 1 {
                r = self.mul(r, b)?;
            }
            e >>= 1;
            if e > 0 {
                b = self.mul(b, b)?;
            }
        }
        Some(r)
    }
    /// No intermediate value of magnitude up to `bound` can overflow or lose precision.
    pub fn fits(self, bound: u128) -> bool {
        match self {
            Ring::Field(_) => true,
            Ring::Int { max, .. } => bound <= max as u128,
            Ring::Float => bound < 1 << 53,
        }
    }
    pub fn is_float(self) -> bool {
        self == Ring::Float
    }
}

impl Model {
    fn put(&mut self, r: Ring, d: usize, v: i128) {
        let v = r.norm(v);
        if v == 0 {
            self.0.remove(&d);
        } else {
            self.0.insert(d, v);
        }
    }
    pub fn get(&self, d: usize) -> i128 {
        self.0.get(&d).copied().unwrap_or(0)
    }
    pub fn deg(&self) -> Option<usize> {
        self.0.keys().next_back().copied()
    }
    pub fn is_zero(&self) -> bool {
        self.0.is_empty()
    }
    pub fn max_abs(&self) -> u128 {
        self.0.values().map(|v| v.unsigned_abs()).max().unwrap_or(0)
    }
    pub fn sum_abs(&self) -> u128 {
        self.0
            .values()
            .fold(0u128, |s, v| s.saturating_add(v.unsigned_abs()))
    }
    pub fn term(r: Ring, c: i128, d: usize) -> Model {
        let mut m = Model::default();
        m.put(r, d, c);
        m
    }
    pub fn add(&self, r: Ring, o: &Model) -> Option<Model> {
        let mut m = self.clone();
        for (&d, &c) in &o.0 {
            let v = r.add(m.get(d), c)?;
            m.put(r, d, v);
        }
        Some(m)
    }
    pub fn sub(&self, r: Ring, o: &Model) -> Option<Model> {
        let mut m = self.clone();
        for (&d, &c) in &o.0 {
            let v = r.sub(m.get(d), c)?;
            m.put(r, d, v);
        }
        Some(m)
    }
    pub fn mul(&self, r: Ring, o: &Model) -> Option<Model> {
        let mut m = Model::default();
        for (&d, &c) in &self.0 {
            for (&e, &k) in &o.0 {
                let v = r.add(m.get(d + e), r.mul(c, k)?)?;
                m.put(r, d + e, v);
            }
        }
        Some(m)
    }
    pub fn map(&self, r: Ring, f: impl Fn(usize, i128) -> Option<i128>) -> Option<Model> {
        let mut m = Model::default();
        for (&d, &c) in &self.0 {
            m.put(r, d, f(d, c)?);
        }
        Some(m)
    }
    pub fn neg(&self, r: Ring) -> Option<Model> {
        self.map(r, |_, c| r.sub(0, c))
    }
    pub fn shl(&self, k: i64) -> Model {
        let mut m = Model::default();
        for (&d, &c) in &self.0 {
            let nd = d as i128 + k as i128;
            if nd >= 0 {
                m.0.insert(nd as usize, c);
            }
        }
        m
    }
    pub fn pow(&self, r: Ring, e: usize) -> Option<Model> {
        let mut m = Model::term(r, 1, 0);
        for _ in 0..e {
            m = m.mul(r, self)?;
        }
        Some(m)
    }
    pub fn eval(&self, r: Ring, x: i128) -> Option<i128> {
        let mut s = 0;
        for (&d, &c) in &self.0 {
            s = r.add(s, r.mul(c, r.pow(x, d)?)?)?;
        }
        Some(s)
    }
    pub fn derivative(&self, r: Ring) -> Option<Model> {
        let mut m = Model::default();
        for (&d, &c) in &self.0 {
            if d > 0 {
                m.put(r, d - 1, r.mul(c, r.norm(d as i128))?);
            }
        }
        Some(m)
    }
    /// With truncating integer division where the ring has it.
    pub fn integral(&self, r: Ring) -> Option<Model> {
        let mut m = Model::default();
        for (&d, &c) in &self.0 {
            m.put(r, d + 1, r.div(c, r.norm(d as i128 + 1))?);
        }
        Some(m)
    }
    /// Field only: the unique quotient and remainder.
    pub fn divmod(&self, r: Ring, o: &Model) -> Option<(Model, Model)> {
        let od = o.deg()?;
        let lead = o.get(od);
        let mut rem = self.clone();
        let mut q = Model::default();
        while let Some(d) = rem.deg() {
            if d < od {
                break;
            }
            let k = r.div(rem.get(d), lead)?;
            q.put(r, d - od, k);
            for (&e, &c) in &o.0 {
                let v = r.sub(rem.get(e + d - od), r.mul(c, k)?)?;
                rem.put(r, e + d - od, v);
            }
        }
        Some((q, rem))
    }
}
