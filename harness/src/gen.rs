//! Case generation: exhaustive small cases, then seeded random ones biased to boundaries and to
//! literals found in the source under test.
use crate::ty::*;
use serde_json::{json, Value};

#[derive(Clone, Debug, Default, PartialEq)]
pub struct Case {
    pub op: String,
    pub ty: String,
    /// Dense coefficient vectors, descending degree.
    pub p: Vec<Vec<i128>>,
    /// Degree -> coefficient lists (maps, term lists, monomials).
    pub m: Vec<Vec<(usize, i128)>>,
    pub n: Vec<i128>,
    pub t: String,
}

impl Case {
    pub fn json(&self) -> Value {
        json!({"op": self.op, "ty": self.ty,
            "p": self.p.iter().map(|v| v.iter().map(|x| x.to_string()).collect::<Vec<_>>()).collect::<Vec<_>>(),
            "m": self.m.iter().map(|v| v.iter().map(|(d, x)| json!([d.to_string(), x.to_string()])).collect::<Vec<_>>()).collect::<Vec<_>>(),
            "n": self.n.iter().map(|x| x.to_string()).collect::<Vec<_>>(),
            "t": self.t})
    }
    pub fn from_json(v: &Value) -> Case {
        let i = |v: &Value| v.as_str().unwrap().parse::<i128>().unwrap();
        let u = |v: &Value| v.as_str().unwrap().parse::<usize>().unwrap();
        Case {
            op: v["op"].as_str().unwrap().into(),
            ty: v["ty"].as_str().unwrap().into(),
            p: v["p"].as_array().unwrap().iter().map(|a| a.as_array().unwrap().iter().map(i).collect()).collect(),
            m: v["m"].as_array().unwrap().iter().map(|a| a.as_array().unwrap().iter().map(|e| (u(&e[0]), i(&e[1]))).collect()).collect(),
            n: v["n"].as_array().unwrap().iter().map(i).collect(),
            t: v["t"].as_str().unwrap().into(),
        }
    }
}

pub struct Gen {
    s: u64,
    pub lits: Vec<i128>,
    pub hot: Vec<i128>,
}

impl Gen {
    pub fn new(seed: u64, lits: Vec<i128>, hot: Vec<i128>) -> Self {
        Gen { s: seed.wrapping_mul(0x9E3779B97F4A7C15) | 1, lits, hot }
    }
    pub fn u(&mut self) -> u64 {
        self.s ^= self.s << 13;
        self.s ^= self.s >> 7;
        self.s ^= self.s << 17;
        self.s.wrapping_mul(0x2545F4914F6CDD1D)
    }
    pub fn below(&mut self, n: usize) -> usize {
        (self.u() >> 11) as usize % n.max(1)
    }
    pub fn p(&mut self, num: usize, den: usize) -> bool {
        self.below(den) < num
    }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T {
        let i = self.below(v.len());
        &v[i]
    }
    /// A literal of the source, give or take one.
    pub fn lit(&mut self) -> Option<i128> {
        let hot = !self.hot.is_empty() && self.p(2, 3);
        let v = if hot { &self.hot } else { &self.lits };
        if v.is_empty() {
            return None;
        }
        let i = (self.s >> 20) as usize % v.len();
        let x = v[i];
        let d = self.below(7) as i128;
        Some(match d {
            0 => x - 1,
            1 => x + 1,
            2 => -x,
            3 => x.saturating_mul(2),
            _ => x,
        })
    }
    pub fn len(&mut self, max: usize) -> usize {
        let l = match self.below(20) {
            0 => 0,
            1 => 1,
            2..=9 => self.below(6),
            10..=13 => 1 + self.below(12),
            14 | 15 => 4 * (1 + self.below(9)),
            16 => 4 * (1 + self.below(9)) + 1,
            17 => self.below(70),
            18 => self.below(300),
            _ => match self.lit() {
                Some(x) if x >= 0 && x <= 5000 => x as usize,
                _ => self.below(40),
            },
        };
        l.min(max)
    }
    /// A value of the type's exact range, of magnitude at most mag.
    pub fn val(&mut self, ty: &str, mag: i128) -> i128 {
        let (lo, hi) = lohi(ty);
        let (lo, hi) = if is_field(ty) { (-hi, hi) } else { (lo.max(-mag), hi.min(mag)) };
        let v = match self.below(16) {
            0..=3 => 0,
            4 | 5 => 1,
            6 => -1,
            7..=10 => self.below(7) as i128 - 3,
            11 | 12 => self.below(201) as i128 - 100,
            13 => match self.below(4) {
                0 => lo,
                1 => hi,
                2 => lo + 1,
                _ => hi - 1,
            },
            14 => self.lit().unwrap_or(2),
            _ => {
                let r = ((self.u() as u128) << 64 | self.u() as u128) as i128;
                let bits = self.below(127) as u32;
                r >> bits
            }
        };
        v.clamp(lo, hi)
    }
    pub fn nz(&mut self, ty: &str, mag: i128) -> i128 {
        for _ in 0..50 {
            let v = self.val(ty, mag);
            let z = match ty {
                "gf3" => v % 3 == 0,
                "gf7" => v % 7 == 0,
                "gf10007" => v % 10007 == 0,
                _ => v == 0,
            };
            if !z {
                return v;
            }
        }
        1
    }
    pub fn dense(&mut self, ty: &str, mag: i128, max: usize) -> Vec<i128> {
        let n = self.len(max);
        let shape = self.below(10);
        let mut v: Vec<i128> = (0..n).map(|_| self.val(ty, mag)).collect();
        match shape {
            0 => v.iter_mut().for_each(|x| *x = 0),
            1 => {
                let k = self.below(n + 1);
                v[..k].iter_mut().for_each(|x| *x = 0);
            }
            2 => {
                let k = self.below(n + 1);
                v[k..].iter_mut().for_each(|x| *x = 0);
            }
            3 if n > 0 => {
                let k = self.below(n);
                let c = self.nz(ty, mag);
                v.iter_mut().for_each(|x| *x = 0);
                v[k] = c;
            }
            4 => {
                for i in 0..n {
                    v[i] = self.nz(ty, mag)
                }
            }
            5 => {
                let c = self.nz(ty, mag);
                for i in 0..n {
                    if self.p(1, 4) {
                        v[i] = c
                    } else {
                        v[i] = 0
                    }
                }
            }
            6 if n > 0 => {
                // leading zeros of a chosen count around multiples of four
                let k = (4 * self.below(4) + self.below(3)).min(n);
                v[..k].iter_mut().for_each(|x| *x = 0);
            }
            _ => {}
        }
        v
    }
    pub fn deg(&mut self, max: usize) -> usize {
        let d = match self.below(12) {
            0 => 0,
            1 => 1,
            2..=6 => self.below(8),
            7 | 8 => self.below(40),
            9 => self.below(2000),
            10 => match self.lit() {
                Some(x) if x >= 0 => usize::try_from(x).unwrap_or(9),
                _ => 5,
            },
            _ => {
                let b = self.below(64) as u32;
                let base = 1usize << b;
                match self.below(3) {
                    0 => base - 1,
                    1 => base,
                    _ => base.saturating_add(1),
                }
            }
        };
        d.min(max)
    }
    /// A map: distinct degrees, ascending; explicit zeros allowed.
    pub fn sparse(&mut self, ty: &str, mag: i128, maxdeg: usize) -> Vec<(usize, i128)> {
        let n = match self.below(8) {
            0 => 0,
            1 => 1,
            2..=5 => self.below(6),
            6 => self.below(12),
            _ => self.below(40),
        };
        let dense = self.p(1, 2);
        let mut m = std::collections::BTreeMap::new();
        for _ in 0..n {
            let d = if dense { self.below(8).min(maxdeg) } else { self.deg(maxdeg) };
            m.insert(d, self.val(ty, mag));
        }
        if self.p(1, 10) {
            for v in m.values_mut() {
                *v = 0
            }
        }
        m.into_iter().collect()
    }
    /// A term list: repeats, zeros, any order.
    pub fn terms(&mut self, ty: &str, mag: i128, maxdeg: usize) -> Vec<(usize, i128)> {
        let n = self.below(9);
        let lim = if self.p(2, 3) { 4.min(maxdeg) } else { maxdeg };
        (0..n).map(|_| (self.deg(lim), self.val(ty, mag))).collect()
    }
}

/// All vectors over vals of length up to n.
pub fn all_vecs(vals: &[i128], n: usize) -> Vec<Vec<i128>> {
    let mut out: Vec<Vec<i128>> = vec![vec![]];
    let mut cur: Vec<Vec<i128>> = vec![vec![]];
    for _ in 0..n {
        let mut nx = vec![];
        for v in &cur {
            for x in vals {
                let mut w = v.clone();
                w.push(*x);
                nx.push(w);
            }
        }
        out.extend(nx.iter().cloned());
        cur = nx;
    }
    out
}

/// All maps with the given degrees, each absent or one of vals.
pub fn all_maps(degs: &[usize], vals: &[i128]) -> Vec<Vec<(usize, i128)>> {
    let mut out: Vec<Vec<(usize, i128)>> = vec![vec![]];
    for d in degs {
        let mut nx = out.clone();
        for m in &out {
            for x in vals {
                let mut w = m.clone();
                w.push((*d, *x));
                nx.push(w);
            }
        }
        out = nx;
    }
    out
}
/// Range of an integer coefficient type; None for floats, residues and pairs of types.
pub fn int_range(ty: &str) -> Option<(i128, i128)> {
    Some(match ty {
        "i8" => (i8::MIN as i128, i8::MAX as i128), "i16" => (i16::MIN as i128, i16::MAX as i128),
        "i32" => (i32::MIN as i128, i32::MAX as i128), "i64" => (i64::MIN as i128, i64::MAX as i128),
        "isize" => (isize::MIN as i128, isize::MAX as i128),
        "u8" => (0, u8::MAX as i128), "u16" => (0, u16::MAX as i128), "u32" => (0, u32::MAX as i128),
        "u64" => (0, u64::MAX as i128), "usize" => (0, usize::MAX as i128), "u128" => (0, i128::MAX),
        _ => return None,
    })
}
