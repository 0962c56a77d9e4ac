//! Four-state bit vectors (IEEE 1800 encoding: 0=(0,0) 1=(1,0) z=(0,1) x=(1,1)).
use num_bigint::{BigInt, BigUint, Sign};

#[derive(Clone, PartialEq, Eq, Debug, Hash)]
pub struct V {
    pub w: usize,
    pub a: Vec<u64>,
    pub b: Vec<u64>,
}

fn nw(w: usize) -> usize {
    (w + 63) / 64
}

impl V {
    pub fn zero(w: usize) -> V {
        V { w, a: vec![0; nw(w)], b: vec![0; nw(w)] }
    }
    pub fn x(w: usize) -> V {
        let mut r = V { w, a: vec![!0; nw(w)], b: vec![!0; nw(w)] };
        r.mask();
        r
    }
    pub fn z(w: usize) -> V {
        let mut r = V { w, a: vec![0; nw(w)], b: vec![!0; nw(w)] };
        r.mask();
        r
    }
    pub fn bit(v: bool) -> V {
        V { w: 1, a: vec![v as u64], b: vec![0] }
    }
    pub fn from_u64(w: usize, v: u64) -> V {
        let mut r = V::zero(w);
        if w > 0 {
            r.a[0] = v;
        }
        r.mask();
        r
    }
    pub fn from_bigu(w: usize, v: &BigUint) -> V {
        let mut r = V::zero(w);
        for (i, d) in v.to_u64_digits().into_iter().enumerate() {
            if i < r.a.len() {
                r.a[i] = d;
            }
        }
        r.mask();
        r
    }
    pub fn from_bigi(w: usize, v: &BigInt) -> V {
        if v.sign() == Sign::Minus {
            let m = BigInt::from(1) << w;
            let mut t = v % &m;
            if t.sign() == Sign::Minus {
                t += &m;
            }
            V::from_bigu(w, t.magnitude())
        } else {
            V::from_bigu(w, v.magnitude())
        }
    }
    /// MSB-first string of 0 1 x z
    pub fn from_bits(s: &str) -> V {
        let cs: Vec<char> = s.chars().filter(|c| *c != '_').collect();
        let w = cs.len();
        let mut r = V::zero(w);
        for (i, c) in cs.iter().rev().enumerate() {
            let (a, b) = match c {
                '0' => (0, 0),
                '1' => (1, 0),
                'z' | 'Z' | '?' => (0, 1),
                _ => (1, 1),
            };
            r.set(i, a, b);
        }
        r
    }
    pub fn to_bits(&self) -> String {
        (0..self.w)
            .rev()
            .map(|i| match self.get(i) {
                (0, 0) => '0',
                (1, 0) => '1',
                (0, 1) => 'z',
                _ => 'x',
            })
            .collect()
    }
    pub fn mask(&mut self) {
        let r = self.w % 64;
        if r != 0 {
            let m = (1u64 << r) - 1;
            let l = self.a.len() - 1;
            self.a[l] &= m;
            self.b[l] &= m;
        }
    }
    #[inline]
    pub fn get(&self, i: usize) -> (u64, u64) {
        if i >= self.w {
            return (1, 1);
        }
        ((self.a[i / 64] >> (i % 64)) & 1, (self.b[i / 64] >> (i % 64)) & 1)
    }
    #[inline]
    pub fn set(&mut self, i: usize, a: u64, b: u64) {
        if i >= self.w {
            return;
        }
        let m = 1u64 << (i % 64);
        if a != 0 {
            self.a[i / 64] |= m
        } else {
            self.a[i / 64] &= !m
        }
        if b != 0 {
            self.b[i / 64] |= m
        } else {
            self.b[i / 64] &= !m
        }
    }
    pub fn has_xz(&self) -> bool {
        self.b.iter().any(|d| *d != 0)
    }
    pub fn ext(&self, w: usize, signed: bool) -> V {
        if w == self.w {
            return self.clone();
        }
        let mut r = V::zero(w);
        if w < self.w {
            for i in 0..r.a.len() {
                r.a[i] = self.a[i];
                r.b[i] = self.b[i];
            }
            r.mask();
            return r;
        }
        for i in 0..self.a.len() {
            r.a[i] = self.a[i];
            r.b[i] = self.b[i];
        }
        if signed && self.w > 0 {
            let (a, b) = self.get(self.w - 1);
            if a != 0 || b != 0 {
                for i in self.w..w {
                    r.set(i, a, b);
                }
            }
        }
        r
    }
    pub fn to_bigu(&self) -> BigUint {
        let mut v = Vec::with_capacity(self.a.len() * 2);
        for d in &self.a {
            v.push(*d as u32);
            v.push((*d >> 32) as u32);
        }
        BigUint::new(v)
    }
    pub fn to_bigi(&self, signed: bool) -> BigInt {
        let u = BigInt::from(self.to_bigu());
        if signed && self.w > 0 && self.get(self.w - 1).0 == 1 {
            u - (BigInt::from(1) << self.w)
        } else {
            u
        }
    }
    pub fn to_usize(&self) -> Option<usize> {
        if self.has_xz() {
            return None;
        }
        if self.a.iter().skip(1).any(|d| *d != 0) {
            return Some(usize::MAX / 4);
        }
        let v = self.a.first().copied().unwrap_or(0);
        if v > (usize::MAX / 4) as u64 { Some(usize::MAX / 4) } else { Some(v as usize) }
    }
    /// Some(true) if any bit is 1; Some(false) if all 0; None otherwise
    pub fn truth(&self) -> Option<bool> {
        let mut unknown = false;
        for i in 0..self.a.len() {
            if self.a[i] & !self.b[i] != 0 {
                return Some(true);
            }
            if self.b[i] != 0 {
                unknown = true;
            }
        }
        if unknown { None } else { Some(false) }
    }
    pub fn slice(&self, lo: i64, w: usize) -> V {
        let mut r = V::zero(w);
        for i in 0..w {
            let k = lo + i as i64;
            let (a, b) = if k < 0 { (1, 1) } else { self.get(k as usize) };
            r.set(i, a, b);
        }
        r
    }
    pub fn put(&mut self, lo: usize, v: &V) {
        for i in 0..v.w {
            let (a, b) = v.get(i);
            self.set(lo + i, a, b);
        }
    }
    pub fn concat(parts: &[V]) -> V {
        let w = parts.iter().map(|p| p.w).sum();
        let mut r = V::zero(w);
        let mut pos = 0;
        for p in parts.iter().rev() {
            r.put(pos, p);
            pos += p.w;
        }
        r
    }
    pub fn tri(v: Option<bool>) -> V {
        match v {
            Some(b) => V::bit(b),
            None => V::x(1),
        }
    }
    /// resolution of two drivers on a tri-state net, per bit
    pub fn resolve(&self, o: &V) -> V {
        let mut r = V::zero(self.w);
        for i in 0..self.w {
            let p = self.get(i);
            let q = o.get(i);
            let v = if p == (0, 1) {
                q
            } else if q == (0, 1) {
                p
            } else if p == q {
                p
            } else {
                (1, 1)
            };
            r.set(i, v.0, v.1);
        }
        r
    }
    pub fn bitwise(&self, o: &V, f: impl Fn((u64, u64), (u64, u64)) -> (u64, u64)) -> V {
        let mut r = V::zero(self.w);
        for i in 0..self.w {
            let v = f(self.get(i), o.get(i));
            r.set(i, v.0, v.1);
        }
        r
    }
}
