//! Minimal signed big integers (sign + magnitude, base 2^32).
use std::cmp::Ordering;
use std::fmt;

#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub struct Big {
    pub neg: bool,
    pub mag: Vec<u32>,
}

fn trim(v: &mut Vec<u32>) {
    while let Some(0) = v.last() {
        v.pop();
    }
}
fn cmp_mag(a: &[u32], b: &[u32]) -> Ordering {
    if a.len() != b.len() {
        return a.len().cmp(&b.len());
    }
    for i in (0..a.len()).rev() {
        if a[i] != b[i] {
            return a[i].cmp(&b[i]);
        }
    }
    Ordering::Equal
}
fn add_mag(a: &[u32], b: &[u32]) -> Vec<u32> {
    let n = a.len().max(b.len());
    let mut r = Vec::with_capacity(n + 1);
    let mut c = 0u64;
    for i in 0..n {
        let s = c + *a.get(i).unwrap_or(&0) as u64 + *b.get(i).unwrap_or(&0) as u64;
        r.push(s as u32);
        c = s >> 32;
    }
    if c > 0 {
        r.push(c as u32);
    }
    r
}
fn sub_mag(a: &[u32], b: &[u32]) -> Vec<u32> {
    let mut r = Vec::with_capacity(a.len());
    let mut br = 0i64;
    for i in 0..a.len() {
        let mut s = a[i] as i64 - *b.get(i).unwrap_or(&0) as i64 - br;
        br = 0;
        if s < 0 {
            s += 1 << 32;
            br = 1;
        }
        r.push(s as u32);
    }
    trim(&mut r);
    r
}

impl Big {
    pub fn zero() -> Big {
        Big { neg: false, mag: vec![] }
    }
    pub fn one() -> Big {
        Big::from(1)
    }
    pub fn from(x: i128) -> Big {
        let mut m = x.unsigned_abs();
        let mut v = vec![];
        while m > 0 {
            v.push(m as u32);
            m >>= 32;
        }
        Big { neg: x < 0, mag: v }
    }
    pub fn from_u128(x: u128) -> Big {
        let mut m = x;
        let mut v = vec![];
        while m > 0 {
            v.push(m as u32);
            m >>= 32;
        }
        Big { neg: false, mag: v }
    }
    pub fn pow2(k: usize) -> Big {
        let mut v = vec![0u32; k / 32 + 1];
        v[k / 32] = 1 << (k % 32);
        Big { neg: false, mag: v }
    }
    pub fn from_le(b: &[u8]) -> Big {
        let mut v = vec![0u32; b.len() / 4 + 1];
        for (i, x) in b.iter().enumerate() {
            v[i / 4] |= (*x as u32) << (8 * (i % 4));
        }
        trim(&mut v);
        Big { neg: false, mag: v }
    }
    pub fn to_le(&self, n: usize) -> Vec<u8> {
        let mut r = vec![0u8; n];
        for i in 0..n {
            r[i] = (*self.mag.get(i / 4).unwrap_or(&0) >> (8 * (i % 4))) as u8;
        }
        r
    }
    pub fn is_zero(&self) -> bool {
        self.mag.is_empty()
    }
    pub fn bits(&self) -> usize {
        match self.mag.last() {
            None => 0,
            Some(t) => self.mag.len() * 32 - t.leading_zeros() as usize,
        }
    }
    pub fn negate(&self) -> Big {
        Big { neg: !self.neg && !self.is_zero(), mag: self.mag.clone() }
    }
    pub fn add(&self, o: &Big) -> Big {
        if self.neg == o.neg {
            return Big { neg: self.neg, mag: add_mag(&self.mag, &o.mag) };
        }
        match cmp_mag(&self.mag, &o.mag) {
            Ordering::Equal => Big::zero(),
            Ordering::Greater => Big { neg: self.neg, mag: sub_mag(&self.mag, &o.mag) },
            Ordering::Less => Big { neg: o.neg, mag: sub_mag(&o.mag, &self.mag) },
        }
    }
    pub fn sub(&self, o: &Big) -> Big {
        self.add(&o.negate())
    }
    pub fn mul(&self, o: &Big) -> Big {
        if self.is_zero() || o.is_zero() {
            return Big::zero();
        }
        let mut r = vec![0u32; self.mag.len() + o.mag.len()];
        for i in 0..self.mag.len() {
            let mut c = 0u64;
            for j in 0..o.mag.len() {
                let t = self.mag[i] as u64 * o.mag[j] as u64 + r[i + j] as u64 + c;
                r[i + j] = t as u32;
                c = t >> 32;
            }
            r[i + o.mag.len()] = c as u32;
        }
        trim(&mut r);
        Big { neg: self.neg != o.neg, mag: r }
    }
    /// truncated division by magnitude (bitwise long division; sizes here are small)
    pub fn divrem_floor(&self, d: &Big) -> (Big, Big) {
        assert!(!d.is_zero() && !d.neg);
        let (mut q, mut r) = self.abs().udivrem(d);
        if self.neg {
            q = q.negate();
            if !r.is_zero() {
                q = q.sub(&Big::one());
                r = d.sub(&r);
            }
        }
        (q, r)
    }
    pub fn abs(&self) -> Big {
        Big { neg: false, mag: self.mag.clone() }
    }
    fn udivrem(&self, d: &Big) -> (Big, Big) {
        if cmp_mag(&self.mag, &d.mag) == Ordering::Less {
            return (Big::zero(), self.clone());
        }
        if d.mag.len() == 1 {
            let dd = d.mag[0] as u64;
            let mut q = vec![0u32; self.mag.len()];
            let mut rem = 0u64;
            for i in (0..self.mag.len()).rev() {
                let cur = (rem << 32) | self.mag[i] as u64;
                q[i] = (cur / dd) as u32;
                rem = cur % dd;
            }
            trim(&mut q);
            return (Big { neg: false, mag: q }, Big::from(rem as i128));
        }
        let mut q = vec![0u32; self.mag.len()];
        let mut r = Big::zero();
        for i in (0..self.bits()).rev() {
            // r = r*2 + bit
            let mut c = (self.mag[i / 32] >> (i % 32)) & 1;
            for x in r.mag.iter_mut() {
                let n = *x >> 31;
                *x = (*x << 1) | c;
                c = n;
            }
            if c > 0 {
                r.mag.push(c);
            }
            if cmp_mag(&r.mag, &d.mag) != Ordering::Less {
                r.mag = sub_mag(&r.mag, &d.mag);
                q[i / 32] |= 1 << (i % 32);
            }
        }
        trim(&mut q);
        (Big { neg: false, mag: q }, r)
    }
    pub fn rem_euclid(&self, d: &Big) -> Big {
        self.divrem_floor(d).1
    }
    pub fn powmod(&self, e: &Big, m: &Big) -> Big {
        let mut r = Big::one();
        let b = self.rem_euclid(m);
        for i in (0..e.bits()).rev() {
            r = r.mul(&r).rem_euclid(m);
            if (e.mag[i / 32] >> (i % 32)) & 1 == 1 {
                r = r.mul(&b).rem_euclid(m);
            }
        }
        r
    }
    pub fn divides_pow2(&self, k: usize) -> bool {
        // 2^k | self
        if self.is_zero() {
            return true;
        }
        for i in 0..k {
            if i / 32 >= self.mag.len() {
                return false;
            }
            if (self.mag[i / 32] >> (i % 32)) & 1 == 1 {
                return false;
            }
        }
        true
    }
    pub fn to_i128(&self) -> Option<i128> {
        if self.bits() > 126 {
            return None;
        }
        let mut r = 0i128;
        for (i, x) in self.mag.iter().enumerate() {
            r |= (*x as i128) << (32 * i);
        }
        Some(if self.neg { -r } else { r })
    }
    pub fn parse(s: &str) -> Big {
        let s = s.trim();
        let (neg, d) = if let Some(x) = s.strip_prefix('-') { (true, x) } else { (false, s) };
        let mut r = Big::zero();
        let ten = Big::from(10);
        for c in d.bytes() {
            if c.is_ascii_digit() {
                r = r.mul(&ten).add(&Big::from((c - b'0') as i128));
            }
        }
        if neg {
            r.negate()
        } else {
            r
        }
    }
    pub fn cmp(&self, o: &Big) -> Ordering {
        match (self.neg, o.neg) {
            (false, true) => Ordering::Greater,
            (true, false) => Ordering::Less,
            (false, false) => cmp_mag(&self.mag, &o.mag),
            (true, true) => cmp_mag(&o.mag, &self.mag),
        }
    }
    pub fn lt(&self, o: &Big) -> bool {
        self.cmp(o) == Ordering::Less
    }
    pub fn le(&self, o: &Big) -> bool {
        self.cmp(o) != Ordering::Greater
    }
    pub fn min(a: &Big, b: &Big) -> Big {
        if a.le(b) {
            a.clone()
        } else {
            b.clone()
        }
    }
    pub fn max(a: &Big, b: &Big) -> Big {
        if a.le(b) {
            b.clone()
        } else {
            a.clone()
        }
    }
    pub fn dec(&self) -> String {
        if self.is_zero() {
            return "0".into();
        }
        let mut parts = vec![];
        let mut x = self.abs();
        let d = Big::from(1_000_000_000);
        while !x.is_zero() {
            let (q, r) = x.udivrem(&d);
            parts.push(*r.mag.first().unwrap_or(&0));
            x = q;
        }
        let mut s = String::new();
        if self.neg {
            s.push('-');
        }
        s += &parts.pop().unwrap().to_string();
        while let Some(p) = parts.pop() {
            s += &format!("{:09}", p);
        }
        s
    }
    pub fn smt(&self) -> String {
        if self.neg {
            format!("(- {})", self.abs().dec())
        } else {
            self.dec()
        }
    }
}
impl fmt::Display for Big {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        write!(f, "{}", self.dec())
    }
}
