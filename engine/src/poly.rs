//! Polynomial normal form of field terms: sums of monomials over atoms (variables, decodings,
//! conditional terms, inverses of sums). a^m = a, so exponents live in 1..m-1 and inv(a) = a^(m-2).
use crate::big::Big;
use crate::term::*;
use std::collections::{BTreeMap, HashMap, HashSet};
use std::rc::Rc;

pub type M = Vec<(T, Big)>;
/// side knowledge about atoms: invertible ones, and squares that are rewritten (y^2 -> polynomial)
#[derive(Default)]
pub struct Rules {
    pub nz: HashSet<T>,
    pub sq: HashMap<T, (Rc<P>, T)>,
}
pub type P = BTreeMap<Vec<(T, Big2)>, Big>;
/// exponent, ordered
#[derive(Clone, PartialEq, Eq, Debug, Hash)]
pub struct Big2(pub Big);
impl PartialOrd for Big2 {
    fn partial_cmp(&self, o: &Self) -> Option<std::cmp::Ordering> {
        Some(self.cmp(o))
    }
}
impl Ord for Big2 {
    fn cmp(&self, o: &Self) -> std::cmp::Ordering {
        self.0.cmp(&o.0)
    }
}
const CAP: usize = 1500;

fn addm(p: &mut P, k: Vec<(T, Big2)>, c: Big, m: &Big) {
    let e = p.entry(k.clone()).or_insert(Big::zero());
    *e = e.add(&c).rem_euclid(m);
    if e.is_zero() {
        p.remove(&k);
    }
}
fn mulm(a: &[(T, Big2)], b: &[(T, Big2)], m: &Big, nz: &Rules) -> Vec<(T, Big2)> {
    let mut r: Vec<(T, Big2)> = Vec::with_capacity(a.len() + b.len());
    let (mut i, mut j) = (0, 0);
    let m1 = m.sub(&Big::one());
    while i < a.len() || j < b.len() {
        if j >= b.len() || (i < a.len() && a[i].0 < b[j].0) {
            r.push(a[i].clone());
            i += 1;
        } else if i >= a.len() || b[j].0 < a[i].0 {
            r.push(b[j].clone());
            j += 1;
        } else {
            let mut e = a[i].1 .0.add(&b[j].1 .0);
            while m1.lt(&e) {
                e = e.sub(&m1);
            }
            // a^(m-1) = 1 for elements known to be invertible
            if !(e == m1 && nz.nz.contains(&a[i].0)) {
                r.push((a[i].0, Big2(e)));
            }
            i += 1;
            j += 1;
        }
    }
    r
}
fn pmul(a: &P, b: &P, m: &Big, nz: &Rules) -> Option<P> {
    if a.len() * b.len() > 4 * CAP {
        return None;
    }
    let mut r = P::new();
    for (ka, ca) in a {
        for (kb, cb) in b {
            let k = mulm(ka, kb, m, nz);
            let c = ca.mul(cb);
            let red = if nz.sq.is_empty() { None } else { k.iter().position(|(v, e)| nz.sq.contains_key(v) && Big::one().lt(&e.0) && e.0.bits() <= 12) };
            match red {
                None => addm(&mut r, k, c, m),
                Some(i) => {
                    // y^e = y^(e mod 2) (y^2)^(e/2)
                    let (v, e) = (k[i].0, k[i].1 .0.to_i128().unwrap());
                    let mut kk = k.clone();
                    if e % 2 == 0 {
                        kk.remove(i);
                    } else {
                        kk[i].1 = Big2(Big::one());
                    }
                    let mut q = P::new();
                    addm(&mut q, kk, c, m);
                    let rule = nz.sq[&v].0.clone();
                    for _ in 0..e / 2 {
                        q = pmul(&q, &rule, m, nz)?;
                    }
                    for (k, c) in q {
                        addm(&mut r, k, c, m);
                    }
                }
            }
        }
    }
    if r.len() > CAP {
        return None;
    }
    Some(r)
}

impl Ctx {
    /// normal form, or None when it would be too large
    pub fn fpoly(&mut self, t: T) -> Option<Rc<P>> {
        if let Some(r) = self.pcache.get(&t) {
            return r.clone();
        }
        // iterative over the additive/multiplicative spine
        let mut st = vec![(t, false)];
        while let Some((x, done)) = st.pop() {
            if self.pcache.contains_key(&x) {
                continue;
            }
            let n = self.node(x);
            let kids: Vec<T> = match n.op {
                O::FAdd | O::FMul => vec![n.a, n.b],
                O::FNeg | O::FInv => vec![n.a],
                _ => vec![],
            };
            if !done && !kids.is_empty() {
                st.push((x, true));
                for k in kids {
                    st.push((k, false));
                }
                continue;
            }
            let r = self.fpoly1(x);
            self.pcache.insert(x, r);
        }
        self.pcache[&t].clone()
    }
    fn atom(x: T) -> P {
        let mut p = P::new();
        p.insert(vec![(x, Big2(Big::one()))], Big::one());
        p
    }
    fn fpoly1(&mut self, x: T) -> Option<Rc<P>> {
        let n = self.node(x);
        let mi = match n.s {
            Sort::F(m) => m,
            _ => return None,
        };
        let m = self.mods[mi as usize].clone();
        let get = |c: &Ctx, t: T| -> Option<Rc<P>> { c.pcache.get(&t).cloned().flatten() };
        let r: P = match n.op {
            O::FConst => {
                let v = self.bigs[n.a as usize].clone();
                let mut p = P::new();
                if !v.is_zero() {
                    p.insert(vec![], v);
                }
                p
            }
            O::FAdd => {
                let (a, b) = (get(self, n.a)?, get(self, n.b)?);
                if a.len() + b.len() > CAP {
                    return None;
                }
                let mut p = (*a).clone();
                for (k, c) in b.iter() {
                    addm(&mut p, k.clone(), c.clone(), &m);
                }
                p
            }
            O::FMul => {
                let (a, b) = (get(self, n.a)?, get(self, n.b)?);
                let p = pmul(&a, &b, &m, &self.rules)?;
                if p.len() > CAP {
                    return None;
                }
                p
            }
            O::FNeg => {
                let a = get(self, n.a)?;
                a.iter().map(|(k, c)| (k.clone(), c.negate().rem_euclid(&m))).collect()
            }
            O::FInv => {
                let a = get(self, n.a)?;
                if a.is_empty() {
                    P::new()
                } else if a.len() == 1 {
                    let (k, c) = a.iter().next().unwrap();
                    let m1 = m.sub(&Big::one());
                    let e2 = m.sub(&Big::from(2));
                    let kk: Vec<(T, Big2)> = k
                        .iter()
                        .map(|(v, e)| {
                            // a^(e (m-2)) with exponents in 1..m-1
                            let z = e.0.mul(&e2).rem_euclid(&m1);
                            (*v, Big2(if z.is_zero() { m1.clone() } else { z }))
                        })
                        .collect();
                    let mut p = P::new();
                    p.insert(kk, c.powmod(&e2, &m));
                    p
                } else {
                    // inverse of a sum: atom over the monic sum
                    let (lead, monic) = Self::monic(&a, &m);
                    let node = self.fnode(&monic, mi);
                    let inv = self.finv_raw(node, mi);
                    let mut p = P::new();
                    p.insert(vec![(inv, Big2(Big::one()))], lead.powmod(&m.sub(&Big::from(2)), &m));
                    p
                }
            }
            _ => Self::atom(x),
        };
        Some(Rc::new(r))
    }
    fn monic(a: &P, m: &Big) -> (Big, P) {
        let lead = a.iter().next_back().unwrap().1.clone();
        let li = lead.powmod(&m.sub(&Big::from(2)), m);
        (lead, a.iter().map(|(k, c)| (k.clone(), c.mul(&li).rem_euclid(m))).collect())
    }
    /// a term for a normal form
    pub fn fnode(&mut self, p: &P, mi: u8) -> T {
        let m = self.mods[mi as usize].clone();
        let m1 = m.sub(&Big::one());
        let half = m.divrem_floor(&Big::from(2)).0;
        let mut acc: Option<T> = None;
        for (k, c) in p {
            let mut t: Option<T> = None;
            for (v, e) in k {
                let (base, e) = if half.lt(&e.0) { (self.finv(*v), m1.sub(&e.0)) } else { (*v, e.0.clone()) };
                let b = if e.is_zero() {
                    // a^(m-1)
                    let i = self.finv(*v);
                    self.fmul_raw(*v, i, mi)
                } else {
                    self.fpow(base, &e, mi)
                };
                t = Some(match t {
                    None => b,
                    Some(y) => self.fmul_raw(y, b, mi),
                });
            }
            let cc = self.fk(c, mi);
            let term = match t {
                None => cc,
                Some(y) => {
                    if *c == Big::one() {
                        y
                    } else {
                        self.fmul_raw(cc, y, mi)
                    }
                }
            };
            acc = Some(match acc {
                None => term,
                Some(z) => self.fadd_raw(z, term, mi),
            });
        }
        match acc {
            Some(t) => t,
            None => self.fk(&Big::zero(), mi),
        }
    }
    fn fpow(&mut self, b: T, e: &Big, mi: u8) -> T {
        let n = e.bits();
        let mut r: Option<T> = None;
        for i in (0..n).rev() {
            if let Some(x) = r {
                r = Some(self.fmul_raw(x, x, mi));
            }
            let bit = (e.mag[i / 32] >> (i % 32)) & 1;
            if bit == 1 {
                r = Some(match r {
                    None => b,
                    Some(x) => self.fmul_raw(x, b, mi),
                });
            }
        }
        r.unwrap()
    }
    /// canonical representative of a field term (the term itself when its normal form is too large)
    pub fn fcanon(&mut self, t: T) -> T {
        if let Sort::F(mi) = self.sort(t) {
            if let Some(c) = self.ccache.get(&t) {
                return *c;
            }
            let r = match self.fpoly(t) {
                Some(p) if p.len() <= 200 => self.fnode(&p, mi),
                _ => t,
            };
            self.ccache.insert(t, r);
            // the canonical node has the same normal form
            if r != t {
                self.ccache.insert(r, r);
            }
            return r;
        }
        t
    }
    /// a = b over a field, simplified through the normal form
    pub fn feq(&mut self, a: T, b: T) -> Option<T> {
        let mi = match self.sort(a) {
            Sort::F(m) => m,
            _ => return None,
        };
        let m = self.mods[mi as usize].clone();
        let nb = self.fneg(b);
        let d = self.fadd(a, nb);
        let p = self.fpoly(d)?;
        if p.is_empty() {
            return Some(self.tt);
        }
        if p.len() == 1 {
            let (k, _) = p.iter().next().unwrap();
            let atoms: Vec<T> = k.iter().map(|x| x.0).collect();
            let zero = self.fk(&Big::zero(), mi);
            let mut r = self.ff;
            for x in atoms {
                let n = self.node(x);
                if self.rules.nz.contains(&x) {
                    continue;
                }
                let e = if n.op == O::FInv {
                    // inverse of a sum vanishes with the sum
                    self.feq(n.a, zero).unwrap_or_else(|| self.eq_raw(n.a, zero))
                } else if n.op == O::Ite {
                    let x1 = self.eq(n.b, zero);
                    let x2 = self.eq(n.c, zero);
                    self.ite(n.a, x1, x2)
                } else {
                    self.eq_raw(x, zero)
                };
                r = self.or(r, e);
            }
            return Some(r);
        }
        if p.len() > 300 {
            return None;
        }
        let (_, mo) = Self::monic(&p, &m);
        let node = self.fnode(&mo, mi);
        let zero = self.fk(&Big::zero(), mi);
        Some(self.eq_raw(node, zero))
    }
}
