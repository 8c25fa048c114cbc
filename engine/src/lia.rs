//! Integer reasoning: bit-vector terms are translated to integer polynomials, so that arithmetic
//! kernels (limb products, carries) become integer constraints for an LIA solver.
//! Products of unknowns are abstracted by bounded integer unknowns: "unsat" is sound, "sat" is only
//! reported after the model has been evaluated on the original bit-vector terms.
use crate::big::Big;
use crate::exec::Exec;
use crate::solver::*;
use crate::term::*;
use std::collections::{BTreeMap, HashMap, HashSet};
use std::time::Instant;

#[derive(Default, Clone)]
pub struct LiaStats {
    pub queries: u64,
    pub unsat: u64,
    pub sat: u64,
    pub spurious: u64,
    pub unknown: u64,
    pub monomials: u64,
    pub equations: u64,
    pub time: f64,
    pub trivial: u64,
}
type Mono = Vec<u32>;
pub type Poly = BTreeMap<Mono, Big>;

fn pconst(k: &Big) -> Poly {
    let mut p = Poly::new();
    if !k.is_zero() {
        p.insert(vec![], k.clone());
    }
    p
}
fn pvar(v: u32) -> Poly {
    let mut p = Poly::new();
    p.insert(vec![v], Big::one());
    p
}
fn padd(a: &Poly, b: &Poly, kb: &Big) -> Poly {
    let mut r = a.clone();
    for (m, c) in b {
        let x = c.mul(kb);
        let n = match r.get(m) {
            Some(y) => y.add(&x),
            None => x,
        };
        if n.is_zero() {
            r.remove(m);
        } else {
            r.insert(m.clone(), n);
        }
    }
    r
}
fn pscale(a: &Poly, k: &Big) -> Poly {
    padd(&Poly::new(), a, k)
}
fn pmul(a: &Poly, b: &Poly) -> Poly {
    let mut r = Poly::new();
    for (m, c) in a {
        for (n, d) in b {
            let mut mm = m.clone();
            mm.extend(n);
            mm.sort();
            let x = c.mul(d);
            let y = match r.get(&mm) {
                Some(y) => y.add(&x),
                None => x,
            };
            if y.is_zero() {
                r.remove(&mm);
            } else {
                r.insert(mm, y);
            }
        }
    }
    r
}
fn is_const(p: &Poly) -> Option<Big> {
    if p.is_empty() {
        return Some(Big::zero());
    }
    if p.len() == 1 {
        if let Some(c) = p.get(&vec![]) {
            return Some(c.clone());
        }
    }
    None
}

#[derive(Clone)]
struct IVar {
    lo: Big,
    hi: Big,
    term: Option<T>,
    /// 2^k * this = B - r
    dec: Option<(usize, Poly, Poly)>,
    /// this = B - 2^k q
    rem: Option<Poly>,
}
type Iv = (Big, Big);

struct Tr<'a> {
    tm: &'a Ctx,
    vars: Vec<IVar>,
    poly: HashMap<T, Poly>,
    exu: HashMap<T, Poly>,
    exs: HashMap<T, Poly>,
    bools: HashMap<T, String>,
    /// constraints with the variables they define (empty: always kept)
    side: Vec<(String, Vec<u32>)>,
    cuts: HashMap<Poly, std::collections::BTreeSet<usize>>,
    eqs: u64,
    monos: BTreeMap<Mono, Iv>,
    fdiv: HashMap<(Poly, usize), (Poly, Poly)>,
    err: Option<String>,
    iv_over: HashMap<Poly, Iv>,
}

impl<'a> Tr<'a> {
    fn newvar(&mut self, lo: Big, hi: Big, term: Option<T>) -> u32 {
        self.vars.push(IVar { lo, hi, term, dec: None, rem: None });
        self.vars.len() as u32 - 1
    }
    fn mono_iv(&self, m: &Mono) -> Iv {
        let mut lo = Big::one();
        let mut hi = Big::one();
        let mut i = 0;
        while i < m.len() {
            let v = &self.vars[m[i] as usize];
            let (l, h) = if i + 1 < m.len() && m[i + 1] == m[i] {
                // square
                i += 1;
                let (a, b) = (v.lo.mul(&v.lo), v.hi.mul(&v.hi));
                let mx = Big::max(&a, &b);
                let mn = if v.lo.le(&Big::zero()) && Big::zero().le(&v.hi) { Big::zero() } else { Big::min(&a, &b) };
                (mn, mx)
            } else {
                (v.lo.clone(), v.hi.clone())
            };
            i += 1;
            let c = [lo.mul(&l), lo.mul(&h), hi.mul(&l), hi.mul(&h)];
            lo = c.iter().fold(c[0].clone(), |a, b| Big::min(&a, b));
            hi = c.iter().fold(c[0].clone(), |a, b| Big::max(&a, b));
        }
        (lo, hi)
    }
    fn iv(&self, p: &Poly) -> Iv {
        let mut lo = Big::zero();
        let mut hi = Big::zero();
        for (m, c) in p {
            let (a, b) = self.mono_iv(m);
            let (x, y) = (a.mul(c), b.mul(c));
            lo = lo.add(&Big::min(&x, &y));
            hi = hi.add(&Big::max(&x, &y));
        }
        if let Some((l, h)) = self.iv_over.get(p) {
            return (Big::max(&lo, l), Big::min(&hi, h));
        }
        (lo, hi)
    }
    /// rewrite 2^k q -> B - r where that makes the polynomial smaller
    fn norm(&self, mut p: Poly) -> Poly {
        loop {
            let mut best: Option<Poly> = None;
            for (m, c) in &p {
                if m.len() != 1 {
                    continue;
                }
                if let Some((k, b, r)) = &self.vars[m[0] as usize].dec {
                    if c.divides_pow2(*k) {
                        let kk = c.divrem_floor(&Big::pow2(*k)).0;
                        let mut q = p.clone();
                        q.remove(m);
                        let q = padd(&q, b, &kk);
                        let q = padd(&q, r, &kk.negate());
                        if q.len() < p.len() && best.as_ref().map(|x| q.len() < x.len()).unwrap_or(true) {
                            best = Some(q);
                        } else if q.len() == p.len() && best.is_none() {
                            let (a, b) = (self.iv(&p), self.iv(&q));
                            if b.1.sub(&b.0).lt(&a.1.sub(&a.0)) {
                                best = Some(q);
                            }
                        }
                    }
                }
            }
            match best {
                Some(q) => p = q,
                None => return p,
            }
        }
    }
    /// floor division by 2^k: (quotient, remainder)
    fn floordiv(&mut self, p: &Poly, k: usize) -> (Poly, Poly) {
        if k == 0 {
            return (p.clone(), Poly::new());
        }
        if let Some(r) = self.fdiv.get(&(p.clone(), k)) {
            return r.clone();
        }
        if p.is_empty() {
            return (Poly::new(), Poly::new());
        }
        let j = Self::tz(p).min(k);
        if j > 0 {
            // common power of two: floor(2^j p' / 2^k)
            let mut pp = Poly::new();
            for (mo, c) in p {
                pp.insert(mo.clone(), c.divrem_floor(&Big::pow2(j)).0);
            }
            let (q, r) = self.floordiv(&pp, k - j);
            return (q, pscale(&r, &Big::pow2(j)));
        }
        // disjoint bit fields: cut the one field that straddles bit k, so that slices are named per field
        if p.len() > 1 {
            let m = Big::pow2(k);
            let mut hi = Poly::new();
            let mut lo: Vec<(Mono, Big)> = Vec::new();
            for (mo, c) in p {
                let (q, r) = c.divrem_floor(&m);
                if r.is_zero() {
                    hi.insert(mo.clone(), q);
                } else {
                    lo.push((mo.clone(), c.clone()));
                }
            }
            lo.sort_by(|a, b| if a.1.lt(&b.1) { std::cmp::Ordering::Less } else if b.1.lt(&a.1) { std::cmp::Ordering::Greater } else { std::cmp::Ordering::Equal });
            let mut ok = !lo.is_empty() && lo.iter().all(|(mo, c)| mo.len() == 1 && Big::zero().lt(c) && Big::zero().le(&self.vars[mo[0] as usize].lo));
            let mut acc = Big::zero();
            if ok {
                for (mo, c) in lo.iter() {
                    if !acc.lt(c) {
                        ok = false;
                        break;
                    }
                    acc = acc.add(&c.mul(&self.vars[mo[0] as usize].hi));
                }
            }
            if ok && acc.lt(&m) {
                let mut r = Poly::new();
                for (mo, c) in lo {
                    r.insert(mo, c);
                }
                let res = (hi, r);
                self.fdiv.insert((p.clone(), k), res.clone());
                return res;
            }
            if ok && (lo.len() > 1 || !hi.is_empty()) {
                let (mo, c) = lo.pop().unwrap();
                let e = c.bits() - 1;
                if c == Big::pow2(e) && e < k {
                    let (qs, rs) = self.floordiv(&pvar(mo[0]), k - e);
                    let mut r = Poly::new();
                    for (mo, c) in lo {
                        r.insert(mo, c);
                    }
                    let res = (padd(&hi, &qs, &Big::one()), padd(&r, &rs, &c));
                    self.fdiv.insert((p.clone(), k), res.clone());
                    return res;
                }
            }
        }
        // a value already cut elsewhere is cut consistently, so that equal bit slices get equal names
        if let Some(cs) = self.cuts.get(p) {
            let below = cs.range(..k).next_back().cloned();
            let above = cs.range(k + 1..).next().cloned();
            let res = if let Some(j) = below {
                let (qj, rj) = self.fdiv[&(p.clone(), j)].clone();
                let (q, r) = self.floordiv(&qj, k - j);
                Some((q, padd(&rj, &r, &Big::pow2(j))))
            } else if let Some(j) = above {
                let (qj, rj) = self.fdiv[&(p.clone(), j)].clone();
                let (q2, r2) = self.floordiv(&rj, k);
                Some((padd(&q2, &qj, &Big::pow2(j - k)), r2))
            } else {
                None
            };
            if let Some(res) = res {
                self.fdiv.insert((p.clone(), k), res.clone());
                self.cuts.get_mut(p).unwrap().insert(k);
                return res;
            }
        }
        let m = Big::pow2(k);
        let mut a = Poly::new();
        let mut b = Poly::new();
        for (mo, c) in p {
            let (q, r) = c.divrem_floor(&m);
            if mo.is_empty() || r.is_zero() {
                if !q.is_zero() {
                    a.insert(mo.clone(), q);
                }
                if !r.is_zero() {
                    b.insert(mo.clone(), r);
                }
            } else {
                b.insert(mo.clone(), c.clone());
            }
        }
        // keep small remainders where the constant was: prefer interval [0,2^k)
        let (lo, hi) = self.iv(&b);
        let (ql, qh) = (lo.divrem_floor(&m).0, hi.divrem_floor(&m).0);
        let res = if ql == qh {
            let q = padd(&a, &pconst(&ql), &Big::one());
            let r = padd(&b, &pconst(&ql.mul(&m)), &Big::from(-1));
            (q, r)
        } else {
            let q = self.newvar(ql, qh, None);
            let r = self.newvar(Big::zero(), m.sub(&Big::one()), None);
            let (pq, pr) = (pvar(q), pvar(r));
            self.vars[q as usize].dec = Some((k, b.clone(), pr.clone()));
            self.vars[r as usize].rem = Some(padd(&b, &pq, &m.negate()));
            // B = 2^k q + r
            let e = padd(&padd(&b, &pq, &m.negate()), &pr, &Big::from(-1));
            self.eq0(&e, vec![q, r]);
            (padd(&a, &pq, &Big::one()), pr)
        };
        self.fdiv.insert((p.clone(), k), res.clone());
        self.cuts.entry(p.clone()).or_default().insert(k);
        res
    }
    fn redmod(&self, x: &Poly, m: &Big) -> Poly {
        let half = m.divrem_floor(&Big::from(2)).0;
        let mut red = Poly::new();
        for (mo, c) in x {
            let r = c.rem_euclid(m);
            let r = if half.lt(&r) { r.sub(m) } else { r };
            if !r.is_zero() {
                red.insert(mo.clone(), r);
            }
        }
        red
    }
    /// replace remainders r by B - 2^k q throughout, coefficients modulo m
    fn elim(&self, x: &Poly, m: &Big) -> Poly {
        let mut x = x.clone();
        for _ in 0..5000 {
            let mut top: Option<u32> = None;
            for mo in x.keys() {
                for v in mo {
                    if self.vars[*v as usize].rem.is_some() && top.map(|t| *v > t).unwrap_or(true) {
                        top = Some(*v);
                    }
                }
            }
            let t = match top {
                Some(t) => t,
                None => break,
            };
            let b = self.vars[t as usize].rem.clone().unwrap();
            let mut out = Poly::new();
            for (mo, c) in &x {
                let n = mo.iter().filter(|v| **v == t).count();
                if n == 0 {
                    let e = out.entry(mo.clone()).or_insert(Big::zero());
                    *e = e.add(c);
                    continue;
                }
                let rest: Mono = mo.iter().cloned().filter(|v| *v != t).collect();
                let mut q = Poly::new();
                q.insert(rest, c.clone());
                for _ in 0..n {
                    q = pmul(&q, &b);
                }
                for (mm, cc) in q {
                    let e = out.entry(mm).or_insert(Big::zero());
                    *e = e.add(&cc);
                }
            }
            x = self.redmod(&out, m);
        }
        x
    }
    fn eq0(&mut self, p: &Poly, defs: Vec<u32>) {
        let s = format!("(= {} 0)", self.lin(p));
        self.side.push((s, defs));
        self.eqs += 1;
    }
    /// exact value as unsigned / signed integer of width w
    fn exact(&mut self, t: T, signed: bool) -> Poly {
        if let Some(p) = if signed { self.exs.get(&t) } else { self.exu.get(&t) } {
            return p.clone();
        }
        let w = self.tm.w(t) as usize;
        let p = self.tr(t);
        let (lo, hi) = self.iv(&p);
        let (mn, mx) = if signed { (Big::pow2(w - 1).negate(), Big::pow2(w - 1).sub(&Big::one())) } else { (Big::zero(), Big::pow2(w).sub(&Big::one())) };
        let r = if mn.le(&lo) && hi.le(&mx) {
            p
        } else if signed {
            let b = padd(&p, &pconst(&Big::pow2(w - 1)), &Big::one());
            let (_, r) = self.floordiv(&b, w);
            padd(&r, &pconst(&Big::pow2(w - 1)), &Big::from(-1))
        } else {
            self.floordiv(&p, w).1
        };
        if signed {
            self.exs.insert(t, r.clone());
        } else {
            self.exu.insert(t, r.clone());
        }
        r
    }
    fn opaque(&mut self, t: T) -> Poly {
        let w = self.tm.w(t) as usize;
        let v = self.newvar(Big::zero(), Big::pow2(w).sub(&Big::one()), None);
        if std::env::var("SYMX_DUMP").is_ok() {
            let n = self.tm.node(t);
            eprintln!("opaque x{} = {:?} w{}", v, n.op, w);
            for c in self.tm.children(t) {
                if let Sort::BV(cw) = self.tm.sort(c) {
                    let p = self.exact(c, false);
                    let iv = self.iv(&p);
                    eprintln!("   arg w{} [{},{}] tz {} {:?}", cw, iv.0.smt(), iv.1.smt(), Self::tz(&p), self.lin(&p).chars().take(200).collect::<String>());
                }
            }
        }
        pvar(v)
    }
    fn tz(p: &Poly) -> usize {
        let mut k = 4000;
        for (_, c) in p {
            let mut j = 0;
            while j < k && c.divides_pow2(j + 1) {
                j += 1;
            }
            k = k.min(j);
        }
        k
    }
    /// integer polynomial congruent to the value modulo 2^w
    fn tr(&mut self, t: T) -> Poly {
        if let Some(p) = self.poly.get(&t) {
            return p.clone();
        }
        let n = self.tm.node(t);
        let (a, b) = (n.a, n.b);
        let p = match (n.op, n.s) {
            (O::Const, _) => pconst(&Big::from_u128(n.k)),
            (O::ZConst, _) => pconst(&self.tm.bigs[a as usize]),
            (O::Var, Sort::BV(w)) => {
                let vi = &self.tm.vars[a as usize];
                let (lo, hi) = match (&vi.lo, &vi.hi) {
                    (Some(l), Some(h)) => (l.clone(), h.clone()),
                    _ => (Big::zero(), Big::pow2(w as usize).sub(&Big::one())),
                };
                let v = self.newvar(lo, hi, Some(t));
                pvar(v)
            }
            (O::ZofU, _) => self.exact(a, false),
            (O::ZofS, _) => self.exact(a, true),
            (O::ZAdd, _) | (O::Add, _) => {
                let (x, y) = (self.tr(a), self.tr(b));
                let s = padd(&x, &y, &Big::one());
                let s = self.addfix(t, s);
                self.norm(s)
            }
            (O::Sub, _) => {
                let (x, y) = (self.tr(a), self.tr(b));
                let s = padd(&x, &y, &Big::from(-1));
                self.norm(s)
            }
            (O::ZNeg, _) => {
                let x = self.tr(a);
                pscale(&x, &Big::from(-1))
            }
            (O::ZMul, _) | (O::Mul, _) => {
                let (mut x, mut y) = (self.tr(a), self.tr(b));
                // signed reading of constants keeps intervals small
                if let Sort::BV(w) = n.s {
                    for z in [&mut x, &mut y] {
                        if let Some(k) = is_const(z) {
                            if Big::pow2(w as usize - 1).le(&k) && k.lt(&Big::pow2(w as usize)) {
                                *z = pconst(&k.sub(&Big::pow2(w as usize)));
                            }
                        }
                    }
                }
                if x.len() * y.len() > 4000 {
                    self.err = Some("polynomial too large".into());
                    return Poly::new();
                }
                let m = pmul(&x, &y);
                self.norm(m)
            }
            (O::ZMod, _) => {
                let x = self.tr(a);
                let m = self.tm.bigs[b as usize].clone();
                // congruent representatives: as it stands, and with every remainder replaced by
                // dividend - 2^k quotient; take the narrower one
                let x0 = self.redmod(&x, &m);
                let x = if is_const(&x0).is_some() {
                    x0
                } else {
                    let e = self.elim(&x0, &m);
                    if std::env::var("SYMX_DUMP").is_ok() {
                        eprintln!("congruence: {} terms -> {} -> {}: {}", x.len(), x0.len(), e.len(), self.lin(&e).chars().take(2000).collect::<String>());
                    }
                    if e.len() < x0.len() {
                        e
                    } else {
                        x0
                    }
                };
                if let Some(c) = is_const(&x) {
                    return pconst(&c.rem_euclid(&m));
                }
                let (lo, hi) = self.iv(&x);
                let (ql, qh) = (lo.divrem_floor(&m).0, hi.divrem_floor(&m).0);
                let q = self.newvar(ql, qh, None);
                let r = self.newvar(Big::zero(), m.sub(&Big::one()), None);
                let e = padd(&padd(&x, &pvar(q), &m.negate()), &pvar(r), &Big::from(-1));
                self.eq0(&e, vec![q, r]);
                pvar(r)
            }
            (O::ZExt, _) => {
                if self.tm.w(a) == 1 {
                    let c = self.bl(a);
                    let v = self.newvar(Big::zero(), Big::one(), None);
                    self.side.push((format!("(= x{} (ite {} 1 0))", v, c), vec![v]));
                    pvar(v)
                } else {
                    self.exact(a, false)
                }
            }
            (O::SExt, _) => {
                if self.tm.w(a) == 1 {
                    let c = self.bl(a);
                    let v = self.newvar(Big::from(-1), Big::zero(), None);
                    self.side.push((format!("(= x{} (ite {} (- 1) 0))", v, c), vec![v]));
                    pvar(v)
                } else {
                    self.exact(a, true)
                }
            }
            (O::Extract, Sort::BV(nw)) => {
                let lo = n.k as u32 as usize;
                let x = self.tr(a);
                let q = self.floordiv(&x, lo).0;
                if nw == 1 {
                    // used through bl()
                }
                q
            }
            (O::Concat, _) => {
                let wl = self.tm.w(b) as usize;
                let h = if self.tm.w(a) == 1 { self.b2i(a) } else { self.tr(a) };
                let l = if self.tm.w(b) == 1 { self.b2i(b) } else { self.exact(b, false) };
                let s = padd(&l, &h, &Big::pow2(wl));
                self.norm(s)
            }
            (O::Or, Sort::BV(w)) | (O::Xor, Sort::BV(w)) | (O::And, Sort::BV(w)) if w > 1 => {
                let (x, y) = (self.exact(a, false), self.exact(b, false));
                let (ix, iy) = (self.iv(&x), self.iv(&y));
                let disj = ix.1.lt(&Big::pow2(Self::tz(&y))) || iy.1.lt(&Big::pow2(Self::tz(&x)));
                if disj {
                    if n.op == O::And {
                        Poly::new()
                    } else {
                        padd(&x, &y, &Big::one())
                    }
                } else if n.op == O::And {
                    if let Some(k) = self.tm.isk(b).or(self.tm.isk(a)) {
                        // mask 11..1100..0
                        let other = if self.tm.isk(b).is_some() { &x } else { &y };
                        let lo = k.trailing_zeros() as usize;
                        let inv = !k & mask(w);
                        if inv != 0 && inv & (inv + 1) == 0 {
                            let r = self.floordiv(other, lo).1;
                            padd(other, &r, &Big::from(-1))
                        } else {
                            self.opaque(t)
                        }
                    } else {
                        self.opaque(t)
                    }
                } else {
                    self.opaque(t)
                }
            }
            (O::Not, Sort::BV(w)) if w > 1 => {
                let x = self.tr(a);
                padd(&pconst(&Big::from(-1)), &x, &Big::from(-1))
            }
            (O::Ite, Sort::BV(w)) if w > 1 => {
                let c = self.bl(a);
                let (x, y) = (self.exact(b, true), self.exact(n.c, true));
                let (ix, iy) = (self.iv(&x), self.iv(&y));
                let v = self.newvar(Big::min(&ix.0, &iy.0), Big::max(&ix.1, &iy.1), None);
                let (lx, ly) = (self.lin(&x), self.lin(&y));
                self.side.push((format!("(= x{} (ite {} {} {}))", v, c, lx, ly), vec![v]));
                pvar(v)
            }
            (O::Ite, Sort::Z) => {
                let c = self.bl(a);
                let (x, y) = (self.tr(b), self.tr(n.c));
                let (ix, iy) = (self.iv(&x), self.iv(&y));
                let v = self.newvar(Big::min(&ix.0, &iy.0), Big::max(&ix.1, &iy.1), None);
                let (lx, ly) = (self.lin(&x), self.lin(&y));
                self.side.push((format!("(= x{} (ite {} {} {}))", v, c, lx, ly), vec![v]));
                pvar(v)
            }
            (_, Sort::BV(1)) => self.b2i(t),
            (_, Sort::BV(_)) => self.opaque(t),
            (o, s) => {
                self.err = Some(format!("integer mode: {:?} {:?}", o, s));
                Poly::new()
            }
        };
        self.poly.insert(t, p.clone());
        p
    }
    /// for signed additions: constants >= 2^(w-1) are read as negative
    fn addfix(&mut self, t: T, s: Poly) -> Poly {
        let n = self.tm.node(t);
        if let Sort::BV(w) = n.s {
            if let Some(k) = self.tm.isk(n.b) {
                if w >= 2 && (k >> (w - 1)) & 1 == 1 {
                    return padd(&s, &pconst(&Big::pow2(w as usize)), &Big::from(-1));
                }
            }
        }
        s
    }
    fn b2i(&mut self, t: T) -> Poly {
        let n = self.tm.node(t);
        if n.op == O::Const {
            return pconst(&Big::from_u128(n.k));
        }
        if n.op == O::Extract {
            let lo = n.k as u32 as usize;
            let x = self.tr(n.a);
            let q = self.floordiv(&x, lo).0;
            let (l, h) = self.iv(&q);
            if Big::zero().le(&l) && h.le(&Big::one()) {
                return q;
            }
            return self.floordiv(&q, 1).1;
        }
        let c = self.bl(t);
        let v = self.newvar(Big::zero(), Big::one(), None);
        self.side.push((format!("(= x{} (ite {} 1 0))", v, c), vec![v]));
        pvar(v)
    }
    fn lin(&mut self, p: &Poly) -> String {
        if p.is_empty() {
            return "0".into();
        }
        let mut parts = vec![];
        for (m, c) in p {
            if m.is_empty() {
                parts.push(c.smt());
                continue;
            }
            let nm = self.mono_name(m);
            if *c == Big::one() {
                parts.push(nm);
            } else {
                parts.push(format!("(* {} {})", c.smt(), nm));
            }
        }
        if parts.len() == 1 {
            parts.pop().unwrap()
        } else {
            format!("(+ {})", parts.join(" "))
        }
    }
    fn mono_name(&mut self, m: &Mono) -> String {
        if m.len() == 1 {
            return format!("x{}", m[0]);
        }
        let iv = self.mono_iv(m);
        self.monos.insert(m.clone(), iv);
        let s: Vec<String> = m.iter().map(|x| x.to_string()).collect();
        format!("m_{}", s.join("_"))
    }
    /// boolean term as an SMT formula
    fn bl(&mut self, t: T) -> String {
        if let Some(s) = self.bools.get(&t) {
            return s.clone();
        }
        let n = self.tm.node(t);
        let (a, b) = (n.a, n.b);
        let s = match n.op {
            O::Const => (if n.k == 1 { "true" } else { "false" }).to_string(),
            O::Not => {
                let x = self.bl(a);
                format!("(not {})", x)
            }
            O::And | O::Mul => {
                let (x, y) = (self.bl(a), self.bl(b));
                format!("(and {} {})", x, y)
            }
            O::Or => {
                let (x, y) = (self.bl(a), self.bl(b));
                format!("(or {} {})", x, y)
            }
            O::Xor | O::Add | O::Sub => {
                let (x, y) = (self.bl(a), self.bl(b));
                format!("(xor {} {})", x, y)
            }
            O::Ite => {
                let (x, y, z) = (self.bl(a), self.bl(b), self.bl(n.c));
                format!("(ite {} {} {})", x, y, z)
            }
            O::Eq => match self.tm.sort(a) {
                Sort::BV(1) => {
                    let (x, y) = (self.bl(a), self.bl(b));
                    format!("(= {} {})", x, y)
                }
                Sort::BV(w) => {
                    let (x, y) = (self.tr(a), self.tr(b));
                    let d = self.norm(padd(&x, &y, &Big::from(-1)));
                    let (lo, hi) = self.iv(&d);
                    let m = Big::pow2(w as usize);
                    if m.negate().lt(&lo) && hi.lt(&m) {
                        let l = self.lin(&d);
                        format!("(= {} 0)", l)
                    } else {
                        let (x, y) = (self.exact(a, false), self.exact(b, false));
                        let d = self.norm(padd(&x, &y, &Big::from(-1)));
                        let l = self.lin(&d);
                        format!("(= {} 0)", l)
                    }
                }
                _ => {
                    let (x, y) = (self.tr(a), self.tr(b));
                    let d = self.norm(padd(&x, &y, &Big::from(-1)));
                    let l = self.lin(&d);
                    format!("(= {} 0)", l)
                }
            },
            O::Ult | O::Ule | O::Slt | O::Sle => {
                let sg = matches!(n.op, O::Slt | O::Sle);
                let (x, y) = (self.exact(a, sg), self.exact(b, sg));
                let d = self.norm(padd(&x, &y, &Big::from(-1)));
                let l = self.lin(&d);
                format!("({} {} 0)", if matches!(n.op, O::Ult | O::Slt) { "<" } else { "<=" }, l)
            }
            O::ZLe => {
                let (x, y) = (self.tr(a), self.tr(b));
                let d = self.norm(padd(&x, &y, &Big::from(-1)));
                let l = self.lin(&d);
                format!("(<= {} 0)", l)
            }
            O::Extract => {
                let p = self.b2i(t);
                let l = self.lin(&p);
                format!("(= {} 1)", l)
            }
            O::Var => {
                let v = match self.poly.get(&t) {
                    Some(p) => p.clone(),
                    None => {
                        let v = self.newvar(Big::zero(), Big::one(), Some(t));
                        let p = pvar(v);
                        self.poly.insert(t, p.clone());
                        p
                    }
                };
                let l = self.lin(&v);
                format!("(= {} 1)", l)
            }
            o => {
                self.err = Some(format!("integer mode: boolean {:?}", o));
                "false".into()
            }
        };
        self.bools.insert(t, s.clone());
        s
    }
}

/// concrete evaluation of a term (None: not evaluable)
pub fn eval(tm: &Ctx, t: T, env: &dyn Fn(T) -> Option<Big>, c: &mut HashMap<T, Big>) -> Option<Big> {
    // iterative post-order to keep the stack small
    let mut st = vec![(t, false)];
    while let Some((x, done)) = st.pop() {
        if c.contains_key(&x) {
            continue;
        }
        if !done {
            st.push((x, true));
            for y in tm.children(x) {
                st.push((y, false));
            }
            continue;
        }
        let n = tm.node(x);
        let g = |i: T| c.get(&i).cloned();
        let w = if let Sort::BV(w) = n.s { w as usize } else { 0 };
        let md = |b: Big| b.rem_euclid(&Big::pow2(w));
        let sg = |i: T| -> Option<Big> {
            let v = c.get(&i)?.clone();
            let w = tm.w(i) as usize;
            Some(if Big::pow2(w - 1).le(&v) { v.sub(&Big::pow2(w)) } else { v })
        };
        let bb = |b: bool| if b { Big::one() } else { Big::zero() };
        let u = |b: Big| -> Option<u128> {
            if b.bits() > 128 {
                None
            } else {
                Some(u128::from_le_bytes(b.to_le(16).try_into().unwrap()))
            }
        };
        let r = match n.op {
            O::Const => Big::from_u128(n.k),
            O::ZConst | O::FConst => tm.bigs[n.a as usize].clone(),
            O::Var | O::Uf | O::EncF | O::FDec | O::FInv => env(x)?,
            O::Not => Big::pow2(w).sub(&Big::one()).sub(&g(n.a)?),
            O::And => Big::from_u128(u(g(n.a)?)? & u(g(n.b)?)?),
            O::Or => Big::from_u128(u(g(n.a)?)? | u(g(n.b)?)?),
            O::Xor => Big::from_u128(u(g(n.a)?)? ^ u(g(n.b)?)?),
            O::Add => md(g(n.a)?.add(&g(n.b)?)),
            O::Sub => md(g(n.a)?.sub(&g(n.b)?)),
            O::Mul => md(g(n.a)?.mul(&g(n.b)?)),
            O::Concat => g(n.a)?.mul(&Big::pow2(tm.w(n.b) as usize)).add(&g(n.b)?),
            O::Extract => md(g(n.a)?.divrem_floor(&Big::pow2(n.k as u32 as usize)).0),
            O::ZExt => g(n.a)?,
            O::SExt => md(sg(n.a)?),
            O::Eq => bb(g(n.a)? == g(n.b)?),
            O::Ult => bb(g(n.a)?.lt(&g(n.b)?)),
            O::Ule => bb(g(n.a)?.le(&g(n.b)?)),
            O::Slt => bb(sg(n.a)?.lt(&sg(n.b)?)),
            O::Sle => bb(sg(n.a)?.le(&sg(n.b)?)),
            O::Ite => {
                if g(n.a)?.is_zero() {
                    g(n.c)?
                } else {
                    g(n.b)?
                }
            }
            O::ZofU => g(n.a)?,
            O::ZofS => sg(n.a)?,
            O::ZAdd => g(n.a)?.add(&g(n.b)?),
            O::ZMul => g(n.a)?.mul(&g(n.b)?),
            O::ZNeg => g(n.a)?.negate(),
            O::ZLe => bb(g(n.a)?.le(&g(n.b)?)),
            O::ZMod => g(n.a)?.rem_euclid(&tm.bigs[n.b as usize]),
            O::FAdd | O::FMul | O::FNeg => {
                let m = match n.s {
                    Sort::F(m) => tm.mods[m as usize].clone(),
                    _ => return None,
                };
                match n.op {
                    O::FAdd => g(n.a)?.add(&g(n.b)?),
                    O::FMul => g(n.a)?.mul(&g(n.b)?),
                    _ => g(n.a)?.negate(),
                }
                .rem_euclid(&m)
            }
            O::Shl | O::LShr | O::AShr => {
                let s = u(g(n.b)?)?.min(w as u128 + 1) as usize;
                match n.op {
                    O::Shl => md(g(n.a)?.mul(&Big::pow2(s))),
                    O::LShr => g(n.a)?.divrem_floor(&Big::pow2(s)).0,
                    _ => md(sg(n.a)?.divrem_floor(&Big::pow2(s)).0),
                }
            }
            O::UDiv | O::URem => {
                let d = g(n.b)?;
                if d.is_zero() {
                    return None;
                }
                let (q, r) = g(n.a)?.divrem_floor(&d);
                if n.op == O::UDiv {
                    q
                } else {
                    r
                }
            }
            O::SDiv | O::SRem => return None,
        };
        c.insert(x, r);
    }
    c.get(&t).cloned()
}

struct Rng(u64);
impl Rng {
    fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9e3779b97f4a7c15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xbf58476d1ce4e5b9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94d049bb133111eb);
        z ^ (z >> 31)
    }
}

fn confirm(ex: &Exec, pcs: &[T], goal: T, m: &Model) -> bool {
    let env = |t: T| -> Option<Big> { Some(m.get(&t).cloned().unwrap_or(Big::zero())) };
    let mut c = HashMap::new();
    for p in pcs.iter().chain(std::iter::once(&goal)) {
        match eval(&ex.tm, *p, &env, &mut c) {
            Some(v) if !v.is_zero() => {}
            _ => return false,
        }
    }
    true
}

pub fn check(ex: &mut Exec, pcs: &[T], goal: T, _want_model: bool) -> Res {
    let t0 = Instant::now();
    let r = check_inner(ex, pcs, goal);
    ex.lia_stats.queries += 1;
    ex.lia_stats.time += t0.elapsed().as_secs_f64();
    match &r {
        Res::Sat(_) => ex.lia_stats.sat += 1,
        Res::Unsat => ex.lia_stats.unsat += 1,
        Res::Unknown(_) => ex.lia_stats.unknown += 1,
    }
    r
}

fn input_vars(ex: &Exec, pcs: &[T], goal: T) -> Vec<T> {
    let mut all = pcs.to_vec();
    all.push(goal);
    Solver::vars_in(&ex.tm, &all)
}

fn search_concrete(ex: &Exec, pcs: &[T], goal: T, hint: Option<&Model>, tries: usize) -> Option<Model> {
    let vs = input_vars(ex, pcs, goal);
    let mut rng = Rng(0x5eed_0001);
    for k in 0..tries {
        let mut m = Model::new();
        for v in &vs {
            let n = ex.tm.node(*v);
            if n.op != O::Var {
                return None;
            }
            let vi = &ex.tm.vars[n.a as usize];
            let w = match n.s {
                Sort::BV(w) => w as usize,
                _ => return None,
            };
            let (lo, hi) = match (&vi.lo, &vi.hi) {
                (Some(a), Some(b)) => (a.clone(), b.clone()),
                _ => (Big::zero(), Big::pow2(w).sub(&Big::one())),
            };
            let mode = if k % 4 == 0 { 3 } else { rng.next() % 8 };
            let x = match mode {
                0 => lo.clone(),
                1 => hi.clone(),
                2 => Big::max(&lo, &Big::min(&hi, &Big::zero())),
                3 if hint.is_some() && k % 2 == 0 && hint.unwrap().contains_key(v) => hint.unwrap()[v].clone(),
                _ => {
                    let span = hi.sub(&lo).add(&Big::one());
                    let mut b = Big::zero();
                    for _ in 0..(span.bits() / 32 + 2) {
                        b = b.mul(&Big::pow2(32)).add(&Big::from((rng.next() & 0xffff_ffff) as i128));
                    }
                    lo.add(&b.rem_euclid(&span))
                }
            };
            m.insert(*v, x.rem_euclid(&Big::pow2(w)));
        }
        if confirm(ex, pcs, goal, &m) {
            return Some(m);
        }
    }
    None
}

fn check_inner(ex: &mut Exec, pcs: &[T], goal: T) -> Res {
    if goal == ex.tm.ff {
        return Res::Unsat;
    }
    let (txt, names, trm, monos, neq) = {
        let mut tr = Tr {
            tm: &ex.tm,
            vars: vec![],
            poly: HashMap::new(),
            exu: HashMap::new(),
            exs: HashMap::new(),
            bools: HashMap::new(),
            side: vec![],
            eqs: 0,
            monos: BTreeMap::new(),
            fdiv: HashMap::new(),
            cuts: HashMap::new(),
            err: None,
            iv_over: HashMap::new(),
        };
        let mut asserts = vec![];
        for p in pcs {
            let s = tr.bl(*p);
            asserts.push(s);
        }
        asserts.push(tr.bl(goal));
        if let Some(e) = tr.err {
            return Res::Unknown(e);
        }
        // cone of influence: a definition is kept when one of the variables it defines is used
        let toks = |s: &str, out: &mut Vec<String>| {
            for w in s.split(|c: char| c == '(' || c == ')' || c == ' ') {
                if w.starts_with('x') || w.starts_with("m_") {
                    out.push(w.to_string());
                }
            }
        };
        let mut used: HashSet<u32> = HashSet::new();
        let mut work = vec![];
        for a in &asserts {
            toks(a, &mut work);
        }
        let mut defs: HashMap<u32, Vec<usize>> = HashMap::new();
        let mut keep = vec![false; tr.side.len()];
        for (i, (s, d)) in tr.side.iter().enumerate() {
            if d.is_empty() {
                keep[i] = true;
                toks(s, &mut work);
            }
            for v in d {
                defs.entry(*v).or_default().push(i);
            }
        }
        let mut usedm: HashSet<String> = HashSet::new();
        while let Some(w) = work.pop() {
            let vs: Vec<u32> = if let Some(m) = w.strip_prefix("m_") {
                if !usedm.insert(w.clone()) {
                    continue;
                }
                m.split('_').map(|x| x.parse().unwrap()).collect()
            } else {
                match w[1..].parse() {
                    Ok(v) => vec![v],
                    Err(_) => continue,
                }
            };
            for v in vs {
                if used.insert(v) {
                    for i in defs.get(&v).cloned().unwrap_or_default() {
                        if !keep[i] {
                            keep[i] = true;
                            toks(&tr.side[i].0, &mut work);
                        }
                    }
                }
            }
        }
        // the defining equations nearest the goal, for cheap first attempts
        let mut subs: Vec<String> = vec![];
        {
            let kept: Vec<usize> = (0..tr.side.len()).filter(|i| keep[*i]).rev().collect();
            let mut n = 8;
            while n < kept.len() {
                let mut toksv = vec![];
                let mut body = String::new();
                for (i, (s, d)) in tr.side.iter().enumerate() {
                    if keep[i] && (d.is_empty() || kept[..n].contains(&i)) {
                        toks(s, &mut toksv);
                        body += &format!("(assert {})\n", s);
                    }
                }
                for a in &asserts {
                    toks(a, &mut toksv);
                    body += &format!("(assert {})\n", a);
                }
                let mut seen: HashSet<String> = HashSet::new();
                let mut decl = String::new();
                for w in toksv {
                    if !seen.insert(w.clone()) {
                        continue;
                    }
                    let iv = if let Some(m) = w.strip_prefix("m_") {
                        let mo: Mono = m.split('_').map(|x| x.parse().unwrap()).collect();
                        tr.monos.get(&mo).cloned()
                    } else {
                        w[1..].parse::<usize>().ok().map(|v| (tr.vars[v].lo.clone(), tr.vars[v].hi.clone()))
                    };
                    if let Some((l, h)) = iv {
                        decl += &format!("(declare-const {} Int)\n(assert (and (<= {} {}) (<= {} {})))\n", w, l.smt(), w, w, h.smt());
                    }
                }
                subs.push(decl + &body);
                n = n * 3 / 2;
            }
        }
        let mut txt = String::new();
        for (i, v) in tr.vars.iter().enumerate() {
            if !used.contains(&(i as u32)) {
                continue;
            }
            txt += &format!("(declare-const x{} Int)\n(assert (and (<= {} x{}) (<= x{} {})))\n", i, v.lo.smt(), i, i, v.hi.smt());
        }
        let mut nl = String::new();
        for (m, iv) in &tr.monos {
            let s: Vec<String> = m.iter().map(|x| x.to_string()).collect();
            let nm = format!("m_{}", s.join("_"));
            if !usedm.contains(&nm) {
                continue;
            }
            txt += &format!("(declare-const {} Int)\n(assert (and (<= {} {}) (<= {} {})))\n", nm, iv.0.smt(), nm, nm, iv.1.smt());
            let s: Vec<String> = m.iter().map(|x| format!("x{}", x)).collect();
            nl += &format!("(assert (= {} (* {})))\n", nm, s.join(" "));
        }
        for (i, (s, _)) in tr.side.iter().enumerate() {
            if keep[i] {
                txt += &format!("(assert {})\n", s);
            }
        }
        for s in asserts.iter() {
            txt += &format!("(assert {})\n", s);
        }
        let mut names = vec![];
        let mut trm = vec![];
        for (i, v) in tr.vars.iter().enumerate() {
            if !used.contains(&(i as u32)) {
                continue;
            }
            if let Some(t) = v.term {
                names.push(format!("x{}", i));
                trm.push(t);
            }
        }
        ((txt, nl, subs), names, trm, tr.monos.len(), tr.eqs)
    };
    let (txt, nl, subs) = txt;
    ex.lia_stats.monomials += monos as u64;
    ex.lia_stats.equations += neq;
    let gv = if names.is_empty() { String::new() } else { format!("(get-value ({}))\n", names.join(" ")) };
    let run = |body: &str, ms: u64, nonlin: bool| -> Option<(String, String)> {
        let z = format!("(set-option :produce-models true)\n{}(check-sat)\n{}", body, gv);
        let c = format!("(set-option :produce-models true)\n(set-logic {})\n{}(check-sat)\n{}", if nonlin { "ALL" } else { "QF_LIA" }, body, gv);
        let cfgs: Vec<(Vec<String>, String)> = vec![
            (vec!["z3-new".into(), "-in".into(), "-smt2".into()], z.clone()),
            (vec!["cvc5".into(), "--lang=smt2".into(), "-q".into()], c),
            (vec!["z3".into(), "-in".into(), "-smt2".into()], z),
        ];
        portfolio(&cfgs, ms)
    };
    let left = ex.deadline.saturating_duration_since(Instant::now()).as_millis() as u64;
    if left < 50 {
        return Res::Unknown("deadline".into());
    }
    if let Ok(d) = std::env::var("SYMX_DUMP") {
        let _ = std::fs::write(format!("{}/lia{}.smt2", d, ex.lia_stats.queries), format!("{}(check-sat)\n", txt));
    }
    let parse = |s: &str| -> Model {
        let mut m = Model::new();
        let t = tokenize(s);
        let mut i = 0;
        if let Some(Sx::L(v)) = parse_sx(&t, &mut i) {
            for (k, e) in v.iter().enumerate() {
                if let Sx::L(p) = e {
                    if p.len() == 2 && k < trm.len() {
                        if let Some(b) = sx_val(&p[1]) {
                            let w = ex.tm.w(trm[k]) as usize;
                            m.insert(trm[k], b.rem_euclid(&Big::pow2(w)));
                        }
                    }
                }
            }
        }
        m
    };
    for (i, b) in subs.iter().enumerate() {
        let z = format!("{}(check-sat)\n", b);
        if let Ok(d) = std::env::var("SYMX_DUMP") {
            let _ = std::fs::write(format!("{}/lia{}.sub{}.smt2", d, ex.lia_stats.queries, i), &z);
        }
        let cfgs: Vec<(Vec<String>, String)> = vec![
            (vec!["z3-new".into(), "-in".into(), "-smt2".into()], z.clone()),
            (vec!["cvc5".into(), "--lang=smt2".into(), "-q".into()], format!("(set-logic QF_LIA)\n{}", z)),
        ];
        if let Some((a, _)) = portfolio(&cfgs, (4000u64).min(left)) {
            if a == "unsat" {
                return Res::Unsat;
            }
        }
    }
    match run(&txt, ex.lia_ms.min(left), false) {
        None => match search_concrete(ex, pcs, goal, None, 4000) {
            Some(m) => Res::Sat(m),
            None => Res::Unknown("integer solver gave no answer".into()),
        },
        Some((a, rest)) => {
            if a == "unsat" {
                return Res::Unsat;
            }
            let m = parse(&rest);
            if confirm(ex, pcs, goal, &m) {
                return Res::Sat(m);
            }
            if let Some(m) = search_concrete(ex, pcs, goal, Some(&m), 6000) {
                return Res::Sat(m);
            }
            ex.lia_stats.spurious += 1;
            if monos > 0 {
                let t = format!("{}{}", txt, nl);
                let left = ex.deadline.saturating_duration_since(Instant::now()).as_millis() as u64;
                match run(&t, ex.lia_ms.min(left), true) {
                    Some((a, _)) if a == "unsat" => return Res::Unsat,
                    Some((_, rest)) => {
                        let m2: Model = {
                            let mut m = Model::new();
                            let tk = tokenize(&rest);
                            let mut i = 0;
                            if let Some(Sx::L(v)) = parse_sx(&tk, &mut i) {
                                for (k, e) in v.iter().enumerate() {
                                    if let Sx::L(p) = e {
                                        if p.len() == 2 && k < trm.len() {
                                            if let Some(b) = sx_val(&p[1]) {
                                                let w = ex.tm.w(trm[k]) as usize;
                                                m.insert(trm[k], b.rem_euclid(&Big::pow2(w)));
                                            }
                                        }
                                    }
                                }
                            }
                            m
                        };
                        if confirm(ex, pcs, goal, &m2) {
                            return Res::Sat(m2);
                        }
                    }
                    None => {}
                }
            }
            Res::Unknown("integer abstraction: model not confirmed".into())
        }
    }
}
#[allow(unused)]
fn unused(_: HashSet<u8>) {}
