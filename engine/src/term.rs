//! Hash-consed terms: bit-vectors, booleans (width 1), mathematical integers, prime-field elements.
use crate::big::Big;
use std::collections::HashMap;

pub type T = u32;

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum Sort {
    BV(u32), // BV(1) is Bool
    Z,
    F(u8),
}
#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum O {
    Const,
    Var,
    Uf,
    Not,
    And,
    Or,
    Xor,
    Add,
    Sub,
    Mul,
    UDiv,
    URem,
    SDiv,
    SRem,
    Shl,
    LShr,
    AShr,
    Concat,
    Extract,
    ZExt,
    SExt,
    Eq,
    Ult,
    Ule,
    Slt,
    Sle,
    Ite,
    ZConst,
    ZofS,
    ZofU,
    ZAdd,
    ZMul,
    ZNeg,
    ZLe,
    ZMod,
    FConst,
    FAdd,
    FMul,
    FNeg,
    FInv,
    EncF,
    FDec,
}
#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub struct Node {
    pub op: O,
    pub s: Sort,
    pub a: u32,
    pub b: u32,
    pub c: u32,
    pub k: u128,
}
pub struct VarInfo {
    pub name: String,
    pub sort: Sort,
    pub term: T,
    pub lo: Option<Big>,
    pub hi: Option<Big>,
}
pub struct UfInfo {
    pub name: String,
    pub argw: Vec<u32>,
    pub ret: Sort,
    pub inj: bool,
    pub family: String,
}
pub struct Ctx {
    pub nodes: Vec<Node>,
    table: HashMap<Node, T>,
    pub bigs: Vec<Big>,
    bigtab: HashMap<Big, u32>,
    pub vars: Vec<VarInfo>,
    pub ufs: Vec<UfInfo>,
    ufname: HashMap<(String, Vec<u32>), u32>,
    pub arglists: Vec<Vec<T>>,
    argtab: HashMap<Vec<T>, u32>,
    pub mods: Vec<Big>,
    pub tt: T,
    pub ff: T,
    pub rules: crate::poly::Rules,
    ffc: std::cell::RefCell<HashMap<T, bool>>,
    pub pcache: HashMap<T, Option<std::rc::Rc<crate::poly::P>>>,
    pub ccache: HashMap<T, T>,
}

pub fn mask(w: u32) -> u128 {
    if w >= 128 {
        u128::MAX
    } else {
        (1u128 << w) - 1
    }
}
pub fn sx(k: u128, w: u32) -> i128 {
    if w >= 128 {
        return k as i128;
    }
    let sh = 128 - w;
    ((k << sh) as i128) >> sh
}

impl Ctx {
    pub fn new() -> Ctx {
        let p = Big::pow2(255).sub(&Big::from(19));
        let l = Big::pow2(252).add(&Big::parse("27742317777372353535851937790883648493"));
        let mut c = Ctx {
            nodes: vec![],
            table: HashMap::new(),
            bigs: vec![],
            bigtab: HashMap::new(),
            vars: vec![],
            ufs: vec![],
            ufname: HashMap::new(),
            arglists: vec![],
            argtab: HashMap::new(),
            mods: vec![p, l],
            tt: 0,
            ff: 0,
            rules: Default::default(),
            ffc: Default::default(),
            pcache: HashMap::new(),
            ccache: HashMap::new(),
        };
        // node 0 is reserved (0 means "concrete" in memory)
        c.mk(Node { op: O::Const, s: Sort::BV(8), a: 0, b: 0, c: 99, k: 0 });
        c.tt = c.k(1, 1);
        c.ff = c.k(0, 1);
        c
    }
    fn mk(&mut self, n: Node) -> T {
        if let Some(t) = self.table.get(&n) {
            return *t;
        }
        let t = self.nodes.len() as u32;
        self.nodes.push(n);
        self.table.insert(n, t);
        t
    }
    fn n(&mut self, op: O, s: Sort, a: u32, b: u32, c: u32) -> T {
        self.mk(Node { op, s, a, b, c, k: 0 })
    }
    pub fn k(&mut self, v: u128, w: u32) -> T {
        assert!(w <= 128, "const width {}", w);
        self.mk(Node { op: O::Const, s: Sort::BV(w), a: 0, b: 0, c: 0, k: v & mask(w) })
    }
    pub fn bool(&mut self, b: bool) -> T {
        if b {
            self.tt
        } else {
            self.ff
        }
    }
    pub fn sort(&self, t: T) -> Sort {
        self.nodes[t as usize].s
    }
    pub fn w(&self, t: T) -> u32 {
        match self.nodes[t as usize].s {
            Sort::BV(w) => w,
            s => panic!("width of {:?}", s),
        }
    }
    pub fn node(&self, t: T) -> Node {
        self.nodes[t as usize]
    }
    pub fn isk(&self, t: T) -> Option<u128> {
        let n = &self.nodes[t as usize];
        if n.op == O::Const {
            Some(n.k)
        } else {
            None
        }
    }
    pub fn big(&mut self, b: &Big) -> u32 {
        if let Some(i) = self.bigtab.get(b) {
            return *i;
        }
        let i = self.bigs.len() as u32;
        self.bigs.push(b.clone());
        self.bigtab.insert(b.clone(), i);
        i
    }
    pub fn var(&mut self, name: &str, s: Sort) -> T {
        let i = self.vars.len() as u32;
        let t = self.n(O::Var, s, i, 0, 0);
        self.vars.push(VarInfo { name: name.to_string(), sort: s, term: t, lo: None, hi: None });
        t
    }
    pub fn uf(&mut self, name: &str, args: &[T], ret: Sort, inj: bool) -> T {
        let argw: Vec<u32> = args
            .iter()
            .map(|t| match self.sort(*t) {
                Sort::BV(w) => w,
                Sort::F(m) => 100000 + m as u32,
                Sort::Z => 200000,
            })
            .collect();
        let mut nm = name.to_string();
        for w in &argw {
            nm += &format!("_{}", w);
        }
        let key = (nm.clone(), argw.clone());
        let id = match self.ufname.get(&key) {
            Some(i) => *i,
            None => {
                let i = self.ufs.len() as u32;
                self.ufs.push(UfInfo { name: nm, argw, ret, inj, family: name.to_string() });
                self.ufname.insert(key, i);
                i
            }
        };
        let al = match self.argtab.get(args) {
            Some(i) => *i,
            None => {
                let i = self.arglists.len() as u32;
                self.arglists.push(args.to_vec());
                self.argtab.insert(args.to_vec(), i);
                i
            }
        };
        self.n(O::Uf, ret, id, al, 0)
    }

    // ---------- booleans / bit-vectors
    pub fn not(&mut self, a: T) -> T {
        let n = self.node(a);
        let w = self.w(a);
        if n.op == O::Const {
            return self.k(!n.k, w);
        }
        if n.op == O::Not {
            return n.a;
        }
        self.n(O::Not, n.s, a, 0, 0)
    }
    pub fn and(&mut self, a: T, b: T) -> T {
        let w = self.w(a);
        if a == b {
            return a;
        }
        match (self.isk(a), self.isk(b)) {
            (Some(x), Some(y)) => return self.k(x & y, w),
            (Some(x), None) | (None, Some(x)) => {
                let o = if self.isk(a).is_some() { b } else { a };
                if x == 0 {
                    return self.k(0, w);
                }
                if x == mask(w) {
                    return o;
                }
                // contiguous low mask: zero-extended extract
                if w > 1 && w <= 128 && x & (x + 1) == 0 {
                    let n = 128 - x.leading_zeros();
                    let e = self.extract(o, n - 1, 0);
                    return self.zext(e, w);
                }
                // contiguous mask in the middle or the top
                if w > 1 && w <= 128 {
                    let lo = x.trailing_zeros();
                    let y = x >> lo;
                    if y & (y + 1) == 0 {
                        let n = 128 - y.leading_zeros();
                        let e = self.extract(o, lo + n - 1, lo);
                        let z = self.k(0, lo);
                        let c = self.concat(e, z);
                        return self.zext(c, w);
                    }
                }
            }
            _ => {}
        }
        if w == 1 {
            let (na, nb) = (self.node(a), self.node(b));
            if (na.op == O::Not && na.a == b) || (nb.op == O::Not && nb.a == a) {
                return self.ff;
            }
        }
        let (a, b) = if a < b { (a, b) } else { (b, a) };
        self.n(O::And, Sort::BV(w), a, b, 0)
    }
    pub fn or(&mut self, a: T, b: T) -> T {
        let w = self.w(a);
        if a == b {
            return a;
        }
        match (self.isk(a), self.isk(b)) {
            (Some(x), Some(y)) => return self.k(x | y, w),
            (Some(x), None) | (None, Some(x)) => {
                let o = if self.isk(a).is_some() { b } else { a };
                if x == 0 {
                    return o;
                }
                if x == mask(w) {
                    return self.k(x, w);
                }
            }
            _ => {}
        }
        if w > 1 {
            if let Some(t) = self.merge_disjoint(a, b) {
                return t;
            }
        } else {
            let (na, nb) = (self.node(a), self.node(b));
            if (na.op == O::Not && na.a == b) || (nb.op == O::Not && nb.a == a) {
                return self.tt;
            }
        }
        let (a, b) = if a < b { (a, b) } else { (b, a) };
        self.n(O::Or, Sort::BV(w), a, b, 0)
    }
    pub fn xor(&mut self, a: T, b: T) -> T {
        let w = self.w(a);
        if a == b {
            return self.zero(w);
        }
        match (self.isk(a), self.isk(b)) {
            (Some(x), Some(y)) => return self.k(x ^ y, w),
            (Some(x), None) | (None, Some(x)) => {
                let o = if self.isk(a).is_some() { b } else { a };
                if x == 0 {
                    return o;
                }
                if x == mask(w) && w <= 128 {
                    return self.not(o);
                }
            }
            _ => {}
        }
        // (x ^ y) ^ y
        let (na, nb) = (self.node(a), self.node(b));
        if na.op == O::Xor {
            if na.a == b {
                return na.b;
            }
            if na.b == b {
                return na.a;
            }
        }
        if nb.op == O::Xor {
            if nb.a == a {
                return nb.b;
            }
            if nb.b == a {
                return nb.a;
            }
        }
        if w > 1 {
            if let Some(t) = self.merge_disjoint(a, b) {
                return t;
            }
        }
        let (a, b) = if a < b { (a, b) } else { (b, a) };
        self.n(O::Xor, Sort::BV(w), a, b, 0)
    }
    pub fn zero(&mut self, w: u32) -> T {
        if w <= 128 {
            return self.k(0, w);
        }
        let h = self.zero(w - 128);
        let l = self.k(0, 128);
        self.n(O::Concat, Sort::BV(w), h, l, 0)
    }
    /// pieces from low to high
    fn pieces(&mut self, t: T, out: &mut Vec<T>) {
        let n = self.node(t);
        match n.op {
            O::Concat => {
                self.pieces(n.b, out);
                self.pieces(n.a, out);
            }
            O::ZExt => {
                self.pieces(n.a, out);
                let w = self.w(t) - self.w(n.a);
                let z = self.zero(w);
                self.pieces_flat(z, out);
            }
            _ => out.push(t),
        }
    }
    fn pieces_flat(&mut self, t: T, out: &mut Vec<T>) {
        let n = self.node(t);
        if n.op == O::Concat {
            self.pieces_flat(n.b, out);
            self.pieces_flat(n.a, out);
        } else {
            out.push(t)
        }
    }
    /// a|b (or a^b) when at each bit position at least one side is a literal zero
    fn merge_disjoint(&mut self, a: T, b: T) -> Option<T> {
        let ok = |o: O| matches!(o, O::Concat | O::ZExt | O::Const);
        let (na, nb) = (self.node(a), self.node(b));
        if !ok(na.op) || !ok(nb.op) {
            return None;
        }
        let mut pa = vec![];
        let mut pb = vec![];
        self.pieces(a, &mut pa);
        self.pieces(b, &mut pb);
        let bounds = |c: &Ctx, p: &Vec<T>| {
            let mut v = vec![];
            let mut o = 0;
            for t in p {
                v.push((o, o + c.w(*t), *t));
                o += c.w(*t);
            }
            v
        };
        let va = bounds(self, &pa);
        let vb = bounds(self, &pb);
        let mut cuts: Vec<u32> = va.iter().map(|x| x.1).chain(vb.iter().map(|x| x.1)).collect();
        cuts.sort();
        cuts.dedup();
        let mut lo = 0;
        let mut res: Option<T> = None;
        for c in cuts {
            let fa = *va.iter().find(|x| x.0 <= lo && c <= x.1).unwrap();
            let fb = *vb.iter().find(|x| x.0 <= lo && c <= x.1).unwrap();
            let ea = self.extract(fa.2, c - 1 - fa.0, lo - fa.0);
            let eb = self.extract(fb.2, c - 1 - fb.0, lo - fb.0);
            let e = match (self.isk(ea), self.isk(eb)) {
                (Some(0), _) => eb,
                (_, Some(0)) => ea,
                (Some(x), Some(y)) => {
                    if x & y != 0 {
                        return None;
                    }
                    self.k(x | y, c - lo)
                }
                _ => return None,
            };
            res = Some(match res {
                None => e,
                Some(r) => self.concat(e, r),
            });
            lo = c;
        }
        res
    }
    pub fn add(&mut self, a: T, b: T) -> T {
        let w = self.w(a);
        match (self.isk(a), self.isk(b)) {
            (Some(x), Some(y)) => return self.k(x.wrapping_add(y), w),
            (Some(0), None) => return b,
            (None, Some(0)) => return a,
            (Some(x), None) => return self.addk(b, x, w),
            (None, Some(x)) => return self.addk(a, x, w),
            _ => {}
        }
        let (a, b) = if a < b { (a, b) } else { (b, a) };
        self.n(O::Add, Sort::BV(w), a, b, 0)
    }
    fn addk(&mut self, a: T, x: u128, w: u32) -> T {
        let n = self.node(a);
        if n.op == O::Add {
            if let Some(y) = self.isk(n.b) {
                let z = x.wrapping_add(y) & mask(w);
                if z == 0 {
                    return n.a;
                }
                let k = self.k(z, w);
                return self.n(O::Add, Sort::BV(w), n.a, k, 0);
            }
        }
        let k = self.k(x, w);
        self.n(O::Add, Sort::BV(w), a, k, 0)
    }
    pub fn sub(&mut self, a: T, b: T) -> T {
        let w = self.w(a);
        if a == b {
            return self.k(0, w);
        }
        match (self.isk(a), self.isk(b)) {
            (Some(x), Some(y)) => return self.k(x.wrapping_sub(y), w),
            (None, Some(y)) => {
                let m = (0u128.wrapping_sub(y)) & mask(w);
                if m == 0 {
                    return a;
                }
                return self.addk(a, m, w);
            }
            _ => {}
        }
        self.n(O::Sub, Sort::BV(w), a, b, 0)
    }
    pub fn mul(&mut self, a: T, b: T) -> T {
        let w = self.w(a);
        match (self.isk(a), self.isk(b)) {
            (Some(x), Some(y)) => return self.k(x.wrapping_mul(y), w),
            (Some(x), None) | (None, Some(x)) => {
                let o = if self.isk(a).is_some() { b } else { a };
                if x == 0 {
                    return self.k(0, w);
                }
                if x == 1 {
                    return o;
                }
            }
            _ => {}
        }
        let (a, b) = if a < b { (a, b) } else { (b, a) };
        self.n(O::Mul, Sort::BV(w), a, b, 0)
    }
    pub fn divop(&mut self, op: O, a: T, b: T) -> T {
        let w = self.w(a);
        if let (Some(x), Some(y)) = (self.isk(a), self.isk(b)) {
            if y != 0 {
                let (sx_, sy) = (sx(x, w), sx(y, w));
                let r = match op {
                    O::UDiv => x / y,
                    O::URem => x % y,
                    O::SDiv => sx_.wrapping_div(sy) as u128,
                    O::SRem => sx_.wrapping_rem(sy) as u128,
                    _ => unreachable!(),
                };
                return self.k(r, w);
            }
        }
        if let Some(y) = self.isk(b) {
            if y != 0 && y & (y - 1) == 0 {
                let s = y.trailing_zeros();
                if op == O::UDiv {
                    let kk = self.k(s as u128, w);
                    return self.lshr(a, kk);
                }
                if op == O::URem {
                    let kk = self.k(y - 1, w);
                    return self.and(a, kk);
                }
            }
        }
        self.n(op, Sort::BV(w), a, b, 0)
    }
    pub fn shl(&mut self, a: T, b: T) -> T {
        let w = self.w(a);
        if let Some(s) = self.isk(b) {
            if s == 0 {
                return a;
            }
            if s >= w as u128 {
                return self.k(0, w);
            }
            if let Some(x) = self.isk(a) {
                return self.k(x << s, w);
            }
            let e = self.extract(a, w - 1 - s as u32, 0);
            let z = self.k(0, s as u32);
            return self.concat(e, z);
        }
        self.n(O::Shl, Sort::BV(w), a, b, 0)
    }
    pub fn lshr(&mut self, a: T, b: T) -> T {
        let w = self.w(a);
        if let Some(s) = self.isk(b) {
            if s == 0 {
                return a;
            }
            if s >= w as u128 {
                return self.k(0, w);
            }
            if let Some(x) = self.isk(a) {
                return self.k(x >> s, w);
            }
            let e = self.extract(a, w - 1, s as u32);
            return self.zext(e, w);
        }
        self.n(O::LShr, Sort::BV(w), a, b, 0)
    }
    pub fn ashr(&mut self, a: T, b: T) -> T {
        let w = self.w(a);
        if let Some(s) = self.isk(b) {
            if s == 0 {
                return a;
            }
            let s = s.min(w as u128 - 1);
            if let Some(x) = self.isk(a) {
                return self.k((sx(x, w) >> s) as u128, w);
            }
            let e = self.extract(a, w - 1, s as u32);
            return self.sext(e, w);
        }
        self.n(O::AShr, Sort::BV(w), a, b, 0)
    }
    pub fn concat(&mut self, hi: T, lo: T) -> T {
        let (wh, wl) = (self.w(hi), self.w(lo));
        if wh + wl <= 128 {
            if let (Some(x), Some(y)) = (self.isk(hi), self.isk(lo)) {
                return self.k((x << wl) | y, wh + wl);
            }
        }
        // adjacent extracts
        let (nh, nl) = (self.node(hi), self.node(lo));
        if nh.op == O::Extract && nl.op == O::Extract && nh.a == nl.a {
            let (h1, l1) = ((nh.k >> 32) as u32, nh.k as u32);
            let (h2, l2) = ((nl.k >> 32) as u32, nl.k as u32);
            if l1 == h2 + 1 {
                return self.extract(nh.a, h1, l2);
            }
        }
        // concat(x, concat(y,z)) with x,y adjacent
        if nl.op == O::Concat && nh.op == O::Extract {
            let ny = self.node(nl.a);
            if ny.op == O::Extract && ny.a == nh.a && (nh.k as u32) == (ny.k >> 32) as u32 + 1 {
                let m = self.extract(nh.a, (nh.k >> 32) as u32, ny.k as u32);
                return self.concat(m, nl.b);
            }
        }
        if nl.op == O::Concat && nh.op == O::Const {
            if let Some(_) = self.isk(nl.a) {
                if self.w(nl.a) + wh <= 128 {
                    let m = self.concat(hi, nl.a);
                    return self.concat(m, nl.b);
                }
            }
        }
        if nh.op == O::Const && nh.k == 0 {
            return self.zext(lo, wh + wl);
        }
        self.n(O::Concat, Sort::BV(wh + wl), hi, lo, 0)
    }
    pub fn extract(&mut self, a: T, hi: u32, lo: u32) -> T {
        let w = self.w(a);
        assert!(hi < w && lo <= hi, "extract {} {} of {}", hi, lo, w);
        if lo == 0 && hi == w - 1 {
            return a;
        }
        let n = self.node(a);
        let nw = hi - lo + 1;
        match n.op {
            O::Const => return self.k(n.k >> lo, nw),
            O::Extract => {
                let l = n.k as u32;
                return self.extract(n.a, hi + l, lo + l);
            }
            O::Concat => {
                let wl = self.w(n.b);
                if hi < wl {
                    return self.extract(n.b, hi, lo);
                }
                if lo >= wl {
                    return self.extract(n.a, hi - wl, lo - wl);
                }
                let h = self.extract(n.a, hi - wl, 0);
                let l = self.extract(n.b, wl - 1, lo);
                return self.concat(h, l);
            }
            O::ZExt => {
                let wi = self.w(n.a);
                if hi < wi {
                    return self.extract(n.a, hi, lo);
                }
                if lo >= wi {
                    return self.zero(nw);
                }
                let l = self.extract(n.a, wi - 1, lo);
                return self.zext(l, nw);
            }
            O::SExt => {
                let wi = self.w(n.a);
                if hi < wi {
                    return self.extract(n.a, hi, lo);
                }
                if lo < wi {
                    let l = self.extract(n.a, wi - 1, lo);
                    return self.sext(l, nw);
                }
                let l = self.extract(n.a, wi - 1, wi - 1);
                return self.sext(l, nw);
            }
            O::And | O::Or | O::Xor => {
                let x = self.extract(n.a, hi, lo);
                let y = self.extract(n.b, hi, lo);
                return match n.op {
                    O::And => self.and(x, y),
                    O::Or => self.or(x, y),
                    _ => self.xor(x, y),
                };
            }
            O::Not => {
                let x = self.extract(n.a, hi, lo);
                return self.not(x);
            }
            O::Ite => {
                let (kb, kc) = (self.node(n.b).op, self.node(n.c).op);
                if kb == O::Const || kc == O::Const {
                    let x = self.extract(n.b, hi, lo);
                    let y = self.extract(n.c, hi, lo);
                    return self.ite(n.a, x, y);
                }
            }
            O::Add | O::Sub | O::Mul if lo == 0 && nw >= 8 && false => {}
            _ => {}
        }
        self.mk(Node { op: O::Extract, s: Sort::BV(nw), a, b: 0, c: 0, k: ((hi as u128) << 32) | lo as u128 })
    }
    pub fn zext(&mut self, a: T, w: u32) -> T {
        let wa = self.w(a);
        if w == wa {
            return a;
        }
        let n = self.node(a);
        if n.op == O::Const && w <= 128 {
            return self.k(n.k, w);
        }
        if n.op == O::ZExt {
            return self.zext(n.a, w);
        }
        self.n(O::ZExt, Sort::BV(w), a, 0, 0)
    }
    pub fn sext(&mut self, a: T, w: u32) -> T {
        let wa = self.w(a);
        if w == wa {
            return a;
        }
        let n = self.node(a);
        if n.op == O::Const && w <= 128 {
            return self.k(sx(n.k, wa) as u128, w);
        }
        if n.op == O::SExt {
            return self.sext(n.a, w);
        }
        if n.op == O::ZExt {
            return self.zext(n.a, w);
        }
        self.n(O::SExt, Sort::BV(w), a, 0, 0)
    }
    pub fn trunc(&mut self, a: T, w: u32) -> T {
        if self.w(a) == w {
            return a;
        }
        self.extract(a, w - 1, 0)
    }
    pub fn ite(&mut self, c: T, a: T, b: T) -> T {
        if let Some(k) = self.isk(c) {
            return if k == 1 { a } else { b };
        }
        if a == b {
            return a;
        }
        let s = self.sort(a);
        if s == Sort::BV(1) {
            match (self.isk(a), self.isk(b)) {
                (Some(1), Some(0)) => return c,
                (Some(0), Some(1)) => return self.not(c),
                (Some(1), _) => return self.or(c, b),
                (Some(0), _) => {
                    let nc = self.not(c);
                    return self.and(nc, b);
                }
                (_, Some(0)) => return self.and(c, a),
                (_, Some(1)) => {
                    let nc = self.not(c);
                    return self.or(nc, a);
                }
                _ => {}
            }
        }
        let n = self.node(c);
        if n.op == O::Not {
            return self.ite(n.a, b, a);
        }
        self.n(O::Ite, s, c, a, b)
    }
    pub fn eq(&mut self, a: T, b: T) -> T {
        if a == b {
            return self.tt;
        }
        let s = self.sort(a);
        debug_assert!(s == self.sort(b));
        let (na, nb) = (self.node(a), self.node(b));
        if na.op == O::Const && nb.op == O::Const {
            return self.ff;
        }
        if (na.op == O::FConst && nb.op == O::FConst) || (na.op == O::ZConst && nb.op == O::ZConst) {
            return self.ff;
        }
        if na.op == O::Const {
            return self.eq(b, a);
        }
        if let Sort::BV(w) = s {
            if w == 1 {
                match self.isk(b) {
                    Some(1) => return a,
                    Some(0) => return self.not(a),
                    _ => {}
                }
            }
            if nb.op == O::Const {
                match na.op {
                    O::ZExt => {
                        let wi = self.w(na.a);
                        if nb.k >> wi != 0 {
                            return self.ff;
                        }
                        let k = self.k(nb.k, wi);
                        return self.eq(na.a, k);
                    }
                    O::Concat => {
                        let wl = self.w(na.b);
                        let kl = self.k(nb.k, wl);
                        let kh = self.k(nb.k >> wl, w - wl);
                        let x = self.eq(na.b, kl);
                        let y = self.eq(na.a, kh);
                        return self.and(x, y);
                    }
                    O::Ite => {
                        let (x, y) = (self.isk(na.b), self.isk(na.c));
                        if x.is_some() || y.is_some() {
                            let e1 = self.eq(na.b, b);
                            let e2 = self.eq(na.c, b);
                            return self.ite(na.a, e1, e2);
                        }
                    }
                    O::Xor => {
                        if let Some(k) = self.isk(na.b).or(self.isk(na.a)) {
                            let o = if self.isk(na.b).is_some() { na.a } else { na.b };
                            let kk = self.k(k ^ nb.k, w);
                            return self.eq(o, kk);
                        }
                        if nb.k == 0 {
                            return self.eq(na.a, na.b);
                        }
                    }
                    O::Or if nb.k == 0 => {
                        let z = self.k(0, w);
                        let x = self.eq(na.a, z);
                        let y = self.eq(na.b, z);
                        return self.and(x, y);
                    }
                    O::Add => {
                        if let Some(k) = self.isk(na.b) {
                            let kk = self.k(nb.k.wrapping_sub(k), w);
                            return self.eq(na.a, kk);
                        }
                    }
                    O::Not => {
                        let kk = self.k(!nb.k, w);
                        return self.eq(na.a, kk);
                    }
                    _ => {}
                }
            }
            if na.op == O::EncF && nb.op == O::EncF {
                if self.sort(na.a) == self.sort(nb.a) && na.b == nb.b {
                    return self.eq(na.a, nb.a);
                }
                return self.ff;
            }
            if na.op == O::Uf && nb.op == O::Uf && self.ufs[na.a as usize].inj && self.ufs[nb.a as usize].inj && self.ufs[na.a as usize].family == self.ufs[nb.a as usize].family {
                if na.a != nb.a {
                    return self.ff;
                }
                let (x, y) = (self.arglists[na.b as usize].clone(), self.arglists[nb.b as usize].clone());
                let mut r = self.tt;
                for (p, q) in x.iter().zip(y.iter()) {
                    let e = self.eq(*p, *q);
                    r = self.and(r, e);
                }
                return r;
            }
            if w > 64 && (na.op == O::Concat || nb.op == O::Concat) {
                return self.eq_pieces(a, b);
            }
            if na.op == O::ZExt && nb.op == O::ZExt && self.w(na.a) == self.w(nb.a) {
                return self.eq(na.a, nb.a);
            }
        }
        if let Sort::F(_) = s {
            if let Some(r) = self.feq(a, b) {
                return r;
            }
        }
        let (a, b) = if nb.op == O::Const || a < b { (a, b) } else { (b, a) };
        self.n(O::Eq, Sort::BV(1), a, b, 0)
    }
    pub fn eq_raw(&mut self, a: T, b: T) -> T {
        if a == b {
            return self.tt;
        }
        let (a, b) = if a < b { (a, b) } else { (b, a) };
        self.n(O::Eq, Sort::BV(1), a, b, 0)
    }
    pub fn finv_raw(&mut self, a: T, m: u8) -> T {
        self.n(O::FInv, Sort::F(m), a, 0, 0)
    }
    pub fn fmul_raw(&mut self, a: T, b: T, m: u8) -> T {
        let (a, b) = if a < b { (a, b) } else { (b, a) };
        self.n(O::FMul, Sort::F(m), a, b, 0)
    }
    pub fn fadd_raw(&mut self, a: T, b: T, m: u8) -> T {
        let (a, b) = if a < b { (a, b) } else { (b, a) };
        self.n(O::FAdd, Sort::F(m), a, b, 0)
    }
    /// x ^ k and y ^ k are equal iff x and y are
    fn strip_xor(&self, x: T, y: T) -> (T, T) {
        let (nx, ny) = (self.node(x), self.node(y));
        if nx.op == O::Xor && ny.op == O::Xor {
            for (k, p) in [(nx.a, nx.b), (nx.b, nx.a)] {
                for (l, q) in [(ny.a, ny.b), (ny.b, ny.a)] {
                    if k == l && self.isk(k).is_some() {
                        return (p, q);
                    }
                }
            }
        }
        (x, y)
    }
    fn eq_pieces(&mut self, a: T, b: T) -> T {
        let mut pa = vec![];
        let mut pb = vec![];
        self.pieces(a, &mut pa);
        self.pieces(b, &mut pb);
        let mut ca = vec![0];
        for t in &pa {
            let l = *ca.last().unwrap();
            ca.push(l + self.w(*t));
        }
        let mut cb = vec![0];
        for t in &pb {
            let l = *cb.last().unwrap();
            cb.push(l + self.w(*t));
        }
        // cut only at positions common to both where possible
        let mut segs: Vec<(T, T)> = vec![];
        let mut lo = 0;
        let tot = *ca.last().unwrap();
        while lo < tot {
            // piece containing lo on each side; take the finer granularity
            let i = ca.iter().rposition(|x| *x <= lo).unwrap();
            let j = cb.iter().rposition(|x| *x <= lo).unwrap();
            let hi = ca[i + 1].min(cb[j + 1]);
            let x = self.extract(pa[i], hi - 1 - ca[i], lo - ca[i]);
            let y = self.extract(pb[j], hi - 1 - cb[j], lo - cb[j]);
            let (x, y) = self.strip_xor(x, y);
            lo = hi;
            // neighbouring cuts of the same two terms are compared as one
            if let Some((p, q)) = segs.last().copied() {
                let (np, nq, nx, ny) = (self.node(p), self.node(q), self.node(x), self.node(y));
                if np.op == O::Extract && nq.op == O::Extract && nx.op == O::Extract && ny.op == O::Extract && np.a == nx.a && nq.a == ny.a && nx.k as u32 == np.k as u32 + self.w(p) && ny.k as u32 == nq.k as u32 + self.w(q) {
                    let (lp, lq, w) = (np.k as u32, nq.k as u32, self.w(p) + self.w(x));
                    let m = (self.extract(np.a, lp + w - 1, lp), self.extract(nq.a, lq + w - 1, lq));
                    *segs.last_mut().unwrap() = m;
                    continue;
                }
            }
            segs.push((x, y));
        }
        let mut r = self.tt;
        for (x, y) in segs {
            let e = if (x == a && y == b) || (x == b && y == a) { self.n(O::Eq, Sort::BV(1), a.min(b), a.max(b), 0) } else { self.eq(x, y) };
            r = self.and(r, e);
        }
        r
    }
    pub fn cmp(&mut self, op: O, a: T, b: T) -> T {
        let w = self.w(a);
        if a == b {
            return self.bool(matches!(op, O::Ule | O::Sle));
        }
        if let (Some(x), Some(y)) = (self.isk(a), self.isk(b)) {
            let r = match op {
                O::Ult => x < y,
                O::Ule => x <= y,
                O::Slt => sx(x, w) < sx(y, w),
                O::Sle => sx(x, w) <= sx(y, w),
                _ => unreachable!(),
            };
            return self.bool(r);
        }
        if w <= 128 {
            if let Some(y) = self.isk(b) {
                if op == O::Ult && y == 0 {
                    return self.ff;
                }
                if op == O::Ule && y == mask(w) {
                    return self.tt;
                }
                if op == O::Ult && y == 1 {
                    let z = self.k(0, w);
                    return self.eq(a, z);
                }
                let na = self.node(a);
                if na.op == O::ZExt && (op == O::Ult || op == O::Ule || (y >> (w - 1)) & 1 == 0) {
                    let wi = self.w(na.a);
                    if y >> wi != 0 {
                        return self.tt;
                    }
                    let k = self.k(y, wi);
                    let o2 = match op {
                        O::Slt => O::Ult,
                        O::Sle => O::Ule,
                        o => o,
                    };
                    return self.cmp(o2, na.a, k);
                }
            }
            if let Some(x) = self.isk(a) {
                if op == O::Ule && x == 0 {
                    return self.tt;
                }
                if op == O::Ult && x == mask(w) {
                    return self.ff;
                }
                let nb = self.node(b);
                if nb.op == O::ZExt && (op == O::Ult || op == O::Ule || (x >> (w - 1)) & 1 == 0) {
                    let wi = self.w(nb.a);
                    if x >> wi != 0 {
                        return self.ff;
                    }
                    let k = self.k(x, wi);
                    let o2 = match op {
                        O::Slt => O::Ult,
                        O::Sle => O::Ule,
                        o => o,
                    };
                    return self.cmp(o2, k, nb.a);
                }
            }
            let (na, nb) = (self.node(a), self.node(b));
            if na.op == O::ZExt && nb.op == O::ZExt && self.w(na.a) == self.w(nb.a) {
                let o2 = match op {
                    O::Slt => O::Ult,
                    O::Sle => O::Ule,
                    o => o,
                };
                return self.cmp(o2, na.a, nb.a);
            }
        }
        if w == 1 {
            // booleans: a<b == !a & b
            return match op {
                O::Ult => {
                    let n = self.not(a);
                    self.and(n, b)
                }
                O::Ule => {
                    let n = self.not(a);
                    self.or(n, b)
                }
                O::Slt => {
                    let n = self.not(b);
                    self.and(a, n)
                }
                _ => {
                    let n = self.not(b);
                    self.or(a, n)
                }
            };
        }
        self.n(op, Sort::BV(1), a, b, 0)
    }
    // ---------- integers
    pub fn zk(&mut self, b: &Big) -> T {
        let i = self.big(b);
        self.n(O::ZConst, Sort::Z, i, 0, 0)
    }
    pub fn zof(&mut self, a: T, signed: bool) -> T {
        if let Some(k) = self.isk(a) {
            let w = self.w(a);
            let b = if signed { Big::from(sx(k, w)) } else { Big::from_u128(k) };
            return self.zk(&b);
        }
        self.n(if signed { O::ZofS } else { O::ZofU }, Sort::Z, a, 0, 0)
    }
    pub fn zval(&self, a: T) -> Option<Big> {
        let n = &self.nodes[a as usize];
        if n.op == O::ZConst {
            Some(self.bigs[n.a as usize].clone())
        } else {
            None
        }
    }
    pub fn zadd(&mut self, a: T, b: T) -> T {
        match (self.zval(a), self.zval(b)) {
            (Some(x), Some(y)) => {
                let s = x.add(&y);
                return self.zk(&s);
            }
            (Some(x), _) if x.is_zero() => return b,
            (_, Some(y)) if y.is_zero() => return a,
            _ => {}
        }
        self.n(O::ZAdd, Sort::Z, a, b, 0)
    }
    pub fn zmul(&mut self, a: T, b: T) -> T {
        match (self.zval(a), self.zval(b)) {
            (Some(x), Some(y)) => {
                let s = x.mul(&y);
                return self.zk(&s);
            }
            (Some(x), _) if x == Big::one() => return b,
            (_, Some(y)) if y == Big::one() => return a,
            (Some(x), _) if x.is_zero() => return a,
            (_, Some(y)) if y.is_zero() => return b,
            _ => {}
        }
        self.n(O::ZMul, Sort::Z, a, b, 0)
    }
    pub fn zneg(&mut self, a: T) -> T {
        if let Some(x) = self.zval(a) {
            return self.zk(&x.negate());
        }
        self.n(O::ZNeg, Sort::Z, a, 0, 0)
    }
    pub fn zle(&mut self, a: T, b: T) -> T {
        if let (Some(x), Some(y)) = (self.zval(a), self.zval(b)) {
            return self.bool(x.le(&y));
        }
        self.n(O::ZLe, Sort::BV(1), a, b, 0)
    }
    pub fn zmod(&mut self, a: T, m: &Big) -> T {
        if let Some(x) = self.zval(a) {
            return self.zk(&x.rem_euclid(m));
        }
        let i = self.big(m);
        self.n(O::ZMod, Sort::Z, a, i, 0)
    }
    // ---------- field
    pub fn fk(&mut self, b: &Big, m: u8) -> T {
        let r = b.rem_euclid(&self.mods[m as usize].clone());
        let i = self.big(&r);
        self.n(O::FConst, Sort::F(m), i, 0, 0)
    }
    pub fn fval(&self, a: T) -> Option<Big> {
        let n = &self.nodes[a as usize];
        if n.op == O::FConst {
            Some(self.bigs[n.a as usize].clone())
        } else {
            None
        }
    }
    pub fn fm(&self, a: T) -> u8 {
        match self.sort(a) {
            Sort::F(m) => m,
            s => panic!("field sort expected, got {:?}", s),
        }
    }
    pub fn fadd(&mut self, a: T, b: T) -> T {
        let m = self.fm(a);
        match (self.fval(a), self.fval(b)) {
            (Some(x), Some(y)) => return self.fk(&x.add(&y), m),
            (Some(x), _) if x.is_zero() => return b,
            (_, Some(y)) if y.is_zero() => return a,
            _ => {}
        }
        let (a, b) = if a < b { (a, b) } else { (b, a) };
        self.n(O::FAdd, Sort::F(m), a, b, 0)
    }
    pub fn fmul(&mut self, a: T, b: T) -> T {
        let m = self.fm(a);
        match (self.fval(a), self.fval(b)) {
            (Some(x), Some(y)) => return self.fk(&x.mul(&y), m),
            (Some(x), _) if x == Big::one() => return b,
            (_, Some(y)) if y == Big::one() => return a,
            (Some(x), _) if x.is_zero() => return a,
            (_, Some(y)) if y.is_zero() => return b,
            _ => {}
        }
        let (a, b) = if a < b { (a, b) } else { (b, a) };
        self.n(O::FMul, Sort::F(m), a, b, 0)
    }
    pub fn fneg(&mut self, a: T) -> T {
        let m = self.fm(a);
        if let Some(x) = self.fval(a) {
            return self.fk(&x.negate(), m);
        }
        let n = self.node(a);
        if n.op == O::FNeg {
            return n.a;
        }
        self.n(O::FNeg, Sort::F(m), a, 0, 0)
    }
    /// inverse, with 0 -> 0
    pub fn finv(&mut self, a: T) -> T {
        let m = self.fm(a);
        if let Some(x) = self.fval(a) {
            let p = self.mods[m as usize].clone();
            let e = p.sub(&Big::from(2));
            return self.fk(&x.powmod(&e, &p), m);
        }
        self.n(O::FInv, Sort::F(m), a, 0, 0)
    }
    /// opaque injective encoding of a field element as `w` bits; tag distinguishes domains
    pub fn encf(&mut self, a: T, w: u32, tag: u32) -> T {
        let a = self.fcanon(a);
        self.n(O::EncF, Sort::BV(w), a, tag, 0)
    }
    pub fn fdec(&mut self, a: T, m: u8, tag: u32) -> T {
        let n = self.node(a);
        if n.op == O::EncF && self.sort(n.a) == Sort::F(m) && n.b == tag {
            return n.a;
        }
        self.n(O::FDec, Sort::F(m), a, tag, 0)
    }
    pub fn sort_name(&self, s: Sort) -> String {
        match s {
            Sort::BV(w) => format!("b{}", w),
            Sort::Z => "z".into(),
            Sort::F(m) => format!("f{}", m),
        }
    }
    pub fn sort_smt(&self, s: Sort) -> String {
        match s {
            Sort::BV(1) => "Bool".into(),
            Sort::BV(w) => format!("(_ BitVec {})", w),
            Sort::Z => "Int".into(),
            Sort::F(m) => format!("F{}", m),
        }
    }
    /// from now on y * y is written as `e`
    pub fn fsq_rule(&mut self, y: T, e: T) -> bool {
        match self.fpoly(e) {
            Some(p) => {
                self.rules.sq.insert(y, (p, e));
                self.pcache.clear();
                self.ccache.clear();
                true
            }
            None => false,
        }
    }
    /// does the term mention field elements?
    pub fn has_ff(&self, t: T) -> bool {
        let mut c = self.ffc.borrow_mut();
        let mut st = vec![(t, false)];
        while let Some((x, done)) = st.pop() {
            if c.contains_key(&x) {
                continue;
            }
            if matches!(self.sort(x), Sort::F(_)) {
                c.insert(x, true);
                continue;
            }
            let ch = self.children(x);
            if done || ch.is_empty() {
                let r = ch.iter().any(|y| c.get(y) == Some(&true));
                c.insert(x, r);
            } else {
                st.push((x, true));
                for y in ch {
                    st.push((y, false));
                }
            }
        }
        c[&t]
    }
    pub fn children(&self, t: T) -> Vec<T> {
        let n = self.node(t);
        match n.op {
            O::Const | O::Var | O::ZConst | O::FConst => vec![],
            O::Uf => self.arglists[n.b as usize].clone(),
            O::Not | O::Extract | O::ZExt | O::SExt | O::ZofS | O::ZofU | O::ZNeg | O::ZMod | O::FNeg | O::FInv | O::EncF | O::FDec => vec![n.a],
            O::Ite => vec![n.a, n.b, n.c],
            _ => vec![n.a, n.b],
        }
    }
    fn asbv(&self, t: T) -> String {
        if self.sort(t) == Sort::BV(1) {
            format!("(ite {} #b1 #b0)", self.r(t))
        } else {
            self.r(t)
        }
    }
    pub fn r(&self, t: T) -> String {
        let n = self.node(t);
        match n.op {
            O::Const => match n.s {
                Sort::BV(1) => (if n.k == 1 { "true" } else { "false" }).into(),
                Sort::BV(w) => format!("(_ bv{} {})", n.k, w),
                _ => unreachable!(),
            },
            O::ZConst => self.bigs[n.a as usize].smt(),
            O::FConst => {
                let m = self.fm(t);
                format!("(as ff{} F{})", self.bigs[n.a as usize].dec(), m)
            }
            O::Var => format!("v{}", n.a),
            _ => format!("t{}", t),
        }
    }
    /// body of the definition of a non-leaf term (native sorts)
    pub fn body(&self, t: T) -> String {
        let n = self.node(t);
        let boolean = n.s == Sort::BV(1);
        let (a, b) = (n.a, n.b);
        let bin = |o: &str| format!("({} {} {})", o, self.r(a), self.r(b));
        match n.op {
            O::Not => {
                if boolean {
                    format!("(not {})", self.r(a))
                } else {
                    format!("(bvnot {})", self.r(a))
                }
            }
            O::And => bin(if boolean { "and" } else { "bvand" }),
            O::Or => bin(if boolean { "or" } else { "bvor" }),
            O::Xor => bin(if boolean { "xor" } else { "bvxor" }),
            O::Add => {
                if boolean {
                    bin("xor")
                } else {
                    bin("bvadd")
                }
            }
            O::Sub => {
                if boolean {
                    bin("xor")
                } else {
                    bin("bvsub")
                }
            }
            O::Mul => {
                if boolean {
                    bin("and")
                } else {
                    bin("bvmul")
                }
            }
            O::UDiv => bin("bvudiv"),
            O::URem => bin("bvurem"),
            O::SDiv => bin("bvsdiv"),
            O::SRem => bin("bvsrem"),
            O::Shl => bin("bvshl"),
            O::LShr => bin("bvlshr"),
            O::AShr => bin("bvashr"),
            O::Concat => format!("(concat {} {})", self.asbv(a), self.asbv(b)),
            O::Extract => {
                let (hi, lo) = ((n.k >> 32) as u32, n.k as u32);
                let e = format!("((_ extract {} {}) {})", hi, lo, self.r(a));
                if boolean {
                    format!("(= {} #b1)", e)
                } else {
                    e
                }
            }
            O::ZExt => {
                let w = self.w(t);
                if self.w(a) == 1 {
                    if w <= 128 {
                        format!("(ite {} (_ bv1 {}) (_ bv0 {}))", self.r(a), w, w)
                    } else {
                        format!("((_ zero_extend {}) (ite {} #b1 #b0))", w - 1, self.r(a))
                    }
                } else {
                    format!("((_ zero_extend {}) {})", w - self.w(a), self.r(a))
                }
            }
            O::SExt => {
                let w = self.w(t);
                format!("((_ sign_extend {}) {})", w - self.w(a), self.asbv(a))
            }
            O::Eq => bin("="),
            O::Ult => bin("bvult"),
            O::Ule => bin("bvule"),
            O::Slt => bin("bvslt"),
            O::Sle => bin("bvsle"),
            O::Ite => format!("(ite {} {} {})", self.r(a), self.r(b), self.r(n.c)),
            O::Uf => {
                let args = &self.arglists[b as usize];
                let s: Vec<String> = args.iter().map(|x| self.r(*x)).collect();
                format!("(u_{} {})", self.ufs[a as usize].name, s.join(" "))
            }
            O::ZAdd => bin("+"),
            O::ZMul => bin("*"),
            O::ZNeg => format!("(- {})", self.r(a)),
            O::ZLe => bin("<="),
            O::ZMod => format!("(mod {} {})", self.r(a), self.bigs[b as usize].smt()),
            O::ZofU => format!("(ubv_to_int {})", self.asbv(a)),
            O::ZofS => format!("(sbv_to_int {})", self.asbv(a)),
            O::FAdd => bin("ff.add"),
            O::FMul => bin("ff.mul"),
            O::FNeg => {
                let m = self.fm(a);
                let k = self.mods[m as usize].sub(&Big::one());
                format!("(ff.mul (as ff{} F{}) {})", k.dec(), m, self.r(a))
            }
            O::EncF => format!("(enc_{}_{}_{} {})", self.fm(a), self.w(t), b, self.r(a)),
            O::FDec => format!("(dec_{}_{}_{} {})", self.fm(t), self.w(a), b, self.r(a)),
            O::FInv => unreachable!("finv is introduced by its own axioms"),
            O::Const | O::Var | O::ZConst | O::FConst => unreachable!(),
        }
    }
}
