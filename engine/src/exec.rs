//! Symbolic interpreter for LLVM IR.
use crate::big::Big;
use crate::ir::*;
use crate::lia;
use crate::solver::*;
use crate::term::*;
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::rc::Rc;
use std::time::Instant;

#[derive(Clone, Debug, PartialEq)]
pub enum V {
    K(u64),
    S(T),
    A(Rc<Vec<V>>),
    U,
}

#[derive(Clone, PartialEq)]
pub struct Obj {
    pub data: Vec<u8>,
    pub sym: Option<Vec<(T, u8)>>,
    pub ro: bool,
}
#[derive(Clone)]
pub struct Frame {
    pub f: Rc<Func>,
    pub blk: usize,
    pub ip: usize,
    pub prev: usize,
    pub loc: Vec<V>,
    pub dst: u32,
    pub ret_to: Option<u32>, // invoke normal dest
    pub allocas: Vec<u32>,
}
#[derive(Clone)]
pub struct State {
    pub frames: Vec<Frame>,
    pub objs: Vec<Option<Rc<Obj>>>,
    pub free: Vec<u32>,
    pub globs: Vec<Option<Rc<Obj>>>,
    pub pcs: Vec<T>,
    pub known: HashMap<T, u64>,
    pub names: HashMap<String, u32>,
    pub model: Option<Rc<Model>>,
    pub steps: u64,
    pub notes: Vec<String>,
}
pub enum Stop {
    Fork(Vec<T>),
    /// the states to go on with are in `spill`
    Spill,
    /// like Fork but each alternative also redirects control (branch)
    Panic(String),
    Assume,
    Err(String),
    Exit,
}
type R<X> = Result<X, Stop>;

#[derive(Clone, Debug)]
pub struct Violation {
    pub name: String,
    pub msg: String,
    pub inputs: Vec<(String, Big)>,
    pub ufs: Vec<(String, Vec<u8>, Vec<u8>)>,
    pub encs: Vec<(u32, Big, Vec<u8>)>,
    pub decs: Vec<(u8, u32, Vec<u8>, Big)>,
}
#[derive(Clone, Default, Debug)]
pub struct CheckStat {
    pub evaluated: u64,
    pub trivially: u64,
    pub proved: u64,
    pub failed: u64,
}

pub struct Exec {
    pub m: Module,
    pub tm: Ctx,
    pub sol: Solver,
    pub dem: HashMap<u32, String>,
    pub redirects: Vec<(String, u32)>,
    pub redir_cache: HashMap<u32, Option<u32>>,
    pub builtin: HashMap<u32, Option<Builtin>>,
    pub checks: BTreeMap<String, CheckStat>,
    pub reached: BTreeMap<String, u64>,
    pub viol: Vec<Violation>,
    pub errors: BTreeSet<String>,
    pub functions: BTreeSet<String>,
    pub fcount: HashMap<u32, u64>,
    pub varcache: HashMap<String, T>,
    pub int_mode: bool,
    /// run the formatting machinery instead of dropping its output
    pub real_fmt: bool,
    pub undecided: u64,
    /// inputs with a declared range, and the path condition stating it
    pub ranged: HashMap<T, T>,
    pub paths: u64,
    pub done_paths: u64,
    pub panic_paths: u64,
    pub insts: u64,
    pub forks: u64,
    pub deadline: Instant,
    pub max_paths: u64,
    pub max_viol: usize,
    pub allow_panic: bool,
    pub lia_stats: lia::LiaStats,
    pub max_insts: u64,
    pub trace: bool,
    pub ptr_limit: usize,
    pub lia_ms: u64,
    pub stubs_hit: BTreeSet<String>,
    pub panic_msgs: BTreeMap<String, u64>,
    /// predicates (functions returning i1) whose paths are joined again where they return
    pub merges: Vec<String>,
    pub merge_cache: HashMap<u32, bool>,
    pub merge_now: bool,
    pub spill: Vec<State>,
    /// inside a predicate: take both sides of a branch without asking whether they are possible
    pub lazy: bool,
    pub merged: u64,
}

const GLOB: u64 = 1 << 23; // object ids >= GLOB are globals
const FUNC_OBJ: u64 = 1; // function addresses live in object 1

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Builtin {
    Alloc,
    AllocZ,
    Realloc,
    Dealloc,
    Memcmp,
    Memcpy,
    Memmove,
    Memset,
    Strlen,
    PanicFmt,
    PanicStr,
    PanicGeneric,
    FmtWrite,
    Nop,
    HashKeys,
    SymBits,
    SymBytes,
    SymAssume,
    SymGiven,
    SymCheck,
    SymReach,
    SymConc,
    SymIs,
    SymIsConc,
    SymRange,
    SymPanicOk,
    SymNote,
    FldVar,
    FldNz,
    FldSq,
    FldConst,
    FldAdd,
    FldSub,
    FldMul,
    FldNeg,
    FldInv,
    FldEq,
    FldIte,
    FldEnc,
    FldDec,
    FldParity,
    ZOf,
    ZBytes,
    ZAdd,
    ZSub,
    ZMul,
    ZLe,
    ZEq,
    ZMod,
    ZModEq,
    Uf,
    Cpuid,
    RngFill,
    Ret0,
    Ret1,
    BoolOr,
    BoolAnd,
    Abort,
    Select,
}

fn bytes_le(v: u64, n: usize) -> Vec<u8> {
    v.to_le_bytes()[..n].to_vec()
}

impl Exec {
    pub fn kterm(&mut self, v: &V, w: u32) -> T {
        match v {
            V::K(k) => self.tm.k(*k as u128, w),
            V::S(t) => *t,
            V::U => self.tm.zero(w),
            V::A(_) => panic!("aggregate as scalar"),
        }
    }
    pub fn norm(&self, t: T) -> V {
        let n = self.tm.nodes[t as usize];
        if n.op == O::Const {
            if let Sort::BV(w) = n.s {
                if w <= 64 {
                    return V::K(n.k as u64);
                }
            }
        }
        V::S(t)
    }
    fn cst(&mut self, c: &Cst, ty: &Ty) -> V {
        match c {
            Cst::Int(x, w) => {
                if *w <= 64 {
                    V::K(*x as u64)
                } else {
                    V::S(self.tm.k(*x, *w))
                }
            }
            Cst::Undef | Cst::Zero => self.zero_of(ty),
            Cst::Sym(s, o) => V::K((self.sym_addr(*s) as i64 + o) as u64),
            Cst::Bytes(b) => V::A(Rc::new(b.iter().map(|x| V::K(*x as u64)).collect())),
            Cst::Agg(v) => {
                let r: Vec<V> = v.iter().enumerate().map(|(i, x)| self.cst(x, &ty.elem(i))).collect();
                V::A(Rc::new(r))
            }
        }
    }
    fn zero_of(&mut self, ty: &Ty) -> V {
        match ty {
            Ty::Int(w) if *w > 64 => V::S(self.tm.zero(*w)),
            Ty::Arr(n, t) | Ty::Vec(n, t) => {
                let z = self.zero_of(t);
                V::A(Rc::new(vec![z; *n as usize]))
            }
            Ty::Struct(fs, _) => V::A(Rc::new(fs.iter().map(|f| self.zero_of(f)).collect())),
            _ => V::K(0),
        }
    }
    pub fn sym_addr(&self, s: u32) -> u64 {
        match self.m.syms[s as usize].kind {
            SymKind::Func | SymKind::Decl | SymKind::Unknown => (FUNC_OBJ << 32) | ((s as u64) << 4),
            SymKind::Alias(t) => self.sym_addr(t),
            SymKind::Global => (GLOB + s as u64) << 32,
        }
    }
    fn op(&mut self, st: &State, o: &Op, ty: &Ty) -> V {
        match o {
            Op::L(i) => st.frames.last().unwrap().loc[*i as usize].clone(),
            Op::C(c) => self.cst(c, ty),
        }
    }
    fn opk(&mut self, st: &State, o: &Op, w: u32) -> V {
        match o {
            Op::L(i) => st.frames[st.frames.len() - 1].loc[*i as usize].clone(),
            Op::C(Cst::Int(x, _)) if w <= 64 => V::K(*x as u64),
            Op::C(c) => self.cst(c, &Ty::Int(w)),
        }
    }

    // ---------------- memory
    fn obj_ref<'a>(&mut self, st: &'a mut State, id: u64, what: &str) -> R<&'a mut Option<Rc<Obj>>> {
        if id >= GLOB {
            let g = (id - GLOB) as usize;
            if g >= self.m.syms.len() {
                return Err(Stop::Err(format!("bad address (global {}) in {}", g, what)));
            }
            if st.globs.len() <= g {
                st.globs.resize(self.m.syms.len(), None);
            }
            if st.globs[g].is_none() {
                let o = self.init_global(g as u32)?;
                st.globs[g] = Some(Rc::new(o));
            }
            return Ok(&mut st.globs[g]);
        }
        if id as usize >= st.objs.len() || st.objs[id as usize].is_none() {
            return Err(Stop::Err(format!("access to unmapped object {:#x} in {}", id, what)));
        }
        Ok(&mut st.objs[id as usize])
    }
    fn init_global(&mut self, s: u32) -> R<Obj> {
        match self.m.global(s) {
            Some((ty, Some(c))) => {
                let mut d = vec![0u8; ty.size() as usize];
                self.fill(&c, &ty, &mut d, 0);
                Ok(Obj { data: d, sym: None, ro: false })
            }
            Some((ty, None)) => Ok(Obj { data: vec![0u8; ty.size() as usize], sym: None, ro: false }),
            None => Err(Stop::Err(format!("no data for symbol {}", self.m.syms[s as usize].name))),
        }
    }
    fn fill(&mut self, c: &Cst, ty: &Ty, d: &mut Vec<u8>, off: usize) {
        match c {
            Cst::Int(x, w) => {
                let n = ((*w + 7) / 8) as usize;
                for i in 0..n {
                    d[off + i] = (x >> (8 * i)) as u8;
                }
            }
            Cst::Zero | Cst::Undef => {}
            Cst::Bytes(b) => d[off..off + b.len()].copy_from_slice(b),
            Cst::Sym(s, o) => {
                let a = (self.sym_addr(*s) as i64 + o) as u64;
                d[off..off + 8].copy_from_slice(&a.to_le_bytes());
            }
            Cst::Agg(v) => {
                for (i, x) in v.iter().enumerate() {
                    let t = ty.elem(i);
                    let o = ty.field_off(i) as usize;
                    self.fill(x, &t, d, off + o);
                }
            }
        }
    }
    fn new_obj(&mut self, st: &mut State, size: u64) -> u64 {
        let o = Rc::new(Obj { data: vec![0u8; size as usize], sym: None, ro: false });
        if let Some(i) = st.free.pop() {
            st.objs[i as usize] = Some(o);
            return (i as u64) << 32;
        }
        let i = st.objs.len() as u64;
        st.objs.push(Some(o));
        i << 32
    }
    fn check_bounds(o: &Obj, off: u64, n: u64, what: &str) -> R<()> {
        if off + n > o.data.len() as u64 {
            return Err(Stop::Err(format!("out-of-bounds {} off {} len {} size {}", what, off, n, o.data.len())));
        }
        Ok(())
    }
    /// n bytes at addr as a bit-vector value of width w (w <= 8n)
    fn load_bits(&mut self, st: &mut State, addr: u64, w: u32) -> R<V> {
        let n = ((w + 7) / 8) as usize;
        if n == 0 {
            return Ok(V::K(0));
        }
        let off = (addr & 0xffff_ffff) as usize;
        let slot = self.obj_ref(st, addr >> 32, "load")?;
        let o = slot.as_ref().unwrap();
        Self::check_bounds(o, off as u64, n as u64, "load")?;
        let concrete = match &o.sym {
            None => true,
            Some(s) => s[off..off + n].iter().all(|x| x.0 == 0),
        };
        if concrete {
            if w <= 64 {
                let mut b = [0u8; 8];
                b[..n].copy_from_slice(&o.data[off..off + n]);
                let mut x = u64::from_le_bytes(b);
                if w < 64 {
                    x &= (1u64 << w) - 1;
                }
                return Ok(V::K(x));
            }
            let d = o.data[off..off + n].to_vec();
            let mut r: Option<T> = None;
            for ch in d.chunks(16) {
                let mut x = 0u128;
                for (i, b) in ch.iter().enumerate() {
                    x |= (*b as u128) << (8 * i);
                }
                let t = self.tm.k(x, 8 * ch.len() as u32);
                r = Some(match r {
                    None => t,
                    Some(p) => self.tm.concat(t, p),
                });
            }
            let t = r.unwrap();
            let t = self.tm.trunc(t, w);
            return Ok(self.norm(t));
        }
        let d = o.data[off..off + n].to_vec();
        let s = o.sym.as_ref().unwrap()[off..off + n].to_vec();
        let t = self.assemble(&d, &s);
        let t = self.tm.trunc(t, w);
        Ok(self.norm(t))
    }
    /// concatenation of bytes (low first)
    fn assemble(&mut self, d: &[u8], s: &[(T, u8)]) -> T {
        let n = d.len();
        let mut i = 0;
        let mut parts: Vec<T> = vec![];
        while i < n {
            if s[i].0 == 0 {
                let mut j = i;
                let mut x = 0u128;
                while j < n && s[j].0 == 0 && j - i < 16 {
                    x |= (d[j] as u128) << (8 * (j - i));
                    j += 1;
                }
                let t = self.tm.k(x, 8 * (j - i) as u32);
                parts.push(t);
                i = j;
            } else {
                let (t, b0) = s[i];
                let mut j = i + 1;
                while j < n && s[j].0 == t && s[j].1 as usize == b0 as usize + (j - i) {
                    j += 1;
                }
                let lo = 8 * b0 as u32;
                let hi = lo + 8 * (j - i) as u32 - 1;
                let e = self.tm.extract(t, hi, lo);
                parts.push(e);
                i = j;
            }
        }
        let mut r = parts[0];
        for p in &parts[1..] {
            r = self.tm.concat(*p, r);
        }
        r
    }
    fn store_bits(&mut self, st: &mut State, addr: u64, v: &V, w: u32) -> R<()> {
        let n = ((w + 7) / 8) as usize;
        if n == 0 {
            return Ok(());
        }
        let mut v = v.clone();
        if w % 8 != 0 {
            if let V::S(t) = v {
                let z = self.tm.zext(t, (n * 8) as u32);
                v = self.norm(z);
            }
        }
        if w > 64 {
            // constants wider than 64 bits are stored as concrete bytes
            if let V::U = v {
                v = V::S(self.tm.zero(w));
            }
            if let V::S(t) = v {
                if let Some(k) = self.tm.isk(t) {
                    let b: Vec<u8> = k.to_le_bytes()[..n].to_vec();
                    return self.write_bytes(st, addr, &b);
                }
            }
        }
        match v {
            V::K(k) => {
                let b = bytes_le(k, n.min(8));
                if n <= 8 {
                    self.write_bytes(st, addr, &b)
                } else {
                    let mut bb = b;
                    bb.resize(n, 0);
                    self.write_bytes(st, addr, &bb)
                }
            }
            V::U => Ok(()),
            V::S(t) => {
                let off = (addr & 0xffff_ffff) as usize;
                // wide terms: resolve each piece so that later byte equality sees structure
                let slot = self.obj_ref(st, addr >> 32, "store")?;
                Self::check_bounds(slot.as_ref().unwrap(), off as u64, n as u64, "store")?;
                let o = Rc::make_mut(slot.as_mut().unwrap());
                let len = o.data.len();
                let s = o.sym.get_or_insert_with(|| vec![(0, 0); len]);
                for i in 0..n {
                    s[off + i] = (t, i as u8);
                }
                Ok(())
            }
            V::A(_) => Err(Stop::Err("store aggregate as bits".into())),
        }
    }
    pub fn write_bytes(&mut self, st: &mut State, addr: u64, b: &[u8]) -> R<()> {
        if b.is_empty() {
            return Ok(());
        }
        let off = (addr & 0xffff_ffff) as usize;
        let slot = self.obj_ref(st, addr >> 32, "store")?;
        Self::check_bounds(slot.as_ref().unwrap(), off as u64, b.len() as u64, "store")?;
        let o = Rc::make_mut(slot.as_mut().unwrap());
        o.data[off..off + b.len()].copy_from_slice(b);
        if let Some(s) = o.sym.as_mut() {
            for x in &mut s[off..off + b.len()] {
                *x = (0, 0);
            }
        }
        Ok(())
    }
    pub fn read_cells(&mut self, st: &mut State, addr: u64, n: u64) -> R<(Vec<u8>, Vec<(T, u8)>)> {
        if n == 0 {
            return Ok((vec![], vec![]));
        }
        let off = (addr & 0xffff_ffff) as usize;
        let slot = self.obj_ref(st, addr >> 32, "read")?;
        let o = slot.as_ref().unwrap();
        Self::check_bounds(o, off as u64, n, "read")?;
        let n = n as usize;
        let d = o.data[off..off + n].to_vec();
        let s = match &o.sym {
            None => vec![(0, 0); n],
            Some(s) => s[off..off + n].to_vec(),
        };
        Ok((d, s))
    }
    pub fn write_cells(&mut self, st: &mut State, addr: u64, d: &[u8], s: &[(T, u8)]) -> R<()> {
        let n = d.len();
        if n == 0 {
            return Ok(());
        }
        let off = (addr & 0xffff_ffff) as usize;
        let slot = self.obj_ref(st, addr >> 32, "write")?;
        Self::check_bounds(slot.as_ref().unwrap(), off as u64, n as u64, "write")?;
        let o = Rc::make_mut(slot.as_mut().unwrap());
        o.data[off..off + n].copy_from_slice(d);
        if s.iter().any(|x| x.0 != 0) || o.sym.is_some() {
            let len = o.data.len();
            let z = o.sym.get_or_insert_with(|| vec![(0, 0); len]);
            z[off..off + n].copy_from_slice(s);
        }
        Ok(())
    }
    fn load(&mut self, st: &mut State, addr: u64, ty: &Ty) -> R<V> {
        match ty {
            Ty::Int(w) => self.load_bits(st, addr, *w),
            Ty::Ptr | Ty::Double => self.load_bits(st, addr, 64),
            Ty::Float => self.load_bits(st, addr, 32),
            Ty::Vec(n, t) if **t == Ty::Int(1) => {
                let b = self.load_bits(st, addr, *n as u32)?;
                let mut v = vec![];
                for i in 0..*n {
                    v.push(self.bit(&b, i as u32, *n as u32));
                }
                Ok(V::A(Rc::new(v)))
            }
            Ty::Arr(n, t) | Ty::Vec(n, t) => {
                let mut v = vec![];
                let sz = t.size();
                for i in 0..*n {
                    v.push(self.load(st, addr + i * sz, t)?);
                }
                Ok(V::A(Rc::new(v)))
            }
            Ty::Struct(fs, _) => {
                let mut v = vec![];
                for (i, f) in fs.iter().enumerate() {
                    v.push(self.load(st, addr + ty.field_off(i), f)?);
                }
                Ok(V::A(Rc::new(v)))
            }
            _ => Err(Stop::Err(format!("load {:?}", ty))),
        }
    }
    fn bit(&mut self, b: &V, i: u32, w: u32) -> V {
        match b {
            V::K(k) => V::K((k >> i) & 1),
            V::U => V::K(0),
            V::S(t) => {
                let e = self.tm.extract(*t, i, i);
                let _ = w;
                self.norm(e)
            }
            _ => panic!(),
        }
    }
    fn store(&mut self, st: &mut State, addr: u64, v: &V, ty: &Ty) -> R<()> {
        match ty {
            Ty::Int(w) => self.store_bits(st, addr, v, *w),
            Ty::Ptr | Ty::Double => self.store_bits(st, addr, v, 64),
            Ty::Float => self.store_bits(st, addr, v, 32),
            Ty::Vec(n, t) if **t == Ty::Int(1) => {
                let x = self.to_bits(v, ty);
                let z = self.norm(x);
                self.store_bits(st, addr, &z, *n as u32)
            }
            Ty::Arr(n, t) | Ty::Vec(n, t) => {
                let sz = t.size();
                if let V::A(a) = v {
                    for i in 0..*n {
                        self.store(st, addr + i * sz, &a[i as usize], t)?;
                    }
                }
                Ok(())
            }
            Ty::Struct(fs, _) => {
                if let V::A(a) = v {
                    for (i, f) in fs.iter().enumerate() {
                        self.store(st, addr + ty.field_off(i), &a[i], f)?;
                    }
                }
                Ok(())
            }
            _ => Err(Stop::Err(format!("store {:?}", ty))),
        }
    }
    /// value as one bit-vector term
    fn to_bits(&mut self, v: &V, ty: &Ty) -> T {
        match ty {
            Ty::Arr(n, t) | Ty::Vec(n, t) => {
                let mut r: Option<T> = None;
                for i in 0..*n {
                    let e = match v {
                        V::A(a) => a[i as usize].clone(),
                        _ => V::U,
                    };
                    let x = self.to_bits(&e, t);
                    r = Some(match r {
                        None => x,
                        Some(p) => self.tm.concat(x, p),
                    });
                }
                r.unwrap()
            }
            t => {
                let w = t.width();
                self.kterm(v, w)
            }
        }
    }
    fn from_bits(&mut self, t: T, ty: &Ty) -> V {
        match ty {
            Ty::Arr(n, e) | Ty::Vec(n, e) => {
                let w = match **e {
                    Ty::Int(w) => w,
                    ref o => o.width(),
                };
                let mut v = vec![];
                for i in 0..*n as u32 {
                    let x = self.tm.extract(t, (i + 1) * w - 1, i * w);
                    v.push(self.norm(x));
                }
                V::A(Rc::new(v))
            }
            _ => self.norm(t),
        }
    }
    // ---------------- solver helpers
    pub fn sat(&mut self, st: &State, goal: T, model: bool) -> R<Option<Model>> {
        if goal == self.tm.ff {
            return Ok(None);
        }
        if self.int_mode {
            return match lia::check(self, &st.pcs, goal, model) {
                Res::Sat(m) => Ok(Some(m)),
                Res::Unsat => Ok(None),
                Res::Unknown(e) => Err(Stop::Err(format!("solver: {}", e))),
            };
        }
        match self.sol.check(&self.tm, &st.pcs, goal, model) {
            Res::Sat(m) => Ok(Some(m)),
            Res::Unsat => Ok(None),
            Res::Unknown(e) => Err(Stop::Err(format!("solver: {}", e))),
        }
    }
    /// could the condition hold here? An undecided query counts as "yes": exploring an impossible
    /// path is sound, since a violation needs a model of its own
    pub fn may(&mut self, st: &State, goal: T) -> R<bool> {
        if goal == self.tm.ff {
            return Ok(false);
        }
        if self.int_mode || !self.tm.has_ff(goal) {
            return match self.sat(st, goal, false) {
                Ok(r) => Ok(r.is_some()),
                Err(Stop::Err(e)) if e.starts_with("solver: no solver answered") || e.starts_with("solver: unknown") => {
                    self.undecided += 1;
                    Ok(true)
                }
                Err(e) => Err(e),
            };
        }
        match self.sol.quick(&self.tm, &st.pcs, goal) {
            Res::Sat(_) => Ok(true),
            Res::Unsat => Ok(false),
            Res::Unknown(e) if e == "quick" => {
                self.undecided += 1;
                Ok(true)
            }
            Res::Unknown(e) => Err(Stop::Err(format!("solver: {}", e))),
        }
    }
    /// truth value of a boolean if decided by the path; otherwise fork
    pub fn decide(&mut self, st: &mut State, c: T) -> R<bool> {
        if let Some(k) = self.tm.isk(c) {
            return Ok(k == 1);
        }
        if let Some(k) = st.known.get(&c) {
            return Ok(*k == 1);
        }
        let nc = self.tm.not(c);
        if let Some(k) = st.known.get(&nc) {
            return Ok(*k == 0);
        }
        if self.lazy {
            return Err(Stop::Fork(vec![c, nc]));
        }
        // conjunction / disjunction shortcuts are left to the solver
        let can_t = self.may(st, c)?;
        if !can_t {
            st.known.insert(c, 0);
            return Ok(false);
        }
        let can_f = self.may(st, nc)?;
        if !can_f {
            st.known.insert(c, 1);
            return Ok(true);
        }
        Err(Stop::Fork(vec![c, nc]))
    }
    pub fn add_pc(&mut self, st: &mut State, c: T) {
        if self.tm.isk(c) == Some(1) {
            return;
        }
        st.pcs.push(c);
        self.learn(st, c);
    }
    fn learn(&mut self, st: &mut State, c: T) {
        let n = self.tm.node(c);
        st.known.insert(c, 1);
        match n.op {
            O::Not => {
                st.known.insert(n.a, 0);
            }
            O::And => {
                self.learn(st, n.a);
                self.learn(st, n.b);
            }
            O::Eq => {
                if let Some(k) = self.tm.isk(n.b) {
                    if self.tm.w(n.b) <= 64 {
                        st.known.insert(n.a, k as u64);
                    }
                }
            }
            _ => {}
        }
    }
    /// concrete value of a bit-vector (forks over all feasible values)
    pub fn conc(&mut self, st: &mut State, v: &V, w: u32) -> R<u64> {
        match v {
            V::K(k) => Ok(*k),
            V::U => Ok(0),
            V::A(_) => Err(Stop::Err("conc of aggregate".into())),
            V::S(t) => {
                if let Some(k) = st.known.get(t) {
                    return Ok(*k);
                }
                let vals = self.enumerate(st, *t, w, self.ptr_limit)?;
                if vals.len() == 1 {
                    st.known.insert(*t, vals[0]);
                    return Ok(vals[0]);
                }
                let mut cs = vec![];
                for x in vals {
                    let k = self.tm.k(x as u128, w);
                    cs.push(self.tm.eq(*t, k));
                }
                Err(Stop::Fork(cs))
            }
        }
    }
    fn ite_leaves(&self, t: T, out: &mut Vec<u64>, depth: u32) -> bool {
        let n = self.tm.node(t);
        match n.op {
            O::Const => {
                if !out.contains(&(n.k as u64)) {
                    out.push(n.k as u64)
                };
                true
            }
            O::Ite if depth < 12 => self.ite_leaves(n.b, out, depth + 1) && self.ite_leaves(n.c, out, depth + 1),
            _ => false,
        }
    }
    /// values of a ranged input that no path condition mentions: all of its range
    fn free_range(&self, st: &State, t: T, limit: usize) -> Option<Vec<u64>> {
        let n = self.tm.node(t);
        if n.op != O::Var {
            return None;
        }
        let v = &self.tm.vars[n.a as usize];
        let (lo, hi) = (v.lo.as_ref()?.to_i128()? as i64, v.hi.as_ref()?.to_i128()? as i64);
        if !self.ranged.contains_key(&t) || hi < lo || hi - lo >= limit as i64 {
            return None;
        }
        let mut seen = std::collections::HashSet::new();
        let mut todo: Vec<T> = st.pcs.iter().cloned().filter(|p| self.ranged.get(&t) != Some(p)).collect();
        while let Some(x) = todo.pop() {
            if x == t {
                return None;
            }
            if seen.insert(x) {
                todo.extend(self.tm.children(x));
            }
        }
        Some((lo..=hi).map(|x| x as u64).collect())
    }
    fn enumerate(&mut self, st: &State, t: T, w: u32, limit: usize) -> R<Vec<u64>> {
        let mut leaves = vec![];
        if self.ite_leaves(t, &mut leaves, 0) && leaves.len() <= limit {
            let mut r = vec![];
            for l in leaves {
                let k = self.tm.k(l as u128, w);
                let e = self.tm.eq(t, k);
                if self.may(st, e)? {
                    r.push(l);
                }
            }
            return Ok(r);
        }
        if let Some(r) = self.free_range(st, t, limit) {
            return Ok(r);
        }
        let mut r: Vec<u64> = vec![];
        let mut block = self.tm.tt;
        let probe = self.tm.var(&format!("__probe{}", t), Sort::BV(w));
        let e = self.tm.eq(probe, t);
        loop {
            let g = self.tm.and(e, block);
            match self.sat(st, g, true)? {
                None => return Ok(r),
                Some(m) => {
                    let b = m.get(&probe).cloned().ok_or_else(|| Stop::Err("no probe value".into()))?;
                    let x = b.to_i128().unwrap_or(0) as u64;
                    if r.contains(&x) {
                        return Err(Stop::Err("enumeration repeated a value".into()));
                    }
                    r.push(x);
                    if r.len() > limit {
                        return Err(Stop::Err(format!("more than {} values for a symbolic address/length", limit)));
                    }
                    let k = self.tm.k(x as u128, w);
                    let ne = self.tm.eq(probe, k);
                    let ne = self.tm.not(ne);
                    block = self.tm.and(block, ne);
                }
            }
        }
    }
    fn addr(&mut self, st: &mut State, v: &V) -> R<u64> {
        self.conc(st, v, 64)
    }
    // ---------------- naming
    pub fn dname(&self, s: u32) -> String {
        self.dem.get(&s).cloned().unwrap_or_else(|| self.m.syms[s as usize].name.clone())
    }
    pub fn where_am_i(&self, st: &State) -> String {
        let mut v = vec![];
        for f in st.frames.iter().rev().take(12) {
            let id = self.m.by_name.get(&f.f.name).cloned().unwrap_or(0);
            v.push(self.dname(id));
        }
        v.join(" < ")
    }

    // ---------------- scalar ops
    fn bin(&mut self, op: BinOp, a: &V, b: &V, w: u32) -> R<V> {
        if let (V::K(x), V::K(y)) = (a, b) {
            let m = if w >= 64 { u64::MAX } else { (1u64 << w) - 1 };
            let sxt = |v: u64| -> i64 {
                if w >= 64 {
                    v as i64
                } else {
                    ((v << (64 - w)) as i64) >> (64 - w)
                }
            };
            let r = match op {
                BinOp::Add => x.wrapping_add(*y),
                BinOp::Sub => x.wrapping_sub(*y),
                BinOp::Mul => x.wrapping_mul(*y),
                BinOp::And => x & y,
                BinOp::Or => x | y,
                BinOp::Xor => x ^ y,
                BinOp::Shl => {
                    if *y >= w as u64 {
                        0
                    } else {
                        x << y
                    }
                }
                BinOp::LShr => {
                    if *y >= w as u64 {
                        0
                    } else {
                        x >> y
                    }
                }
                BinOp::AShr => (sxt(*x) >> (*y).min(63)) as u64,
                BinOp::UDiv | BinOp::URem | BinOp::SDiv | BinOp::SRem if *y == 0 => return Err(Stop::Err("division by zero".into())),
                BinOp::UDiv => x / y,
                BinOp::URem => x % y,
                BinOp::SDiv => sxt(*x).wrapping_div(sxt(*y)) as u64,
                BinOp::SRem => sxt(*x).wrapping_rem(sxt(*y)) as u64,
                BinOp::Fp(k) => {
                    if w == 64 {
                        let (p, q) = (f64::from_bits(*x), f64::from_bits(*y));
                        match k {
                            0 => p + q,
                            1 => p - q,
                            2 => p * q,
                            _ => p / q,
                        }
                        .to_bits()
                    } else {
                        let (p, q) = (f32::from_bits(*x as u32), f32::from_bits(*y as u32));
                        match k {
                            0 => p + q,
                            1 => p - q,
                            2 => p * q,
                            _ => p / q,
                        }
                        .to_bits() as u64
                    }
                }
            };
            return Ok(V::K(r & m));
        }
        let x = self.kterm(a, w);
        let y = self.kterm(b, w);
        let tm = &mut self.tm;
        let t = match op {
            BinOp::Add => {
                if w == 1 {
                    tm.xor(x, y)
                } else {
                    tm.add(x, y)
                }
            }
            BinOp::Sub => {
                if w == 1 {
                    tm.xor(x, y)
                } else {
                    tm.sub(x, y)
                }
            }
            BinOp::Mul => {
                if w == 1 {
                    tm.and(x, y)
                } else {
                    tm.mul(x, y)
                }
            }
            BinOp::And => tm.and(x, y),
            BinOp::Or => tm.or(x, y),
            BinOp::Xor => tm.xor(x, y),
            BinOp::Shl => tm.shl(x, y),
            BinOp::LShr => tm.lshr(x, y),
            BinOp::AShr => tm.ashr(x, y),
            BinOp::UDiv => tm.divop(O::UDiv, x, y),
            BinOp::URem => tm.divop(O::URem, x, y),
            BinOp::SDiv => tm.divop(O::SDiv, x, y),
            BinOp::SRem => tm.divop(O::SRem, x, y),
            BinOp::Fp(_) => return Err(Stop::Err("symbolic floating point".into())),
        };
        Ok(self.norm(t))
    }
    fn icmp(&mut self, p: Pred, a: &V, b: &V, w: u32) -> V {
        if let (V::K(x), V::K(y)) = (a, b) {
            let sxt = |v: u64| -> i64 {
                if w >= 64 {
                    v as i64
                } else {
                    ((v << (64 - w)) as i64) >> (64 - w)
                }
            };
            let (x, y) = (*x, *y);
            let r = match p {
                Pred::Eq => x == y,
                Pred::Ne => x != y,
                Pred::Ugt => x > y,
                Pred::Uge => x >= y,
                Pred::Ult => x < y,
                Pred::Ule => x <= y,
                Pred::Sgt => sxt(x) > sxt(y),
                Pred::Sge => sxt(x) >= sxt(y),
                Pred::Slt => sxt(x) < sxt(y),
                Pred::Sle => sxt(x) <= sxt(y),
            };
            return V::K(r as u64);
        }
        let x = self.kterm(a, w);
        let y = self.kterm(b, w);
        let tm = &mut self.tm;
        let t = match p {
            Pred::Eq => tm.eq(x, y),
            Pred::Ne => {
                let e = tm.eq(x, y);
                tm.not(e)
            }
            Pred::Ugt => tm.cmp(O::Ult, y, x),
            Pred::Uge => tm.cmp(O::Ule, y, x),
            Pred::Ult => tm.cmp(O::Ult, x, y),
            Pred::Ule => tm.cmp(O::Ule, x, y),
            Pred::Sgt => tm.cmp(O::Slt, y, x),
            Pred::Sge => tm.cmp(O::Sle, y, x),
            Pred::Slt => tm.cmp(O::Slt, x, y),
            Pred::Sle => tm.cmp(O::Sle, x, y),
        };
        self.norm(t)
    }
    fn cast(&mut self, c: CastOp, from: &Ty, v: &V, to: &Ty) -> R<V> {
        if let (Ty::Vec(n, fe), Ty::Vec(n2, te)) = (from, to) {
            if n == n2 && c != CastOp::Bit {
                if let V::A(a) = v {
                    let mut r = vec![];
                    for x in a.iter() {
                        r.push(self.cast(c, fe, x, te)?);
                    }
                    return Ok(V::A(Rc::new(r)));
                }
            }
        }
        match c {
            CastOp::Trunc => {
                let w = to.width();
                match v {
                    V::K(k) => Ok(V::K(if w >= 64 { *k } else { k & ((1u64 << w) - 1) })),
                    V::U => Ok(V::K(0)),
                    V::S(t) => {
                        let x = self.tm.trunc(*t, w);
                        Ok(self.norm(x))
                    }
                    V::A(_) => Err(Stop::Err("trunc agg".into())),
                }
            }
            CastOp::ZExt => {
                let w = to.width();
                match v {
                    V::K(k) if w <= 64 => Ok(V::K(*k)),
                    V::U => Ok(self.zero_of(to)),
                    _ => {
                        let x = self.kterm(v, from.width());
                        let y = self.tm.zext(x, w);
                        Ok(self.norm(y))
                    }
                }
            }
            CastOp::SExt => {
                let (fw, w) = (from.width(), to.width());
                match v {
                    V::K(k) if w <= 64 => {
                        let s = ((k << (64 - fw)) as i64 >> (64 - fw)) as u64;
                        Ok(V::K(if w >= 64 { s } else { s & ((1u64 << w) - 1) }))
                    }
                    V::U => Ok(self.zero_of(to)),
                    _ => {
                        let x = self.kterm(v, fw);
                        let y = self.tm.sext(x, w);
                        Ok(self.norm(y))
                    }
                }
            }
            CastOp::Bit => {
                let fa = from.is_agg();
                let ta = to.is_agg();
                if !fa && !ta {
                    let (fw, tw) = (from.width(), to.width());
                    if fw == tw {
                        return Ok(v.clone());
                    }
                    return if fw < tw { self.cast(CastOp::ZExt, &Ty::Int(fw), v, &Ty::Int(tw)) } else { self.cast(CastOp::Trunc, &Ty::Int(fw), v, &Ty::Int(tw)) };
                }
                let b = self.to_bits(v, from);
                Ok(self.from_bits(b, to))
            }
            CastOp::Fp(k) => {
                if let V::K(x) = v {
                    let x = *x;
                    let fw = from.width();
                    let sx = if fw >= 64 { x as i64 } else { ((x << (64 - fw)) as i64) >> (64 - fw) };
                    let f = |x: u64| if *from == Ty::Float { f32::from_bits(x as u32) as f64 } else { f64::from_bits(x) };
                    let out = |d: f64| if *to == Ty::Float { (d as f32).to_bits() as u64 } else { d.to_bits() };
                    let m = |y: u64| if to.width() >= 64 { y } else { y & ((1u64 << to.width()) - 1) };
                    return Ok(V::K(match k {
                        0 => out(x as f64),
                        1 => out(sx as f64),
                        2 => m(f(x) as u64),
                        3 => m(f(x) as i64 as u64),
                        _ => out(f(x)),
                    }));
                }
                Err(Stop::Err("symbolic float cast".into()))
            }
        }
    }
    fn lanes<F: FnMut(&mut Exec, &V, &V) -> R<V>>(&mut self, a: &V, b: &V, mut f: F) -> R<V> {
        match (a, b) {
            (V::A(x), V::A(y)) => {
                let mut r = vec![];
                for i in 0..x.len() {
                    r.push(f(self, &x[i], &y[i])?);
                }
                Ok(V::A(Rc::new(r)))
            }
            _ => Err(Stop::Err("vector op on non-vector".into())),
        }
    }
    fn select(&mut self, st: &mut State, c: &V, a: &V, b: &V, ty: &Ty) -> R<V> {
        match c {
            V::K(k) => Ok(if *k & 1 == 1 { a.clone() } else { b.clone() }),
            V::U => Ok(b.clone()),
            V::S(t) => {
                if let Some(k) = st.known.get(t) {
                    return Ok(if *k == 1 { a.clone() } else { b.clone() });
                }
                if ty.is_agg() {
                    let n = match (a, b) {
                        (V::A(x), V::A(_)) => x.len(),
                        _ => return Err(Stop::Err("select agg".into())),
                    };
                    let mut r = vec![];
                    for i in 0..n {
                        let (x, y) = match (a, b) {
                            (V::A(x), V::A(y)) => (x[i].clone(), y[i].clone()),
                            _ => unreachable!(),
                        };
                        r.push(self.select(st, c, &x, &y, &ty.elem(i))?);
                    }
                    return Ok(V::A(Rc::new(r)));
                }
                if *ty == Ty::Ptr {
                    // keep pointers concrete
                    let same = matches!((a,b),(V::K(x),V::K(y)) if x==y);
                    if !same {
                        let d = self.decide(st, *t)?;
                        return Ok(if d { a.clone() } else { b.clone() });
                    }
                }
                let w = ty.width();
                let x = self.kterm(a, w);
                let y = self.kterm(b, w);
                let z = self.tm.ite(*t, x, y);
                Ok(self.norm(z))
            }
            V::A(_) => Err(Stop::Err("select cond".into())),
        }
    }

    // ---------------- main loop
    pub fn run(&mut self, entry: u32) {
        let f = match self.m.func(entry) {
            Some(f) => f,
            None => {
                self.errors.insert("entry not found".into());
                return;
            }
        };
        let loc = vec![V::U; f.nlocals];
        let st = State {
            frames: vec![Frame { f, blk: 0, ip: 0, prev: 0, loc, dst: NODST, ret_to: None, allocas: vec![] }],
            objs: vec![None; 16],
            free: vec![],
            globs: vec![],
            pcs: vec![],
            known: HashMap::new(),
            names: HashMap::new(),
            model: None,
            steps: 0,
            notes: vec![],
        };
        let mut work = vec![st];
        while let Some(mut st) = work.pop() {
            if Instant::now() > self.deadline {
                self.errors.insert("time limit reached with paths left unexplored".into());
                break;
            }
            if self.paths >= self.max_paths {
                self.errors.insert(format!("path limit {} reached", self.max_paths));
                break;
            }
            if self.viol.len() >= self.max_viol {
                break;
            }
            match self.run_path(&mut st) {
                Stop::Fork(cs) => {
                    self.forks += cs.len() as u64 - 1;
                    let n = cs.len();
                    let mut it = cs.into_iter().rev().collect::<Vec<_>>();
                    // depth-first: last pushed runs first
                    let mut news = vec![];
                    for (i, c) in it.drain(..).enumerate() {
                        let mut s2 = if i + 1 == n { std::mem::replace(&mut st, State { frames: vec![], objs: vec![], free: vec![], globs: vec![], pcs: vec![], known: HashMap::new(), names: HashMap::new(), model: None, steps: 0, notes: vec![] }) } else { st.clone() };
                        self.add_pc(&mut s2, c);
                        news.push(s2);
                    }
                    work.extend(news);
                }
                Stop::Spill => {
                    let more = std::mem::take(&mut self.spill);
                    self.forks += more.len() as u64 - 1;
                    work.extend(more);
                }
                Stop::Exit => {
                    self.paths += 1;
                    self.done_paths += 1;
                }
                Stop::Assume => {
                    self.paths += 1;
                }
                Stop::Panic(msg) => {
                    self.paths += 1;
                    self.panic_paths += 1;
                    *self.panic_msgs.entry(msg.clone()).or_insert(0) += 1;
                    if !self.allow_panic && !st.names.contains_key("__panic_ok") {
                        let at = self.where_am_i(&st);
                        let tt = self.tm.tt;
                        match self.model_for(&st, tt) {
                            Ok(m) => self.report(&st, "no_panic", &format!("{} at {}", msg, at), m),
                            Err(e) => {
                                self.errors.insert(format!("panic path without model: {} ({})", msg, e));
                            }
                        }
                    }
                }
                Stop::Err(e) => {
                    self.paths += 1;
                    let at = self.where_am_i(&st);
                    self.errors.insert(format!("{} [{}]", e, at));
                    if self.errors.len() > 20 {
                        break;
                    }
                }
            }
        }
    }
    fn model_for(&mut self, st: &State, goal: T) -> Result<Model, String> {
        match self.sat(st, goal, true) {
            Ok(Some(m)) => Ok(m),
            Ok(None) => Err("infeasible".into()),
            Err(Stop::Err(e)) => Err(e),
            Err(_) => Err("?".into()),
        }
    }
    fn report(&mut self, st: &State, name: &str, msg: &str, m: Model) {
        let mut inputs = vec![];
        let mut ufs = vec![];
        for v in self.tm.vars.iter() {
            if v.name.starts_with("__") {
                continue;
            }
            if let Some(b) = m.get(&v.term) {
                inputs.push((v.name.clone(), b.clone()));
            }
        }
        let mut evc: HashMap<T, Option<u128>> = HashMap::new();
        let uts: Vec<T> = m.keys().cloned().filter(|t| self.tm.node(*t).op == O::Uf).collect();
        for t in uts {
            let n = self.tm.node(t);
            let args = self.tm.arglists[n.b as usize].clone();
            let mut bytes = vec![];
            let mut ok = true;
            for a in args {
                match self.eval_bytes(a, &m, &mut evc) {
                    Some(b) => bytes.extend(b),
                    None => ok = false,
                }
            }
            if ok {
                if let Sort::BV(w) = n.s {
                    let val = &m[&t];
                    ufs.push((self.tm.ufs[n.a as usize].family.clone(), bytes, val.to_le(((w + 7) / 8) as usize)));
                }
            }
        }
        let mut encs = vec![];
        let mut decs = vec![];
        let mut keys: Vec<T> = m.keys().cloned().filter(|t| matches!(self.tm.node(*t).op, O::EncF | O::FDec)).collect();
        keys.sort();
        for t in keys {
            let n = self.tm.node(t);
            if n.op == O::EncF {
                if let Some(v) = self.feval(n.a, &m, &mut evc, 0) {
                    let w = self.tm.w(t);
                    encs.push((n.b, v, m[&t].to_le(((w + 7) / 8) as usize)));
                }
            } else if let Sort::F(mi) = n.s {
                if let Some(b) = self.eval_bytes(n.a, &m, &mut evc) {
                    decs.push((mi, n.b, b, m[&t].clone()));
                }
            }
        }
        if self.viol.iter().filter(|v| v.name == name).count() < 2 {
            let mut msg = msg.to_string();
            for n in &st.notes {
                msg += " | ";
                msg += n;
            }
            self.viol.push(Violation { name: name.to_string(), msg, inputs, ufs, encs, decs });
        } else {
            self.viol.truncate(self.max_viol.max(self.viol.len()));
        }
    }
    fn feval(&mut self, t: T, m: &Model, c: &mut HashMap<T, Option<u128>>, d: u32) -> Option<Big> {
        if d > 3000 {
            return None;
        }
        let n = self.tm.node(t);
        let mi = match n.s {
            Sort::F(mi) => mi,
            _ => return None,
        };
        if let Some(v) = m.get(&t) {
            return Some(v.clone());
        }
        let p = self.tm.mods[mi as usize].clone();
        Some(match n.op {
            O::FConst => self.tm.bigs[n.a as usize].clone(),
            O::FAdd => self.feval(n.a, m, c, d + 1)?.add(&self.feval(n.b, m, c, d + 1)?).rem_euclid(&p),
            O::FMul => self.feval(n.a, m, c, d + 1)?.mul(&self.feval(n.b, m, c, d + 1)?).rem_euclid(&p),
            O::FNeg => self.feval(n.a, m, c, d + 1)?.negate().rem_euclid(&p),
            O::FInv => self.feval(n.a, m, c, d + 1)?.powmod(&p.sub(&Big::from(2)), &p),
            O::Ite => {
                if self.eval(n.a, m, c)? == 1 {
                    self.feval(n.b, m, c, d + 1)?
                } else {
                    self.feval(n.c, m, c, d + 1)?
                }
            }
            O::Var => Big::zero(),
            _ => return None,
        })
    }
    fn eval_bytes(&mut self, t: T, m: &Model, c: &mut HashMap<T, Option<u128>>) -> Option<Vec<u8>> {
        if let Sort::F(_) = self.tm.sort(t) {
            return Some(self.feval(t, m, c, 0)?.to_le(32));
        }
        let w = self.tm.w(t);
        let mut out = vec![];
        let mut lo = 0;
        while lo < w {
            let hi = (lo + 64).min(w);
            let e = self.tm.extract(t, hi - 1, lo);
            let v = self.eval(e, m, c)?;
            for i in 0..((hi - lo + 7) / 8) {
                out.push((v >> (8 * i)) as u8);
            }
            lo = hi;
        }
        Some(out)
    }
    fn eval(&self, t: T, m: &Model, c: &mut HashMap<T, Option<u128>>) -> Option<u128> {
        if let Some(v) = c.get(&t) {
            return *v;
        }
        let n = self.tm.node(t);
        let w = match n.s {
            Sort::BV(w) => w,
            _ => return None,
        };
        let r = (|| {
            Some(match n.op {
                O::Const => n.k,
                O::Var | O::Uf | O::EncF => {
                    let b = match m.get(&t) {
                        Some(b) => b.clone(),
                        None => Big::zero(),
                    };
                    if w > 128 {
                        return None;
                    }
                    let le = b.to_le(16);
                    u128::from_le_bytes(le.try_into().unwrap())
                }
                O::Extract => {
                    let na = self.tm.node(n.a);
                    let (hi, lo) = ((n.k >> 32) as u32, n.k as u32);
                    if matches!(na.op, O::Var | O::Uf | O::EncF) {
                        let b = m.get(&n.a).cloned().unwrap_or(Big::zero());
                        let s = b.divrem_floor(&Big::pow2(lo as usize)).0;
                        let le = s.to_le(16);
                        u128::from_le_bytes(le.try_into().unwrap()) & mask(hi - lo + 1)
                    } else {
                        (self.eval(n.a, m, c)? >> lo) & mask(hi - lo + 1)
                    }
                }
                O::Not => !self.eval(n.a, m, c)? & mask(w),
                O::And => self.eval(n.a, m, c)? & self.eval(n.b, m, c)?,
                O::Or => self.eval(n.a, m, c)? | self.eval(n.b, m, c)?,
                O::Xor => self.eval(n.a, m, c)? ^ self.eval(n.b, m, c)?,
                O::Add => self.eval(n.a, m, c)?.wrapping_add(self.eval(n.b, m, c)?) & mask(w),
                O::Sub => self.eval(n.a, m, c)?.wrapping_sub(self.eval(n.b, m, c)?) & mask(w),
                O::Mul => self.eval(n.a, m, c)?.wrapping_mul(self.eval(n.b, m, c)?) & mask(w),
                O::Concat => {
                    let wl = self.tm.w(n.b);
                    if w > 128 {
                        return None;
                    }
                    (self.eval(n.a, m, c)? << wl) | self.eval(n.b, m, c)?
                }
                O::ZExt => self.eval(n.a, m, c)?,
                O::SExt => sx(self.eval(n.a, m, c)?, self.tm.w(n.a)) as u128 & mask(w),
                O::Ite => {
                    if self.eval(n.a, m, c)? == 1 {
                        self.eval(n.b, m, c)?
                    } else {
                        self.eval(n.c, m, c)?
                    }
                }
                O::Eq => (self.eval(n.a, m, c)? == self.eval(n.b, m, c)?) as u128,
                O::Ult => (self.eval(n.a, m, c)? < self.eval(n.b, m, c)?) as u128,
                O::Ule => (self.eval(n.a, m, c)? <= self.eval(n.b, m, c)?) as u128,
                _ => return None,
            })
        })();
        c.insert(t, r);
        r
    }

    fn run_path(&mut self, st: &mut State) -> Stop {
        self.run_until(st, 0).unwrap_or(Stop::Exit)
    }
    /// until a stop, or (None) until the stack is down to the given depth
    fn run_until(&mut self, st: &mut State, depth: usize) -> Option<Stop> {
        loop {
            self.insts += 1;
            if self.insts & 0xffff == 0 {
                if Instant::now() > self.deadline {
                    return Some(Stop::Err("time limit".into()));
                }
            }
            st.steps += 1;
            if st.steps > self.max_insts {
                return Some(Stop::Err("instruction limit on one path".into()));
            }
            let fi = st.frames.len() - 1;
            let (f, blk, ip) = {
                let fr = &st.frames[fi];
                (fr.f.clone(), fr.blk, fr.ip)
            };
            let (dst, inst) = &f.blocks[blk][ip];
            match self.step(st, *dst, inst) {
                Ok(()) => {}
                Err(s) => return Some(s),
            }
            if self.merge_now {
                self.merge_now = false;
                if let Err(s) = self.merge(st) {
                    return Some(s);
                }
            }
            if st.frames.len() <= depth {
                return None;
            }
        }
    }
    fn set(&mut self, st: &mut State, dst: u32, v: V) {
        let fr = st.frames.last_mut().unwrap();
        if dst != NODST {
            fr.loc[dst as usize] = v;
        }
        fr.ip += 1;
    }
    fn goto(&mut self, st: &mut State, b: u32) -> R<()> {
        // evaluate phis in parallel
        let (f, cur) = {
            let fr = st.frames.last().unwrap();
            (fr.f.clone(), fr.blk)
        };
        let tgt = &f.blocks[b as usize];
        let mut vals = vec![];
        let mut k = 0;
        while k < tgt.len() {
            if let (d, Inst::Phi(ty, inc)) = &tgt[k] {
                let o = inc.iter().find(|x| x.1 as usize == cur).map(|x| x.0.clone());
                let v = match o {
                    Some(o) => self.op(st, &o, ty),
                    None => return Err(Stop::Err("phi without incoming edge".into())),
                };
                vals.push((*d, v));
                k += 1;
            } else {
                break;
            }
        }
        let fr = st.frames.last_mut().unwrap();
        for (d, v) in vals {
            fr.loc[d as usize] = v;
        }
        fr.prev = cur;
        fr.blk = b as usize;
        fr.ip = k;
        Ok(())
    }
    fn step(&mut self, st: &mut State, dst: u32, inst: &Inst) -> R<()> {
        match inst {
            Inst::Bin(op, ty, a, b) => {
                let v = if let Ty::Vec(_, e) = ty {
                    let w = e.width();
                    let (x, y) = (self.op(st, a, ty), self.op(st, b, ty));
                    self.lanes(&x, &y, |s, p, q| s.bin(*op, p, q, w))?
                } else {
                    let w = ty.width();
                    let (x, y) = (self.opk(st, a, w), self.opk(st, b, w));
                    if matches!(op, BinOp::Shl | BinOp::LShr | BinOp::AShr) {
                        if let V::S(t) = y {
                            if let Some(k) = st.known.get(&t) {
                                let r = self.bin(*op, &x, &V::K(*k), w)?;
                                self.set(st, dst, r);
                                return Ok(());
                            }
                        }
                    }
                    self.bin(*op, &x, &y, w)?
                };
                self.set(st, dst, v);
            }
            Inst::ICmp(p, ty, a, b) => {
                let v = if let Ty::Vec(_, e) = ty {
                    let w = e.width();
                    let (x, y) = (self.op(st, a, ty), self.op(st, b, ty));
                    self.lanes(&x, &y, |s, i, j| Ok(s.icmp(*p, i, j, w)))?
                } else {
                    let w = ty.width();
                    let (x, y) = (self.opk(st, a, w), self.opk(st, b, w));
                    let (x, y) = (fixu(x), fixu(y));
                    self.icmp(*p, &x, &y, w)
                };
                self.set(st, dst, v);
            }
            Inst::Cast(c, from, a, to) => {
                let x = self.op(st, a, from);
                let v = self.cast(*c, from, &x, to)?;
                self.set(st, dst, v);
            }
            Inst::Load(ty, p) => {
                let pv = self.opk(st, p, 64);
                if let V::S(t) = &pv {
                    if !st.known.contains_key(t) && !ty.is_agg() && *ty != Ty::Ptr {
                        // read-only table lookup: ite over the feasible addresses
                        let vals = self.enumerate(st, *t, 64, self.ptr_limit)?;
                        if vals.len() > 1 {
                            let w = ty.width();
                            let mut r: Option<T> = None;
                            for a in vals {
                                let x = self.load(st, a, ty)?;
                                let x = self.kterm(&x, w);
                                r = Some(match r {
                                    None => x,
                                    Some(p) => {
                                        let k = self.tm.k(a as u128, 64);
                                        let e = self.tm.eq(*t, k);
                                        self.tm.ite(e, x, p)
                                    }
                                });
                            }
                            let v = self.norm(r.unwrap());
                            self.set(st, dst, v);
                            return Ok(());
                        }
                    }
                }
                let a = self.addr(st, &pv)?;
                let v = self.load(st, a, ty)?;
                self.set(st, dst, v);
            }
            Inst::Store(ty, v, p) => {
                let pv = self.opk(st, p, 64);
                let a = self.addr(st, &pv)?;
                let x = self.op(st, v, ty);
                self.store(st, a, &x, ty)?;
                self.set(st, NODST, V::U);
            }
            Inst::Alloca(sz) => {
                let a = self.new_obj(st, *sz);
                st.frames.last_mut().unwrap().allocas.push((a >> 32) as u32);
                self.set(st, dst, V::K(a));
            }
            Inst::Gep(base, off, dyns) => {
                let b = self.opk(st, base, 64);
                if let V::A(_) = b {
                    return Err(Stop::Err("vector gep".into()));
                }
                let mut acc = fixu(b);
                let mut k = *off as u64;
                for (o, w, s) in dyns {
                    let i = fixu(self.opk(st, o, *w));
                    match i {
                        V::K(x) => {
                            let sxv = if *w >= 64 { x as i64 } else { ((x << (64 - w)) as i64) >> (64 - w) };
                            k = k.wrapping_add((sxv.wrapping_mul(*s)) as u64);
                        }
                        V::S(t) => {
                            let e = self.tm.sext(t, 64);
                            let kk = self.tm.k(*s as u64 as u128, 64);
                            let mm = self.tm.mul(e, kk);
                            acc = self.bin(BinOp::Add, &acc, &V::S(mm), 64)?;
                        }
                        _ => return Err(Stop::Err("gep idx".into())),
                    }
                }
                let r = self.bin(BinOp::Add, &acc, &V::K(k), 64)?;
                self.set(st, dst, r);
            }
            Inst::Br(b) => self.goto(st, *b)?,
            Inst::CondBr(c, a, b) => {
                let v = self.opk(st, c, 1);
                let d = match v {
                    V::K(k) => k & 1 == 1,
                    V::U => false,
                    V::S(t) => self.decide(st, t)?,
                    V::A(_) => return Err(Stop::Err("br agg".into())),
                };
                self.goto(st, if d { *a } else { *b })?
            }
            Inst::Switch(ty, o, def, cases) => {
                let w = ty.width();
                let v = fixu(self.opk(st, o, w));
                match v {
                    V::K(k) => {
                        let t = cases.iter().find(|x| x.0 as u64 == k).map(|x| x.1).unwrap_or(*def);
                        self.goto(st, t)?
                    }
                    V::S(t) => {
                        if let Some(k) = st.known.get(&t) {
                            let k = *k;
                            let t = cases.iter().find(|x| x.0 as u64 == k).map(|x| x.1).unwrap_or(*def);
                            return self.goto(st, t);
                        }
                        let mut cs = vec![];
                        let mut none = self.tm.tt;
                        for (i, (k, b)) in cases.iter().enumerate() {
                            let kk = self.tm.k(*k, w);
                            let e = self.tm.eq(t, kk);
                            if st.known.get(&e) == Some(&1) {
                                return self.goto(st, *b);
                            }
                            let _ = i;
                            let ne = self.tm.not(e);
                            none = self.tm.and(none, ne);
                            if self.may(st, e)? {
                                cs.push(e);
                            }
                        }
                        if st.known.get(&none) == Some(&1) {
                            return self.goto(st, *def);
                        }
                        if self.may(st, none)? {
                            cs.push(none);
                        }
                        if cs.len() == 1 {
                            let c = cs[0];
                            st.known.insert(c, 1);
                            for (k, b) in cases {
                                let kk = self.tm.k(*k, w);
                                let e = self.tm.eq(t, kk);
                                if e == c {
                                    return self.goto(st, *b);
                                }
                            }
                            return self.goto(st, *def);
                        }
                        return Err(Stop::Fork(cs));
                    }
                    _ => return Err(Stop::Err("switch".into())),
                }
            }
            Inst::Ret(ty, o) => {
                let v = match o {
                    Some(o) => self.op(st, o, ty),
                    None => V::U,
                };
                self.ret(st, v)?;
            }
            Inst::Unreachable => return Err(Stop::Err("reached unreachable".into())),
            Inst::Select(c, vc, ty, a, b) => {
                let x = self.op(st, a, ty);
                let y = self.op(st, b, ty);
                if *vc {
                    let n = if let Ty::Vec(n, _) = ty { *n } else { 0 };
                    let cv = self.op(st, c, &Ty::Vec(n, Rc::new(Ty::Int(1))));
                    let (cc, xx, yy) = match (&cv, &x, &y) {
                        (V::A(c), V::A(x), V::A(y)) => (c.clone(), x.clone(), y.clone()),
                        _ => return Err(Stop::Err("vselect".into())),
                    };
                    let mut r = vec![];
                    for i in 0..cc.len() {
                        r.push(self.select(st, &cc[i], &xx[i], &yy[i], &ty.elem(i))?);
                    }
                    self.set(st, dst, V::A(Rc::new(r)));
                } else {
                    let cv = self.opk(st, c, 1);
                    let v = self.select(st, &cv, &x, &y, ty)?;
                    self.set(st, dst, v);
                }
            }
            Inst::Phi(..) => return Err(Stop::Err("phi in the middle".into())),
            Inst::ExtractValue(o, ix) => {
                let mut v = self.op(st, o, &Ty::Void);
                for i in ix {
                    v = match v {
                        V::A(a) => a[*i as usize].clone(),
                        _ => V::U,
                    };
                }
                self.set(st, dst, v);
            }
            Inst::InsertValue(ty, o, x, ix) => {
                let base = self.op(st, o, ty);
                let base = if let V::U = base { self.zero_of(ty) } else { base };
                let mut ety = ty.clone();
                for i in ix {
                    ety = ety.elem(*i as usize);
                }
                let val = self.op(st, x, &ety);
                let r = insert(&base, &ix[..], val);
                self.set(st, dst, r);
            }
            Inst::ExtractElem(o, i, ty) => {
                let v = self.op(st, o, ty);
                let iv = self.opk(st, i, 64);
                let k = self.conc(st, &iv, 64)?;
                let r = match v {
                    V::A(a) => a[k as usize].clone(),
                    _ => V::U,
                };
                self.set(st, dst, r);
            }
            Inst::InsertElem(ty, o, x, i) => {
                let base = self.op(st, o, ty);
                let base = if let V::U = base { self.zero_of(ty) } else { base };
                let val = self.op(st, x, &ty.elem(0));
                let iv = self.opk(st, i, 64);
                let k = self.conc(st, &iv, 64)?;
                let r = insert(&base, &[k as u32], val);
                self.set(st, dst, r);
            }
            Inst::Shuffle(ty, a, b, mk) => {
                let x = self.op(st, a, ty);
                let y = self.op(st, b, ty);
                let n = if let Ty::Vec(n, _) = ty { *n as usize } else { 0 };
                let mut r = vec![];
                for i in mk {
                    let v = if *i < 0 {
                        V::K(0)
                    } else if (*i as usize) < n {
                        match &x {
                            V::A(p) => p[*i as usize].clone(),
                            _ => V::U,
                        }
                    } else {
                        match &y {
                            V::A(p) => p[*i as usize - n].clone(),
                            _ => V::U,
                        }
                    };
                    r.push(v);
                }
                self.set(st, dst, V::A(Rc::new(r)));
            }
            Inst::AtomicRmw(k, ty, p, v) => {
                let pv = self.opk(st, p, 64);
                let a = self.addr(st, &pv)?;
                let old = self.load(st, a, ty)?;
                let w = ty.width();
                let x = self.opk(st, v, w);
                let new = match k {
                    Rmw::Xchg => x,
                    Rmw::Add => self.bin(BinOp::Add, &old, &x, w)?,
                    Rmw::Sub => self.bin(BinOp::Sub, &old, &x, w)?,
                    Rmw::And => self.bin(BinOp::And, &old, &x, w)?,
                    Rmw::Or => self.bin(BinOp::Or, &old, &x, w)?,
                    Rmw::Xor => self.bin(BinOp::Xor, &old, &x, w)?,
                    _ => return Err(Stop::Err("atomicrmw op".into())),
                };
                self.store(st, a, &new, ty)?;
                self.set(st, dst, old);
            }
            Inst::CmpXchg(ty, p, c, n) => {
                let pv = self.opk(st, p, 64);
                let a = self.addr(st, &pv)?;
                let old = self.load(st, a, ty)?;
                let w = ty.width();
                let cv = self.opk(st, c, w);
                let nv = self.opk(st, n, w);
                let e = self.icmp(Pred::Eq, &fixu(old.clone()), &fixu(cv), w);
                let eq = match e {
                    V::K(k) => k == 1,
                    V::S(t) => self.decide(st, t)?,
                    _ => false,
                };
                if eq {
                    self.store(st, a, &nv, ty)?;
                }
                self.set(st, dst, V::A(Rc::new(vec![old, V::K(eq as u64)])));
            }
            Inst::Nop => self.set(st, NODST, V::U),
            Inst::Copy(o) => {
                let v = self.op(st, o, &Ty::Int(64));
                self.set(st, dst, v);
            }
            Inst::Asm(s) => {
                if s.is_empty() || s.contains("nop") {
                    self.set(st, NODST, V::U);
                } else {
                    return Err(Stop::Err(format!("inline asm {}", s)));
                }
            }
            Inst::FCmp(p, ty, a, b) => {
                let w = ty.width();
                let (x, y) = (fixu(self.opk(st, a, w)), fixu(self.opk(st, b, w)));
                if let (V::K(x), V::K(y)) = (x, y) {
                    let f = |x: u64| if *ty == Ty::Float { f32::from_bits(x as u32) as f64 } else { f64::from_bits(x) };
                    let (x, y) = (f(x), f(y));
                    let un = x.is_nan() || y.is_nan();
                    let r = match p.as_str() {
                        "oeq" => x == y,
                        "olt" => x < y,
                        "ole" => x <= y,
                        "ogt" => x > y,
                        "oge" => x >= y,
                        "one" => !un && x != y,
                        "une" => x != y,
                        "ueq" => un || x == y,
                        "ult" => un || x < y,
                        "ule" => un || x <= y,
                        "ugt" => un || x > y,
                        "uge" => un || x >= y,
                        "ord" => !un,
                        "uno" => un,
                        _ => return Err(Stop::Err("fcmp".into())),
                    };
                    self.set(st, dst, V::K(r as u64));
                } else {
                    return Err(Stop::Err("symbolic fcmp".into()));
                }
            }
            Inst::Unsupported(s) => return Err(Stop::Err(format!("unsupported instruction {}", s))),
            Inst::Call(rty, callee, args, nd) => return self.call(st, dst, rty, callee, args, *nd),
        }
        Ok(())
    }
    fn ret(&mut self, st: &mut State, v: V) -> R<()> {
        let fr = st.frames.pop().unwrap();
        for a in &fr.allocas {
            st.objs[*a as usize] = None;
            st.free.push(*a);
        }
        if st.frames.is_empty() {
            return Ok(());
        }
        let c = st.frames.last_mut().unwrap();
        if fr.dst != NODST {
            c.loc[fr.dst as usize] = v;
        }
        match fr.ret_to {
            Some(b) => self.goto(st, b),
            None => {
                c.ip += 1;
                Ok(())
            }
        }
    }
    fn finish_call(&mut self, st: &mut State, dst: u32, nd: Option<u32>, v: V) -> R<()> {
        match nd {
            Some(b) => {
                let c = st.frames.last_mut().unwrap();
                if dst != NODST {
                    c.loc[dst as usize] = v;
                }
                self.goto(st, b)
            }
            None => {
                self.set(st, dst, v);
                Ok(())
            }
        }
    }
    fn call(&mut self, st: &mut State, dst: u32, rty: &Ty, callee: &Op, args: &[(Ty, Op)], nd: Option<u32>) -> R<()> {
        let sym = match callee {
            Op::C(Cst::Sym(s, 0)) => *s,
            o => {
                let v = self.opk(st, o, 64);
                let a = self.conc(st, &v, 64)?;
                if a >> 32 != FUNC_OBJ {
                    return Err(Stop::Err(format!("call through bad pointer {:#x}", a)));
                }
                ((a & 0xffff_ffff) >> 4) as u32
            }
        };
        let sym = match self.m.syms[sym as usize].kind {
            SymKind::Alias(t) => t,
            _ => sym,
        };
        let mut av = Vec::with_capacity(args.len());
        for (t, o) in args {
            av.push(self.op(st, o, t));
        }
        // llvm intrinsics
        if self.m.syms[sym as usize].name.starts_with("llvm.") {
            let name = self.m.syms[sym as usize].name.clone();
            let v = self.intrinsic(st, &name, rty, args, &av)?;
            return self.finish_call(st, dst, nd, v);
        }
        let b = self.builtin_for(sym);
        if let Some(b) = b {
            let v = self.do_builtin(st, b, sym, rty, args, &av)?;
            return self.finish_call(st, dst, nd, v);
        }
        let tgt = match self.redirect_for(sym) {
            Some(t) => {
                let c = {
                    let cf = &st.frames.last().unwrap().f.name;
                    self.m.by_name.get(cf).cloned()
                };
                // calls made by the stub itself go to the real function
                if c == Some(t) {
                    sym
                } else {
                    let nm = self.dname(sym);
                    self.stubs_hit.insert(nm);
                    t
                }
            }
            None => sym,
        };
        let f = match self.m.func(tgt) {
            Some(f) => f,
            None => return Err(Stop::Err(format!("call to undefined function {}", self.dname(tgt)))),
        };
        let cnt = self.fcount.entry(tgt).or_insert(0);
        *cnt += 1;
        if st.frames.len() > 400 {
            return Err(Stop::Err("stack too deep".into()));
        }
        let mut loc = vec![V::U; f.nlocals];
        for (i, v) in av.into_iter().enumerate() {
            if i < f.nargs {
                loc[i] = v;
            }
        }
        if self.trace {
            eprintln!("{}{}", " ".repeat(st.frames.len()), self.dname(tgt));
        }
        st.frames.push(Frame { f, blk: 0, ip: 0, prev: 0, loc, dst, ret_to: nd, allocas: vec![] });
        self.merge_now = dst != NODST && matches!(rty, Ty::Int(1)) && self.merge_for(sym);
        Ok(())
    }
    fn merge_for(&mut self, sym: u32) -> bool {
        if self.merges.is_empty() {
            return false;
        }
        if let Some(r) = self.merge_cache.get(&sym) {
            return *r;
        }
        let n = self.dname(sym);
        let r = self.merges.iter().any(|p| glob(p, &n));
        self.merge_cache.insert(sym, r);
        r
    }
    fn bite(&mut self, c: T, a: T, b: T) -> T {
        let (tt, ff) = (self.tm.tt, self.tm.ff);
        let nc = self.tm.not(c);
        if a == b {
            a
        } else if a == tt {
            self.tm.or(c, b)
        } else if a == ff {
            self.tm.and(nc, b)
        } else if b == tt {
            self.tm.or(nc, a)
        } else if b == ff {
            self.tm.and(c, a)
        } else {
            self.tm.ite(c, a, b)
        }
    }
    /// the value of a tree of alternative paths (conditions, value), and the condition of being on any
    /// of them, under which alone the value counts
    fn join(&mut self, ps: Vec<(Vec<T>, T)>, k: usize) -> (T, T) {
        let tt = self.tm.tt;
        if ps.len() == 1 || ps[0].0.len() <= k {
            let mut a = tt;
            for p in ps[0].0.iter().skip(k) {
                a = self.tm.and(a, *p);
            }
            return (ps[0].1, a);
        }
        let c = ps[0].0[k];
        let nc = self.tm.not(c);
        let (a, b): (Vec<_>, Vec<_>) = ps.into_iter().partition(|p| p.0.get(k) == Some(&c));
        let (ya, aa) = self.join(a, k + 1);
        if b.is_empty() {
            return (ya, self.tm.and(c, aa));
        }
        if b.iter().all(|p| p.0.get(k) == Some(&nc)) {
            let (yb, ab) = self.join(b, k + 1);
            (self.bite(c, ya, yb), self.bite(c, aa, ab))
        } else {
            let (yb, ab) = self.join(b, k);
            let ca = self.tm.and(c, aa);
            (self.bite(c, ya, yb), self.tm.or(ca, ab))
        }
    }
    /// Runs the predicate just entered on all its paths. When each of them returns, leaving memory
    /// alike, they become one state whose result is the disjunction of the conditions under which
    /// it is true; otherwise the states reached go on separately.
    fn merge(&mut self, st: &mut State) -> R<()> {
        if self.lazy {
            return self.merge1(st);
        }
        // at first without queries; impossible paths do no harm unless they end otherwise
        let was = st.clone();
        self.lazy = true;
        let r = self.merge1(st);
        self.lazy = false;
        if r.is_ok() {
            return r;
        }
        self.spill.clear();
        *st = was;
        self.merge1(st)
    }
    fn merge1(&mut self, st: &mut State) -> R<()> {
        let depth = st.frames.len() - 1;
        let base = st.pcs.len();
        let dst = st.frames[depth].dst as usize;
        let known = st.known.clone();
        let mut work = vec![std::mem::replace(st, State::none())];
        let mut done: Vec<State> = vec![];
        while let Some(mut s) = work.pop() {
            if self.lazy && work.len() + done.len() > 300 {
                return Err(Stop::Spill);
            }
            match self.run_until(&mut s, depth) {
                None => done.push(s),
                Some(Stop::Fork(cs)) => {
                    self.forks += cs.len() as u64 - 1;
                    for c in cs.into_iter().rev() {
                        let mut s2 = s.clone();
                        self.add_pc(&mut s2, c);
                        work.push(s2);
                    }
                }
                Some(Stop::Spill) => work.append(&mut self.spill),
                // a path that ends here: nothing to join (it is run again, to the same end, on its own)
                Some(_) => {
                    done.append(&mut work);
                    done.push(s);
                    self.spill = done;
                    return Err(Stop::Spill);
                }
            }
        }
        let mut classes: Vec<Vec<State>> = vec![];
        for d in done {
            match classes.iter_mut().find(|c| mergeable(&c[0], &d, dst)) {
                Some(c) => c.push(d),
                None => classes.push(vec![d]),
            }
        }
        let mut out: Vec<State> = classes.into_iter().map(|c| self.join_states(c, depth, dst, base, &known)).collect();
        if out.len() == 1 {
            *st = out.pop().unwrap();
            return Ok(());
        }
        self.spill = out;
        Err(Stop::Spill)
    }
    fn join_states(&mut self, mut done: Vec<State>, depth: usize, dst: usize, base: usize, known: &HashMap<T, u64>) -> State {
        if done.len() == 1 {
            return done.pop().unwrap();
        }
        self.merged += 1;
        let mut s = done[0].clone();
        let mut common = base;
        while done.iter().all(|d| d.pcs.len() > common && d.pcs[common] == s.pcs[common]) {
            common += 1;
        }
        let mut ps = vec![];
        for d in &done {
            let v = match &d.frames[depth - 1].loc[dst] {
                V::K(k) => if k & 1 == 1 { self.tm.tt } else { self.tm.ff },
                V::S(t) => *t,
                _ => self.tm.ff,
            };
            ps.push((d.pcs[common..].to_vec(), v));
        }
        let (yes, any) = self.join(ps, 0);
        let pre: Vec<T> = s.pcs[base..common].to_vec();
        s.pcs.truncate(base);
        s.known = known.clone();
        for p in pre {
            self.add_pc(&mut s, p);
        }
        self.add_pc(&mut s, any);
        s.frames[depth - 1].loc[dst] = self.norm(yes);
        s
    }
    fn redirect_for(&mut self, sym: u32) -> Option<u32> {
        if self.redirects.is_empty() {
            return None;
        }
        if let Some(r) = self.redir_cache.get(&sym) {
            return *r;
        }
        let n = self.dname(sym);
        let mut r = None;
        for (p, t) in &self.redirects {
            if glob(p, &n) {
                r = Some(*t);
                break;
            }
        }
        self.redir_cache.insert(sym, r);
        r
    }
    fn builtin_for(&mut self, sym: u32) -> Option<Builtin> {
        if let Some(b) = self.builtin.get(&sym) {
            return *b;
        }
        let raw = self.m.syms[sym as usize].name.clone();
        let d = self.dname(sym);
        use Builtin::*;
        let b = match raw.as_str() {
            "malloc" => Some(Alloc),
            "free" => Some(Nop),
            "memcmp" | "bcmp" => Some(Memcmp),
            "memcpy" => Some(Memcpy),
            "memmove" => Some(Memmove),
            "memset" => Some(Memset),
            "strlen" => Some(Strlen),
            "abort" => Some(Abort),
            "sym_bits" => Some(SymBits),
            "sym_bytes" => Some(SymBytes),
            "sym_assume" => Some(SymAssume),
            "sym_given" => Some(SymGiven),
            "sym_check" => Some(SymCheck),
            "sym_reach" => Some(SymReach),
            "sym_concretize" => Some(SymConc),
            "sym_is_symbolic" => Some(SymIs),
            "sym_is_concrete" => Some(SymIsConc),
            "sym_range" => Some(SymRange),
            "sym_panic_ok" => Some(SymPanicOk),
            "sym_note" => Some(SymNote),
            "sym_or" => Some(BoolOr),
            "sym_and" => Some(BoolAnd),
            "sym_select" => Some(Select),
            "fld_var" => Some(FldVar),
            "fld_nz" => Some(FldNz),
            "fld_sq" => Some(FldSq),
            "fld_const" => Some(FldConst),
            "fld_add" => Some(FldAdd),
            "fld_sub" => Some(FldSub),
            "fld_mul" => Some(FldMul),
            "fld_neg" => Some(FldNeg),
            "fld_inv" => Some(FldInv),
            "fld_eq" => Some(FldEq),
            "fld_ite" => Some(FldIte),
            "fld_enc" => Some(FldEnc),
            "fld_dec" => Some(FldDec),
            "fld_parity" => Some(FldParity),
            "z_of" => Some(ZOf),
            "z_bytes" => Some(ZBytes),
            "z_add" => Some(ZAdd),
            "z_sub" => Some(ZSub),
            "z_mul" => Some(ZMul),
            "z_le" => Some(ZLe),
            "z_eq" => Some(ZEq),
            "z_mod" => Some(ZMod),
            "z_mod_eq" => Some(ZModEq),
            "uf_bytes" => Some(Uf),
            _ => {
                if d.ends_with("__rustc::__rust_alloc") {
                    Some(Alloc)
                } else if d.ends_with("__rustc::__rust_alloc_zeroed") {
                    Some(AllocZ)
                } else if d.ends_with("__rustc::__rust_realloc") {
                    Some(Realloc)
                } else if d.ends_with("__rustc::__rust_dealloc") {
                    Some(Dealloc)
                } else if d == "core::panicking::panic_fmt" {
                    Some(PanicFmt)
                } else if d == "core::panicking::panic" || d == "core::option::expect_failed" || d == "core::result::unwrap_failed" || d == "core::panicking::panic_nounwind" || d == "core::panicking::panic_display" || d == "std::panicking::begin_panic_str" {
                    Some(PanicStr)
                } else if d.starts_with("core::panicking::")
                    || d.starts_with("std::panicking::")
                    || d.starts_with("core::slice::index::slice_")
                    || d == "core::str::slice_error_fail"
                    || d == "core::option::unwrap_failed"
                    || d.starts_with("core::cell::panic_already")
                    || d.starts_with("alloc::raw_vec::handle_error")
                    || d.starts_with("alloc::alloc::handle_alloc_error")
                    || d.starts_with("alloc::raw_vec::capacity_overflow")
                    || d.ends_with("copy_from_slice_impl::len_mismatch_fail")
                    || d.ends_with("::assert_failed")
                {
                    Some(PanicGeneric)
                } else if d == "<alloc::string::String as core::hash::Hash>::hash::<std::hash::random::DefaultHasher>" || (d.starts_with("<core::hash::sip::Hasher<") && d.ends_with("as core::hash::Hasher>::write_str")) {
                    // strings hash alike: a table of strings then compares its keys
                    Some(Nop)
                } else if d == "core::fmt::write" && !self.real_fmt {
                    Some(FmtWrite)
                } else if d == "std::io::stdio::_print" || d == "std::io::stdio::_eprint" {
                    Some(Nop)
                } else if d.ends_with("random::hashmap_random_keys") || d.ends_with("random::linux::hashmap_random_keys") {
                    Some(HashKeys)
                } else if d.ends_with("__cpuid_count") || d.ends_with("__cpuid") {
                    Some(Cpuid)
                } else if d.ends_with("detect::cache::detect_and_initialize") {
                    Some(Ret0)
                } else {
                    None
                }
            }
        };
        self.builtin.insert(sym, b);
        b
    }
    fn name_arg(&mut self, st: &mut State, p: &V, l: &V) -> R<String> {
        let a = self.addr(st, p)?;
        let n = self.conc(st, l, 64)?;
        let (d, _) = self.read_cells(st, a, n)?;
        Ok(String::from_utf8_lossy(&d).to_string())
    }
    fn fresh_name(&mut self, st: &mut State, base: &str) -> String {
        let c = st.names.entry(base.to_string()).or_insert(0);
        *c += 1;
        if *c == 1 {
            base.to_string()
        } else {
            format!("{}#{}", base, *c)
        }
    }
    fn getvar(&mut self, name: &str, s: Sort) -> T {
        let key = format!("{}:{:?}", name, s);
        if let Some(t) = self.varcache.get(&key) {
            return *t;
        }
        let t = self.tm.var(name, s);
        self.varcache.insert(key, t);
        t
    }
    fn htag(t: T) -> V {
        V::K(0xF1D0_0000_0000_0000 | t as u64)
    }
    /// field/integer handle to term; symbolic handles become ite terms
    fn handle(&mut self, st: &mut State, v: &V) -> R<T> {
        match v {
            V::K(k) => {
                if k >> 48 != 0xF1D0 {
                    return Err(Stop::Err(format!("not a handle: {:#x}", k)));
                }
                Ok((*k & 0xffff_ffff) as T)
            }
            V::S(t) => {
                if let Some(k) = st.known.get(t) {
                    let k = *k;
                    return self.handle(st, &V::K(k));
                }
                let n = self.tm.node(*t);
                if n.op == O::Ite {
                    let (x, y) = (self.norm(n.b), self.norm(n.c));
                    let a = self.handle(st, &x)?;
                    let b = self.handle(st, &y)?;
                    return Ok(self.tm.ite(n.a, a, b));
                }
                Err(Stop::Err("symbolic handle".into()))
            }
            _ => Err(Stop::Err("bad handle".into())),
        }
    }
    fn do_check(&mut self, st: &mut State, c: T, name: &str) -> R<()> {
        let cs = self.checks.entry(name.to_string()).or_default();
        cs.evaluated += 1;
        if self.tm.isk(c) == Some(1) {
            cs.trivially += 1;
            return Ok(());
        }
        let nc = self.tm.not(c);
        match self.sat(st, nc, true)? {
            None => {
                self.checks.get_mut(name).unwrap().proved += 1;
                st.known.insert(c, 1);
                Ok(())
            }
            Some(m) => {
                self.checks.get_mut(name).unwrap().failed += 1;
                let at = self.where_am_i(st);
                self.report(st, name, &format!("check failed in {}", at), m);
                // go on under the assumption that it held
                if !self.may(st, c)? {
                    return Err(Stop::Assume);
                }
                self.add_pc(st, c);
                Ok(())
            }
        }
    }
    fn panic_loc(&mut self, st: &mut State, v: &V) -> String {
        // core::panic::Location { file: &str, line: u32, col: u32 }
        let f = || -> R<String> { Err(Stop::Exit) };
        let _ = f;
        if let V::K(a) = v {
            let p = match self.load_bits(st, *a, 64) {
                Ok(V::K(p)) => p,
                _ => return String::new(),
            };
            let l = match self.load_bits(st, *a + 8, 64) {
                Ok(V::K(p)) => p,
                _ => return String::new(),
            };
            let line = match self.load_bits(st, *a + 16, 32) {
                Ok(V::K(p)) => p,
                _ => return String::new(),
            };
            if l > 300 || l == 0 {
                return String::new();
            }
            if let Ok((d, _)) = self.read_cells(st, p, l - 1) {
                let s = String::from_utf8_lossy(&d).to_string();
                return format!("{}:{}", s, line);
            }
        }
        String::new()
    }
    fn seq_eq(&mut self, d1: &[u8], s1: &[(T, u8)], d2: &[u8], s2: &[(T, u8)]) -> T {
        let n = d1.len();
        let mut r = self.tm.tt;
        let mut i = 0;
        while i < n {
            let run = |s: &[(T, u8)], i: usize| {
                let mut j = i + 1;
                while j < n && ((s[i].0 == 0 && s[j].0 == 0 && j - i < 8) || (s[i].0 != 0 && s[j].0 == s[i].0 && s[j].1 as usize == s[i].1 as usize + j - i)) {
                    j += 1;
                }
                j
            };
            let j = run(s1, i).min(run(s2, i));
            if s1[i].0 == 0 && s2[i].0 == 0 {
                if d1[i..j] != d2[i..j] {
                    return self.tm.ff;
                }
            } else {
                let a = self.assemble(&d1[i..j], &s1[i..j]);
                let b = self.assemble(&d2[i..j], &s2[i..j]);
                let e = self.tm.eq(a, b);
                r = self.tm.and(r, e);
            }
            i = j;
        }
        r
    }
    fn do_builtin(&mut self, st: &mut State, b: Builtin, sym: u32, rty: &Ty, args: &[(Ty, Op)], av: &[V]) -> R<V> {
        use Builtin::*;
        let _ = args;
        Ok(match b {
            Alloc | AllocZ => {
                let n = self.conc(st, &av[0], 64)?;
                if n > 1 << 26 {
                    return Err(Stop::Panic(format!("allocation of {} bytes", n)));
                }
                V::K(self.new_obj(st, n))
            }
            Realloc => {
                // (ptr, old, align, new)
                let p = self.addr(st, &av[0])?;
                let old = self.conc(st, &av[1], 64)?;
                let new = self.conc(st, &av[3], 64)?;
                if new > 1 << 26 {
                    return Err(Stop::Panic(format!("allocation of {} bytes", new)));
                }
                let a = self.new_obj(st, new);
                let n = old.min(new);
                let (d, s) = self.read_cells(st, p, n)?;
                self.write_cells(st, a, &d, &s)?;
                let id = (p >> 32) as u32;
                st.objs[id as usize] = None;
                st.free.push(id);
                V::K(a)
            }
            Dealloc => {
                let p = self.addr(st, &av[0])?;
                let id = (p >> 32) as usize;
                if (id as u64) < GLOB && id < st.objs.len() && st.objs[id].is_some() {
                    st.objs[id] = None;
                    st.free.push(id as u32);
                } else if (id as u64) < GLOB {
                    return Err(Stop::Err("double free".into()));
                }
                V::U
            }
            Memcmp => {
                let n = self.conc(st, &av[2], 64)?;
                if n == 0 {
                    return Ok(V::K(0));
                }
                let (a, b2) = (self.addr(st, &av[0])?, self.addr(st, &av[1])?);
                let (d1, s1) = self.read_cells(st, a, n)?;
                let (d2, s2) = self.read_cells(st, b2, n)?;
                let is_b = self.m.syms[sym as usize].name == "bcmp";
                if s1.iter().all(|x| x.0 == 0) && s2.iter().all(|x| x.0 == 0) {
                    let r: i32 = match d1.cmp(&d2) {
                        std::cmp::Ordering::Less => -1,
                        std::cmp::Ordering::Equal => 0,
                        _ => 1,
                    };
                    return Ok(V::K(r as u32 as u64));
                }
                let e = self.seq_eq(&d1, &s1, &d2, &s2);
                let one = self.tm.k(1, 32);
                let zero = self.tm.k(0, 32);
                if is_b {
                    let r = self.tm.ite(e, zero, one);
                    return Ok(self.norm(r));
                }
                // three-way: compare as big-endian numbers
                let mut x: Option<T> = None;
                let mut y: Option<T> = None;
                for i in 0..n as usize {
                    let p = self.assemble(&d1[i..i + 1], &s1[i..i + 1]);
                    let q = self.assemble(&d2[i..i + 1], &s2[i..i + 1]);
                    x = Some(match x {
                        None => p,
                        Some(h) => self.tm.concat(h, p),
                    });
                    y = Some(match y {
                        None => q,
                        Some(h) => self.tm.concat(h, q),
                    });
                }
                let lt = self.tm.cmp(O::Ult, x.unwrap(), y.unwrap());
                let m1 = self.tm.k(0xffff_ffff, 32);
                let r = self.tm.ite(lt, m1, one);
                let r = self.tm.ite(e, zero, r);
                self.norm(r)
            }
            Memcpy | Memmove => {
                let n = self.conc(st, &av[2], 64)?;
                let (a, b2) = (self.addr(st, &av[0])?, self.addr(st, &av[1])?);
                let (d, s) = self.read_cells(st, b2, n)?;
                self.write_cells(st, a, &d, &s)?;
                av[0].clone()
            }
            Memset => {
                let n = self.conc(st, &av[2], 64)?;
                let a = self.addr(st, &av[0])?;
                let x = self.conc(st, &av[1], 32)?;
                self.write_bytes(st, a, &vec![x as u8; n as usize])?;
                av[0].clone()
            }
            Strlen => {
                let a = self.addr(st, &av[0])?;
                let mut n = 0;
                loop {
                    let x = self.load_bits(st, a + n, 8)?;
                    if let V::K(0) = x {
                        break;
                    }
                    n += 1;
                }
                V::K(n)
            }
            PanicFmt => {
                let l = av.last().cloned().unwrap_or(V::U);
                let s = self.panic_loc(st, &l);
                return Err(Stop::Panic(format!("panic at {}", s)));
            }
            PanicStr => {
                let msg = self.name_arg(st, &av[0], &av[1]).unwrap_or_default();
                let l = av.last().cloned().unwrap_or(V::U);
                let s = self.panic_loc(st, &l);
                return Err(Stop::Panic(format!("panic '{}' at {}", msg, s)));
            }
            PanicGeneric => {
                let l = av.last().cloned().unwrap_or(V::U);
                let s = self.panic_loc(st, &l);
                let n = self.dname(sym);
                return Err(Stop::Panic(format!("panic {} at {}", n, s)));
            }
            Abort => return Err(Stop::Panic("abort".into())),
            FmtWrite => V::K(0),
            Nop => V::U,
            Ret0 => self.zero_of(rty),
            Ret1 => V::K(1),
            HashKeys => V::A(Rc::new(vec![V::K(0x1234_5678_9abc_def0), V::K(0x0fed_cba9_8765_4321)])),
            Cpuid => {
                if *rty == Ty::Void {
                    let a = self.addr(st, &av[0])?;
                    self.write_bytes(st, a, &[0u8; 16])?;
                    V::U
                } else {
                    self.zero_of(rty)
                }
            }
            SymBits => {
                let base = self.name_arg(st, &av[0], &av[1])?;
                let w = self.conc(st, &av[2], 32)? as u32;
                let n = self.fresh_name(st, &base);
                let t = self.getvar(&n, Sort::BV(w));
                let z = self.tm.zext(t, 64);
                V::S(z)
            }
            SymRange => {
                let base = self.name_arg(st, &av[0], &av[1])?;
                let lo = self.conc(st, &av[2], 64)? as i64;
                let hi = self.conc(st, &av[3], 64)? as i64;
                let n = self.fresh_name(st, &base);
                let t = self.getvar(&n, Sort::BV(64));
                let vi = self.tm.node(t).a as usize;
                self.tm.vars[vi].lo = Some(Big::from(lo as i128));
                self.tm.vars[vi].hi = Some(Big::from(hi as i128));
                let kl = self.tm.k(lo as u64 as u128, 64);
                let kh = self.tm.k(hi as u64 as u128, 64);
                let c1 = self.tm.cmp(O::Sle, kl, t);
                let c2 = self.tm.cmp(O::Sle, t, kh);
                let c = self.tm.and(c1, c2);
                self.ranged.insert(t, c);
                if !self.int_mode {
                    self.add_pc(st, c);
                }
                V::S(t)
            }
            SymBytes => {
                let base = self.name_arg(st, &av[0], &av[1])?;
                let p = self.addr(st, &av[2])?;
                let l = self.conc(st, &av[3], 64)?;
                let n = self.fresh_name(st, &base);
                for i in 0..l {
                    let t = self.getvar(&format!("{}[{}]", n, i), Sort::BV(8));
                    self.store_bits(st, p + i, &V::S(t), 8)?;
                }
                V::U
            }
            // an assumption known to be satisfiable: not checked for feasibility
            SymGiven => {
                let t = self.kterm(&av[0], 1);
                match self.tm.isk(t) {
                    Some(1) => V::U,
                    Some(_) => return Err(Stop::Assume),
                    None => {
                        self.add_pc(st, t);
                        V::U
                    }
                }
            }
            SymAssume => {
                let t = self.kterm(&av[0], 1);
                match self.tm.isk(t) {
                    Some(1) => V::U,
                    Some(_) => return Err(Stop::Assume),
                    None => {
                        if st.known.get(&t) == Some(&1) {
                            return Ok(V::U);
                        }
                        if !self.may(st, t)? {
                            return Err(Stop::Assume);
                        }
                        self.add_pc(st, t);
                        V::U
                    }
                }
            }
            SymCheck => {
                let name = self.name_arg(st, &av[1], &av[2])?;
                let t = self.kterm(&av[0], 1);
                self.do_check(st, t, &name)?;
                V::U
            }
            SymReach => {
                let name = self.name_arg(st, &av[0], &av[1])?;
                *self.reached.entry(name).or_insert(0) += 1;
                V::U
            }
            SymNote => {
                let name = self.name_arg(st, &av[0], &av[1])?;
                if !st.notes.contains(&name) {
                    st.notes.push(name);
                }
                V::U
            }
            SymPanicOk => {
                let k = self.conc(st, &av[0], 1)?;
                if k == 1 {
                    st.names.insert("__panic_ok".into(), 1);
                } else {
                    st.names.remove("__panic_ok");
                }
                V::U
            }
            SymConc => {
                let k = self.conc(st, &av[0], 64)?;
                V::K(k)
            }
            SymIs => V::K(1),
            SymIsConc => V::K(matches!(av[0], V::K(_)) as u64 as _),
            BoolOr => {
                let (a, b2) = (self.kterm(&av[0], 1), self.kterm(&av[1], 1));
                let t = self.tm.or(a, b2);
                self.norm(t)
            }
            BoolAnd => {
                let (a, b2) = (self.kterm(&av[0], 1), self.kterm(&av[1], 1));
                let t = self.tm.and(a, b2);
                self.norm(t)
            }
            Select => {
                let c = self.kterm(&av[0], 1);
                let (a, b2) = (self.kterm(&av[1], 64), self.kterm(&av[2], 64));
                let t = self.tm.ite(c, a, b2);
                self.norm(t)
            }
            FldVar | FldNz => {
                let m = self.conc(st, &av[0], 32)? as u8;
                let base = self.name_arg(st, &av[1], &av[2])?;
                let n = self.fresh_name(st, &base);
                let t = self.getvar(&n, Sort::F(m));
                if matches!(b, FldNz) {
                    self.tm.rules.nz.insert(t);
                }
                Self::htag(t)
            }
            FldSq => {
                let y = self.handle(st, &av[0])?;
                let e = self.handle(st, &av[1])?;
                if !matches!(self.tm.node(y).op, O::Var | O::FDec) || (!self.tm.rules.sq.contains_key(&y) && !self.tm.fsq_rule(y, e)) {
                    return Err(Stop::Err("fld_sq".into()));
                }
                V::U
            }
            FldConst => {
                let m = self.conc(st, &av[0], 32)? as u8;
                let p = self.addr(st, &av[1])?;
                let (d, s) = self.read_cells(st, p, 32)?;
                if s.iter().any(|x| x.0 != 0) {
                    return Err(Stop::Err("fld_const of symbolic bytes".into()));
                }
                let t = self.tm.fk(&Big::from_le(&d), m);
                Self::htag(t)
            }
            FldAdd | FldSub | FldMul => {
                let a = self.handle(st, &av[0])?;
                let b2 = self.handle(st, &av[1])?;
                let t = match b {
                    FldAdd => self.tm.fadd(a, b2),
                    FldSub => {
                        let n = self.tm.fneg(b2);
                        self.tm.fadd(a, n)
                    }
                    _ => self.tm.fmul(a, b2),
                };
                Self::htag(t)
            }
            FldNeg => {
                let a = self.handle(st, &av[0])?;
                Self::htag(self.tm.fneg(a))
            }
            FldInv => {
                let a = self.handle(st, &av[0])?;
                Self::htag(self.tm.finv(a))
            }
            FldEq => {
                let a = self.handle(st, &av[0])?;
                let b2 = self.handle(st, &av[1])?;
                let t = self.tm.eq(a, b2);
                self.norm(t)
            }
            FldIte => {
                let c = self.kterm(&av[0], 1);
                let a = self.handle(st, &av[1])?;
                let b2 = self.handle(st, &av[2])?;
                let t = self.tm.ite(c, a, b2);
                Self::htag(t)
            }
            FldEnc => {
                // (h, ptr, len, tag)
                let a = self.handle(st, &av[0])?;
                let p = self.addr(st, &av[1])?;
                let l = self.conc(st, &av[2], 64)?;
                let tag = self.conc(st, &av[3], 32)? as u32;
                if tag == 1 || tag == 2 {
                    // canonical little-endian encoding of an element of GF(p) / GF(L): constants are
                    // concrete, the top bits are always clear
                    let a = self.tm.fcanon(a);
                    if let Some(v) = self.tm.fval(a) {
                        let b = v.to_le(32);
                        self.write_bytes(st, p, &b)?;
                        return Ok(V::U);
                    }
                    let e = self.tm.encf(a, if tag == 1 { 255 } else { 253 }, tag);
                    let t = self.tm.zext(e, 256);
                    let v = self.norm(t);
                    self.store_bits(st, p, &v, 256)?;
                    return Ok(V::U);
                }
                let t = self.tm.encf(a, 8 * l as u32, tag);
                let v = self.norm(t);
                self.store_bits(st, p, &v, 8 * l as u32)?;
                V::U
            }
            FldDec => {
                // (m, ptr, len, tag)
                let m = self.conc(st, &av[0], 32)? as u8;
                let p = self.addr(st, &av[1])?;
                let l = self.conc(st, &av[2], 64)?;
                let tag = self.conc(st, &av[3], 32)? as u32;
                let (d, s) = self.read_cells(st, p, l)?;
                if tag == 1 && s.iter().all(|x| x.0 == 0) {
                    let mut d = d.clone();
                    d[31] &= 0x7f;
                    let r = self.tm.fk(&Big::from_le(&d), m);
                    return Ok(Self::htag(r));
                }
                if tag == 2 && s.iter().all(|x| x.0 == 0) {
                    let r = self.tm.fk(&Big::from_le(&d), m);
                    return Ok(Self::htag(r));
                }
                let t = self.assemble(&d, &s);
                let t = if tag == 1 { self.tm.trunc(t, 255) } else { t };
                if tag == 2 && l == 32 {
                    let hi = self.tm.extract(t, 255, 253);
                    if self.tm.isk(hi) == Some(0) {
                        let lo = self.tm.trunc(t, 253);
                        if self.tm.node(lo).op == O::EncF {
                            let r = self.tm.fdec(lo, m, tag);
                            return Ok(Self::htag(r));
                        }
                    }
                }
                let r = self.tm.fdec(t, m, tag);
                Self::htag(r)
            }
            FldParity => {
                // parity bit of the canonical representative: an uninterpreted predicate of the element
                let a = self.handle(st, &av[0])?;
                let a = self.tm.fcanon(a);
                let t = match self.tm.fval(a) {
                    Some(v) => {
                        let o = v.rem_euclid(&Big::from(2)) == Big::one();
                        self.tm.bool(o)
                    }
                    None => self.tm.uf("parity", &[a], Sort::BV(1), false),
                };
                self.norm(t)
            }
            ZOf => {
                // (value, width, signed)
                let w = self.conc(st, &av[1], 32)? as u32;
                let sg = self.conc(st, &av[2], 1)?;
                let t = self.kterm(&av[0], 64);
                let t = self.tm.trunc(t, w);
                Self::htag(self.tm.zof(t, sg == 1))
            }
            ZBytes => {
                let p = self.addr(st, &av[0])?;
                let l = self.conc(st, &av[1], 64)?;
                let (d, s) = self.read_cells(st, p, l)?;
                let mut acc = self.tm.zk(&Big::zero());
                for i in 0..l as usize {
                    let t = self.assemble(&d[i..i + 1], &s[i..i + 1]);
                    let z = self.tm.zof(t, false);
                    let k = self.tm.zk(&Big::pow2(8 * i));
                    let zz = self.tm.zmul(z, k);
                    acc = self.tm.zadd(acc, zz);
                }
                Self::htag(acc)
            }
            ZAdd | ZSub | ZMul => {
                let a = self.handle(st, &av[0])?;
                let b2 = self.handle(st, &av[1])?;
                let t = match b {
                    ZAdd => self.tm.zadd(a, b2),
                    ZSub => {
                        let n = self.tm.zneg(b2);
                        self.tm.zadd(a, n)
                    }
                    _ => self.tm.zmul(a, b2),
                };
                Self::htag(t)
            }
            ZLe => {
                let a = self.handle(st, &av[0])?;
                let b2 = self.handle(st, &av[1])?;
                let t = self.tm.zle(a, b2);
                self.norm(t)
            }
            ZEq => {
                let a = self.handle(st, &av[0])?;
                let b2 = self.handle(st, &av[1])?;
                let t = self.tm.eq(a, b2);
                self.norm(t)
            }
            ZMod | ZModEq => {
                let a = self.handle(st, &av[0])?;
                let (mut x, mi) = (a, if b == ZMod { 1 } else { 2 });
                if b == ZModEq {
                    let b2 = self.handle(st, &av[1])?;
                    let n = self.tm.zneg(b2);
                    x = self.tm.zadd(a, n);
                }
                let mh = self.handle(st, &av[mi])?;
                let m = self.tm.zval(mh).ok_or_else(|| Stop::Err("symbolic modulus".into()))?;
                let t = self.tm.zmod(x, &m);
                if b == ZMod {
                    Self::htag(t)
                } else {
                    let z = self.tm.zk(&Big::zero());
                    let e = self.tm.eq(t, z);
                    self.norm(e)
                }
            }
            Uf => {
                // (name_ptr,name_len, in_ptr,in_len, out_ptr,out_len, injective)
                let name = self.name_arg(st, &av[0], &av[1])?;
                let p = self.addr(st, &av[2])?;
                let l = self.conc(st, &av[3], 64)?;
                let q = self.addr(st, &av[4])?;
                let ol = self.conc(st, &av[5], 64)?;
                let inj = self.conc(st, &av[6], 1)? == 1;
                let args = if l == 0 {
                    vec![]
                } else {
                    let (d, s) = self.read_cells(st, p, l)?;
                    vec![self.assemble(&d, &s)]
                };
                if args.is_empty() {
                    // nullary: a named constant of the family
                    let z = self.tm.k(0, 8);
                    let t = self.tm.uf(&format!("{}_empty", name), &[z], Sort::BV(8 * ol as u32), inj);
                    self.store_bits(st, q, &V::S(t), 8 * ol as u32)?;
                    return Ok(V::U);
                }
                let t = self.tm.uf(&name, &args, Sort::BV(8 * ol as u32), inj);
                self.store_bits(st, q, &V::S(t), 8 * ol as u32)?;
                V::U
            }
            RngFill => return Err(Stop::Err("rng".into())),
        })
    }
    fn intrinsic(&mut self, st: &mut State, name: &str, rty: &Ty, args: &[(Ty, Op)], av: &[V]) -> R<V> {
        let base: Vec<&str> = name[5..].split('.').collect();
        let b0 = base[0];
        match b0 {
            "memcpy" | "memmove" => {
                let n = self.conc(st, &av[2], 64)?;
                if n == 0 {
                    return Ok(V::U);
                }
                let (a, b) = (self.addr(st, &av[0])?, self.addr(st, &av[1])?);
                let (d, s) = self.read_cells(st, b, n)?;
                self.write_cells(st, a, &d, &s)?;
                return Ok(V::U);
            }
            "memset" => {
                let n = self.conc(st, &av[2], 64)?;
                if n == 0 {
                    return Ok(V::U);
                }
                let a = self.addr(st, &av[0])?;
                match &av[1] {
                    V::S(t) => {
                        let t = *t;
                        for i in 0..n {
                            self.store_bits(st, a + i, &V::S(t), 8)?;
                        }
                    }
                    v => {
                        let x = self.conc(st, v, 8)?;
                        self.write_bytes(st, a, &vec![x as u8; n as usize])?;
                    }
                }
                return Ok(V::U);
            }
            "lifetime" | "assume" | "experimental" | "dbg" | "donothing" | "prefetch" | "invariant" => return Ok(V::U),
            "expect" => return Ok(av[0].clone()),
            "trap" | "ubsantrap" => return Err(Stop::Panic("trap".into())),
            "is" => return Ok(V::K(0)),
            "threadlocal" => return Ok(av[0].clone()),
            "launder" | "strip" => return Ok(av[0].clone()),
            "x86" => {
                if name.contains("pause") {
                    return Ok(V::U);
                }
                if name == "llvm.x86.sse2.pmovmskb.128" {
                    if let V::A(a) = &av[0] {
                        let mut r: Option<T> = None;
                        for x in a.iter() {
                            let t = self.kterm(x, 8);
                            let e = self.tm.extract(t, 7, 7);
                            r = Some(match r {
                                None => e,
                                Some(p) => self.tm.concat(e, p),
                            });
                        }
                        let z = self.tm.zext(r.unwrap(), 32);
                        return Ok(self.norm(z));
                    }
                }
                return Err(Stop::Err(format!("intrinsic {}", name)));
            }
            "vector" => {
                // llvm.vector.reduce.OP.vNiW
                if let V::A(a) = &av[0] {
                    let a = a.clone();
                    let w = rty.width();
                    let mut r = a[0].clone();
                    for x in &a[1..] {
                        r = match base[2] {
                            "add" => self.bin(BinOp::Add, &r, x, w)?,
                            "or" => self.bin(BinOp::Or, &r, x, w)?,
                            "and" => self.bin(BinOp::And, &r, x, w)?,
                            "xor" => self.bin(BinOp::Xor, &r, x, w)?,
                            "mul" => self.bin(BinOp::Mul, &r, x, w)?,
                            o => return Err(Stop::Err(format!("vector reduce {}", o))),
                        };
                    }
                    return Ok(r);
                }
            }
            _ => {}
        }
        // vector forms: lane-wise
        if let Ty::Vec(n, e) = rty {
            let mut r = vec![];
            for i in 0..*n as usize {
                let mut la = vec![];
                let mut lt = vec![];
                for (k, v) in av.iter().enumerate() {
                    match v {
                        V::A(a) => {
                            la.push(a[i].clone());
                            lt.push((args[k].0.elem(0), args[k].1.clone()));
                        }
                        o => {
                            la.push(o.clone());
                            lt.push(args[k].clone());
                        }
                    }
                }
                r.push(self.intrinsic(st, name, e, &lt, &la)?);
            }
            return Ok(V::A(Rc::new(r)));
        }
        let w = if args.is_empty() { 0 } else { args[0].0.width() };
        let av: Vec<V> = av.iter().map(|v| fixu(v.clone())).collect();
        match b0 {
            "ctpop" | "ctlz" | "cttz" | "bswap" | "bitreverse" => {
                if let V::K(x) = av[0] {
                    let r = match b0 {
                        "ctpop" => x.count_ones() as u64,
                        "ctlz" => (x.leading_zeros() as u64) - (64 - w as u64),
                        "cttz" => (x.trailing_zeros() as u64).min(w as u64),
                        "bswap" => x.swap_bytes() >> (64 - w),
                        _ => x.reverse_bits() >> (64 - w),
                    };
                    return Ok(V::K(r));
                }
                let t = self.kterm(&av[0], w);
                let r = match b0 {
                    "bswap" => {
                        let mut r: Option<T> = None;
                        for i in 0..w / 8 {
                            let e = self.tm.extract(t, 8 * i + 7, 8 * i);
                            r = Some(match r {
                                None => e,
                                Some(p) => self.tm.concat(p, e),
                            });
                        }
                        r.unwrap()
                    }
                    "bitreverse" => {
                        let mut r: Option<T> = None;
                        for i in 0..w {
                            let e = self.tm.extract(t, i, i);
                            r = Some(match r {
                                None => e,
                                Some(p) => self.tm.concat(p, e),
                            });
                        }
                        r.unwrap()
                    }
                    "ctpop" => {
                        let mut r = self.tm.k(0, w);
                        for i in 0..w {
                            let e = self.tm.extract(t, i, i);
                            let z = self.tm.zext(e, w);
                            r = self.tm.add(r, z);
                        }
                        r
                    }
                    "ctlz" => {
                        let mut r = self.tm.k(w as u128, w);
                        for i in 0..w {
                            let e = self.tm.extract(t, i, i);
                            let k = self.tm.k((w - 1 - i) as u128, w);
                            r = self.tm.ite(e, k, r);
                        }
                        r
                    }
                    _ => {
                        let mut r = self.tm.k(w as u128, w);
                        for i in (0..w).rev() {
                            let e = self.tm.extract(t, i, i);
                            let k = self.tm.k(i as u128, w);
                            r = self.tm.ite(e, k, r);
                        }
                        r
                    }
                };
                Ok(self.norm(r))
            }
            "umax" | "umin" | "smax" | "smin" => {
                let p = match b0 {
                    "umax" => Pred::Ugt,
                    "umin" => Pred::Ult,
                    "smax" => Pred::Sgt,
                    _ => Pred::Slt,
                };
                let c = self.icmp(p, &av[0], &av[1], w);
                self.select(st, &c, &av[0], &av[1], &Ty::Int(w))
            }
            "abs" => {
                let z = self.zero_of(&Ty::Int(w));
                let n = self.bin(BinOp::Sub, &z, &av[0], w)?;
                let c = self.icmp(Pred::Slt, &av[0], &z, w);
                self.select(st, &c, &n, &av[0], &Ty::Int(w))
            }
            "uadd" | "usub" | "sadd" | "ssub" | "umul" | "smul" => {
                let signed = b0.starts_with('s');
                let ww = if &b0[1..] == "mul" { 2 * w } else { w + 2 };
                let (x, y) = (self.kterm(&av[0], w), self.kterm(&av[1], w));
                let op = match &b0[1..] {
                    "add" => BinOp::Add,
                    "sub" => BinOp::Sub,
                    _ => BinOp::Mul,
                };
                if ww > 128 {
                    return Err(Stop::Err(format!("wide {}", name)));
                }
                let (ex, ey) = if signed { (self.tm.sext(x, ww), self.tm.sext(y, ww)) } else { (self.tm.zext(x, ww), self.tm.zext(y, ww)) };
                let r = self.bin(op, &V::S(ex), &V::S(ey), ww)?;
                let rt = self.kterm(&r, ww);
                let lo = self.tm.trunc(rt, w);
                let back = if signed { self.tm.sext(lo, ww) } else { self.tm.zext(lo, ww) };
                let e = self.tm.eq(back, rt);
                let ov = self.tm.not(e);
                if base[1] == "sat" {
                    let satv = match (signed, op) {
                        (false, BinOp::Add) => self.tm.k(mask(w), w),
                        (false, BinOp::Sub) => self.tm.k(0, w),
                        (true, _) => {
                            let neg = self.tm.extract(rt, ww - 1, ww - 1);
                            let mn = self.tm.k(1u128 << (w - 1), w);
                            let mx = self.tm.k(mask(w - 1), w);
                            self.tm.ite(neg, mn, mx)
                        }
                        _ => return Err(Stop::Err("sat".into())),
                    };
                    let r = self.tm.ite(ov, satv, lo);
                    return Ok(self.norm(r));
                }
                let (a, b) = (self.norm(lo), self.norm(ov));
                Ok(V::A(Rc::new(vec![a, b])))
            }
            "fshl" | "fshr" => {
                let (x, y, s) = (self.kterm(&av[0], w), self.kterm(&av[1], w), self.conc(st, &av[2], w)? % w as u64);
                let c = self.tm.concat(x, y);
                let sh = if b0 == "fshl" { (w as u64 - s) as u32 } else { s as u32 };
                let r = if b0 == "fshl" && s == 0 { x } else { self.tm.extract(c, sh + w - 1, sh) };
                Ok(self.norm(r))
            }
            "ucmp" | "scmp" => {
                let (lt, gt) = if b0 == "ucmp" { (Pred::Ult, Pred::Ugt) } else { (Pred::Slt, Pred::Sgt) };
                let l = self.icmp(lt, &av[0], &av[1], w);
                let g = self.icmp(gt, &av[0], &av[1], w);
                let rw = rty.width();
                let m1 = V::K(mask(rw) as u64);
                let t = self.select(st, &g, &V::K(1), &V::K(0), &Ty::Int(rw))?;
                self.select(st, &l, &m1, &t, &Ty::Int(rw))
            }
            "ptrmask" => self.bin(BinOp::And, &av[0], &av[1], 64),
            "fabs" | "ceil" | "floor" | "sqrt" | "trunc" | "log" | "round" => {
                if let V::K(x) = av[0] {
                    let f = f64::from_bits(x);
                    let r = match b0 {
                        "fabs" => f.abs(),
                        "ceil" => f.ceil(),
                        "floor" => f.floor(),
                        "sqrt" => f.sqrt(),
                        "log" => f.ln(),
                        "round" => f.round(),
                        _ => f.trunc(),
                    };
                    return Ok(V::K(r.to_bits()));
                }
                Err(Stop::Err(format!("intrinsic {}", name)))
            }
            "fptoui" | "fptosi" => {
                if let V::K(x) = av[0] {
                    let f = if args[0].0 == Ty::Float { f32::from_bits(x as u32) as f64 } else { f64::from_bits(x) };
                    let rw = rty.width();
                    let r = if b0 == "fptoui" { (f as u64).min(mask(rw) as u64) } else { (f as i64) as u64 & mask(rw) as u64 };
                    return Ok(V::K(r));
                }
                Err(Stop::Err(format!("intrinsic {}", name)))
            }
            _ => Err(Stop::Err(format!("intrinsic {}", name))),
        }
    }
}

fn fixu(v: V) -> V {
    if let V::U = v {
        V::K(0)
    } else {
        v
    }
}
fn insert(base: &V, ix: &[u32], val: V) -> V {
    if ix.is_empty() {
        return val;
    }
    match base {
        V::A(a) => {
            let mut n = (**a).clone();
            n[ix[0] as usize] = insert(&n[ix[0] as usize].clone(), &ix[1..], val);
            V::A(Rc::new(n))
        }
        _ => {
            let mut n = vec![V::U; ix[0] as usize + 1];
            n[ix[0] as usize] = insert(&V::U, &ix[1..], val);
            V::A(Rc::new(n))
        }
    }
}
impl State {
    fn none() -> State {
        State { frames: vec![], objs: vec![], free: vec![], globs: vec![], pcs: vec![], known: HashMap::new(), names: HashMap::new(), model: None, steps: 0, notes: vec![] }
    }
}
fn same_obj(a: &Option<Rc<Obj>>, b: &Option<Rc<Obj>>) -> bool {
    match (a, b) {
        (Some(a), Some(b)) => Rc::ptr_eq(a, b) || a == b,
        (None, None) => true,
        _ => false,
    }
}
/// two states after the return of a predicate that differ in its result only
fn mergeable(a: &State, b: &State, dst: usize) -> bool {
    let n = a.objs.len().max(b.objs.len());
    let none = None;
    let (fa, fb) = (a.frames.last().unwrap(), b.frames.last().unwrap());
    a.names == b.names
        && a.notes == b.notes
        && fa.blk == fb.blk
        && fa.ip == fb.ip
        && fa.prev == fb.prev
        && fa.allocas == fb.allocas
        && (0..fa.loc.len()).all(|i| i == dst || fa.loc[i] == fb.loc[i])
        && (0..n).all(|i| same_obj(a.objs.get(i).unwrap_or(&none), b.objs.get(i).unwrap_or(&none)))
        // globals are set up when first used
        && (0..a.globs.len().max(b.globs.len())).all(|i| match (a.globs.get(i).unwrap_or(&none), b.globs.get(i).unwrap_or(&none)) {
            (Some(x), None) | (None, Some(x)) => x.ro,
            (x, y) => same_obj(x, y),
        })
}
/// '*' wildcards
pub fn glob(p: &str, s: &str) -> bool {
    let parts: Vec<&str> = p.split('*').collect();
    if parts.len() == 1 {
        return p == s;
    }
    let mut i = 0;
    for (k, part) in parts.iter().enumerate() {
        if k == 0 {
            if !s.starts_with(part) {
                return false;
            }
            i = part.len();
        } else if k == parts.len() - 1 {
            return s.len() >= i + part.len() && s.ends_with(part);
        } else {
            match s[i..].find(part) {
                Some(j) => i += j + part.len(),
                None => return false,
            }
        }
    }
    true
}
