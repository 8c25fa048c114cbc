//! Lazy parser for textual LLVM IR (the subset rustc emits).
use std::collections::HashMap;
use std::rc::Rc;

#[derive(Clone, Debug, PartialEq)]
pub enum Ty {
    Void,
    Int(u32),
    Ptr,
    Float,
    Double,
    Arr(u64, Rc<Ty>),
    Vec(u64, Rc<Ty>),
    Struct(Rc<Vec<Ty>>, bool),
    Label,
    Meta,
    Opaque,
}

fn align_to(x: u64, a: u64) -> u64 {
    (x + a - 1) / a * a
}

impl Ty {
    pub fn size(&self) -> u64 {
        match self {
            Ty::Int(w) => {
                let b = ((*w as u64) + 7) / 8;
                align_to(b, self.align())
            }
            Ty::Ptr | Ty::Double => 8,
            Ty::Float => 4,
            Ty::Arr(n, t) => n * t.size(),
            Ty::Vec(n, t) => {
                if let Ty::Int(1) = **t {
                    return (n + 7) / 8;
                }
                n * t.size()
            }
            Ty::Struct(fs, packed) => {
                let mut o = 0;
                let mut ma = 1;
                for f in fs.iter() {
                    if !*packed {
                        o = align_to(o, f.align());
                        ma = ma.max(f.align());
                    }
                    o += f.size();
                }
                if *packed {
                    o
                } else {
                    align_to(o, ma)
                }
            }
            _ => 0,
        }
    }
    pub fn align(&self) -> u64 {
        match self {
            Ty::Int(w) => {
                let b = ((*w as u64) + 7) / 8;
                b.next_power_of_two().min(16)
            }
            Ty::Ptr | Ty::Double => 8,
            Ty::Float => 4,
            Ty::Arr(_, t) => t.align(),
            Ty::Vec(_, _) => 16,
            Ty::Struct(fs, packed) => {
                if *packed {
                    1
                } else {
                    fs.iter().map(|f| f.align()).max().unwrap_or(1)
                }
            }
            _ => 1,
        }
    }
    pub fn field_off(&self, i: usize) -> u64 {
        match self {
            Ty::Struct(fs, packed) => {
                let mut o = 0;
                for (k, f) in fs.iter().enumerate() {
                    if !*packed {
                        o = align_to(o, f.align());
                    }
                    if k == i {
                        return o;
                    }
                    o += f.size();
                }
                panic!("field_off")
            }
            Ty::Arr(_, t) | Ty::Vec(_, t) => i as u64 * t.size(),
            _ => panic!("field_off of {:?}", self),
        }
    }
    pub fn width(&self) -> u32 {
        match self {
            Ty::Int(w) => *w,
            Ty::Ptr => 64,
            Ty::Double => 64,
            Ty::Float => 32,
            _ => 0,
        }
    }
    pub fn is_agg(&self) -> bool {
        matches!(self, Ty::Arr(..) | Ty::Vec(..) | Ty::Struct(..))
    }
}

/// constants with symbolic addresses resolved
#[derive(Clone, Debug)]
pub enum Cst {
    Int(u128, u32),
    Agg(Rc<Vec<Cst>>),
    Zero,
    Undef,
    Bytes(Rc<Vec<u8>>),
    Sym(u32, i64), // symbol id + offset
}

#[derive(Clone, Debug)]
pub enum Op {
    L(u32),
    C(Cst),
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum BinOp {
    Add,
    Sub,
    Mul,
    UDiv,
    SDiv,
    URem,
    SRem,
    Shl,
    LShr,
    AShr,
    And,
    Or,
    Xor,
    Fp(u8),
}
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Pred {
    Eq,
    Ne,
    Ugt,
    Uge,
    Ult,
    Ule,
    Sgt,
    Sge,
    Slt,
    Sle,
}
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum CastOp {
    Trunc,
    ZExt,
    SExt,
    Bit, // bitcast, inttoptr, ptrtoint (with resize)
    Fp(u8),
}
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Rmw {
    Xchg,
    Add,
    Sub,
    And,
    Or,
    Xor,
    Max,
    Min,
    UMax,
    UMin,
    Nand,
}

#[derive(Clone, Debug)]
pub enum Inst {
    Bin(BinOp, Ty, Op, Op),
    ICmp(Pred, Ty, Op, Op),
    Cast(CastOp, Ty, Op, Ty),
    Load(Ty, Op),
    Store(Ty, Op, Op),
    Alloca(u64),
    Gep(Op, i64, Vec<(Op, u32, i64)>),
    Call(Ty, Op, Vec<(Ty, Op)>, Option<u32>), // optional normal dest (invoke)
    Br(u32),
    CondBr(Op, u32, u32),
    Switch(Ty, Op, u32, Vec<(u128, u32)>),
    Ret(Ty, Option<Op>),
    Unreachable,
    Select(Op, bool, Ty, Op, Op), // bool: vector condition
    Phi(Ty, Vec<(Op, u32)>),
    ExtractValue(Op, Vec<u32>),
    InsertValue(Ty, Op, Op, Vec<u32>),
    ExtractElem(Op, Op, Ty),
    InsertElem(Ty, Op, Op, Op),
    Shuffle(Ty, Op, Op, Vec<i32>),
    AtomicRmw(Rmw, Ty, Op, Op),
    CmpXchg(Ty, Op, Op, Op),
    Nop,
    Copy(Op),
    Unsupported(String),
    Asm(String),
    FCmp(String, Ty, Op, Op),
}

pub struct Func {
    pub name: String,
    pub nargs: usize,
    pub nlocals: usize,
    pub blocks: Vec<Vec<(u32, Inst)>>, // (dst or NODST, inst)
    pub ret: Ty,
    pub block_names: Vec<String>,
}
pub const NODST: u32 = u32::MAX;

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum SymKind {
    Func,
    Decl,
    Global,
    Unknown,
    Alias(u32),
}

pub struct Sym {
    pub name: String,
    pub kind: SymKind,
    pub start: usize,
    pub end: usize,
}

pub struct Module {
    pub text: Vec<u8>,
    pub syms: Vec<Sym>,
    pub by_name: HashMap<String, u32>,
    pub types: HashMap<String, String>,
    pub type_cache: HashMap<String, Ty>,
    pub funcs: HashMap<u32, Rc<Func>>,
}

#[derive(Clone, Debug, PartialEq)]
enum Tok {
    Local(String),
    Global(String),
    Word(String),
    Int(String),
    CStr(Vec<u8>),
    P(char),
    Meta(String),
    Attr(String),
    Str(String),
}

fn lex(s: &[u8]) -> Vec<Tok> {
    let mut v = Vec::new();
    let mut i = 0;
    let idc = |c: u8| c.is_ascii_alphanumeric() || c == b'_' || c == b'.' || c == b'$' || c == b'-';
    let n = s.len();
    let name = |i: &mut usize| -> String {
        if *i < n && s[*i] == b'"' {
            let st = *i + 1;
            *i += 1;
            while s[*i] != b'"' {
                *i += 1;
            }
            let r = String::from_utf8_lossy(&s[st..*i]).to_string();
            *i += 1;
            r
        } else {
            let st = *i;
            while *i < n && idc(s[*i]) {
                *i += 1;
            }
            String::from_utf8_lossy(&s[st..*i]).to_string()
        }
    };
    while i < n {
        let c = s[i];
        match c {
            b' ' | b'\t' | b'\n' | b'\r' => i += 1,
            b';' => {
                while i < n && s[i] != b'\n' {
                    i += 1;
                }
            }
            b'%' => {
                i += 1;
                v.push(Tok::Local(name(&mut i)));
            }
            b'@' => {
                i += 1;
                v.push(Tok::Global(name(&mut i)));
            }
            b'!' => {
                i += 1;
                if i < n && s[i] == b'{' {
                    v.push(Tok::P('!'));
                } else {
                    v.push(Tok::Meta(name(&mut i)));
                }
            }
            b'#' => {
                i += 1;
                v.push(Tok::Attr(name(&mut i)));
            }
            b'"' => {
                v.push(Tok::Str(name(&mut i)));
            }
            b'c' if i + 1 < n && s[i + 1] == b'"' => {
                i += 2;
                let mut b = vec![];
                while s[i] != b'"' {
                    if s[i] == b'\\' {
                        let h = |x: u8| (x as char).to_digit(16).unwrap() as u8;
                        if s[i + 1] == b'\\' {
                            b.push(b'\\');
                            i += 2;
                        } else {
                            b.push(h(s[i + 1]) * 16 + h(s[i + 2]));
                            i += 3;
                        }
                    } else {
                        b.push(s[i]);
                        i += 1;
                    }
                }
                i += 1;
                v.push(Tok::CStr(b));
            }
            b'-' | b'0'..=b'9' => {
                let st = i;
                i += 1;
                while i < n && (s[i].is_ascii_alphanumeric() || s[i] == b'.' || s[i] == b'+' || (s[i] == b'-' && s[i - 1] == b'e')) {
                    i += 1;
                }
                v.push(Tok::Int(String::from_utf8_lossy(&s[st..i]).to_string()));
            }
            _ if c.is_ascii_alphabetic() || c == b'_' => {
                let st = i;
                while i < n && (s[i].is_ascii_alphanumeric() || s[i] == b'_' || s[i] == b'.') {
                    i += 1;
                }
                v.push(Tok::Word(String::from_utf8_lossy(&s[st..i]).to_string()));
            }
            _ => {
                v.push(Tok::P(c as char));
                i += 1;
            }
        }
    }
    v
}

struct P<'a> {
    t: Vec<Tok>,
    i: usize,
    m: &'a mut Module,
}

impl<'a> P<'a> {
    fn peek(&self) -> Option<&Tok> {
        self.t.get(self.i)
    }
    fn next(&mut self) -> Tok {
        let t = self.t[self.i].clone();
        self.i += 1;
        t
    }
    fn isp(&self, c: char) -> bool {
        matches!(self.peek(), Some(Tok::P(x)) if *x==c)
    }
    fn isw(&self, w: &str) -> bool {
        matches!(self.peek(), Some(Tok::Word(x)) if x==w)
    }
    fn eatp(&mut self, c: char) -> bool {
        if self.isp(c) {
            self.i += 1;
            true
        } else {
            false
        }
    }
    fn eatw(&mut self, w: &str) -> bool {
        if self.isw(w) {
            self.i += 1;
            true
        } else {
            false
        }
    }
    fn expp(&mut self, c: char) {
        if !self.eatp(c) {
            panic!("parse: expected {} got {:?} in {:?}", c, self.peek(), &self.t[self.i.saturating_sub(8)..(self.i + 5).min(self.t.len())]);
        }
    }
    fn ty(&mut self) -> Ty {
        let t = match self.next() {
            Tok::Word(w) => match w.as_str() {
                "void" => Ty::Void,
                "ptr" => {
                    if self.eatw("addrspace") {
                        self.expp('(');
                        self.next();
                        self.expp(')');
                    }
                    Ty::Ptr
                }
                "float" | "half" => Ty::Float,
                "double" => Ty::Double,
                "label" => Ty::Label,
                "metadata" => Ty::Meta,
                "opaque" => Ty::Opaque,
                _ if w.starts_with('i') && w[1..].parse::<u32>().is_ok() => Ty::Int(w[1..].parse().unwrap()),
                _ => panic!("type? {} {:?}", w, &self.t[self.i.saturating_sub(6)..(self.i + 5).min(self.t.len())]),
            },
            Tok::P('[') => {
                let n = self.int_u64();
                assert!(self.eatw("x"));
                let e = self.ty();
                self.expp(']');
                Ty::Arr(n, Rc::new(e))
            }
            Tok::P('<') => {
                if self.eatp('{') {
                    let fs = self.fields();
                    self.expp('>');
                    Ty::Struct(Rc::new(fs), true)
                } else {
                    let n = self.int_u64();
                    assert!(self.eatw("x"));
                    let e = self.ty();
                    self.expp('>');
                    Ty::Vec(n, Rc::new(e))
                }
            }
            Tok::P('{') => {
                let fs = self.fields();
                Ty::Struct(Rc::new(fs), false)
            }
            Tok::Local(n) => self.m.named_type(&n),
            x => panic!("type? {:?} {:?}", x, &self.t[self.i.saturating_sub(6)..(self.i + 5).min(self.t.len())]),
        };
        t
    }
    fn fields(&mut self) -> Vec<Ty> {
        let mut fs = vec![];
        if self.eatp('}') {
            return fs;
        }
        loop {
            fs.push(self.ty());
            if self.eatp('}') {
                return fs;
            }
            self.expp(',');
        }
    }
    fn int_u64(&mut self) -> u64 {
        match self.next() {
            Tok::Int(s) => s.parse::<i128>().unwrap() as u64,
            x => panic!("int? {:?}", x),
        }
    }
    /// constant of given type
    fn cst(&mut self, ty: &Ty) -> Cst {
        match self.next() {
            Tok::Int(s) => {
                if let Ty::Float | Ty::Double = ty {
                    let b = if let Some(h) = s.strip_prefix("0x") {
                        u64::from_str_radix(h, 16).unwrap_or(0)
                    } else {
                        s.parse::<f64>().unwrap_or(0.0).to_bits()
                    };
                    if let Ty::Float = ty {
                        return Cst::Int((f64::from_bits(b) as f32).to_bits() as u128, 32);
                    }
                    return Cst::Int(b as u128, 64);
                }
                let w = ty.width();
                let x: u128 = if s.starts_with('-') { s.parse::<i128>().unwrap() as u128 } else { s.parse::<u128>().unwrap() };
                let m = if w >= 128 { u128::MAX } else { (1u128 << w) - 1 };
                Cst::Int(x & m, w)
            }
            Tok::Word(w) => match w.as_str() {
                "true" => Cst::Int(1, 1),
                "false" => Cst::Int(0, 1),
                "null" => Cst::Int(0, 64),
                "zeroinitializer" => Cst::Zero,
                "undef" | "poison" => Cst::Undef,
                "none" => Cst::Undef,
                "splat" => {
                    self.expp('(');
                    let t = self.ty();
                    let c = self.cst(&t);
                    self.expp(')');
                    if let Ty::Vec(n, _) = ty {
                        Cst::Agg(Rc::new(vec![c; *n as usize]))
                    } else {
                        panic!("splat")
                    }
                }
                "getelementptr" => {
                    while matches!(self.peek(), Some(Tok::Word(_))) {
                        self.next();
                        if self.isp('(') && !matches!(self.t.get(self.i + 1), Some(Tok::Word(_)) | Some(Tok::P(_)) | Some(Tok::Local(_))) {
                            // inrange(...)
                            while !self.eatp(')') {
                                self.next();
                            }
                        }
                    }
                    self.expp('(');
                    let bt = self.ty();
                    self.expp(',');
                    self.ty();
                    let base = self.cst(&Ty::Ptr);
                    let mut idx = vec![];
                    while self.eatp(',') {
                        self.eatw("inrange");
                        let t = self.ty();
                        let c = self.cst(&t);
                        idx.push(c);
                    }
                    self.expp(')');
                    let mut off = 0i64;
                    let mut cur = bt;
                    for (k, c) in idx.iter().enumerate() {
                        let v = match c {
                            Cst::Int(x, 64) => *x as i64,
                            Cst::Int(x, 32) => *x as i32 as i64,
                            Cst::Zero => 0,
                            _ => panic!("gep const idx {:?}", c),
                        };
                        if k == 0 {
                            off += v * cur.size() as i64;
                        } else {
                            off += cur.field_off_any(v);
                            cur = cur.elem(v as usize);
                        }
                    }
                    match base {
                        Cst::Sym(s, o) => Cst::Sym(s, o + off),
                        Cst::Int(x, w) => Cst::Int((x as i64 + off) as u64 as u128, w),
                        _ => panic!("gep base"),
                    }
                }
                "inttoptr" | "ptrtoint" | "bitcast" | "trunc" | "ptrtoaddr" => {
                    self.expp('(');
                    let t = self.ty();
                    let c = self.cst(&t);
                    assert!(self.eatw("to"));
                    let tt = self.ty();
                    self.expp(')');
                    match c {
                        Cst::Int(x, _) => {
                            let w = tt.width();
                            let m = if w >= 128 { u128::MAX } else { (1u128 << w) - 1 };
                            Cst::Int(x & m, w)
                        }
                        c => c,
                    }
                }
                "blockaddress" => Cst::Undef,
                "sub" | "add" | "xor" => {
                    while matches!(self.peek(), Some(Tok::Word(_))) {
                        self.next();
                    }
                    self.expp('(');
                    let t = self.ty();
                    let a = self.cst(&t);
                    self.expp(',');
                    let t2 = self.ty();
                    let b = self.cst(&t2);
                    self.expp(')');
                    match (w.as_str(), a, b) {
                        ("sub", Cst::Sym(a, o), Cst::Sym(b, p)) if a == b => Cst::Int((o - p) as u64 as u128, 64),
                        ("add", Cst::Sym(a, o), Cst::Int(k, _)) => Cst::Sym(a, o + k as i64),
                        ("sub", Cst::Sym(a, o), Cst::Int(k, _)) => Cst::Sym(a, o - k as i64),
                        _ => Cst::Undef,
                    }
                }
                _ => panic!("cst word {}", w),
            },
            Tok::Global(g) => {
                let id = self.m.intern(&g);
                Cst::Sym(id, 0)
            }
            Tok::CStr(b) => Cst::Bytes(Rc::new(b)),
            Tok::P('[') => {
                let mut v = vec![];
                if self.eatp(']') {
                    return Cst::Agg(Rc::new(v));
                }
                loop {
                    let t = self.ty();
                    v.push(self.cst(&t));
                    if self.eatp(']') {
                        return Cst::Agg(Rc::new(v));
                    }
                    self.expp(',');
                }
            }
            Tok::P('{') => {
                let mut v = vec![];
                if self.eatp('}') {
                    return Cst::Agg(Rc::new(v));
                }
                loop {
                    let t = self.ty();
                    v.push(self.cst(&t));
                    if self.eatp('}') {
                        return Cst::Agg(Rc::new(v));
                    }
                    self.expp(',');
                }
            }
            Tok::P('<') => {
                if self.eatp('{') {
                    let mut v = vec![];
                    if self.eatp('}') {
                        self.expp('>');
                        return Cst::Agg(Rc::new(v));
                    }
                    loop {
                        let t = self.ty();
                        v.push(self.cst(&t));
                        if self.eatp('}') {
                            self.expp('>');
                            return Cst::Agg(Rc::new(v));
                        }
                        self.expp(',');
                    }
                } else {
                    let mut v = vec![];
                    loop {
                        let t = self.ty();
                        v.push(self.cst(&t));
                        if self.eatp('>') {
                            return Cst::Agg(Rc::new(v));
                        }
                        self.expp(',');
                    }
                }
            }
            x => panic!("cst? {:?} near {:?}", x, &self.t[self.i.saturating_sub(8)..(self.i + 5).min(self.t.len())]),
        }
    }
}

impl Ty {
    pub fn elem(&self, i: usize) -> Ty {
        match self {
            Ty::Struct(f, _) => f[i].clone(),
            Ty::Arr(_, t) | Ty::Vec(_, t) => (**t).clone(),
            Ty::Void => Ty::Void,
            _ => panic!("elem"),
        }
    }
    pub fn field_off_any(&self, v: i64) -> i64 {
        match self {
            Ty::Struct(..) => self.field_off(v as usize) as i64,
            Ty::Arr(_, t) | Ty::Vec(_, t) => v * t.size() as i64,
            _ => panic!("gep into {:?}", self),
        }
    }
}

struct Fp<'a> {
    p: P<'a>,
    locals: HashMap<String, u32>,
    blocks: HashMap<String, u32>,
}
impl<'a> Fp<'a> {
    fn local(&mut self, n: &str) -> u32 {
        let k = self.locals.len() as u32;
        *self.locals.entry(n.to_string()).or_insert(k)
    }
    fn block(&mut self, n: &str) -> u32 {
        match self.blocks.get(n) {
            Some(b) => *b,
            None => panic!("unknown block {}", n),
        }
    }
    fn op(&mut self, ty: &Ty) -> Op {
        if let Some(Tok::Local(n)) = self.p.peek().cloned() {
            self.p.i += 1;
            let l = self.local(&n);
            return Op::L(l);
        }
        if self.p.eatw("asm") {
            while self.p.eatw("sideeffect") || self.p.eatw("inteldialect") || self.p.eatw("alignstack") || self.p.eatw("unwind") {}
            let s = match self.p.next() {
                Tok::Str(s) => s,
                x => panic!("asm {:?}", x),
            };
            self.p.eatp(',');
            self.p.next();
            let _ = s;
            return Op::C(Cst::Undef);
        }
        Op::C(self.p.cst(ty))
    }
    fn tyop(&mut self) -> (Ty, Op) {
        let t = self.p.ty();
        self.param_attrs();
        let o = self.op(&t);
        (t, o)
    }
    fn param_attrs(&mut self) {
        loop {
            match self.p.peek() {
                Some(Tok::Word(w)) => {
                    if matches!(
                        w.as_str(),
                        "true" | "false" | "null" | "zeroinitializer" | "undef" | "poison" | "getelementptr" | "inttoptr" | "ptrtoint" | "bitcast" | "none" | "splat" | "asm" | "blockaddress" | "sub" | "add" | "xor" | "trunc" | "ptrtoaddr"
                    ) {
                        return;
                    }
                    self.p.i += 1;
                    if w_align(&self.p.t[self.p.i - 1]) {
                        if let Some(Tok::Int(_)) = self.p.peek() {
                            self.p.i += 1;
                        }
                    }
                    if self.p.isp('(') {
                        self.skip_parens();
                    }
                }
                Some(Tok::Str(_)) => {
                    self.p.i += 1;
                    if self.p.isp('=') {
                        self.p.i += 2;
                    }
                }
                _ => return,
            }
        }
    }
    fn skip_parens(&mut self) {
        let mut d = 0;
        loop {
            match self.p.next() {
                Tok::P('(') => d += 1,
                Tok::P(')') => {
                    d -= 1;
                    if d == 0 {
                        return;
                    }
                }
                _ => {}
            }
        }
    }
    fn label(&mut self) -> u32 {
        assert!(self.p.eatw("label"));
        match self.p.next() {
            Tok::Local(n) => self.block(&n),
            x => panic!("label {:?}", x),
        }
    }
    fn skip_words(&mut self) {
        while let Some(Tok::Word(w)) = self.p.peek() {
            if is_type_word(w) {
                return;
            }
            self.p.i += 1;
            if self.p.isp('(') {
                self.skip_parens();
            }
        }
    }
}
fn w_align(t: &Tok) -> bool {
    matches!(t, Tok::Word(w) if w=="align")
}
fn is_type_word(w: &str) -> bool {
    matches!(w, "void" | "ptr" | "float" | "double" | "half" | "label" | "metadata") || (w.starts_with('i') && w.len() > 1 && w[1..].bytes().all(|c| c.is_ascii_digit()))
}

impl Module {
    pub fn load(path: &str) -> Module {
        let text = std::fs::read(path).unwrap_or_else(|e| {
            eprintln!("cannot read {}: {}", path, e);
            std::process::exit(3)
        });
        let mut m = Module { text: vec![], syms: vec![], by_name: HashMap::new(), types: HashMap::new(), type_cache: HashMap::new(), funcs: HashMap::new() };
        let mut i = 0;
        let n = text.len();
        let getname = |l: &[u8], at: usize| -> String {
            let mut j = at;
            if l[j] == b'"' {
                j += 1;
                let s = j;
                while l[j] != b'"' {
                    j += 1;
                }
                String::from_utf8_lossy(&l[s..j]).to_string()
            } else {
                let s = j;
                while j < l.len() && (l[j].is_ascii_alphanumeric() || matches!(l[j], b'_' | b'.' | b'$' | b'-')) {
                    j += 1;
                }
                String::from_utf8_lossy(&l[s..j]).to_string()
            }
        };
        while i < n {
            let e = text[i..].iter().position(|c| *c == b'\n').map(|x| i + x).unwrap_or(n);
            let l = &text[i..e];
            if l.starts_with(b"define") {
                let at = l.iter().position(|c| *c == b'@').unwrap() + 1;
                let nm = getname(l, at);
                // find end
                let mut j = e + 1;
                loop {
                    let e2 = text[j..].iter().position(|c| *c == b'\n').map(|x| j + x).unwrap_or(n);
                    if &text[j..e2] == b"}" {
                        j = e2;
                        break;
                    }
                    j = e2 + 1;
                }
                let id = m.intern(&nm);
                m.syms[id as usize].kind = SymKind::Func;
                m.syms[id as usize].start = i;
                m.syms[id as usize].end = j;
                i = j + 1;
                continue;
            } else if l.starts_with(b"declare") {
                if let Some(p) = l.iter().position(|c| *c == b'@') {
                    let nm = getname(l, p + 1);
                    let id = m.intern(&nm);
                    if m.syms[id as usize].kind == SymKind::Unknown {
                        m.syms[id as usize].kind = SymKind::Decl;
                    }
                }
            } else if l.starts_with(b"@") {
                let nm = getname(l, 1);
                let id = m.intern(&nm);
                let s = String::from_utf8_lossy(&l[..l.len().min(300 + nm.len())]).to_string();
                if s.contains(" alias ") && !s.contains(" constant ") && !s.contains(" global ") {
                    // @a = alias ty, ptr @b
                    let full = String::from_utf8_lossy(l).to_string();
                    let tgt = full.rfind('@').unwrap();
                    let t = getname(l, tgt + 1);
                    let tid = m.intern(&t);
                    m.syms[id as usize].kind = SymKind::Alias(tid);
                } else {
                    m.syms[id as usize].kind = SymKind::Global;
                    m.syms[id as usize].start = i;
                    m.syms[id as usize].end = e;
                }
            } else if l.starts_with(b"%") {
                let nm = getname(l, 1);
                if let Some(p) = l.windows(8).position(|w| w == b" = type ") {
                    m.types.insert(nm, String::from_utf8_lossy(&l[p + 8..]).to_string());
                }
            }
            i = e + 1;
        }
        m.text = text;
        m
    }
    pub fn intern(&mut self, n: &str) -> u32 {
        if let Some(i) = self.by_name.get(n) {
            return *i;
        }
        let id = self.syms.len() as u32;
        self.syms.push(Sym { name: n.to_string(), kind: SymKind::Unknown, start: 0, end: 0 });
        self.by_name.insert(n.to_string(), id);
        id
    }
    fn named_type(&mut self, n: &str) -> Ty {
        if let Some(t) = self.type_cache.get(n) {
            return t.clone();
        }
        let s = self.types.get(n).cloned().unwrap_or_else(|| panic!("named type {}", n));
        let t = lex(s.as_bytes());
        let mut p = P { t, i: 0, m: self };
        let ty = p.ty();
        self.type_cache.insert(n.to_string(), ty.clone());
        ty
    }
    /// returns (type, initializer)
    pub fn global(&mut self, id: u32) -> Option<(Ty, Option<Cst>)> {
        let s = &self.syms[id as usize];
        if s.kind != SymKind::Global {
            return None;
        }
        let line = self.text[s.start..s.end].to_vec();
        let t = lex(&line);
        let mut p = P { t, i: 0, m: self };
        p.next();
        p.expp('=');
        let mut external = false;
        loop {
            match p.next() {
                Tok::Word(w) => {
                    if w == "external" || w == "extern_weak" {
                        external = true;
                    }
                    if w == "constant" || w == "global" {
                        break;
                    }
                    if p.isp('(') {
                        while !p.eatp(')') {
                            p.next();
                        }
                    }
                }
                x => panic!("global {:?}", x),
            }
        }
        let ty = p.ty();
        let init = if external { None } else { Some(p.cst(&ty)) };
        Some((ty, init))
    }
    pub fn func(&mut self, id: u32) -> Option<Rc<Func>> {
        if let Some(f) = self.funcs.get(&id) {
            return Some(f.clone());
        }
        let s = &self.syms[id as usize];
        if s.kind != SymKind::Func {
            return None;
        }
        let body = self.text[s.start..s.end].to_vec();
        let name = s.name.clone();
        let f = Rc::new(self.parse_func(&name, &body));
        self.funcs.insert(id, f.clone());
        Some(f)
    }
    fn parse_func(&mut self, name: &str, body: &[u8]) -> Func {
        let mut lines: Vec<&[u8]> = body.split(|c| *c == b'\n').collect();
        let hdr = lines.remove(0);
        let mut fp = Fp { p: P { t: lex(hdr), i: 0, m: self }, locals: HashMap::new(), blocks: HashMap::new() };
        // header: define [attrs] retty @name(args)
        fp.p.next();
        loop {
            match fp.p.peek() {
                Some(Tok::Word(w)) if !is_type_word(w) => {
                    let al = w == "align";
                    fp.p.i += 1;
                    if al {
                        fp.p.i += 1;
                    } else if fp.p.isp('(') {
                        fp.skip_parens();
                    }
                }
                _ => break,
            }
        }
        let ret = fp.p.ty();
        fp.p.next(); // name
        fp.p.expp('(');
        let mut nargs = 0;
        let mut unnamed = 0;
        if !fp.p.eatp(')') {
            loop {
                if fp.p.eatp('.') {
                    fp.p.eatp('.');
                    fp.p.eatp('.');
                } else if matches!(fp.p.peek(), Some(Tok::P('.'))) {
                    fp.p.i += 1;
                } else {
                    fp.p.ty();
                    fp.param_attrs();
                    if let Some(Tok::Local(n)) = fp.p.peek().cloned() {
                        fp.p.i += 1;
                        if n.parse::<u64>().is_ok() {
                            unnamed += 1;
                        }
                        fp.local(&n);
                    } else {
                        let nm = format!("{}", unnamed);
                        unnamed += 1;
                        fp.local(&nm);
                    }
                    nargs += 1;
                }
                if fp.p.eatp(')') {
                    break;
                }
                fp.p.expp(',');
            }
        }
        // blocks: join multi-line switch / invoke
        let mut blocks: Vec<Vec<Vec<u8>>> = vec![];
        let mut names: Vec<String> = vec![];
        let mut k = 0;
        while k < lines.len() {
            let l = lines[k];
            if l.is_empty() || l[0] == b';' || l[0] == b'}' {
                k += 1;
                continue;
            }
            if l[0] != b' ' {
                // label
                let s = String::from_utf8_lossy(l).to_string();
                let nm = if s.starts_with('"') { s[1..s[1..].find('"').unwrap() + 1].to_string() } else { s[..s.find(":").unwrap_or_else(|| panic!("bad label line {:?}", s))].to_string() };
                names.push(nm);
                blocks.push(vec![]);
                k += 1;
                continue;
            }
            if blocks.is_empty() {
                names.push(format!("{}", unnamed));
                blocks.push(vec![]);
            }
            if l.starts_with(b"  #dbg") {
                k += 1;
                continue;
            }
            let mut full = l.to_vec();
            if full.windows(7).any(|w| w == b" switch") || l.starts_with(b"  switch") {
                if !full.contains(&b']') {
                    loop {
                        k += 1;
                        full.push(b' ');
                        full.extend_from_slice(lines[k]);
                        if lines[k].contains(&b']') {
                            break;
                        }
                    }
                }
            } else {
                // invoke / landingpad continuation lines begin with >= 10 spaces
                while k + 1 < lines.len() && lines[k + 1].starts_with(b"          ") {
                    k += 1;
                    full.push(b' ');
                    full.extend_from_slice(lines[k]);
                }
            }
            blocks.last_mut().unwrap().push(full);
            k += 1;
        }
        for (i, n) in names.iter().enumerate() {
            fp.blocks.insert(n.clone(), i as u32);
        }
        let mut out = vec![];
        for b in &blocks {
            let mut v = vec![];
            for l in b {
                fp.p.t = lex(l);
                fp.p.i = 0;
                v.push(fp.inst());
            }
            out.push(v);
        }
        let nlocals = fp.locals.len();
        Func { name: name.to_string(), nargs, nlocals, blocks: out, ret, block_names: names }
    }
}

impl<'a> Fp<'a> {
    fn inst(&mut self) -> (u32, Inst) {
        let mut dst = NODST;
        if let Some(Tok::Local(n)) = self.p.peek().cloned() {
            self.p.i += 1;
            self.p.expp('=');
            dst = self.local(&n);
        }
        let w = match self.p.next() {
            Tok::Word(w) => w,
            x => panic!("inst {:?}", x),
        };
        let bin = |o| Some(o);
        let b = match w.as_str() {
            "add" => bin(BinOp::Add),
            "sub" => bin(BinOp::Sub),
            "mul" => bin(BinOp::Mul),
            "udiv" => bin(BinOp::UDiv),
            "sdiv" => bin(BinOp::SDiv),
            "urem" => bin(BinOp::URem),
            "srem" => bin(BinOp::SRem),
            "shl" => bin(BinOp::Shl),
            "lshr" => bin(BinOp::LShr),
            "ashr" => bin(BinOp::AShr),
            "and" => bin(BinOp::And),
            "or" => bin(BinOp::Or),
            "xor" => bin(BinOp::Xor),
            "fadd" => bin(BinOp::Fp(0)),
            "fsub" => bin(BinOp::Fp(1)),
            "fmul" => bin(BinOp::Fp(2)),
            "fdiv" => bin(BinOp::Fp(3)),
            _ => None,
        };
        if let Some(b) = b {
            self.skip_words();
            let t = self.p.ty();
            let x = self.op(&t);
            self.p.expp(',');
            let y = self.op(&t);
            return (dst, Inst::Bin(b, t, x, y));
        }
        let cast = match w.as_str() {
            "trunc" => Some(CastOp::Trunc),
            "zext" => Some(CastOp::ZExt),
            "sext" => Some(CastOp::SExt),
            "bitcast" | "inttoptr" | "ptrtoint" | "addrspacecast" | "ptrtoaddr" => Some(CastOp::Bit),
            "uitofp" => Some(CastOp::Fp(0)),
            "sitofp" => Some(CastOp::Fp(1)),
            "fptoui" => Some(CastOp::Fp(2)),
            "fptosi" => Some(CastOp::Fp(3)),
            "fpext" => Some(CastOp::Fp(4)),
            "fptrunc" => Some(CastOp::Fp(5)),
            _ => None,
        };
        if let Some(c) = cast {
            self.skip_words();
            let (t, x) = self.tyop();
            assert!(self.p.eatw("to"));
            let tt = self.p.ty();
            return (dst, Inst::Cast(c, t, x, tt));
        }
        let i = match w.as_str() {
            "icmp" => {
                let mut pr = None;
                while pr.is_none() {
                    pr = match self.p.next() {
                        Tok::Word(w) => match w.as_str() {
                            "eq" => Some(Pred::Eq),
                            "ne" => Some(Pred::Ne),
                            "ugt" => Some(Pred::Ugt),
                            "uge" => Some(Pred::Uge),
                            "ult" => Some(Pred::Ult),
                            "ule" => Some(Pred::Ule),
                            "sgt" => Some(Pred::Sgt),
                            "sge" => Some(Pred::Sge),
                            "slt" => Some(Pred::Slt),
                            "sle" => Some(Pred::Sle),
                            _ => None,
                        },
                        x => panic!("icmp {:?}", x),
                    };
                }
                let t = self.p.ty();
                let x = self.op(&t);
                self.p.expp(',');
                let y = self.op(&t);
                Inst::ICmp(pr.unwrap(), t, x, y)
            }
            "fcmp" => {
                let mut nm = String::new();
                while let Some(Tok::Word(w)) = self.p.peek() {
                    if is_type_word(w) {
                        break;
                    }
                    nm = w.clone();
                    self.p.i += 1;
                }
                let t = self.p.ty();
                let x = self.op(&t);
                self.p.expp(',');
                let y = self.op(&t);
                Inst::FCmp(nm, t, x, y)
            }
            "load" => {
                self.skip_words();
                let t = self.p.ty();
                self.p.expp(',');
                let (_, x) = self.tyop();
                Inst::Load(t, x)
            }
            "store" => {
                self.skip_words();
                let (t, v) = self.tyop();
                self.p.expp(',');
                let (_, x) = self.tyop();
                Inst::Store(t, v, x)
            }
            "alloca" => {
                self.skip_words();
                let t = self.p.ty();
                let mut n = 1;
                if self.p.eatp(',') && !self.p.isw("align") {
                    let it = self.p.ty();
                    if let Op::C(Cst::Int(k, _)) = self.op(&it) {
                        n = k as u64
                    } else {
                        return (dst, Inst::Unsupported("dynamic alloca".into()));
                    }
                }
                Inst::Alloca(t.size() * n)
            }
            "getelementptr" => {
                self.skip_words();
                let mut cur = self.p.ty();
                self.p.expp(',');
                let (_, base) = self.tyop();
                let mut off = 0i64;
                let mut dyns = vec![];
                let mut k = 0;
                while self.p.eatp(',') {
                    if matches!(self.p.peek(), Some(Tok::Meta(_))) {
                        break;
                    }
                    let (t, o) = self.tyop();
                    let scale = |c: &Ty, k: usize| -> i64 {
                        if k == 0 {
                            c.size() as i64
                        } else {
                            match c {
                                Ty::Arr(_, e) | Ty::Vec(_, e) => e.size() as i64,
                                _ => 0,
                            }
                        }
                    };
                    let cv = match &o {
                        Op::C(Cst::Int(x, w)) => {
                            let x = *x;
                            Some(if *w == 32 {
                                x as u32 as i32 as i64
                            } else if *w == 16 {
                                x as u16 as i16 as i64
                            } else if *w == 8 {
                                x as u8 as i8 as i64
                            } else {
                                x as u64 as i64
                            })
                        }
                        Op::C(Cst::Zero) => Some(0),
                        _ => None,
                    };
                    match cv {
                        Some(v) => {
                            if k == 0 {
                                off += v * cur.size() as i64;
                            } else {
                                off += cur.field_off_any(v);
                                cur = cur.elem(v as usize);
                            }
                        }
                        None => {
                            let s = scale(&cur, k);
                            dyns.push((o, t.width(), s));
                            if k > 0 {
                                cur = cur.elem(0);
                            }
                        }
                    }
                    k += 1;
                }
                Inst::Gep(base, off, dyns)
            }
            "call" | "tail" | "musttail" | "notail" | "invoke" => {
                let inv = w == "invoke";
                if w == "tail" || w == "musttail" || w == "notail" {
                    self.p.next();
                }
                // cc, ret attrs
                loop {
                    match self.p.peek() {
                        Some(Tok::Word(w)) if !is_type_word(w) => {
                            let al = w == "align";
                            self.p.i += 1;
                            if al {
                                self.p.i += 1;
                            } else if self.p.isp('(') {
                                self.skip_parens();
                            }
                        }
                        _ => break,
                    }
                }
                let ret = self.p.ty();
                // optional function type "(...)": for varargs
                if self.p.isp('(') {
                    self.skip_parens();
                }
                if self.p.isw("asm") {
                    let mut s = String::new();
                    self.p.next();
                    while let Some(t) = self.p.peek().cloned() {
                        if let Tok::Str(x) = t {
                            s = x;
                            break;
                        }
                        self.p.i += 1;
                    }
                    return (dst, Inst::Asm(s));
                }
                let callee = self.op(&Ty::Ptr);
                self.p.expp('(');
                let mut args = vec![];
                if !self.p.eatp(')') {
                    loop {
                        let t = self.p.ty();
                        if t == Ty::Meta {
                            // skip until , or )
                            let mut d = 0;
                            loop {
                                match self.p.peek() {
                                    Some(Tok::P('(')) => {
                                        d += 1;
                                        self.p.i += 1
                                    }
                                    Some(Tok::P(')')) => {
                                        if d == 0 {
                                            break;
                                        }
                                        d -= 1;
                                        self.p.i += 1
                                    }
                                    Some(Tok::P(',')) if d == 0 => break,
                                    _ => self.p.i += 1,
                                }
                            }
                        } else {
                            self.param_attrs();
                            let o = self.op(&t);
                            args.push((t, o));
                        }
                        if self.p.eatp(')') {
                            break;
                        }
                        self.p.expp(',');
                    }
                }
                let mut nd = None;
                if inv {
                    while !self.p.isw("to") {
                        self.p.i += 1;
                    }
                    self.p.i += 1;
                    nd = Some(self.label());
                }
                Inst::Call(ret, callee, args, nd)
            }
            "br" => {
                if self.p.isw("label") {
                    Inst::Br(self.label())
                } else {
                    let (_, c) = self.tyop();
                    self.p.expp(',');
                    let a = self.label();
                    self.p.expp(',');
                    let b = self.label();
                    Inst::CondBr(c, a, b)
                }
            }
            "switch" => {
                let (t, o) = self.tyop();
                self.p.expp(',');
                let d = self.label();
                self.p.expp('[');
                let mut v = vec![];
                while !self.p.eatp(']') {
                    let t2 = self.p.ty();
                    let c = self.p.cst(&t2);
                    let x = match c {
                        Cst::Int(x, _) => x,
                        Cst::Zero => 0,
                        _ => panic!("switch const"),
                    };
                    self.p.expp(',');
                    let l = self.label();
                    v.push((x, l));
                }
                Inst::Switch(t, o, d, v)
            }
            "ret" => {
                let t = self.p.ty();
                if t == Ty::Void {
                    Inst::Ret(t, None)
                } else {
                    let o = self.op(&t);
                    Inst::Ret(t, Some(o))
                }
            }
            "unreachable" => Inst::Unreachable,
            "resume" => Inst::Unreachable,
            "landingpad" | "cleanuppad" | "catchpad" => Inst::Unsupported("landingpad".into()),
            "select" => {
                self.skip_words();
                let (ct, c) = self.tyop();
                self.p.expp(',');
                let (t, a) = self.tyop();
                self.p.expp(',');
                let (_, b) = self.tyop();
                Inst::Select(c, ct.is_agg(), t, a, b)
            }
            "phi" => {
                self.skip_words();
                let t = self.p.ty();
                let mut v = vec![];
                loop {
                    self.p.expp('[');
                    let o = self.op(&t);
                    self.p.expp(',');
                    let l = match self.p.next() {
                        Tok::Local(n) => self.block(&n),
                        x => panic!("phi {:?}", x),
                    };
                    self.p.expp(']');
                    v.push((o, l));
                    if !(self.p.eatp(',') && self.p.isp('[')) {
                        break;
                    }
                }
                Inst::Phi(t, v)
            }
            "extractvalue" => {
                let (_, o) = self.tyop();
                let mut ix = vec![];
                while self.p.eatp(',') {
                    if let Some(Tok::Int(_)) = self.p.peek() {
                        ix.push(self.p.int_u64() as u32)
                    } else {
                        break;
                    }
                }
                Inst::ExtractValue(o, ix)
            }
            "insertvalue" => {
                let (t, o) = self.tyop();
                self.p.expp(',');
                let (_, v) = self.tyop();
                let mut ix = vec![];
                while self.p.eatp(',') {
                    if let Some(Tok::Int(_)) = self.p.peek() {
                        ix.push(self.p.int_u64() as u32)
                    } else {
                        break;
                    }
                }
                Inst::InsertValue(t, o, v, ix)
            }
            "extractelement" => {
                let (t, o) = self.tyop();
                self.p.expp(',');
                let (_, ix) = self.tyop();
                Inst::ExtractElem(o, ix, t)
            }
            "insertelement" => {
                let (t, o) = self.tyop();
                self.p.expp(',');
                let (_, v) = self.tyop();
                self.p.expp(',');
                let (_, ix) = self.tyop();
                Inst::InsertElem(t, o, v, ix)
            }
            "shufflevector" => {
                let (t, a) = self.tyop();
                self.p.expp(',');
                let (_, b) = self.tyop();
                self.p.expp(',');
                let mt = self.p.ty();
                let c = self.p.cst(&mt);
                let n = if let Ty::Vec(n, _) = mt { n as usize } else { 0 };
                let mask: Vec<i32> = match c {
                    Cst::Zero => vec![0; n],
                    Cst::Undef => vec![-1; n],
                    Cst::Agg(v) => v
                        .iter()
                        .map(|x| match x {
                            Cst::Int(k, _) => *k as i32,
                            _ => -1,
                        })
                        .collect(),
                    _ => panic!("shuffle mask"),
                };
                Inst::Shuffle(t, a, b, mask)
            }
            "atomicrmw" => {
                self.p.eatw("volatile");
                let o = match self.p.next() {
                    Tok::Word(w) => w,
                    x => panic!("{:?}", x),
                };
                let r = match o.as_str() {
                    "xchg" => Rmw::Xchg,
                    "add" => Rmw::Add,
                    "sub" => Rmw::Sub,
                    "and" => Rmw::And,
                    "or" => Rmw::Or,
                    "xor" => Rmw::Xor,
                    "max" => Rmw::Max,
                    "min" => Rmw::Min,
                    "umax" => Rmw::UMax,
                    "umin" => Rmw::UMin,
                    "nand" => Rmw::Nand,
                    _ => return (dst, Inst::Unsupported(o)),
                };
                let (_, p) = self.tyop();
                self.p.expp(',');
                let (t, v) = self.tyop();
                Inst::AtomicRmw(r, t, p, v)
            }
            "cmpxchg" => {
                self.skip_words_until_ptr();
                let (_, p) = self.tyop();
                self.p.expp(',');
                let (t, c) = self.tyop();
                self.p.expp(',');
                let (_, n) = self.tyop();
                Inst::CmpXchg(t, p, c, n)
            }
            "fence" => Inst::Nop,
            "freeze" => {
                let (_, o) = self.tyop();
                Inst::Copy(o)
            }
            "fneg" => Inst::Unsupported("fneg".into()),
            _ => Inst::Unsupported(w),
        };
        (dst, i)
    }
    fn skip_words_until_ptr(&mut self) {
        while !self.p.isw("ptr") {
            self.p.i += 1;
        }
    }
}
