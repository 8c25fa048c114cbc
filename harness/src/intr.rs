//! Native meaning of the symbolic intrinsics, used when a counterexample is replayed.
//! The symbolic engine intercepts these functions by name and never runs these bodies.
use num_bigint_dig::{BigInt, ModInverse, Sign};
use std::collections::HashMap;
use std::cell::RefCell;

#[derive(Default)]
pub struct Replay {
    pub inputs: HashMap<String, BigInt>,
    pub ufs: HashMap<(String, Vec<u8>), Vec<u8>>,
    pub encs: HashMap<(u32, String), Vec<u8>>,
    pub decs: HashMap<(u32, u32, Vec<u8>), BigInt>,
    pub names: HashMap<String, u32>,
    pub vals: Vec<(u32, BigInt)>,
    pub failed: Vec<String>,
    pub evaluated: u64,
    pub seed: u64,
    pub random: bool,
}
thread_local! {
    pub static RP: RefCell<Replay> = RefCell::new(Replay::default());
}
const TAG: u64 = 0xF1D0 << 48;
pub fn modulus(m: u32) -> BigInt {
    let p = (BigInt::from(1) << 255usize) - BigInt::from(19);
    let l = (BigInt::from(1) << 252usize) + "27742317777372353535851937790883648493".parse::<BigInt>().unwrap();
    if m == 0 {
        p
    } else {
        l
    }
}
fn md(x: BigInt, m: &BigInt) -> BigInt {
    let r = x % m;
    if r.sign() == Sign::Minus {
        r + m
    } else {
        r
    }
}
fn put(m: u32, v: BigInt) -> u64 {
    RP.with(|r| {
        let mut r = r.borrow_mut();
        r.vals.push((m, v));
        TAG | (r.vals.len() as u64 - 1)
    })
}
fn get(h: u64) -> (u32, BigInt) {
    RP.with(|r| r.borrow().vals[(h & 0xffff_ffff_ffff) as usize].clone())
}
unsafe fn st(p: *const u8, l: usize) -> String {
    String::from_utf8_lossy(core::slice::from_raw_parts(p, l)).to_string()
}
fn fresh(base: &str) -> String {
    RP.with(|r| {
        let mut r = r.borrow_mut();
        let n = r.names.entry(base.to_string()).or_insert(0);
        *n += 1;
        if *n == 1 {
            base.to_string()
        } else {
            format!("{}#{}", base, n)
        }
    })
}
fn rnd(name: &str) -> u64 {
    let s = RP.with(|r| r.borrow().seed);
    let mut h = 0xcbf29ce484222325u64 ^ s.wrapping_mul(0x9e3779b97f4a7c15);
    for b in name.bytes() {
        h = (h ^ b as u64).wrapping_mul(0x100000001b3);
    }
    h ^= h >> 29;
    h = h.wrapping_mul(0xbf58476d1ce4e5b9);
    h ^ (h >> 32)
}
fn input(name: &str) -> Option<BigInt> {
    RP.with(|r| r.borrow().inputs.get(name).cloned())
}
fn is_random() -> bool {
    RP.with(|r| r.borrow().random)
}
pub fn le32(v: &BigInt) -> [u8; 32] {
    let (_, b) = v.to_bytes_le();
    let mut o = [0u8; 32];
    o[..b.len().min(32)].copy_from_slice(&b[..b.len().min(32)]);
    o
}

macro_rules! intr {
    ($(fn $n:ident($($a:ident : $t:ty),*) $(-> $r:ty)? $b:block)*) => {
        $(#[no_mangle] #[inline(never)] pub unsafe extern "C" fn $n($($a: $t),*) $(-> $r)? $b)*
    };
}
intr! {
    fn sym_bits(p: *const u8, l: usize, w: u32) -> u64 {
        let n = fresh(&st(p, l));
        let v = match input(&n) { Some(v) => { let b = le32(&v); u64::from_le_bytes(b[..8].try_into().unwrap()) } None => if is_random() { rnd(&n) } else { 0 } };
        if w >= 64 { v } else { v & ((1u64 << w) - 1) }
    }
    fn sym_range(p: *const u8, l: usize, lo: i64, hi: i64) -> i64 {
        let n = fresh(&st(p, l));
        match input(&n) {
            Some(v) => { let b = le32(&v); u64::from_le_bytes(b[..8].try_into().unwrap()) as i64 }
            None => if is_random() { let sp = (hi as i128 - lo as i128 + 1) as u128; (lo as i128 + (rnd(&n) as u128 % sp) as i128) as i64 } else { lo }
        }
    }
    fn sym_bytes(p: *const u8, l: usize, q: *mut u8, len: usize) {
        let n = fresh(&st(p, l));
        let s = core::slice::from_raw_parts_mut(q, len);
        for i in 0..len {
            let nm = format!("{}[{}]", n, i);
            s[i] = match input(&nm) { Some(v) => le32(&v)[0], None => if is_random() { rnd(&nm) as u8 } else { 0 } };
        }
    }
    fn sym_assume(c: bool) {
        if !c {
            println!("REPLAY-ASSUME-FAILED");
            finish();
        }
    }
    fn sym_given(c: bool) {
        if !c {
            println!("REPLAY-ASSUME-FAILED");
            finish();
        }
    }
    fn sym_check(c: bool, p: *const u8, l: usize) {
        RP.with(|r| r.borrow_mut().evaluated += 1);
        if !c {
            let n = st(p, l);
            println!("REPLAY-FAIL {}", n);
            RP.with(|r| r.borrow_mut().failed.push(n));
        }
    }
    fn sym_reach(_p: *const u8, _l: usize) {}
    fn sym_note(_p: *const u8, _l: usize) {}
    fn sym_concretize(x: u64) -> u64 { x }
    fn sym_is_symbolic() -> bool { false }
    fn sym_is_concrete(_x: u64) -> bool { true }
    fn sym_panic_ok(_b: bool) {}
    fn sym_or(a: bool, b: bool) -> bool { a | b }
    fn sym_and(a: bool, b: bool) -> bool { a & b }
    fn sym_select(c: bool, a: u64, b: u64) -> u64 { if c { a } else { b } }
    fn fld_var(m: u32, p: *const u8, l: usize) -> u64 {
        let n = fresh(&st(p, l));
        let v = match input(&n) { Some(v) => v, None => if is_random() {
            let mut x = BigInt::from(0);
            for i in 0..5 { x = (x << 60usize) + BigInt::from(rnd(&format!("{}.{}", n, i)) >> 4); }
            x } else { BigInt::from(0) } };
        let v = md(v, &modulus(m));
        put(m, v)
    }
    fn fld_nz(m: u32, p: *const u8, l: usize) -> u64 {
        let h = fld_var(m, p, l);
        if get(h).1 == BigInt::from(0) { put(m, BigInt::from(1)) } else { h }
    }
    fn fld_sq(y: u64, e: u64) { let (m, a) = get(y); let b = get(e).1; if md(&a * &a, &modulus(m)) != b { println!("REPLAY-ASSUME-FAILED"); finish(); } }
    fn fld_const(m: u32, p: *const u8) -> u64 {
        let b = core::slice::from_raw_parts(p, 32);
        put(m, md(BigInt::from_bytes_le(Sign::Plus, b), &modulus(m)))
    }
    fn fld_add(a: u64, b: u64) -> u64 { let (m, x) = get(a); let (_, y) = get(b); put(m, md(x + y, &modulus(m))) }
    fn fld_sub(a: u64, b: u64) -> u64 { let (m, x) = get(a); let (_, y) = get(b); put(m, md(x - y, &modulus(m))) }
    fn fld_mul(a: u64, b: u64) -> u64 { let (m, x) = get(a); let (_, y) = get(b); put(m, md(x * y, &modulus(m))) }
    fn fld_neg(a: u64) -> u64 { let (m, x) = get(a); put(m, md(-x, &modulus(m))) }
    fn fld_inv(a: u64) -> u64 {
        let (m, x) = get(a);
        let md_ = modulus(m);
        let v = match (&x).mod_inverse(&md_) { Some(v) => md(v, &md_), None => BigInt::from(0) };
        put(m, v)
    }
    fn fld_eq(a: u64, b: u64) -> bool { get(a).1 == get(b).1 }
    fn fld_ite(c: bool, a: u64, b: u64) -> u64 { if c { a } else { b } }
    fn fld_enc(h: u64, p: *mut u8, l: usize, tag: u32) {
        let (_, v) = get(h);
        let o = core::slice::from_raw_parts_mut(p, l);
        for x in o.iter_mut() { *x = 0; }
        if let Some(b) = RP.with(|r| r.borrow().encs.get(&(tag, v.to_string())).cloned()) {
            for (i, x) in b.iter().enumerate() { if i < l { o[i] = *x; } }
            return;
        }
        let b = le32(&v);
        for i in 0..l.min(32) { o[i] = b[i]; }
    }
    fn fld_dec(m: u32, p: *const u8, l: usize, tag: u32) -> u64 {
        let b = core::slice::from_raw_parts(p, l).to_vec();
        if let Some(v) = RP.with(|r| r.borrow().decs.get(&(m, tag, b.clone())).cloned()) { return put(m, v); }
        // an encoding chosen by the model
        let e = RP.with(|r| r.borrow().encs.iter().find(|(k, v)| k.0 == tag && **v == b).map(|(k, _)| k.1.parse::<BigInt>().unwrap()));
        if let Some(v) = e { return put(m, v); }
        put(m, md(BigInt::from_bytes_le(Sign::Plus, &b), &modulus(m)))
    }
    fn fld_parity(h: u64) -> bool { le32(&get(h).1)[0] & 1 == 1 }
    fn z_of(v: u64, w: u32, signed: bool) -> u64 {
        let x = if w >= 64 { v } else { v & ((1u64 << w) - 1) };
        let r = if signed { let s = 64 - w; BigInt::from(((x << s) as i64) >> s) } else { BigInt::from(x) };
        put(9, r)
    }
    fn z_bytes(p: *const u8, l: usize) -> u64 { put(9, BigInt::from_bytes_le(Sign::Plus, core::slice::from_raw_parts(p, l))) }
    fn z_add(a: u64, b: u64) -> u64 { put(9, get(a).1 + get(b).1) }
    fn z_sub(a: u64, b: u64) -> u64 { put(9, get(a).1 - get(b).1) }
    fn z_mul(a: u64, b: u64) -> u64 { put(9, get(a).1 * get(b).1) }
    fn z_le(a: u64, b: u64) -> bool { get(a).1 <= get(b).1 }
    fn z_eq(a: u64, b: u64) -> bool { get(a).1 == get(b).1 }
    fn z_mod(a: u64, m: u64) -> u64 { put(9, md(get(a).1, &get(m).1)) }
    fn z_mod_eq(a: u64, b: u64, m: u64) -> bool { md(get(a).1 - get(b).1, &get(m).1) == BigInt::from(0) }
    fn uf_bytes(np: *const u8, nl: usize, ip: *const u8, il: usize, op: *mut u8, ol: usize, _inj: bool) {
        let name = st(np, nl);
        let inp = if il == 0 { vec![] } else { core::slice::from_raw_parts(ip, il).to_vec() };
        let out = core::slice::from_raw_parts_mut(op, ol);
        if let Some(v) = RP.with(|r| r.borrow().ufs.get(&(name.clone(), inp.clone())).cloned()) {
            out.copy_from_slice(&v[..ol]);
            return;
        }
        // any fixed well-mixed function will do
        let mut h = 0xcbf29ce484222325u64;
        let mut h2 = 0x9ae16a3b2f90404fu64;
        for b in name.bytes().chain(inp.iter().cloned()) {
            h = (h ^ b as u64).wrapping_mul(0x100000001b3).rotate_left(17);
            h2 = (h2.rotate_left(9) ^ h).wrapping_mul(0xff51afd7ed558ccd);
        }
        for i in 0..ol {
            h2 = h2.wrapping_add(0x9e3779b97f4a7c15);
            let mut z = h2;
            z = (z ^ (z >> 30)).wrapping_mul(0xbf58476d1ce4e5b9);
            z = (z ^ (z >> 27)).wrapping_mul(0x94d049bb133111eb);
            out[i] = (z >> 56) as u8;
        }
    }
}
pub fn finish() -> ! {
    let (f, n) = RP.with(|r| (r.borrow().failed.len(), r.borrow().evaluated));
    println!("REPLAY-DONE checks={} failed={}", n, f);
    std::process::exit(if f > 0 { 1 } else { 0 });
}

// ---- safe wrappers used by the harnesses
pub fn bits(n: &str, w: u32) -> u64 {
    unsafe { sym_bits(n.as_ptr(), n.len(), w) }
}
pub fn range(n: &str, lo: i64, hi: i64) -> i64 {
    unsafe { sym_range(n.as_ptr(), n.len(), lo, hi) }
}
/// small integer chosen by the solver and then fixed on each path
pub fn choose(n: &str, lo: i64, hi: i64) -> i64 {
    unsafe { sym_concretize(sym_range(n.as_ptr(), n.len(), lo, hi) as u64) as i64 }
}
pub fn fill(n: &str, b: &mut [u8]) {
    unsafe { sym_bytes(n.as_ptr(), n.len(), b.as_mut_ptr(), b.len()) }
}
pub fn arr<const N: usize>(n: &str) -> [u8; N] {
    let mut b = [0u8; N];
    fill(n, &mut b);
    b
}
pub fn assume(c: bool) {
    unsafe { sym_assume(c) }
}
/// an assumption that is satisfiable whatever came before it, so the path stays feasible
pub fn given(c: bool) {
    unsafe { sym_given(c) }
}
pub fn check(c: bool, n: &str) {
    unsafe { sym_check(c, n.as_ptr(), n.len()) }
}
/// n followed by the decimal digits of i (the engine skips formatting)
pub fn nm(n: &str, i: usize) -> String {
    let mut s = n.to_string();
    if i >= 10 {
        s = nm(n, i / 10);
    }
    s.push((b'0' + (i % 10) as u8) as char);
    s
}
pub fn reach(n: &str) {
    unsafe { sym_reach(n.as_ptr(), n.len()) }
}
pub fn note(n: &str) {
    unsafe { sym_note(n.as_ptr(), n.len()) }
}
pub fn symbolic() -> bool {
    unsafe { sym_is_symbolic() }
}
/// whether the value is the same in every execution of this path
pub fn concrete(x: u64) -> bool {
    unsafe { sym_is_concrete(x) }
}
pub fn panic_ok(b: bool) {
    unsafe { sym_panic_ok(b) }
}
pub fn or(a: bool, b: bool) -> bool {
    unsafe { sym_or(a, b) }
}
pub fn and(a: bool, b: bool) -> bool {
    unsafe { sym_and(a, b) }
}
/// byte strings of equal length, without forking
pub fn same(a: &[u8], b: &[u8]) -> bool {
    a == b
}
/// the 255 bits are below 2^255-19, without forking
pub fn canonical_point(b: &[u8]) -> bool {
    b.len() == 32 && !and(and(b[31] & 0x7f == 0x7f, same(&b[1..31], &[0xff; 30])), b[0] >= 0xed)
}
/// a canonical encoding whose ordinate is that of one of the eight points of small order, without forking
pub fn small_order(e: &[u8]) -> bool {
    const Y: [&[u8; 32]; 5] = [
        &[0; 32], b"\x01\0\0\0\0\0\0\0\0\0\0\0\0\0\0\0\0\0\0\0\0\0\0\0\0\0\0\0\0\0\0\0",
        b"\x26\xe8\x95\x8f\xc2\xb2\x27\xb0\x45\xc3\xf4\x89\xf2\xef\x98\xf0\xd5\xdf\xac\x05\xd3\xc6\x33\x39\xb1\x38\x02\x88\x6d\x53\xfc\x05",
        b"\xc7\x17\x6a\x70\x3d\x4d\xd8\x4f\xba\x3c\x0b\x76\x0d\x10\x67\x0f\x2a\x20\x53\xfa\x2c\x39\xcc\xc6\x4e\xc7\xfd\x77\x92\xac\x03\x7a",
        b"\xec\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x7f",
    ];
    Y.iter().fold(false, |s, y| or(s, and(same(&e[..31], &y[..31]), e[31] & 0x7f == y[31])))
}
/// the 256 bits are below the group order, without forking
pub fn canonical_scalar(b: &[u8]) -> bool {
    const L: [u8; 16] = [0xed, 0xd3, 0xf5, 0x5c, 0x1a, 0x63, 0x12, 0x58, 0xd6, 0x9c, 0xf7, 0xa2, 0xde, 0xf9, 0xde, 0x14];
    if b.len() != 32 {
        return false;
    }
    let mut below = false;
    for i in 0..16 {
        below = or(b[i] < L[i], and(b[i] == L[i], below));
    }
    or(b[31] < 0x10, and(and(b[31] == 0x10, same(&b[16..31], &[0; 15])), below))
}
/// integers
#[derive(Clone, Copy)]
pub struct Z(pub u64);
impl Z {
    pub fn i(v: i64) -> Z {
        Z(unsafe { z_of(v as u64, 64, true) })
    }
    pub fn i32(v: i32) -> Z {
        Z(unsafe { z_of(v as u32 as u64, 32, true) })
    }
    pub fn u8(v: u8) -> Z {
        Z(unsafe { z_of(v as u64, 8, false) })
    }
    pub fn le(b: &[u8]) -> Z {
        Z(unsafe { z_bytes(b.as_ptr(), b.len()) })
    }
    pub fn add(self, o: Z) -> Z {
        Z(unsafe { z_add(self.0, o.0) })
    }
    pub fn sub(self, o: Z) -> Z {
        Z(unsafe { z_sub(self.0, o.0) })
    }
    pub fn mul(self, o: Z) -> Z {
        Z(unsafe { z_mul(self.0, o.0) })
    }
    pub fn lt(self, o: Z) -> bool {
        let s = self.add(Z::i(1));
        unsafe { z_le(s.0, o.0) }
    }
    pub fn le_(self, o: Z) -> bool {
        unsafe { z_le(self.0, o.0) }
    }
    pub fn eq(self, o: Z) -> bool {
        unsafe { z_eq(self.0, o.0) }
    }
    pub fn cong(self, o: Z, m: Z) -> bool {
        unsafe { z_mod_eq(self.0, o.0, m.0) }
    }
    pub fn modulo(self, m: Z) -> Z {
        Z(unsafe { z_mod(self.0, m.0) })
    }
}
pub const P_LE: [u8; 32] = [
    0xed, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff,
    0xff, 0xff, 0xff, 0xff, 0xff, 0x7f,
];
pub const L_LE: [u8; 32] = [
    0xed, 0xd3, 0xf5, 0x5c, 0x1a, 0x63, 0x12, 0x58, 0xd6, 0x9c, 0xf7, 0xa2, 0xde, 0xf9, 0xde, 0x14, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0x10,
];
pub fn zp() -> Z {
    Z::le(&P_LE)
}
pub fn zl() -> Z {
    Z::le(&L_LE)
}
/// field elements: 0 = GF(p), 1 = GF(L)
#[derive(Clone, Copy, Debug)]
pub struct F(pub u64);
impl F {
    pub fn var(m: u32, n: &str) -> F {
        F(unsafe { fld_var(m, n.as_ptr(), n.len()) })
    }
    /// a fact about a variable, also used to normalise: y^2 = e
    pub fn square_is(self, e: F) {
        unsafe { fld_sq(self.0, e.0) }
    }
    /// any invertible element
    pub fn nz(m: u32, n: &str) -> F {
        F(unsafe { fld_nz(m, n.as_ptr(), n.len()) })
    }
    pub fn k(m: u32, b: &[u8; 32]) -> F {
        F(unsafe { fld_const(m, b.as_ptr()) })
    }
    pub fn int(m: u32, v: i64) -> F {
        let mut b = [0u8; 32];
        b[..8].copy_from_slice(&v.unsigned_abs().to_le_bytes());
        let r = F::k(m, &b);
        if v < 0 {
            r.neg()
        } else {
            r
        }
    }
    pub fn add(self, o: F) -> F {
        F(unsafe { fld_add(self.0, o.0) })
    }
    pub fn sub(self, o: F) -> F {
        F(unsafe { fld_sub(self.0, o.0) })
    }
    pub fn mul(self, o: F) -> F {
        F(unsafe { fld_mul(self.0, o.0) })
    }
    pub fn neg(self) -> F {
        F(unsafe { fld_neg(self.0) })
    }
    pub fn inv(self) -> F {
        F(unsafe { fld_inv(self.0) })
    }
    pub fn eq(self, o: F) -> bool {
        unsafe { fld_eq(self.0, o.0) }
    }
    pub fn is0(self, m: u32) -> bool {
        self.eq(F::int(m, 0))
    }
    pub fn ite(c: bool, a: F, b: F) -> F {
        F(unsafe { fld_ite(c, a.0, b.0) })
    }
    pub fn parity(self) -> bool {
        unsafe { fld_parity(self.0) }
    }
}
