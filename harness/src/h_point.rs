//! Embedding data in points, picking points, text forms, order, hashing and stream encodings: a
//! point is opaque, known by its encoding. Natively nothing is replaced.
use crate::ff::{limbs, limbs_mut};
use crate::h_sig::bytes;
use crate::harness;
use crate::intr::*;
use kyber_rs::cipher::{Stream, StreamError};
use kyber_rs::encoding::{BinaryMarshaler, BinaryUnmarshaler, Marshaling};
use kyber_rs::group::edwards25519::verif::*;
use kyber_rs::group::edwards25519::{Point as P, Scalar as S};
use kyber_rs::{Point, Scalar};
use std::io::Read;

const MAGIC: i32 = 0x0F1D_ED25;
fn put(p: &mut ExtendedGroupElement, e: &[u8; 32]) {
    let f = limbs_mut(p, 0);
    for k in 0..8 {
        f[k] = i32::from_le_bytes([e[4 * k], e[4 * k + 1], e[4 * k + 2], e[4 * k + 3]]);
    }
    f[9] = MAGIC;
}
fn get(p: &ExtendedGroupElement) -> [u8; 32] {
    let f = limbs(p, 0);
    let mut e = [0u8; 32];
    if f[9] == MAGIC {
        for k in 0..8 {
            e[4 * k..4 * k + 4].copy_from_slice(&f[k].to_le_bytes());
        }
    } else {
        // the only constants are the neutral element and the generator
        let n = P::default().null();
        if f[0] == limbs(n.verif_ge(), 0)[0] {
            e[0] = 1;
        } else {
            check(f[0] == limbs(P::default().base().verif_ge(), 0)[0], "constant_is_the_generator");
            e = [0x66; 32];
            e[0] = 0x58;
        }
    }
    e
}
fn uf1(n: &str, i: &[u8]) -> u8 {
    let mut o = [0u8; 1];
    unsafe { uf_bytes(n.as_ptr(), n.len(), i.as_ptr(), i.len(), o.as_mut_ptr(), 1, false) };
    o[0]
}
/// what decoding and encoding a string gives (A05): the string itself if it is canonical, up to the
/// sign of a zero abscissa
#[no_mangle]
pub fn stub_op_set_bytes(p: &mut ExtendedGroupElement, s: &[u8]) -> bool {
    if s.len() != 32 || uf1("decodable", s) & 1 == 0 {
        return false;
    }
    let mut e = [0u8; 32];
    unsafe { uf_bytes(b"reencoded".as_ptr(), 9, s.as_ptr(), 32, e.as_mut_ptr(), 32, false) };
    let canon = canonical_point(s);
    given(or(!canon, and(same(&e[..31], &s[..31]), (e[31] ^ s[31]) & 0x7f == 0)));
    given(or(!canon, or(e[31] == s[31], uf1("abscissa_zero", s) & 1 == 1)));
    is_encoding(&e);
    put(p, &e);
    true
}
/// encodings are canonical and decode to themselves
fn is_encoding(e: &[u8; 32]) {
    let mut f = [0u8; 32];
    unsafe { uf_bytes(b"reencoded".as_ptr(), 9, e.as_ptr(), 32, f.as_mut_ptr(), 32, false) };
    given(same(&f, e));
    given(uf1("decodable", e) & 1 == 1);
    given(canonical_point(e));
}
#[no_mangle]
pub fn stub_op_write_bytes(p: &ExtendedGroupElement, s: &mut [u8; 32]) {
    *s = get(p);
}
#[no_mangle]
pub fn stub_op_mul(h: &mut ExtendedGroupElement, a: &mut [u8; 32], p: &mut ExtendedGroupElement) {
    let mut i = a.to_vec();
    i.extend_from_slice(&get(p));
    let mut o = [0u8; 32];
    unsafe { uf_bytes(b"multiple".as_ptr(), 8, i.as_ptr(), i.len(), o.as_mut_ptr(), 32, false) };
    is_encoding(&o);
    put(h, &o);
}
/// h_pt_text: equality is that of the encodings
#[no_mangle]
pub fn stub_op_eq(a: &P, b: &P) -> bool {
    same(&get(a.verif_ge()), &get(b.verif_ge()))
}

/// a stream of free blocks; natively it goes on with a generator when the recorded ones run out
struct Blocks {
    n: i64,
    max: i64,
    last: Vec<u8>,
}
impl Blocks {
    fn new(max: i64) -> Blocks {
        Blocks { n: 0, max, last: vec![] }
    }
}
impl Stream for Blocks {
    fn xor_key_stream(&mut self, d: &mut [u8], s: &[u8]) -> Result<(), StreamError> {
        if symbolic() {
            assume(self.n < self.max);
        }
        let b = if self.n < self.max {
            bytes(&nm("draw", self.n as usize), s.len())
        } else {
            let mut x = 0x9E37_79B9_7F4A_7C15u64.wrapping_mul(self.n as u64 + 1);
            (0..s.len()).map(|_| { x ^= x << 13; x ^= x >> 7; x ^= x << 17; (x >> 32) as u8 }).collect()
        };
        self.n += 1;
        for i in 0..s.len() {
            d[i] = s[i] ^ b[i];
        }
        self.last = b;
        Ok(())
    }
}
impl Read for Blocks {
    fn read(&mut self, b: &mut [u8]) -> std::io::Result<usize> {
        let n = b.len();
        self.xor_key_stream(b, &vec![0; n]).unwrap();
        Ok(n)
    }
}
fn small(n: i64) -> S {
    S::default().set_int64(n)
}
/// the group order as an unreduced scalar
fn order() -> S {
    S { v: L_LE }
}
fn null() -> P {
    P::default().null()
}
fn any_point(n: &str) -> P {
    let mut p = P::default();
    if symbolic() {
        p.unmarshal_binary(&bytes(n, 32)).map_err(|_| assume(false)).unwrap_or(());
        p
    } else {
        let mut b = bytes(n, 32);
        while p.unmarshal_binary(&b).is_err() {
            b[15] = b[15].wrapping_add(1);
        }
        p
    }
}
#[derive(Default)]
struct Rec(Vec<u8>);
impl core::hash::Hasher for Rec {
    fn finish(&self) -> u64 {
        0
    }
    fn write(&mut self, b: &[u8]) {
        self.0.extend_from_slice(b);
    }
}
pub struct Slow {
    pub data: Vec<u8>,
    pub pos: usize,
    pub step: usize,
}
impl Read for Slow {
    fn read(&mut self, b: &mut [u8]) -> std::io::Result<usize> {
        let n = b.len().min(self.step).min(self.data.len() - self.pos);
        b[..n].copy_from_slice(&self.data[self.pos..self.pos + n]);
        self.pos += n;
        Ok(n)
    }
}
pub struct Sink {
    pub got: Vec<u8>,
    pub room: usize,
    pub step: usize,
}
impl std::io::Write for Sink {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        let n = b.len().min(self.step).min(self.room - self.got.len());
        self.got.extend_from_slice(&b[..n]);
        Ok(n)
    }
    fn flush(&mut self) -> std::io::Result<()> {
        Ok(())
    }
}
fn hex_ref(b: &[u8], up: bool) -> Vec<u8> {
    let c = |d: u8| 48 + d + (d > 9) as u8 * if up { 7 } else { 39 };
    b.iter().flat_map(|x| [c(*x >> 4), c(*x & 15)]).collect()
}

harness! {
    h_embed => {
        // embedded data comes back, in a point of the prime-order subgroup
        let l = [0usize, 1, 2, 28, 29, 30, 40, 255, 256, 257, 285, 300][choose("len", 0, 11) as usize];
        let m = bytes("m", l);
        let k = l.min(29);
        let mut st = Blocks::new(3);
        let p = P::default().embed(Some(&m), &mut st);
        check(p.embed_len() == 29, "embed_length");
        match p.data() {
            Ok(d) => check(d.len() == k && same(&d, &m[..k]), "embedded_data_comes_back"),
            Err(_) => check(false, "embedded_data_is_recognised"),
        }
        check(P::default().mul(&order(), Some(&p)) == null(), "prime_order_subgroup");
        // the other bits are the stream's, the sign of a zero abscissa aside
        let e = p.marshal_binary().unwrap();
        check(same(&e[1 + k..31], &st.last[1 + k..31]), "padding_is_random");
        check((e[31] ^ st.last[31]) & 0x7f == 0, "padding_is_random");
        if st.n > 2 { reach("third_try"); }
        reach("embedded");
    }
    h_pick => {
        // a picked point is a non-neutral multiple of the cofactor of a random point
        let mut st = Blocks::new(3);
        let p = match choose("how", 0, 2) {
            0 => P::default().pick(&mut st),
            1 => P::default().embed(None, &mut st),
            _ => { let mut p = any_point("old"); p.unmarshal_from_random(&mut st); p }
        };
        check(p != null(), "never_neutral");
        let mut q = P::default();
        check(q.unmarshal_binary(&st.last).is_ok(), "a_drawn_point");
        check(p == P::default().mul(&small(8), Some(&q)), "cofactor_multiple");
        if st.n > 2 { reach("third_try"); }
        reach("picked");
    }
    h_data => {
        // what is not a valid length is not data
        let p = any_point("p");
        let e = p.marshal_binary().unwrap();
        match p.data() {
            Ok(d) => {
                check(d.len() == e[0] as usize, "length_byte");
                check(e[0] <= 29, "length_in_range");
                check(same(&d, &e[1..1 + d.len()]), "bytes_after_the_length");
                reach("data");
            }
            Err(_) => { check(e[0] > 29, "refused_only_out_of_range"); reach("no_data"); }
        }
    }
    h_pt_hash => {
        // equality and hash are those of the encoding
        use core::hash::Hash;
        // an unrelated point, or the one whose encoding has the other sign
        let p = any_point("p");
        let q = if choose("negative", 0, 1) == 0 {
            any_point("q")
        } else {
            let mut b = p.marshal_binary().unwrap();
            b[31] ^= 0x80;
            let mut q = P::default();
            q.unmarshal_binary(&b).map_err(|_| assume(false)).unwrap_or(());
            q
        };
        let (e, f) = (p.marshal_binary().unwrap(), q.marshal_binary().unwrap());
        check((p == q) == same(&e, &f), "equal_iff_same_encoding");
        let (mut h, mut i) = (Rec::default(), Rec::default());
        p.hash(&mut h);
        q.hash(&mut i);
        check(h.0.len() == i.0.len(), "hash_input_length");
        check(same(&h.0, &i.0) == same(&e, &f), "hashes_the_encoding");
        reach("compared");
    }
    h_pt_text => {
        // the text forms spell the encoding: all bytes fixed but two
        let mut b = [0u8; 32];
        for i in 0..32 {
            b[i] = (i * 37 + 11) as u8;
        }
        let i = [0, 9, 31][choose("at", 0, 2) as usize];
        let v = bytes("v", 2);
        b[i] = v[0];
        b[(i * 5 + 3) % 32] = v[1];
        let s = S { v: b };
        let mut p = P::default();
        let up = choose("case", 0, 1) == 1;
        let point = choose("point", 0, 1) == 1;
        if point {
            if symbolic() {
                let mut g = ExtendedGroupElement::default();
                put(&mut g, &b);
                p = P::verif_new(g, false);
            } else {
                while p.unmarshal_binary(&b).is_err() { b[9] = b[9].wrapping_add(1); }
                b.copy_from_slice(&p.marshal_binary().unwrap());
            }
        }
        let x = hex_ref(&b, up);
        let (t, w) = match (choose("form", 0, 2), point, up) {
            (0, true, false) => (format!("{p:x}"), x),
            (0, true, true) => (format!("{p:X}"), x),
            (0, false, false) => (format!("{s:x}"), x),
            (0, false, true) => (format!("{s:X}"), x),
            (1, true, false) => (format!("{p:#x}"), [b"0x", &x[..]].concat()),
            (1, true, true) => (format!("{p:#X}"), [b"0X", &x[..]].concat()),
            (1, false, false) => (format!("{s:#x}"), [b"0x", &x[..]].concat()),
            (1, false, true) => (format!("{s:#X}"), [b"0X", &x[..]].concat()),
            (_, true, _) => (format!("{p}"), [b"Ed25519Point(0x", &hex_ref(&b, false)[..], b")"].concat()),
            _ => (format!("{s}"), [b"Ed25519Scalar(0x", &hex_ref(&b, false)[..], b")"].concat()),
        };
        check(t.len() == w.len() && same(t.as_bytes(), &w), "text_form");
        reach("printed");
    }
    h_pt_serde => {
        // serialised points come back; whatever else is read is refused or is a curve point
        use kyber_rs::encoding::{marshal_binary, unmarshal_binary};
        let p = any_point("p");
        let b = marshal_binary(&p).unwrap();
        let mut q = P::default();
        check(unmarshal_binary(&mut q, &b).is_ok() && q == p, "serialised_point_comes_back");
        let l = match choose("len", 0, 2) { 0 => 0, 1 => b.len() - 1, _ => b.len() };
        let mut r = P::default();
        if unmarshal_binary(&mut r, &bytes("d", l)).is_ok() {
            check(l == b.len(), "nothing_shorter_is_read");
            let mut t = P::default();
            check(t.unmarshal_binary(&r.marshal_binary().unwrap()).is_ok(), "only_curve_points_are_read");
            check(t == r, "only_curve_points_are_read");
            if !symbolic() {
                check(P::default().sub(&r, &t) == null(), "only_curve_points_are_read");
            }
            reach("read");
        } else {
            reach("refused");
        }
        let s = S { v: arr("s") };
        let mut u = S::default();
        check(unmarshal_binary(&mut u, &marshal_binary(&s).unwrap()).is_ok() && u == s, "serialised_scalar_comes_back");
        reach("serialised");
    }
    h_pt_order => {
        use core::cmp::Ordering::*;
        let p = any_point("p");
        let q = if choose("same", 0, 1) == 1 { p } else { any_point("q") };
        let o = p.cmp(&q);
        check(p.partial_cmp(&q) == Some(o), "partial_order_agrees");
        check((o == Equal) == (p == q), "equal_iff_equal");
        check(q.cmp(&p) == o.reverse(), "antisymmetric");
        check((p < q) == (o == Less), "less");
        reach("compared");
    }
    h_pt_stream => {
        // stream encodings are the binary encoding, whatever the chunks
        let p = any_point("p");
        let e = p.marshal_binary().unwrap();
        check(p.marshal_size() == e.len(), "announced_size");
        let step = [1usize, 5, 32, 64][choose("step", 0, 3) as usize];
        let room = [0usize, 31, 32, 40][choose("room", 0, 3) as usize];
        let mut w = Sink { got: vec![], room, step };
        let ok = p.marshal_to(&mut w).is_ok();
        check(ok == (room >= 32), "written_or_reported");
        check(!ok || same(&w.got, &e), "writes_the_encoding");
        let l = [0usize, 31, 32, 40][choose("len", 0, 3) as usize];
        let d = bytes("d", l);
        let mut r = Slow { data: d.clone(), pos: 0, step };
        let mut q = P::default();
        let ok = q.unmarshal_from(&mut r).is_ok();
        let mut want = P::default();
        let good = l >= 32 && want.unmarshal_binary(&d[..32]).is_ok();
        check(ok == good, "read_iff_encoding");
        if ok {
            check(q == want, "reads_the_encoded_point");
            check(r.pos == 32, "consumes_one_encoding");
            reach("read");
        } else {
            reach("refused");
        }
    }
}
