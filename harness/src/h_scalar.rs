//! Scalars modulo the group order: conversions, inversion.
use crate::bn::*;
use crate::h_ge::lt_bytes;
use crate::h_point::{Sink, Slow};
use crate::harness;
use crate::intr::*;
use kyber_rs::cipher::{Stream, StreamError};
use kyber_rs::encoding::{BinaryMarshaler, BinaryUnmarshaler, Marshaling};
use kyber_rs::group::edwards25519::Scalar;
use kyber_rs::group::{Scalar as _, ScalarCanCheckCanonical};
use num_bigint_dig::BigInt;

pub struct Draws {
    pub n: usize,
    pub last: Vec<u8>,
    pub max: usize,
}
impl Stream for Draws {
    fn xor_key_stream(&mut self, dst: &mut [u8], src: &[u8]) -> Result<(), StreamError> {
        self.n += 1;
        assume(self.n <= self.max);
        let mut b = vec![0u8; src.len()];
        fill("rng", &mut b);
        self.last = b.clone();
        for i in 0..src.len() {
            dst[i] = src[i] ^ b[i];
        }
        Ok(())
    }
}
fn raw(h: F) -> [u8; 32] {
    let mut b = [0u8; 32];
    b[..8].copy_from_slice(&h.0.to_le_bytes());
    b
}
fn val(b: &[u8; 32]) -> F {
    let mut h = [0u8; 8];
    h.copy_from_slice(&b[..8]);
    let h = u64::from_le_bytes(h);
    if symbolic() && h >> 48 == 0xF1D0 {
        F(h)
    } else {
        F::k(1, b)
    }
}
#[no_mangle]
pub fn stub_sc_mul(s: &mut [u8; 32], a: &[u8; 32], b: &[u8; 32]) {
    *s = raw(val(a).mul(val(b)));
}
fn mk(v: F) -> Scalar {
    if symbolic() {
        Scalar { v: raw(v) }
    } else {
        let mut b = [0u8; 32];
        unsafe { fld_enc(v.0, b.as_mut_ptr(), 32, 0) }
        Scalar { v: b }
    }
}
/// writing to a sink with little room, in chunks
pub fn stream<T: Marshaling>(s: &T, e: &[u8]) {
    let n = e.len();
    let step = [1usize, 5, 64][choose("step", 0, 2) as usize];
    let room = [0usize, n - 1, n, n + 8][choose("room", 0, 3) as usize];
    let mut w = Sink { got: vec![], room, step };
    let ok = s.marshal_to(&mut w).is_ok();
    check(ok == (room >= n), "written_or_reported");
    check(!ok || same(&w.got, e), "writes_the_encoding");
}
fn exact(s: &Scalar, v: Z, w: &str) {
    let z = Z::le(&s.v);
    check(and(z.cong(v, zl()), z.lt(zl())), w);
}

harness! {
    h_sc_inv => {
        // sc_mul is the product modulo the order (h_sc_mul); inversion is then a power
        let (a, b) = (F::nz(1, "a"), F::var(1, "b"));
        let r = mk(F::var(1, "old")).inv(&mk(a));
        check(val(&r.v).mul(a).eq(F::int(1, 1)), "inverse");
        let q = mk(F::var(1, "old")).div(&mk(b), &mk(a));
        check(val(&q.v).mul(a).eq(b), "quotient");
        // zero has no inverse; the exponentiation gives zero
        let z = mk(F::var(1, "old")).inv(&Scalar::default());
        check(val(&z.v).is0(1), "inverse_of_zero");
    }
    h_sc_zero_one => {
        let old = Scalar { v: arr("old") };
        check(same(&old.zero().v, &[0u8; 32]), "zero");
        let mut one = [0u8; 32];
        one[0] = 1;
        check(same(&old.one().v, &one), "one");
        let a = Scalar { v: arr("a") };
        check(same(&old.set(&a).v, &a.v), "set");
        check(old.marshal_size() == 32, "size");
    }
    h_sc_canonical => {
        let n = choose("len", 30, 34) as usize;
        let mut b = vec![0u8; n];
        fill("b", &mut b);
        let c = Scalar::default().is_canonical(&b);
        if n != 32 {
            check(!c, "wrong_length_not_canonical");
        } else {
            let mut m = [0u8; 32];
            m.copy_from_slice(&b);
            check(c == lt_bytes(&m, &L_LE), "canonical_iff_below_order");
        }
    }
    h_sc_set_int64 => {
        let old = Scalar { v: arr("old") };
        let v = bits("v", 64) as i64;
        let s = old.set_int64(v);
        exact(&s, Z::i(v), "set_int64");
    }
    h_sc_set_bytes => {
        let n = [0usize, 1, 2, 31, 32, 33, 64, 65][choose("len", 0, 7) as usize];
        let mut b = vec![0u8; n];
        fill("b", &mut b);
        let old = Scalar { v: arr("old") };
        let s = old.set_bytes(&b);
        exact(&s, Z::le(&b), "set_bytes");
    }
    h_sc_marshal => {
        let mut v = [0u8; 32];
        let b = sized("s", 32);
        v[..b.len()].copy_from_slice(&b);
        let s = Scalar { v };
        let b = s.marshal_binary().unwrap();
        check(b.len() == 32, "encoded_length");
        let z = Z::le(&b);
        check(z.cong(Z::le(&s.v), zl()), "encodes_value");
        check(z.lt(zl()), "encoding_canonical");
        let mut r = Scalar { v: arr("old") };
        check(r.unmarshal_binary(&b).is_ok(), "own_encoding_accepted");
        check(same(&r.v, &b), "decoded_value");
    }
    h_sc_unmarshal => {
        let n = choose("len", 30, 34) as usize;
        let mut b = vec![0u8; n];
        fill("b", &mut b);
        let old: [u8; 32] = arr("old");
        let mut s = Scalar { v: old };
        let ok = s.unmarshal_binary(&b).is_ok();
        check(ok == (n == 32), "accepted_iff_32_bytes");
        if ok { check(Z::le(&s.v).cong(Z::le(&b), zl()), "decoded_value"); } else { check(same(&s.v, &old), "refusal_keeps_value"); }
    }
    h_sc_stream => {
        // stream encodings are the binary encoding, whatever the chunks
        if choose("dir", 0, 1) == 0 {
            let n = [1usize, 31][choose("bytes", 0, 1) as usize];
            let mut s = Scalar { v: [0; 32] };
            fill("s", &mut s.v[..n]);
            assume(s.v[n - 1] != 0);
            let e = s.marshal_binary().unwrap();
            check(s.marshal_size() == e.len(), "announced_size");
            stream(&s, &e);
            return;
        }
        let step = [1usize, 5, 64][choose("rstep", 0, 2) as usize];
        let l = [0usize, 31, 32, 40][choose("len", 0, 3) as usize];
        let d = crate::h_sig::bytes("d", l);
        let mut r = Slow { data: d.clone(), pos: 0, step };
        let mut q = Scalar { v: arr("old") };
        let ok = q.unmarshal_from(&mut r).is_ok();
        check(ok == (l >= 32), "read_iff_complete");
        if ok {
            check(Z::le(&q.v).cong(Z::le(&d[..32]), zl()), "reads_the_encoded_value");
            check(r.pos == 32, "consumes_one_encoding");
            reach("read");
        }
    }
    h_sc_pick => {
        // rejection sampling: the first draw in range is the result
        let mut st = Draws { n: 0, last: vec![], max: 2 };
        let s = Scalar { v: arr("old") }.pick(&mut st);
        check(Z::le(&s.v).lt(zl()), "pick_in_range");
        check(!same(&s.v, &[0u8; 32]), "pick_nonzero");
        let mut d = st.last.clone();
        check(d.len() == 32, "pick_draws_order_size");
        d[0] &= 0x1f;
        d.reverse();
        check(Z::le(&d).eq(Z::le(&s.v)), "pick_is_the_draw");
        // every value in the range is taken when drawn: a rejected draw was out of range
    }
    h_random_int => {
        // uniform sampling below any modulus: a draw in [1, m) is accepted, anything else redrawn
        let m = [3i64, 200, 255, 256, 257, 65535, 65537, 0x1ffffffff][choose("m", 0, 7) as usize];
        let mb = BigInt::from(m);
        let mut st = Draws { n: 0, last: vec![], max: 2 };
        let r = kyber_rs::util::random::random_int(&mb, &mut st);
        let z = zi(&r);
        check(z.lt(Z::i(m)), "below_modulus");
        check(Z::i(0).lt(z), "positive");
        let mut bits_ = 0;
        while m >> bits_ != 0 { bits_ += 1; }
        let mut d = st.last.clone();
        check(d.len() == (bits_ + 7) / 8, "draw_length");
        if bits_ % 8 != 0 { d[0] &= (1u8 << (bits_ % 8)) - 1; }
        d.reverse();
        check(Z::le(&d).eq(z), "accepted_draw_kept");
        if st.n == 1 { reach("first_draw"); } else { reach("redraw"); }
    }
    h_random_bits => {
        let len = match choose("bits", 1, 48) { b if b <= 40 => b, b => [64, 65, 128, 255, 256, 257, 1000, 2049][b as usize - 41] } as u64;
        let exact = choose("exact", 0, 1) == 1;
        let mut st = Draws { n: 0, last: vec![], max: 1 };
        let b = kyber_rs::util::random::bits(len, exact, &mut st);
        check(b.len() as u64 == (len + 7) / 8, "byte_length");
        let top = if len % 8 == 0 { 8 } else { len % 8 };
        check((b[0] as u32) >> top == 0, "within_bit_length");
        if exact { check((b[0] >> (top - 1)) == 1, "exact_bit_length"); }
        // every other bit is the stream's
        let free: u8 = if exact { ((1u32 << (top - 1)) - 1) as u8 } else { ((1u32 << top) - 1) as u8 };
        check(b[0] & free == st.last[0] & free, "top_bits_random");
        check(same(&b[1..], &st.last[1..]), "low_bits_random");
    }
}
