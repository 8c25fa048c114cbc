//! A cipher suite over an ideal prime-order group, for the protocol code that is generic in its
//! group: scalars are elements of GF(L) held as solver terms, a point is its discrete logarithm,
//! encodings are injective functions. Natively the same suite computes with integers mod L.
use crate::intr::*;
use core::fmt;
use core::ops::{Add, Mul};
use kyber_rs::cipher::{Stream, StreamError};
use kyber_rs::encoding::{BinaryMarshaler, BinaryUnmarshaler, Marshaling, MarshallingError};
use kyber_rs::group::{HashFactory, PointCanCheckCanonicalAndSmallOrder, PointError, ScalarCanCheckCanonical};
use kyber_rs::{Group, Point, Random, Scalar, XOFFactory, XOF};
use serde::{Deserialize, Deserializer, Serialize, Serializer};
use std::io::{Read, Write};

const SC: u32 = 2;
const PT: u32 = 3;
const PICK: u32 = 5;
fn enc(h: F, tag: u32) -> [u8; 32] {
    let mut b = [0u8; 32];
    unsafe { fld_enc(h.0, b.as_mut_ptr(), 32, tag) }
    b
}
fn dec(b: &[u8], tag: u32) -> F {
    F(unsafe { fld_dec(1, b.as_ptr(), b.len(), tag) })
}
fn bad() -> MarshallingError {
    MarshallingError::InvalidInput("wrong size buffer".to_owned())
}
fn draw(r: &mut impl Stream) -> F {
    let z = [0u8; 32];
    let mut b = [0u8; 32];
    r.xor_key_stream(&mut b, &z).unwrap();
    let v = dec(&b, PICK);
    if unsafe { NONZERO } {
        assume(!v.is0(1));
    }
    v
}
static mut NONZERO: bool = false;
/// from here on, random draws that come out as zero (probability 2^-252) are left out
pub fn nonzero_draws() {
    unsafe { NONZERO = true }
}

#[derive(Clone, Copy)]
pub struct S(pub F);
#[derive(Clone, Copy)]
pub struct P(pub F);

macro_rules! common {
    ($t:ident, $tag:expr, $id:expr) => {
        impl Default for $t {
            fn default() -> Self {
                $t(F::int(1, 0))
            }
        }
        impl PartialEq for $t {
            fn eq(&self, o: &Self) -> bool {
                self.0.eq(o.0)
            }
        }
        impl Eq for $t {}
        impl PartialOrd for $t {
            fn partial_cmp(&self, o: &Self) -> Option<core::cmp::Ordering> {
                Some(self.cmp(o))
            }
        }
        impl Ord for $t {
            fn cmp(&self, o: &Self) -> core::cmp::Ordering {
                enc(self.0, $tag).cmp(&enc(o.0, $tag))
            }
        }
        impl fmt::Debug for $t {
            fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
                f.write_str(unsafe { core::str::from_utf8_unchecked(&enc(self.0, $tag)) })
            }
        }
        impl fmt::Display for $t {
            fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
                f.write_str(unsafe { core::str::from_utf8_unchecked(&enc(self.0, $tag)) })
            }
        }
        impl Serialize for $t {
            fn serialize<X: Serializer>(&self, s: X) -> Result<X::Ok, X::Error> {
                enc(self.0, $tag).serialize(s)
            }
        }
        impl<'de> Deserialize<'de> for $t {
            fn deserialize<X: Deserializer<'de>>(d: X) -> Result<Self, X::Error> {
                let b = <[u8; 32]>::deserialize(d)?;
                Ok($t(dec(&b, $tag)))
            }
        }
        impl BinaryMarshaler for $t {
            fn marshal_binary(&self) -> Result<Vec<u8>, MarshallingError> {
                Ok(enc(self.0, $tag).to_vec())
            }
        }
        impl Marshaling for $t {
            fn marshal_size(&self) -> usize {
                32
            }
            fn marshal_to(&self, w: &mut impl Write) -> Result<(), MarshallingError> {
                w.write_all(&enc(self.0, $tag))?;
                Ok(())
            }
            fn unmarshal_from(&mut self, r: &mut impl Read) -> Result<(), MarshallingError> {
                let mut b = [0u8; 32];
                r.read_exact(&mut b)?;
                self.unmarshal_binary(&b)
            }
            fn unmarshal_from_random(&mut self, r: &mut (impl Read + Stream)) {
                self.0 = draw(r);
            }
            fn marshal_id(&self) -> [u8; 8] {
                $id
            }
        }
    };
}
common!(S, SC, *b"toy.scal");
common!(P, PT, *b"toy.poin");

impl BinaryUnmarshaler for S {
    fn unmarshal_binary(&mut self, b: &[u8]) -> Result<(), MarshallingError> {
        if b.len() != 32 {
            return Err(bad());
        }
        self.0 = dec(b, SC);
        Ok(())
    }
}
impl BinaryUnmarshaler for P {
    fn unmarshal_binary(&mut self, b: &[u8]) -> Result<(), MarshallingError> {
        if b.len() != 32 {
            return Err(bad());
        }
        self.0 = dec(b, PT);
        Ok(())
    }
}
impl Add for S {
    type Output = S;
    fn add(self, o: S) -> S {
        S(self.0.add(o.0))
    }
}
impl Mul for S {
    type Output = S;
    fn mul(self, o: S) -> S {
        S(self.0.mul(o.0))
    }
}
impl Scalar for S {
    fn set(self, a: &Self) -> Self {
        *a
    }
    fn set_int64(self, v: i64) -> Self {
        S(F::int(1, v))
    }
    fn zero(self) -> Self {
        S(F::int(1, 0))
    }
    fn sub(self, a: &Self, b: &Self) -> Self {
        S(a.0.sub(b.0))
    }
    fn neg(self, a: &Self) -> Self {
        S(a.0.neg())
    }
    fn one(self) -> Self {
        S(F::int(1, 1))
    }
    fn div(self, a: &Self, b: &Self) -> Self {
        S(a.0.mul(b.0.inv()))
    }
    fn inv(self, a: &Self) -> Self {
        S(a.0.inv())
    }
    fn pick(self, r: &mut impl Stream) -> Self {
        S(draw(r))
    }
    fn set_bytes(self, b: &[u8]) -> Self {
        S(dec(b, SC))
    }
}
impl ScalarCanCheckCanonical for S {
    fn is_canonical(&self, b: &[u8]) -> bool {
        b.len() == 32 && same(b, &enc(dec(b, SC), SC))
    }
}
impl Point for P {
    type SCALAR = S;
    fn null(self) -> Self {
        P(F::int(1, 0))
    }
    fn base(self) -> Self {
        P(F::int(1, 1))
    }
    fn pick<X: Stream>(self, r: &mut X) -> Self {
        P(draw(r))
    }
    fn set(&mut self, p: &Self) -> Self {
        *self = *p;
        *self
    }
    fn embed_len(&self) -> usize {
        29
    }
    fn embed<X: Stream>(self, _data: Option<&[u8]>, r: &mut X) -> Self {
        P(draw(r))
    }
    fn data(&self) -> Result<Vec<u8>, PointError> {
        Err(PointError::EmbedDataLength)
    }
    fn add(self, a: &Self, b: &Self) -> Self {
        P(a.0.add(b.0))
    }
    fn sub(self, a: &Self, b: &Self) -> Self {
        P(a.0.sub(b.0))
    }
    fn neg(&mut self, a: &Self) -> Self {
        *self = P(a.0.neg());
        *self
    }
    fn mul(self, s: &S, p: Option<&Self>) -> Self {
        match p {
            Some(p) => P(p.0.mul(s.0)),
            None => P(s.0),
        }
    }
}
impl PointCanCheckCanonicalAndSmallOrder for P {
    fn has_small_order(&self) -> bool {
        self.0.is0(1)
    }
    fn is_canonical(&self, b: &[u8]) -> bool {
        b.len() == 32 && same(b, &enc(dec(b, PT), PT))
    }
}
/// fresh bytes
pub struct Fresh;
impl Stream for Fresh {
    fn xor_key_stream(&mut self, dst: &mut [u8], src: &[u8]) -> Result<(), StreamError> {
        let mut b = vec![0u8; src.len()];
        fill("rng", &mut b);
        for i in 0..src.len() {
            dst[i] = src[i] ^ b[i];
        }
        Ok(())
    }
}
/// an extendable output function: block i of the output for seed m is U(i, m)
pub struct ToyXof {
    seed: Vec<u8>,
    n: u64,
}
impl Read for ToyXof {
    fn read(&mut self, b: &mut [u8]) -> std::io::Result<usize> {
        for c in b.chunks_mut(32) {
            let mut i = self.n.to_le_bytes().to_vec();
            i.extend_from_slice(&self.seed);
            let mut o = [0u8; 32];
            unsafe { uf_bytes(b"toyxof".as_ptr(), 6, i.as_ptr(), i.len(), o.as_mut_ptr(), 32, true) }
            c.copy_from_slice(&o[..c.len()]);
            self.n += 1;
        }
        Ok(b.len())
    }
}
impl Write for ToyXof {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        self.seed.extend_from_slice(b);
        Ok(b.len())
    }
    fn flush(&mut self) -> std::io::Result<()> {
        Ok(())
    }
}
impl Stream for ToyXof {
    fn xor_key_stream(&mut self, dst: &mut [u8], src: &[u8]) -> Result<(), StreamError> {
        let mut b = vec![0u8; src.len()];
        self.read(&mut b).unwrap();
        for i in 0..src.len() {
            dst[i] = src[i] ^ b[i];
        }
        Ok(())
    }
}
impl XOF for ToyXof {
    fn reseed(&mut self) {}
    fn clone(&self) -> Box<dyn XOF> {
        Box::new(ToyXof { seed: self.seed.clone(), n: self.n })
    }
}
#[derive(Clone, Copy, Default, Debug, Serialize, Deserialize, PartialEq, Eq)]
pub struct G;
impl fmt::Display for G {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str("Toy")
    }
}
impl Group for G {
    type POINT = P;
    fn scalar_len(&self) -> usize {
        32
    }
    fn scalar(&self) -> S {
        S::default()
    }
    fn point_len(&self) -> usize {
        32
    }
    fn point(&self) -> P {
        P::default()
    }
    fn is_prime_order(&self) -> Option<bool> {
        Some(true)
    }
}
impl HashFactory for G {
    type T = sha2::Sha256;
}
impl Random for G {
    fn random_stream(&self) -> Box<dyn Stream> {
        Box::new(Fresh)
    }
}
impl XOFFactory for G {
    fn xof(&self, seed: Option<&[u8]>) -> Box<dyn XOF> {
        Box::new(ToyXof { seed: seed.unwrap_or(&[]).to_vec(), n: 0 })
    }
}
impl kyber_rs::share::vss::suite::Suite for G {}
impl kyber_rs::sign::dss::Suite for G {}
impl kyber_rs::util::key::Suite for G {}

pub fn sv(n: &str) -> S {
    S(F::var(1, n))
}
pub fn pv(n: &str) -> P {
    P(F::var(1, n))
}
pub fn si(v: i64) -> S {
    S(F::int(1, v))
}
/// an invertible scalar
pub fn snz(n: &str) -> S {
    S(F::nz(1, n))
}
