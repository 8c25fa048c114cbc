//! The curve's own types over an ideal group: a point carries the term of its discrete logarithm in
//! its limbs, a scalar carries a term or plain bytes. Natively nothing is replaced.
use crate::ff::{limbs, limbs_mut};
use crate::intr::*;
use kyber_rs::encoding::{BinaryMarshaler, MarshallingError};
use kyber_rs::group::edwards25519::verif::*;
use kyber_rs::group::edwards25519::{Point, Scalar};
use kyber_rs::group::{Point as _, PointCanCheckCanonicalAndSmallOrder, ScalarCanCheckCanonical};

const SC: u32 = 12;
const PT: u32 = 13;
const WIDE: u32 = 14;
pub fn pv<T>(t: &T) -> F {
    let f = limbs(t, 0);
    if !concrete(f[0] as u32 as u64) || !concrete(f[1] as u32 as u64) {
        check(false, "group_element_is_opaque");
    }
    let h = (f[1] as u32 as u64) << 32 | f[0] as u32 as u64;
    if h >> 48 == 0xF1D0 {
        return F(h);
    }
    if f[0] == 0 {
        return F::int(1, 0);
    }
    check(f[0] == limbs(Point::default().base().verif_ge(), 0)[0], "constant_is_the_generator");
    F::int(1, 1)
}
pub fn ps<T>(t: &mut T, v: F) {
    let f = limbs_mut(t, 0);
    f[0] = v.0 as u32 as i32;
    f[1] = (v.0 >> 32) as u32 as i32;
}
pub fn svv(b: &[u8; 32]) -> F {
    let mut h = [0u8; 8];
    h.copy_from_slice(&b[..8]);
    let h = u64::from_le_bytes(h);
    let all = concrete(h);
    if all && h >> 48 == 0xF1D0 {
        return F(h);
    }
    let mut conc = all;
    for x in b.iter() {
        conc = conc && concrete(*x as u64);
    }
    if conc {
        F::k(1, b)
    } else {
        F(unsafe { fld_dec(1, b.as_ptr(), 32, SC) })
    }
}
pub fn sraw(h: F) -> [u8; 32] {
    let mut b = [0u8; 32];
    b[..8].copy_from_slice(&h.0.to_le_bytes());
    b
}
/// a scalar with the given value
pub fn mk_sc(v: F) -> Scalar {
    if symbolic() {
        Scalar { v: sraw(v) }
    } else {
        let mut b = [0u8; 32];
        unsafe { fld_enc(v.0, b.as_mut_ptr(), 32, 0) }
        Scalar { v: b }
    }
}
/// the multiple of the generator
pub fn mk_pt(v: F) -> Point {
    if symbolic() {
        let mut e = ExtendedGroupElement::default();
        ps(&mut e, v);
        Point::verif_new(e, false)
    } else {
        Point::default().mul(&mk_sc(v), None)
    }
}
#[no_mangle]
pub fn stub_ed_mul_base(h: &mut ExtendedGroupElement, a: &mut [u8; 32]) {
    ps(h, svv(a));
}
#[no_mangle]
pub fn stub_ed_mul(h: &mut ExtendedGroupElement, a: &mut [u8; 32], p: &mut ExtendedGroupElement) {
    let v = svv(a).mul(pv(p));
    ps(h, v);
}
#[no_mangle]
pub fn stub_ed_zero(h: &mut ExtendedGroupElement) {
    ps(h, F::int(1, 0));
}
#[no_mangle]
pub fn stub_ed_neg(h: &mut ExtendedGroupElement, p: &ExtendedGroupElement) {
    ps(h, pv(p).neg());
}
#[no_mangle]
pub fn stub_ed_add(r: &mut CompletedGroupElement, p: &ExtendedGroupElement, q: &CachedGroupElement) {
    ps(r, pv(p).add(pv(q)));
}
#[no_mangle]
pub fn stub_ed_sub(r: &mut CompletedGroupElement, p: &ExtendedGroupElement, q: &CachedGroupElement) {
    ps(r, pv(p).sub(pv(q)));
}
#[no_mangle]
pub fn stub_ed_to_ext(p: &CompletedGroupElement, r: &mut ExtendedGroupElement) {
    ps(r, pv(p));
}
#[no_mangle]
pub fn stub_ed_write_cached(p: &ExtendedGroupElement, r: &mut CachedGroupElement) {
    ps(r, pv(p));
}
fn decodable(b: &[u8]) -> bool {
    let mut o = [0u8; 1];
    unsafe { uf_bytes(b"decodable".as_ptr(), 9, b.as_ptr(), b.len(), o.as_mut_ptr(), 1, false) };
    o[0] & 1 == 1
}
/// h_pt_encode, h_pt_canonical: canonical encodings decode to themselves
#[no_mangle]
pub fn stub_ed_write_bytes(p: &ExtendedGroupElement, s: &mut [u8; 32]) {
    unsafe { fld_enc(pv(p).0, s.as_mut_ptr(), 32, PT) };
    given(canonical_point(&s[..]));
    given(decodable(&s[..]));
}
#[no_mangle]
pub fn stub_ed_set_bytes(p: &mut ExtendedGroupElement, s: &[u8]) -> bool {
    if s.len() != 32 {
        return false;
    }
    if !decodable(s) {
        return false;
    }
    let v = F(unsafe { fld_dec(1, s.as_ptr(), 32, PT) });
    // h_pt_roundtrip: a canonical string that decodes is the encoding of its point (x = 0 aside, which has small order)
    let mut e = [0u8; 32];
    unsafe { fld_enc(v.0, e.as_mut_ptr(), 32, PT) };
    ps(p, v);
    given(canonical_point(&e));
    given(decodable(&e));
    given(or(!canonical_point(s), or(small_order(&e), same(&e, s))));
    true
}
#[no_mangle]
pub fn stub_ed_pt_eq(a: &Point, b: &Point) -> bool {
    pv(a.verif_ge()).eq(pv(b.verif_ge()))
}
#[no_mangle]
pub fn stub_ed_sc_mul(s: &mut [u8; 32], a: &[u8; 32], b: &[u8; 32]) {
    *s = sraw(svv(a).mul(svv(b)));
}
#[no_mangle]
pub fn stub_ed_sc_add(s: &mut [u8; 32], a: &[u8; 32], b: &[u8; 32]) {
    *s = sraw(svv(a).add(svv(b)));
}
#[no_mangle]
pub fn stub_ed_sc_sub(s: &mut [u8; 32], a: &[u8; 32], b: &[u8; 32]) {
    *s = sraw(svv(a).sub(svv(b)));
}
#[no_mangle]
pub fn stub_ed_sc_set_bytes(_s: Scalar, b: &[u8]) -> Scalar {
    Scalar { v: sraw(F(unsafe { fld_dec(1, b.as_ptr(), b.len(), WIDE) })) }
}
#[no_mangle]
pub fn stub_ed_sc_marshal(s: &Scalar) -> Result<Vec<u8>, MarshallingError> {
    let mut b = [0u8; 32];
    unsafe { fld_enc(svv(&s.v).0, b.as_mut_ptr(), 32, SC) };
    given(canonical_scalar(&b));
    Ok(b.to_vec())
}
pub fn enc(p: &impl BinaryMarshaler) -> Vec<u8> {
    p.marshal_binary().unwrap()
}
