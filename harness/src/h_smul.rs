//! Scalar multiplication as integer combinations: group elements are replaced by the integer
//! multiple of the base point they stand for; the scalar is symbolic.
use crate::ff::{limbs, limbs_mut};
use crate::harness;
use crate::intr::*;
use kyber_rs::group::edwards25519::verif::*;
use kyber_rs::group::edwards25519::{Point, Scalar};
use kyber_rs::group::Point as _;

fn gv<T>(t: &T) -> Z {
    let f = limbs(t, 0);
    let h = (f[1] as u32 as u64) << 32 | f[0] as u32 as u64;
    if h >> 48 != 0xF1D0 {
        check(false, "group_element_initialised");
        return Z::i(0);
    }
    Z(h)
}
fn gs<T>(t: &mut T, v: Z) {
    let f = limbs_mut(t, 0);
    f[0] = v.0 as u32 as i32;
    f[1] = (v.0 >> 32) as u32 as i32;
}
#[no_mangle]
pub fn stub_ge_ext_zero(h: &mut ExtendedGroupElement) {
    gs(h, Z::i(0));
}
#[no_mangle]
pub fn stub_ge_add(r: &mut CompletedGroupElement, p: &ExtendedGroupElement, q: &CachedGroupElement) {
    gs(r, gv(p).add(gv(q)));
}
#[no_mangle]
pub fn stub_ge_sub(r: &mut CompletedGroupElement, p: &ExtendedGroupElement, q: &CachedGroupElement) {
    gs(r, gv(p).sub(gv(q)));
}
#[no_mangle]
pub fn stub_ge_mixed_add(r: &mut CompletedGroupElement, p: &mut ExtendedGroupElement, q: &mut PreComputedGroupElement) {
    gs(r, gv(p).add(gv(q)));
}
#[no_mangle]
pub fn stub_ge_to_ext(p: &CompletedGroupElement, r: &mut ExtendedGroupElement) {
    gs(r, gv(p));
}
#[no_mangle]
pub fn stub_ge_to_proj(p: &CompletedGroupElement, r: &mut ProjectiveGroupElement) {
    gs(r, gv(p));
}
#[no_mangle]
pub fn stub_ge_proj_double(p: &ProjectiveGroupElement, r: &mut CompletedGroupElement) {
    gs(r, gv(p).add(gv(p)));
}
#[no_mangle]
pub fn stub_ge_ext_double(p: &mut ExtendedGroupElement, r: &mut CompletedGroupElement) {
    gs(r, gv(p).add(gv(p)));
}
#[no_mangle]
pub fn stub_ge_write_cached(p: &ExtendedGroupElement, r: &mut CachedGroupElement) {
    gs(r, gv(p));
}
#[no_mangle]
pub fn stub_ge_write_proj(p: &ExtendedGroupElement, r: &mut ProjectiveGroupElement) {
    gs(r, gv(p));
}
/// h_ge_select: entry |b| of the table, negated for negative b
#[no_mangle]
pub fn stub_ge_select_cached(c: &mut CachedGroupElement, ai: &[CachedGroupElement; 8], b: i32) {
    let a = gv(&ai[0]);
    for i in 0..8 {
        check(gv(&ai[i]).eq(a.mul(Z::i(i as i64 + 1))), "table_of_multiples");
    }
    check(and(b >= -8, b <= 8), "digit_in_range");
    gs(c, a.mul(Z::i32(b)));
}
/// h_ge_select and h_ge_base_table: b 256^pos times the generator
#[no_mangle]
pub fn stub_ge_select_pre(t: &mut PreComputedGroupElement, pos: usize, b: i32) {
    check(and(b >= -8, b <= 8), "digit_in_range");
    let mut k = [0u8; 33];
    check(pos < 32, "table_row");
    k[pos] = 1;
    gs(t, Z::le(&k).mul(Z::i32(b)));
}
fn one() -> ExtendedGroupElement {
    let mut e = ExtendedGroupElement::default();
    gs(&mut e, Z::i(1));
    e
}
fn native(v: [u8; 32], vt: bool, tag: &str) {
    // replay on the real curve: compare with plain double-and-add
    let b = Point::default().base();
    let mut r = Point::default().null();
    for i in (0..256).rev() {
        r = Point::default().add(&r, &r);
        if v[i / 8] >> (i % 8) & 1 == 1 {
            r = Point::default().add(&r, &b);
        }
    }
    let mut s = Scalar::default();
    s.v = v;
    check(Point::default().mul(&s, None) == r, "base_multiple");
    check(Point::verif_new(*Point::default().verif_ge(), vt).mul(&s, Some(&b)) == r, tag);
}
fn vt_scalar(bits_: usize, offs: &[usize], name: &str) -> [u8; 32] {
    // a window of free bits anywhere in an otherwise solver-chosen run of zeros or ones
    let off = offs[choose("offset", 0, offs.len() as i64 - 1) as usize];
    let fillb = choose("background", 0, 1) as u8;
    let mut v = [if fillb == 1 { 0xffu8 } else { 0 }; 32];
    v[31] &= 0x7f;
    for k in 0..bits_ {
        let i = off + k;
        if i < 255 {
            let b = choose(name, 0, 1) as u8;
            v[i / 8] = v[i / 8] & !(1 << (i % 8)) | b << (i % 8);
        }
    }
    v
}
fn vartime(v: [u8; 32]) {
    let s = Scalar { v };
    if !symbolic() {
        return native(v, true, "vartime_multiple");
    }
    let p = Point::verif_new(one(), false);
    let mut q = Point::verif_new(one(), true);
    q = q.mul(&s, Some(&p));
    check(gv(q.verif_ge()).eq(Z::le(&v)), "vartime_multiple");
}

harness! {
    h_smul_base => {
        let v: [u8; 32] = arr("a");
        assume(v[31] <= 127);
        if !symbolic() { return native(v, false, "multiple"); }
        let s = Scalar { v };
        let mut e = ExtendedGroupElement::default();
        gs(&mut e, Z::i(5));
        let r = Point::verif_new(e, false).mul(&s, None);
        check(gv(r.verif_ge()).eq(Z::le(&v)), "base_multiple");
    }
    h_smul => {
        let v: [u8; 32] = arr("a");
        assume(v[31] <= 127);
        if !symbolic() { return native(v, false, "multiple"); }
        let s = Scalar { v };
        let p = Point::verif_new(one(), false);
        let r = Point::verif_new(ExtendedGroupElement::default(), false).mul(&s, Some(&p));
        check(gv(r.verif_ge()).eq(Z::le(&v)), "multiple");
        check(gv(p.verif_ge()).eq(Z::i(1)), "operand_kept");
    }
    h_smul_vartime => {
        vartime(vt_scalar(9, &[0, 126, 247], "bit"));
    }
    h_smul_vartime_big => {
        vartime(vt_scalar(10, &[0, 5, 63, 128, 200, 245], "bit"));
    }
}
