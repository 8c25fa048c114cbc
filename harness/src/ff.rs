//! Field elements as exact elements of GF(p): the limb kernels are replaced by the ring operation
//! they are separately shown to compute (h_num.rs). A FieldElement then carries a term handle in
//! its first two limbs. Natively (replay) nothing is replaced and the real kernels run.
use crate::intr::*;
use kyber_rs::group::edwards25519::verif::*;

const OFF: [u32; 10] = [0, 26, 51, 77, 102, 128, 153, 179, 204, 230];
fn handle(f: &FieldElement) -> Option<u64> {
    let hi = f[1] as u32;
    if hi >> 16 == 0xF1D0 {
        Some((hi as u64) << 32 | f[0] as u32 as u64)
    } else {
        None
    }
}
fn raw(h: u64) -> FieldElement {
    let mut r = [0i32; 10];
    r[0] = h as u32 as i32;
    r[1] = (h >> 32) as u32 as i32;
    r
}
fn pow2(k: u32) -> F {
    let mut b = [0u8; 32];
    b[(k / 8) as usize] = 1 << (k % 8);
    F::k(0, &b)
}
/// value of a field element
pub fn fe_val(f: &FieldElement) -> F {
    if symbolic() {
        if let Some(h) = handle(f) {
            return F(h);
        }
        // ordinary limbs (constants of the crate)
        let mut r = F::int(0, 0);
        for i in 0..10 {
            r = r.add(F::int(0, f[i] as i64).mul(pow2(OFF[i])));
        }
        r
    } else {
        let mut b = [0u8; 32];
        fe_to_bytes(&mut b, f);
        F::k(0, &b)
    }
}
/// a field element with the given value
pub fn mk_fe(v: F) -> FieldElement {
    if symbolic() {
        raw(v.0)
    } else {
        let mut b = [0u8; 32];
        unsafe { fld_enc(v.0, b.as_mut_ptr(), 32, 0) }
        let mut f = [0i32; 10];
        fe_from_bytes(&mut f, &b);
        f
    }
}
/// canonical encoding of a field element (tag 1)
pub fn f_bytes(v: F) -> [u8; 32] {
    let mut b = [0u8; 32];
    unsafe { fld_enc(v.0, b.as_mut_ptr(), 32, 1) }
    b
}
pub fn f_of_bytes(b: &[u8]) -> F {
    F(unsafe { fld_dec(0, b.as_ptr(), 32, 1) })
}
#[no_mangle]
pub fn stub_fe_zero(fe: &mut FieldElement) {
    *fe = raw(F::int(0, 0).0);
}
#[no_mangle]
pub fn stub_fe_one(fe: &mut FieldElement) {
    *fe = raw(F::int(0, 1).0);
}
#[no_mangle]
pub fn stub_fe_add(d: &mut FieldElement, a: &FieldElement, b: &FieldElement) {
    *d = raw(fe_val(a).add(fe_val(b)).0);
}
#[no_mangle]
pub fn stub_fe_sub(d: &mut FieldElement, a: &FieldElement, b: &FieldElement) {
    *d = raw(fe_val(a).sub(fe_val(b)).0);
}
#[no_mangle]
pub fn stub_fe_neg(d: &mut FieldElement, a: &FieldElement) {
    *d = raw(fe_val(a).neg().0);
}
#[no_mangle]
pub fn stub_fe_mul(d: &mut FieldElement, a: &FieldElement, b: &FieldElement) {
    *d = raw(fe_val(a).mul(fe_val(b)).0);
}
#[no_mangle]
pub fn stub_fe_square(d: &mut FieldElement, a: &FieldElement) {
    let v = fe_val(a);
    *d = raw(v.mul(v).0);
}
#[no_mangle]
pub fn stub_fe_square2(d: &mut FieldElement, a: &FieldElement) {
    let v = fe_val(a);
    *d = raw(v.mul(v).mul(F::int(0, 2)).0);
}
#[no_mangle]
pub fn stub_fe_invert(d: &mut FieldElement, a: &FieldElement) {
    *d = raw(fe_val(a).inv().0);
}
/// a^((p-5)/8): some element w with w^4 a^2 = 1 for squares a, -1 for non-squares, w = 0 for 0;
/// the harness states what it needs of `w` through POW
pub static mut POW: (u64, u64, u32) = (0, 0, 0);
#[no_mangle]
pub fn stub_fe_pow22523(d: &mut FieldElement, a: &FieldElement) {
    let w = F::var(0, "pow22523");
    unsafe {
        POW = (fe_val(a).0, w.0, POW.2 + 1);
    }
    *d = raw(w.0);
}
#[no_mangle]
pub fn stub_fe_cmove(f: &mut FieldElement, g: &FieldElement, b: i32) {
    let r = F::ite(b == 1, fe_val(g), fe_val(f));
    *f = raw(r.0);
}
#[no_mangle]
pub fn stub_fe_to_bytes(s: &mut [u8; 32], h: &FieldElement) {
    *s = f_bytes(fe_val(h));
}
#[no_mangle]
pub fn stub_fe_from_bytes(d: &mut FieldElement, s: &[u8]) {
    let mut b = [0u8; 32];
    b.copy_from_slice(&s[..32]);
    *d = raw(f_of_bytes(&b).0);
}
#[no_mangle]
pub fn stub_fe_is_negative(f: &FieldElement) -> u8 {
    fe_val(f).parity() as u8
}
#[no_mangle]
pub fn stub_fe_is_non_zero(f: &FieldElement) -> i32 {
    1 - (fe_val(f).is0(0) as i32)
}
/// affine curve point as symbolic coordinates (x, y) with -x^2 + y^2 = 1 + d x^2 y^2
pub fn d() -> F {
    F::int(0, -121665).mul(F::int(0, 121666).inv())
}
pub fn on_curve(x: F, y: F) -> bool {
    let xx = x.mul(x);
    let yy = y.mul(y);
    yy.sub(xx).eq(F::int(0, 1).add(d().mul(xx).mul(yy)))
}
#[derive(Clone, Copy)]
pub struct Aff {
    pub x: F,
    pub y: F,
}
/// any y coordinate; y^2 is expressed through v = d y^2 + 1, which is invertible
pub fn y_in(n: &str) -> F {
    let y = F::var(0, n);
    if symbolic() {
        y_rule(y, &(n.to_string() + "v"));
    }
    y
}
pub fn y_rule(y: F, n: &str) {
    let v = F::nz(0, n);
    y.square_is(v.sub(F::int(0, 1)).mul(d().inv()));
}
pub fn aff_in(n: &str) -> Aff {
    let nx = n.to_string() + "x";
    let ny = n.to_string() + "y";
    if !symbolic() {
        // natively: any curve point, found from the given y by stepping until a square appears
        let mut y = F::var(0, &ny);
        let _ = F::var(0, &nx);
        loop {
            let mut b = [0u8; 32];
            unsafe { fld_enc(y.0, b.as_mut_ptr(), 32, 0) }
            let mut e = ExtendedGroupElement::default();
            if e.set_bytes(&b) {
                return Aff { x: fe_val(&e.x), y: fe_val(&e.y) };
            }
            y = y.add(F::int(0, 1));
        }
    }
    // v = d y^2 + 1 never vanishes (-1/d is not a square), and v x^2 = y^2 - 1 is the curve equation
    let x = F::var(0, &nx);
    let y = y_in(&ny);
    let v = d().mul(y).mul(y).add(F::int(0, 1));
    x.square_is(y.mul(y).sub(F::int(0, 1)).mul(v.inv()));
    Aff { x, y }
}
/// extended representation with an arbitrary non-zero scaling
pub fn ext(p: Aff, n: &str) -> ExtendedGroupElement {
    let z = F::nz(0, n);
    ExtendedGroupElement { x: mk_fe(p.x.mul(z)), y: mk_fe(p.y.mul(z)), z: mk_fe(z), t: mk_fe(p.x.mul(p.y).mul(z)) }
}
/// the complete twisted Edwards sum, as numerators and denominators
pub fn edw_add(a: Aff, b: Aff) -> (F, F, F, F) {
    let t = d().mul(a.x).mul(b.x).mul(a.y).mul(b.y);
    let one = F::int(0, 1);
    (a.x.mul(b.y).add(a.y.mul(b.x)), one.add(t), a.y.mul(b.y).add(a.x.mul(b.x)), one.sub(t))
}
pub fn neg(a: Aff) -> Aff {
    Aff { x: a.x.neg(), y: a.y }
}
/// r is a valid extended representation of (xn/xd, yn/yd)
pub fn is_rep(r: &ExtendedGroupElement, e: (F, F, F, F), what: &str) {
    let (x, y, z, t) = (fe_val(&r.x), fe_val(&r.y), fe_val(&r.z), fe_val(&r.t));
    check(x.mul(e.1).eq(e.0.mul(z)), &(what.to_string() + "_x"));
    check(y.mul(e.3).eq(e.2.mul(z)), &(what.to_string() + "_y"));
    check(t.mul(z).eq(x.mul(y)), &(what.to_string() + "_t"));
    check(!z.is0(0), &(what.to_string() + "_z"));
}
/// raw limb access to group element types whose fields are private (all are arrays of FieldElement)
pub fn limbs<T>(t: &T, i: usize) -> &FieldElement {
    unsafe { &*(t as *const T as *const FieldElement).add(i) }
}
pub fn limbs_mut<T>(t: &mut T, i: usize) -> &mut FieldElement {
    unsafe { &mut *(t as *mut T as *mut FieldElement).add(i) }
}
