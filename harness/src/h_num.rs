//! Arithmetic kernels, bit-precise / integer mode.
use crate::harness;
use crate::intr::*;
use kyber_rs::group::edwards25519::verif::*;
use kyber_rs::group::edwards25519::{scalar::sc_mul_add, Scalar};
use kyber_rs::group::Scalar as _;

fn fe_in(n: &str, b: i64) -> FieldElement {
    let mut f = [0i32; 10];
    for i in 0..10 {
        // even limbs are 26 bits, odd limbs 25 bits
        let k = if i % 2 == 0 { b } else { b / 2 };
        f[i] = range(n, -k, k) as i32;
    }
    f
}
const OFF: [u32; 10] = [0, 26, 51, 77, 102, 128, 153, 179, 204, 230];
fn zpow2(k: u32) -> Z {
    let mut b = [0u8; 33];
    b[(k / 8) as usize] = 1 << (k % 8);
    Z::le(&b)
}
fn fe_z(f: &FieldElement) -> Z {
    let mut r = Z::i(0);
    for i in 0..10 {
        r = r.add(Z::i32(f[i]).mul(zpow2(OFF[i])));
    }
    r
}
fn bounded(f: &FieldElement, b: i64) -> bool {
    let mut r = true;
    for i in 0..10 {
        let k = if i % 2 == 0 { b } else { b / 2 };
        r = and(r, (f[i] as i64) <= k);
        r = and(r, (f[i] as i64) >= -k);
    }
    r
}
// 1.1 * 2^26 after an addition or subtraction of two reduced elements; products are specified for
// inputs up to 1.65*2^26 and give outputs up to 1.01*2^25
const B_IN: i64 = 110_729_625; // 1.65 * 2^26
const B_SUM: i64 = 73_819_750; // 1.1 * 2^26
const B_OUT: i64 = 36_909_875; // 1.1 * 2^25: three summed products stay below B_IN

harness! {
    h_fe_mul => {
        let f = fe_in("f", B_IN);
        let g = fe_in("g", B_IN);
        let mut h = [0i32; 10];
        fe_mul(&mut h, &f, &g);
        check(fe_z(&h).cong(fe_z(&f).mul(fe_z(&g)), zp()), "product");
        check(bounded(&h, B_OUT), "product_bound");
    }
    h_fe_square => {
        let f = fe_in("f", B_IN);
        let mut h = [0i32; 10];
        fe_square(&mut h, &f);
        check(fe_z(&h).cong(fe_z(&f).mul(fe_z(&f)), zp()), "square");
        check(bounded(&h, B_OUT), "square_bound");
    }
    h_fe_square2 => {
        let f = fe_in("f", B_IN);
        let mut h = [0i32; 10];
        fe_square2(&mut h, &f);
        check(fe_z(&h).cong(fe_z(&f).mul(fe_z(&f)).mul(Z::i(2)), zp()), "square2");
        check(bounded(&h, B_OUT), "square2_bound");
    }
    h_fe_addsub => {
        let f = fe_in("f", B_SUM);
        let g = fe_in("g", B_SUM);
        let mut h = [0i32; 10];
        fe_add(&mut h, &f, &g);
        check(fe_z(&h).cong(fe_z(&f).add(fe_z(&g)), zp()), "sum");
        fe_sub(&mut h, &f, &g);
        check(fe_z(&h).cong(fe_z(&f).sub(fe_z(&g)), zp()), "difference");
        fe_neg(&mut h, &f);
        check(fe_z(&h).cong(Z::i(0).sub(fe_z(&f)), zp()), "negation");
        check(bounded(&h, B_SUM), "negation_bound");
    }
    h_fe_to_bytes => {
        let f = fe_in("f", B_SUM);
        let mut s = [0u8; 32];
        fe_to_bytes(&mut s, &f);
        check(Z::le(&s).cong(fe_z(&f), zp()), "encodes_value");
        check(Z::le(&s).lt(zp()), "encoding_canonical");
    }
    h_fe_from_bytes => {
        let s: [u8; 32] = arr("s");
        let mut m = s;
        m[31] &= 0x7f;
        let mut f = [0i32; 10];
        fe_from_bytes(&mut f, &s);
        check(fe_z(&f).cong(Z::le(&m), zp()), "decodes_value");
        check(bounded(&f, B_OUT), "decoded_bound");
    }
    h_sc_mul_add => {
        let a: [u8; 32] = arr("a");
        let b: [u8; 32] = arr("b");
        let c: [u8; 32] = arr("c");
        let mut s = [0u8; 32];
        sc_mul_add(&mut s, &a, &b, &c);
        check(Z::le(&s).cong(Z::le(&a).mul(Z::le(&b)).add(Z::le(&c)), zl()), "value");
        check(Z::le(&s).lt(zl()), "reduced");
    }
    h_sc_mul => {
        let a: [u8; 32] = arr("a");
        let b: [u8; 32] = arr("b");
        let s = Scalar { v: a } * Scalar { v: b };
        check(Z::le(&s.v).cong(Z::le(&a).mul(Z::le(&b)), zl()), "value");
        check(Z::le(&s.v).lt(zl()), "reduced");
    }
    h_sc_add => {
        let a: [u8; 32] = arr("a");
        let b: [u8; 32] = arr("b");
        let s = Scalar { v: a } + Scalar { v: b };
        check(Z::le(&s.v).cong(Z::le(&a).add(Z::le(&b)), zl()), "value");
        check(Z::le(&s.v).lt(zl()), "reduced");
    }
    h_sc_sub => {
        let a: [u8; 32] = arr("a");
        let b: [u8; 32] = arr("b");
        let s = Scalar::default().sub(&Scalar { v: a }, &Scalar { v: b });
        check(Z::le(&s.v).cong(Z::le(&a).sub(Z::le(&b)), zl()), "value");
        check(Z::le(&s.v).lt(zl()), "reduced");
        let n = Scalar::default().neg(&Scalar { v: a });
        check(Z::le(&n.v).cong(Z::i(0).sub(Z::le(&a)), zl()), "negation");
        check(Z::le(&n.v).lt(zl()), "negation_reduced");
    }
}
