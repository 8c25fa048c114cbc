//! Big integers: the schoolbook division and the extended Euclid of the bignum crate (a dependency)
//! are replaced by their specification; everything else of that crate runs as compiled.
use crate::intr::*;
use num_bigint_dig::{BigInt, BigUint, Sign};
use smallvec::SmallVec;
use std::borrow::Cow;

thread_local! {
    /// the inverse most recently computed, for statements about it
    pub static LAST_INV: std::cell::Cell<u64> = const { std::cell::Cell::new(0) };
}
pub fn digits(u: &BigUint) -> &[u64] {
    let d: &SmallVec<[u64; 4]> = unsafe { &*(u as *const BigUint as *const SmallVec<[u64; 4]>) };
    d.as_slice()
}
pub fn zu(u: &BigUint) -> Z {
    zd(digits(u))
}
pub fn zd(u: &[u64]) -> Z {
    let mut r = Z::i(0);
    let mut w = Z::i(1);
    let k = Z::i(1 << 32);
    for d in u {
        r = r.add(Z(unsafe { z_of(*d, 64, false) }).mul(w));
        w = w.mul(k).mul(k);
    }
    r
}
pub fn zi(v: &BigInt) -> Z {
    let (s, u) = (v.sign(), v.to_biguint());
    match (s, u) {
        (_, Some(u)) => zu(&u),
        _ => {
            let n = -v.clone();
            Z::i(0).sub(zu(&n.to_biguint().unwrap()))
        }
    }
}
fn fresh(len: usize, n: &str) -> (BigUint, Z) {
    let mut b = vec![0u8; len];
    fill(n, &mut b);
    let z = Z::le(&b);
    (BigUint::from_bytes_le(&b), z)
}
#[no_mangle]
pub fn stub_bn_div_rem(u: &BigUint, d: &BigUint) -> (BigUint, BigUint) {
    let n = digits(d).len();
    if n == 0 {
        panic!("division by zero");
    }
    if digits(u).len() < n {
        return (BigUint::from_bytes_le(&[0]), u.clone());
    }
    if n == 1 && digits(u).len() == 1 && concrete(digits(u)[0]) && concrete(digits(d)[0]) {
        let (x, y) = (digits(u)[0], digits(d)[0]);
        return (BigUint::from_bytes_le(&(x / y).to_le_bytes()), BigUint::from_bytes_le(&(x % y).to_le_bytes()));
    }
    // u = q d + r, 0 <= r < d; the quotient itself is not used by this crate, except on constants.
    if zu(u).lt(zu(d)) {
        return (BigUint::from_bytes_le(&[0]), u.clone());
    }
    // The byte length of r is chosen first, so that the code normalising it does not fork.
    let (zu_, zd) = (zu(u), zu(d));
    let top = digits(d)[n - 1];
    let len = 8 * n - (top.leading_zeros() / 8) as usize;
    let z = sized("rem", len);
    let mut qb = vec![0u8; 8 * (digits(u).len() + 1 - n)];
    fill("quo", &mut qb);
    let zb = Z::le(&z);
    given(and(zu_.eq(Z::le(&qb).mul(zd).add(zb)), zb.lt(zd)));
    (BigUint::from_bytes_le(&[0]), BigUint::from_bytes_le(&z))
}
/// any integer below 256^max, as its significant bytes
pub fn sized(n: &str, max: usize) -> Vec<u8> {
    let len = choose("len", 0, max as i64) as usize;
    let mut b = vec![0u8; len];
    if len > 0 {
        fill(n, &mut b[..len - 1]);
        b[len - 1] = range("top", 1, 255) as u8;
    }
    b
}
/// for coprime operands the unique inverse below n, otherwise nothing
#[no_mangle]
pub fn stub_bn_mod_inverse(g: Cow<BigUint>, n: Cow<BigUint>) -> Option<BigInt> {
    let zn = zu(&n);
    let zg = zu(&g);
    // the moduli used here are primes
    if zg.cong(Z::i(0), zn) {
        return None;
    }
    let len = digits(&n).len() * 8;
    let (v, z) = fresh(len, "inverse");
    given(and(zg.mul(z).cong(Z::i(1), zn), z.lt(zn)));
    LAST_INV.with(|l| l.set(z.0));
    Some(BigInt::from_biguint(Sign::Plus, v))
}
/// the crate's own conversion without its allocation hint, which depends on the position of the top bit
#[no_mangle]
pub fn stub_bn_to_digits(u: &BigUint, bits: usize) -> Vec<u8> {
    let d = digits(u);
    if bits != 8 {
        panic!("only bytes are used");
    }
    let mut res = Vec::new();
    for &x in d {
        res.extend_from_slice(&x.to_le_bytes());
    }
    while res[res.len() - 1] == 0 {
        res.pop();
    }
    res
}
/// comparison of normalised digit sequences, as one three-way decision on the values
#[no_mangle]
pub fn stub_bn_cmp(a: &[u64], b: &[u64]) -> core::cmp::Ordering {
    use core::cmp::Ordering::*;
    if a.len() != b.len() {
        return a.len().cmp(&b.len());
    }
    let (x, y) = (zd(a), zd(b));
    if x.lt(y) {
        Less
    } else if x.eq(y) {
        Equal
    } else {
        Greater
    }
}
/// small constant exponents only; below a small modulus, as a table over the possible bases
#[no_mangle]
pub fn stub_bn_modpow(b: &BigInt, e: &BigInt, m: &BigInt) -> BigInt {
    let n = digits(&e.to_biguint().unwrap()).first().copied().unwrap_or(0);
    let p = digits(&m.to_biguint().unwrap())[0];
    let x = zi(b);
    if b.sign() != Sign::Minus && p < 64 && x.lt(zi(m)) {
        let mut z = vec![0u8; 1];
        let bs = b.to_biguint().unwrap();
        if digits(&bs).iter().all(|d| concrete(*d)) {
            z[0] = pow(digits(&bs).first().copied().unwrap_or(0), n, p) as u8;
        } else {
            fill("pow", &mut z);
            let y = Z::le(&z);
            for k in 0..p {
                given(or(!x.eq(Z::i(k as i64)), y.eq(Z::i(pow(k, n, p) as i64))));
            }
        }
        return BigInt::from_bytes_le(Sign::Plus, &z);
    }
    let mut r = BigInt::from(1) % m;
    for _ in 0..n {
        r = (r * b) % m;
    }
    r
}
fn pow(k: u64, n: u64, p: u64) -> u64 {
    let mut r = 1 % p;
    for _ in 0..n {
        r = r * k % p;
    }
    r
}
/// product; the square of a small value as a table over the possible values
#[no_mangle]
pub fn stub_bn_mul(a: &BigInt, b: &BigInt) -> BigInt {
    let (x, y) = (zi(a), zi(b));
    let d = |v: &BigInt| v.to_biguint().map(|u| digits(&u).iter().all(|d| concrete(*d))).unwrap_or(true);
    if !d(a) && !d(b) && a.sign() == Sign::Plus && b.sign() == Sign::Plus && x.eq(y) && x.lt(Z::i(64)) {
        let mut z = vec![0u8; 2];
        fill("square", &mut z);
        let s = Z::le(&z);
        for k in 0..64 {
            given(or(!x.eq(Z::i(k)), s.eq(Z::i(k * k))));
        }
        return BigInt::from_bytes_le(Sign::Plus, &z);
    }
    let m = |v: &BigInt| if v.sign() == Sign::Minus { -v } else { v.clone() }.to_biguint().unwrap();
    let s = if a.sign() == b.sign() { Sign::Plus } else { Sign::Minus };
    BigInt::from_biguint(s, &m(a) * &m(b))
}
/// the symbol of a reduced value modulo a small prime, as a table over the possible values
#[no_mangle]
pub fn stub_bn_jacobi(a: &BigInt, m: &BigInt) -> isize {
    let md = m.to_biguint().unwrap();
    let p = digits(&md)[0];
    let x = zi(a);
    if digits(&md).len() != 1 || p > 64 || p % 2 == 0 || !and(Z::i(0).le_(x), x.lt(zi(m))) {
        panic!("only reduced values modulo small primes are used");
    }
    let mut r = 0;
    for k in 1..p {
        if x.eq(Z::i(k as i64)) {
            r = if pow(k, (p - 1) / 2, p) == 1 { 1 } else { -1 };
        }
    }
    r
}
