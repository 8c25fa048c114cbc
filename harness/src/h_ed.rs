//! EdDSA over the curve's own types.
use crate::ed::*;
use crate::h_sig::bytes;
use crate::harness;
use crate::intr::*;
use kyber_rs::encoding::{BinaryMarshaler, BinaryUnmarshaler};
use kyber_rs::group::edwards25519::{Curve, Point as P, Scalar as S, SuiteEd25519};
use kyber_rs::group::{PointCanCheckCanonicalAndSmallOrder, ScalarCanCheckCanonical};
use kyber_rs::sign::{eddsa, schnorr};
use kyber_rs::util::key::Pair;
use kyber_rs::{Point, Scalar};
use sha2::{Digest, Sha512};

fn hash(parts: &[&[u8]]) -> Vec<u8> {
    let mut h = Sha512::new();
    for p in parts {
        h.update(p);
    }
    h.finalize().to_vec()
}
fn wide(b: &[u8]) -> S {
    S::default().set_bytes(b)
}
/// RFC 8032 acceptance, with the additional refusals of non-canonical and small-order elements
fn valid(pk: &[u8], m: &[u8], sig: &[u8]) -> bool {
    if sig.len() != 64 || pk.len() != 32 {
        return false;
    }
    let (mut r, mut a, mut s) = (P::default(), P::default(), S::default());
    let canon = and(and(canonical_scalar(&sig[32..]), canonical_point(&sig[..32])), canonical_point(pk));
    if !canon {
        return false;
    }
    if r.unmarshal_binary(&sig[..32]).is_err() || a.unmarshal_binary(pk).is_err() || s.unmarshal_binary(&sig[32..]).is_err() {
        return false;
    }
    if or(small_order(&enc(&r)), small_order(&enc(&a))) {
        return false;
    }
    let h = wide(&hash(&[&sig[..32], pk, m]));
    P::default().mul(&s, None) == P::default().add(&r, &P::default().mul(&h, Some(&a)))
}
fn from_seed(seed: &[u8]) -> eddsa::EdDSA<Curve> {
    let mut b = seed.to_vec();
    b.resize(64, 0);
    let mut e = eddsa::EdDSA::<Curve>::default();
    e.unmarshal_binary(&b).unwrap();
    e
}
struct Bytes(Vec<u8>);
impl kyber_rs::cipher::Stream for Bytes {
    fn xor_key_stream(&mut self, d: &mut [u8], s: &[u8]) -> Result<(), kyber_rs::cipher::StreamError> {
        for i in 0..s.len() {
            d[i] = s[i] ^ self.0[i];
        }
        Ok(())
    }
}

harness! {
    h_ed_key => {
        let seed = bytes("seed", 32);
        let mut b = seed.clone();
        b.extend(bytes("rest", 32));
        let mut e = eddsa::EdDSA::<Curve>::default();
        e.unmarshal_binary(&b).unwrap();
        let d = hash(&[&seed]);
        let mut k = [0u8; 32];
        k.copy_from_slice(&d[..32]);
        k[0] &= 248;
        k[31] = k[31] & 127 | 64;
        check(same(&e.secret.v, &k), "secret_is_clamped_digest");
        check(same(&e.prefix, &d[32..]), "prefix_is_digest_tail");
        check(same(&e.seed, &seed), "seed_kept");
        let x = S { v: k };
        check(e.public == P::default().mul(&x, None), "public_key");
        let m = e.marshal_binary().unwrap();
        check(m.len() == 64, "private_length");
        check(and(same(&m[..32], &seed), same(&m[32..], &enc(&e.public))), "private_encoding");
        let mut e2 = eddsa::EdDSA::<Curve>::default();
        e2.unmarshal_binary(&m).unwrap();
        check(and(e2 == e, same(&e2.secret.v, &e.secret.v)), "round_trip");
        let g = eddsa::EdDSA::<Curve>::new(&mut Bytes(seed.clone())).unwrap();
        check(and(same(&g.seed, &seed), and(same(&g.secret.v, &k), same(&g.prefix, &e.prefix))), "generated_from_stream");
        check(g.public == e.public, "generated_public_key");
        let l = choose("len", 60, 68) as usize;
        check(e.unmarshal_binary(&bytes("x", l)).is_ok() == (l == 64), "length_checked");
    }
    h_ed_sign => {
        let e = from_seed(&bytes("seed", 32));
        let m = bytes("m", [0usize, 1, 33, 64, 65, 130, 300][choose("mlen", 0, 6) as usize]);
        let sig = e.sign(&m).unwrap();
        let r = wide(&hash(&[&e.prefix, &m]));
        let rp = P::default().mul(&r, None);
        check(same(&sig[..32], &enc(&rp)), "nonce_commitment");
        let h = wide(&hash(&[&sig[..32], &enc(&e.public), &m]));
        check(same(&sig[32..], &enc(&(r + e.secret * h))), "response");
        let ok = eddsa::verify(&e.public, &m, &sig).is_ok();
        check(ok == !or(small_order(&enc(&rp)), small_order(&enc(&e.public))), "own_signature_verifies");
        check(same(&sig, &e.sign(&m).unwrap()), "deterministic");
    }
    h_ed_verify => {
        let e = from_seed(&bytes("seed", 32));
        let how = choose("change", 0, 7);
        let m = bytes("m", if how == 7 { 130 } else { 3 });
        let mut sig = e.sign(&m).unwrap().to_vec();
        let (mut pk, mut m2) = (enc(&e.public), m.clone());
        match how {
            0 | 7 => { let l = [0, 1, 2, 3, 4, 129, 130, 131][choose("mlen", 0, 7) as usize]; m2 = bytes("other", l); }
            1 => pk = bytes("pk", 32),
            2 => { let o = bytes("sigR", 32); sig[..32].copy_from_slice(&o); }
            3 => { let o = bytes("sigs", 32); sig[32..].copy_from_slice(&o); }
            4 => { let l = choose("slen", 62, 66) as usize; sig.resize(l, 7); }
            5 => { sig = bytes("sig", 64); pk = bytes("pk", 32); }
            // the response plus the group order
            _ => {
                let mut c = 0u32;
                for i in 0..32 {
                    c += sig[32 + i] as u32 + L_LE[i] as u32;
                    sig[32 + i] = c as u8;
                    c >>= 8;
                }
            }
        }
        let ok = eddsa::verify_with_checks(&pk, &m2, &sig).is_ok();
        check(ok == valid(&pk, &m2, &sig), "accepted_iff_equation");
    }
    h_ed_verify_point => {
        // verification under a decoded key, and by the Schnorr verifier
        let e = from_seed(&bytes("seed", 32));
        let how = choose("change", 0, 6);
        let m = bytes("m", if how > 4 { 130 } else { 2 });
        let mut sig = e.sign(&m).unwrap().to_vec();
        let mut a = e.public;
        let mut m2 = m.clone();
        match how {
            0 | 5 => {}
            1 => a = mk_pt(F::var(1, "a")),
            2 => { let o = bytes("sigR", 32); sig[..32].copy_from_slice(&o); }
            3 => { let o = bytes("sigs", 32); sig[32..].copy_from_slice(&o); }
            _ => m2 = bytes("other", m.len()),
        }
        let ok = eddsa::verify(&a, &m2, &sig).is_ok();
        check(ok == valid(&enc(&a), &m2, &sig), "accepted_iff_equation");
        let g = SuiteEd25519::new_blake3_sha256_ed25519();
        check(ok == schnorr::verify(g, &a, &m2, &sig).is_ok(), "schnorr_verifier_agrees");
    }
    h_ed_pair => {
        let x = S { v: arr("x") };
        let pb = |s: &S| P::default().mul(s, None);
        let mk = |s: S| eddsa::EdDSA::<Curve>::from(Pair { private: s, public: pb(&s) });
        let e = mk(x);
        check(and(e.public == pb(&x), same(&e.secret.v, &x.v)), "pair_kept");
        let m = bytes("m", [2usize, 130][choose("long", 0, 1) as usize]);
        let sig = e.sign(&m).unwrap();
        let mut r = P::default();
        check(r.unmarshal_binary(&sig[..32]).is_ok(), "commitment_decodes");
        let ok = eddsa::verify(&e.public, &m, &sig).is_ok();
        check(ok == !or(small_order(&enc(&r)), small_order(&enc(&e.public))), "pair_signature_verifies");
        // the nonce is derived from the message and a secret prefix that no two keys share
        let r2 = wide(&hash(&[&e.prefix, &m]));
        check(same(&sig[..32], &enc(&P::default().mul(&r2, None))), "nonce_from_prefix_and_message");
        check(e.prefix.len() >= 32, "prefix_length");
        check(e.marshal_binary().is_err(), "no_seed_to_encode");
    }
    h_ed_prefix => {
        // no two keys share a nonce prefix
        let (x, y) = (S { v: arr("x") }, S { v: arr("y") });
        let mk = |s: S| eddsa::EdDSA::<Curve>::from(Pair { private: s, public: P::default() });
        let (e, f) = (mk(x), mk(y));
        check(e.prefix.len() >= 32, "prefix_length");
        check(or(!same(&e.prefix, &f.prefix), same(&enc(&x), &enc(&y))), "prefix_depends_on_the_key");
    }
}
