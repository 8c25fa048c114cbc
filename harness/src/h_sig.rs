//! Signatures: Schnorr and distributed signing over the ideal group, EdDSA on the curve's own
//! types with group operations abstracted (points and scalars carry field terms).
use crate::harness;
use crate::intr::*;
use crate::toy::*;
use kyber_rs::encoding::{BinaryMarshaler, BinaryUnmarshaler};
use kyber_rs::group::{PointCanCheckCanonicalAndSmallOrder, ScalarCanCheckCanonical};
use kyber_rs::share::poly::{coefficients_to_pri_poly, PriShare};
use kyber_rs::sign::{dss, schnorr};
use kyber_rs::{Point, Scalar};
use sha2::{Digest, Sha512};

pub fn bytes(n: &str, len: usize) -> Vec<u8> {
    let mut b = vec![0u8; len];
    fill(n, &mut b);
    b
}
fn challenge(r: &[u8], a: &[u8], msg: &[u8]) -> S {
    let mut h = Sha512::new();
    h.update(r);
    h.update(a);
    h.update(msg);
    S::default().set_bytes(&h.finalize())
}
/// the verification equation, and nothing else
fn schnorr_valid(public: &P, msg: &[u8], sig: &[u8]) -> bool {
    if sig.len() != 64 {
        return false;
    }
    let (mut r, mut s) = (P::default(), S::default());
    if r.unmarshal_binary(&sig[..32]).is_err() || s.unmarshal_binary(&sig[32..]).is_err() {
        return false;
    }
    let canon = and(r.is_canonical(&sig[..32]), s.is_canonical(&sig[32..]));
    let small = or(r.has_small_order(), public.has_small_order());
    let h = challenge(&r.marshal_binary().unwrap(), &public.marshal_binary().unwrap(), msg);
    and(and(canon, !small), s.0.eq(r.0.add(h.0.mul(public.0))))
}
#[derive(Clone)]
pub struct Key {
    pub c: Vec<P>,
    pub s: PriShare<S>,
}
impl dss::DistKeyShare<G> for Key {
    fn pri_share(&self) -> PriShare<S> {
        self.s.clone()
    }
    fn commitments(&self) -> Vec<P> {
        self.c.clone()
    }
}
/// the shares of a distributed key with the given polynomial
pub fn dkey(c: &[S], n: usize) -> Vec<Key> {
    let p = coefficients_to_pri_poly(&G, c);
    let com: Vec<P> = c.iter().map(|x| P(x.0)).collect();
    (0..n).map(|i| Key { c: com.clone(), s: p.eval(i) }).collect()
}
type Dss = dss::DSS<G, Key>;
struct Group_ {
    c: Vec<S>,
    d: Vec<S>,
    priv_: Vec<S>,
    pubs: Vec<P>,
    m: Vec<u8>,
    parts: Vec<Dss>,
}
fn dss_group(t: usize, n: usize) -> Group_ {
    let (c, d) = (crate::h_poly::coeffs(t, "a"), crate::h_poly::coeffs(t, "b"));
    let priv_: Vec<S> = (0..n).map(|i| snz(&nm("x", i))).collect();
    let pubs: Vec<P> = priv_.iter().map(|x| P(x.0)).collect();
    for i in 0..n {
        for j in 0..i {
            assume(!pubs[i].0.eq(pubs[j].0));
        }
    }
    let m = bytes("m", [3usize, 100][choose("long", 0, 1) as usize]);
    let (lk, rk) = (dkey(&c, n), dkey(&d, n));
    let parts = (0..n).map(|i| dss::new_dss(G, &priv_[i], &pubs, &lk[i], &rk[i], &m, t).unwrap()).collect();
    Group_ { c, d, priv_, pubs, m, parts }
}
fn enc32(x: &impl BinaryMarshaler) -> Vec<u8> {
    x.marshal_binary().unwrap()
}
fn msg_challenge(g: &Group_) -> F {
    challenge(&enc32(&P(g.d[0].0)), &enc32(&P(g.c[0].0)), &g.m).0
}
fn dss_run(steps: usize) {
    let t = choose("t", 1, 3) as usize;
    let n = 3;
    let mut g = dss_group(t, n);
    let h = msg_challenge(&g);
    let me = choose("me", 0, 2) as usize;
    let mut got = 0u32;
    // deliveries of honest partial signatures in any order, with repetitions, and one's own
    for k in 0..steps {
        let who = choose(&nm("step", k), 0, n as i64) as usize;
        if who == n {
            continue;
        }
        let ps = if who == me { g.parts[me].partial_sig().unwrap() } else {
            let ps = g.parts[who].partial_sig().unwrap();
            let r = g.parts[me].process_partial_sig(ps.clone());
            // a key of zero or a nonce of zero cannot be told apart from a forgery
            if r.is_err() && got >> who & 1 == 0 {
                let m = ps.hash(G).unwrap();
                assume(schnorr::verify(G, &g.pubs[who], &m, &ps.signature).is_ok());
            }
            check(r.is_ok() == (got >> who & 1 == 0), "honest_partial_accepted_once");
            ps
        };
        check(ps.partial.i == who, "partial_index");
        let e = crate::h_poly::eval(&g.d, who as i64 + 1).add(h.mul(crate::h_poly::eval(&g.c, who as i64 + 1)));
        check(ps.partial.v.0.eq(e), "partial_equation");
        got |= 1 << who;
    }
    let cnt = got.count_ones() as usize;
    check(g.parts[me].enough_partial_sig() == (cnt >= t), "enough_iff_threshold");
    match g.parts[me].signature() {
        Ok(sig) => {
            check(cnt >= t, "no_signature_below_threshold");
            reach("signed");
            check(sig.len() == 64, "signature_length");
            check(same(&sig[..32], &enc32(&P(g.d[0].0))), "nonce_commitment");
            let mut s = S::default();
            s.unmarshal_binary(&sig[32..]).unwrap();
            check(s.0.eq(g.d[0].0.add(h.mul(g.c[0].0))), "signature_equation");
            let pk = P(g.c[0].0);
            check(schnorr::verify(G, &pk, &g.m, &sig).is_ok() == !or(pk.0.is0(1), g.d[0].0.is0(1)), "distributed_signature_verifies");
        }
        Err(_) => check(cnt < t, "signature_when_enough"),
    }
}
fn dss_setup(t: usize, n: usize) {
    let g = dss_group(t, n);
    let y = snz("y");
    let k = dkey(&g.c, n);
    let r = dss::new_dss(G, &y, &g.pubs, &k[0], &k[0], &g.m, t);
    let member = or(y.0.eq(g.pubs[0].0), y.0.eq(g.pubs[1].0));
    check(r.is_ok() == member, "member_iff_listed");
    if let Ok(d) = r {
        check(g.pubs[d.index].0.eq(y.0), "member_index");
    }
    let c2 = crate::h_poly::coeffs(t, "c");
    let (l2, r2) = if choose("which", 0, 1) == 0 { (dkey(&c2, n), dkey(&g.d, n)) } else { (dkey(&g.c, n), dkey(&c2, n)) };
    let d2 = dss::new_dss(G, &g.priv_[0], &g.pubs, &l2[0], &r2[0], &g.m, t).unwrap();
    let eq = same(&d2.session_id, &g.parts[0].session_id);
    let c_eq = (0..t).fold(true, |e, i| and(e, and(l2[0].c[i].0.eq(g.c[i].0), r2[0].c[i].0.eq(g.d[i].0))));
    check(eq == c_eq, "session_identity");
}

harness! {
    h_schnorr => {
        let x = sv("x");
        let a = P(x.0);
        let m = bytes("m", [0usize, 1, 33, 64, 65, 130, 300][choose("mlen", 0, 6) as usize]);
        let sig = schnorr::sign(&G, &x, &m).unwrap();
        check(sig.len() == 64, "signature_length");
        let ok = schnorr::verify(G, &a, &m, &sig).is_ok();
        let mut r = P::default();
        check(r.unmarshal_binary(&sig[..32]).is_ok(), "commitment_decodes");
        // a signer whose key and nonce are not zero is always believed
        check(ok == !or(x.0.is0(1), r.0.is0(1)), "own_signature_verifies");
        check(ok == schnorr_valid(&a, &m, &sig), "equation_holds");
    }
    h_schnorr_verify => {
        let x = sv("x");
        let a = P(x.0);
        let m = bytes("m", [3usize, 130][choose("long", 0, 1) as usize]);
        let mut sig = schnorr::sign(&G, &x, &m).unwrap();
        let (mut b, mut m2) = (a, m.clone());
        match choose("change", 0, 5) {
            0 => { let l = [0, 1, 2, 3, 4, 5, 129, 130, 131][choose("mlen", 0, 8) as usize]; m2 = bytes("other", l); }
            1 => b = P(F::var(1, "y")),
            2 => { let o = bytes("sigR", 32); sig[..32].copy_from_slice(&o); }
            3 => { let o = bytes("sigs", 32); sig[32..].copy_from_slice(&o); }
            4 => { let l = choose("slen", 62, 66) as usize; sig.resize(l, 7); }
            _ => sig = bytes("sig", 64),
        }
        let ok = schnorr::verify(G, &b, &m2, &sig).is_ok();
        check(ok == schnorr_valid(&b, &m2, &sig), "accepted_iff_equation");
    }
    h_dss => {
        dss_run(3);
    }
    h_dss_wide => {
        // larger groups: the signature appears with the threshold, whoever contributes
        let (n, t, who): (usize, usize, &[usize]) = [(5, 3, &[4usize, 1, 3, 0][..]), (7, 4, &[0, 6, 2, 5, 3]), (9, 5, &[8, 7, 6, 5, 4])][choose("size", 0, 2) as usize];
        let mut g = dss_group(t, n);
        let me = who[1];
        let h = msg_challenge(&g);
        for (k, &i) in who.iter().enumerate() {
            let ps = g.parts[i].partial_sig().unwrap();
            let e = crate::h_poly::eval(&g.d, i as i64 + 1).add(h.mul(crate::h_poly::eval(&g.c, i as i64 + 1)));
            check(ps.partial.i == i && ps.partial.v.0.eq(e), "partial_equation");
            if i != me {
                let m = ps.hash(G).unwrap();
                assume(schnorr::verify(G, &g.pubs[i], &m, &ps.signature).is_ok());
                check(g.parts[me].process_partial_sig(ps.clone()).is_ok(), "honest_partial_accepted_once");
                check(g.parts[me].process_partial_sig(ps).is_err(), "honest_partial_accepted_once");
            }
            check(g.parts[me].enough_partial_sig() == (k + 1 >= t), "enough_iff_threshold");
            match g.parts[me].signature() {
                Ok(sig) => {
                    check(k + 1 >= t, "no_signature_below_threshold");
                    check(sig.len() == 64 && same(&sig[..32], &enc32(&P(g.d[0].0))), "nonce_commitment");
                    let mut s = S::default();
                    s.unmarshal_binary(&sig[32..]).unwrap();
                    check(s.0.eq(g.d[0].0.add(h.mul(g.c[0].0))), "signature_equation");
                    reach("signed");
                }
                Err(_) => check(k + 1 < t, "signature_when_enough"),
            }
        }
    }
    h_dss_big => {
        dss_run(4);
    }
    h_dss_reject => {
        let t = 2;
        let n = 3;
        let mut g = dss_group(t, n);
        let h = msg_challenge(&g);
        let mut ps = g.parts[1].partial_sig().unwrap();
        match choose("change", 0, 7) {
            0 => ps.partial.i = choose("i", 0, 4) as usize,
            1 => ps.partial.v = sv("v"),
            2 => { let l = choose("sidlen", 0, 33) as usize; assume(l == 0 || l == 31 || l == 32 || l == 33); ps.session_id = bytes("sid", l); }
            3 => ps.signature = bytes("sig", 64),
            4 => ps.signature = vec![],
            5 => ps.partial = g.parts[2].partial_sig().unwrap().partial,
            6 => { ps.session_id = bytes("sid", 32); ps.partial.v = sv("v"); }
            _ => { ps.partial.v = sv("v"); ps.partial.i = choose("i", 0, 3) as usize; }
        }
        // signed by anyone
        if choose("resign", 0, 1) == 1 {
            let w = choose("signer", 0, n as i64 - 1) as usize;
            let m = ps.hash(G).unwrap();
            ps.signature = schnorr::sign(&G, &g.priv_[w], &m).unwrap();
        }
        let i = ps.partial.i;
        let mut good = i < n;
        if good {
            let m = ps.hash(G).unwrap();
            let e = crate::h_poly::eval(&g.d, i as i64 + 1).add(h.mul(crate::h_poly::eval(&g.c, i as i64 + 1)));
            good = and(and(schnorr_valid(&g.pubs[i], &m, &ps.signature), same(&ps.session_id, &g.parts[0].session_id)), ps.partial.v.0.eq(e));
        }
        let own = choose("signed", 0, 1) == 1;
        if own {
            g.parts[0].partial_sig().unwrap();
            good = good && i != 0;
        }
        let ok = g.parts[0].process_partial_sig(ps.clone()).is_ok();
        check(ok == good, "accepted_iff_valid");
        check(g.parts[0].partials.len() == own as usize + ok as usize, "stored_iff_accepted");
        if ok {
            check(g.parts[0].process_partial_sig(ps).is_err(), "no_second_partial");
            if !own {
                g.parts[0].partial_sig().unwrap();
                check(g.parts[0].enough_partial_sig() == (i != 0), "own_partial_counted_once");
            }
        }
    }
    h_dss_session_wide => {
        // any single commitment of either key changes the session
        let (n, t) = [(5, 3), (9, 7)][choose("size", 0, 1) as usize];
        let g = dss_group(t, n);
        let (mut c2, mut d2) = (g.c.clone(), g.d.clone());
        let l = if choose("which", 0, 1) == 0 { &mut c2 } else { &mut d2 };
        let k = [0, 1, 2, t / 2, t - 2, t - 1][choose("place", 0, 5) as usize];
        let f = sv("fresh");
        assume(!l[k].0.eq(f.0));
        l[k] = f;
        let d2 = dss::new_dss(G, &g.priv_[0], &g.pubs, &dkey(&c2, n)[0], &dkey(&d2, n)[0], &g.m, t).unwrap();
        check(!same(&d2.session_id, &g.parts[0].session_id), "session_binds_every_commitment");
    }
    h_dss_setup => {
        // session identity binds both keys; outsiders are refused
        let n = 2;
        dss_setup(1, n);
    }
    h_dss_setup_big => {
        dss_setup(2, 2);
    }
}
