//! Verifiable secret sharing (Rabin variant) over the ideal group.
use crate::h_sig::bytes;

use crate::h_vss::{pt_eval, schnorr_zero, sig_ok, signed, world, World};
use crate::harness;
use crate::intr::*;
use crate::toy::*;
use kyber_rs::encoding::BinaryMarshaler;
use kyber_rs::share::poly::PriShare;
use kyber_rs::share::vss::rabin::vss::{self, *};
use std::collections::HashMap;

type Deal = vss::Deal<G>;
type Verifier = vss::Verifier<G>;
type Dealer = vss::Dealer<G>;

fn dealer(w: &World, secret: S, t: usize) -> Dealer {
    new_dealer(G, w.d, secret, &w.xp, t).unwrap()
}
fn verifier(w: &World, i: usize) -> Verifier {
    new_verifier(&G, &w.x[i], &w.dp, &w.xp).unwrap()
}
/// the dealer's encryption of any deal to verifier i
fn encrypt(w: &World, dl: &mut Dealer, i: usize, d: Deal) -> EncryptedDeal<P> {
    *dl.plaintext_deal(i).unwrap() = d;
    let mut e = dl.encrypted_deal(i).unwrap();
    let (dh, sig, _, _) = e.verif_parts();
    let m = dh.marshal_binary().unwrap();
    assume(sig_ok(&w.dp, &m, sig));
    // an ephemeral secret of zero opens for everyone
    assume(!dh.0.is0(1));
    e
}
fn resp(w: &World, i: usize, sid: &[u8], ok: bool) -> Response {
    let mut r = Response { session_id: sid.to_vec(), index: i as u32, approved: ok, signature: vec![] };
    r.signature = signed(&w.x[i], &r.hash(&G).unwrap());
    r
}
fn sid_of(w: &World, c: &[P], t: usize) -> Vec<u8> {
    verif_session_id(&G, &w.dp, &w.xp, c, t)
}
/// the share pair opens the commitment at its index
fn opens(w: &World, c: &[P], i: usize, f: &S, g: &S) -> bool {
    let h = verif_derive_h(G, &w.xp);
    f.0.add(g.0.mul(h.0)).eq(pt_eval(c, i as i64 + 1))
}
fn deal_run(tmax: i64) {
    let n = 3;
    let w = world(n);
    let me = if tmax == 3 { 2 * choose("me", 0, 1) } else { choose("me", 0, n as i64 - 1) } as usize;
    let mut v = verifier(&w, me);
    let t = choose("t", 0, tmax) as usize;
    let c: Vec<P> = (0..choose("commitments", 0, tmax)).map(|i| pv(&nm("c", i as usize))).collect();
    let i = choose("index", 0, n as i64) as usize;
    let gi = if choose("same_index", 0, 1) == 1 { i } else { choose("random_index", 0, n as i64) as usize };
    let (f, g) = (sv("share"), sv("random"));
    let sid = sid_of(&w, &c, t);
    let claim = match choose("session", 0, 2) {
        0 => sid.clone(),
        1 => bytes("sid", 32),
        _ => vec![],
    };
    let mut dl = dealer(&w, sv("secret"), 2);
    let d = Deal::verif_new(claim.clone(), PriShare { i, v: f }, PriShare { i: gi, v: g }, t, c.clone());
    let e = encrypt(&w, &mut dl, me, d.clone());
    let r = v.process_encrypted_deal(&e);
    match r {
        Err(_) => {
            check(i != me, "deal_answered");
            check(v.verif_aggregator().is_none(), "refused_deal_leaves_no_trace");
            reach("misaddressed");
        }
        Ok(r) => {
            check(i == me, "misaddressed_deal_refused");
            let good = and(t >= 2 && t <= n && c.len() == t && i == gi && i < n, same(&claim, &sid));
            check(r.approved == (good && opens(&w, &c, i, &f, &g)), "approved_iff_valid");
            check(r.index == me as u32, "response_index");
            check(same(&r.session_id, &sid), "response_session");
            let m = r.hash(&G).unwrap();
            // a nonce of zero cannot be verified
            check(or(sig_ok(&w.xp[me], &m, &r.signature), schnorr_zero(&r.signature)), "response_signed");
            let (rs, s, dd, t2, bad) = v.verif_aggregator().unwrap().verif_parts();
            check(rs.len() == 1 && rs.get(&(me as u32)) == Some(&r), "response_recorded");
            check(same(s, &sid) && dd == Some(&d) && t2 == t && !bad, "deal_recorded");
            check(v.process_encrypted_deal(&e).is_err(), "second_deal_refused");
            check(v.deal().is_none() || t < 2, "not_certified_alone");
            if r.approved {
                reach("approved");
            } else {
                reach("complained");
            }
        }
    }
}
fn honest(n: usize, t: usize, me: usize) -> (World, Dealer, Verifier) {
    let w = world(n);
    let dl = dealer(&w, sv("secret"), t);
    let v = verifier(&w, me);
    (w, dl, v)
}
fn bad_of(v: &mut Verifier) -> bool {
    v.verif_aggregator().unwrap().verif_parts().4
}

harness! {
    h_vr_deal => {
        deal_run(3);
    }
    h_vr_deal_big => {
        deal_run(4);
    }
    h_vr_cipher => {
        // tampering with an encrypted deal, or giving it to someone else
        let n = 2;
        let w = world(n);
        let mut dl = dealer(&w, sv("secret"), 2);
        let d = dl.plaintext_deal(0).unwrap().clone();
        let e = encrypt(&w, &mut dl, 0, d.clone());
        let mut f = e.clone();
        let mut g = e.clone();
        let (dh0, _, no0, ci0) = g.verif_parts();
        let mut v = verifier(&w, 0);
        {
            let (dh, sig, no, ci) = f.verif_parts();
            match choose("change", 0, 8) {
                0 => {}
                1 => *sig = bytes("sig", 64),
                2 => { *dh = pv("dh"); assume(!dh.0.eq(dh0.0)); if choose("resign", 0, 1) == 1 { *sig = signed(&w.d, &dh.marshal_binary().unwrap()); } }
                3 => { let l = choose("nlen", 10, 14) as usize; *no = bytes("nonce", l); assume(!same(no, no0)); }
                4 => { let l = ci.len(); let k = choose("byte", 0, 3) as usize; let k = [0, 7, l - 17, l - 1][k]; let was = ci[k]; ci[k] = bytes("b", 1)[0]; assume(ci[k] != was); }
                5 => { let k = [0usize, 15, 16, ci.len() - 1][choose("clen", 0, 3) as usize]; ci.truncate(k); }
                6 => *sig = signed(&w.x[1], &dh.marshal_binary().unwrap()),
                7 => v = verifier(&w, 1),
                _ => {
                    let xp = vec![w.xp[1], w.xp[0]];
                    v = new_verifier(&G, &w.x[0], &w.dp, &xp).unwrap();
                }
            }
        }
        let mut f2 = f.clone();
        let (dh, sig, no, ci) = f2.verif_parts();
        let genuine = and(and(dh.0.eq(dh0.0), and(same(no, no0), same(ci, ci0))), sig_ok(&w.dp, &dh.marshal_binary().unwrap(), sig));
        let ours = v.index() == 0;
        match v.decrypt_deal(&f) {
            Ok(mut p) => {
                check(and(genuine, ours), "only_genuine_deals_open");
                check(p == d, "deal_decrypts_to_itself");
                let (_, s, r, _, _) = p.verif_parts();
                check(s.i == 0 && r.i == 0, "deal_index");
                reach("opened");
            }
            Err(_) => { check(!and(genuine, ours), "genuine_deal_opens"); reach("refused"); }
        }
    }
    h_vr_response => {
        // what an aggregator accepts as a response
        let n = 3;
        let me = 0;
        let (w, mut dl, mut v) = honest(n, 2, me);
        let have = choose("deal_first", 0, 1) == 1;
        let d = dl.plaintext_deal(me).unwrap().clone();
        let e = encrypt(&w, &mut dl, me, d);
        if have {
            v.process_encrypted_deal(&e).unwrap();
        }
        let sid = dl.session_id();
        let i = choose("index", 0, n as i64) as usize;
        let claim = if choose("session", 0, 1) == 0 { sid.clone() } else { bytes("sid", 32) };
        let st = choose("status", 0, 1) == 1;
        let mut r = Response { session_id: claim.clone(), index: i as u32, approved: st, signature: vec![] };
        let m = r.hash(&G).unwrap();
        match choose("signature", 0, 2) {
            0 => { let k = choose("signer", 0, n as i64 - 1) as usize; r.signature = signed(&w.x[k], &m); }
            1 => { r.signature = bytes("sig", 64); }
            _ => {
                // a signature on a response that differs in one field
                let mut q = r.clone();
                match choose("field", 0, 2) {
                    0 => q.approved = !st,
                    1 => q.index = choose("other_index", 0, n as i64) as u32,
                    _ => q.session_id = bytes("other_sid", 32),
                }
                r.signature = signed(&w.x[i.min(n - 1)], &q.hash(&G).unwrap());
            }
        }
        let sig = i < n && sig_ok(&w.xp[i], &m, &r.signature);
        let session = same(&claim, &sid);
        let ok = v.process_response(&r).is_ok();
        check(ok == and(sig, and(session, have && i != me)), "accepted_iff_authentic");
        if have {
            let k = v.verif_aggregator().unwrap().verif_parts().0.len();
            check(k == 1 + ok as usize, "stored_iff_accepted");
        }
        if ok {
            check(v.process_response(&r).is_err(), "no_second_response");
            check(*v.verif_aggregator().unwrap().verif_parts().0.get(&(i as u32)).unwrap() == r, "stored_as_received");
        }
        // the dealer's side
        let dr = dl.process_response(&r);
        check(dr.is_ok() == and(sig, session), "dealer_accepts_iff_authentic");
        if let Ok(j) = dr {
            check(j.is_some() == !st, "complaint_is_justified");
            if let Some(mut j) = j {
                let h = { let (s, k, dd, _) = j.verif_parts(); let q = vss::Justification::verif_new(s.clone(), *k, dd.clone(), vec![]); q.verif_hash(G).unwrap() };
                let (s, k, dd, g) = j.verif_parts();
                check(same(s, &sid) && *k == i as u32 && *dd == *dl.plaintext_deal(i).unwrap(), "justification_reveals_that_deal");
                check(or(sig_ok(&w.dp, &h, g), schnorr_zero(g)), "justification_signed");
            }
        }
    }
    h_vr_certified => {
        certified(3);
    }
    h_vr_certified_big => {
        certified(4);
    }
    h_vr_justify => {
        // what a justification may contain
        let n = 3;
        let me = choose("me", 0, 1) as usize;
        let (w, mut dl, mut v) = honest(n, 2, me);
        let sid = dl.session_id();
        let d = dl.plaintext_deal(me).unwrap().clone();
        let c = d.clone().verif_parts().4.clone();
        let e = encrypt(&w, &mut dl, me, d.clone());
        v.process_encrypted_deal(&e).unwrap();
        let who = 2;
        let complained = choose("response", 0, 2);
        if complained > 0 {
            v.process_response(&resp(&w, who, &sid, complained == 1)).unwrap();
        }
        let mut good = dl.plaintext_deal(who).unwrap().clone();
        let mut j = vss::Justification::verif_new(sid.clone(), who as u32, good.clone(), vec![]);
        match choose("change", 0, 9) {
            0 => {}
            1 => good.verif_parts().1.v = sv("v"),
            2 => good.verif_parts().1.i = choose("i", 0, 3) as usize,
            3 => *good.verif_parts().3 = choose("t", 0, 4) as usize,
            4 => *good.verif_parts().4 = vec![pv("c0"), pv("c1")],
            5 => *good.verif_parts().0 = bytes("sid", 32),
            6 => good = dl.plaintext_deal(choose("other", 0, 2) as usize).unwrap().clone(),
            7 => good.verif_parts().2.v = sv("rv"),
            8 => good.verif_parts().2.i = choose("ri", 0, 3) as usize,
            _ => *j.verif_parts().1 = choose("ji", 0, 3) as u32,
        }
        *j.verif_parts().2 = good.clone();
        let ji = *j.verif_parts().1 as usize;
        let has_complaint = ji == who && complained == 2;
        let (s, sh, rn, t, cc) = good.verif_parts();
        let same_c = cc.len() == 2 && and(cc[0].0.eq(c[0].0), cc[1].0.eq(c[1].0));
        let valid = and(and(same(s, &sid), same_c), *t == 2 && sh.i == ji && rn.i == ji && opens(&w, &c, ji, &sh.v, &rn.v));
        let r = v.process_justification(&j);
        check(r.is_ok() == (has_complaint && valid), "accepted_iff_it_answers_the_complaint");
        let (rs, _, dd, _, bad) = v.verif_aggregator().unwrap().verif_parts();
        check(bad == (has_complaint && !valid), "wrong_justification_exposes_dealer");
        check(dd == Some(&d), "own_deal_kept");
        if complained > 0 {
            check(rs[&(who as u32)].approved == (complained == 1 || r.is_ok()), "complaint_settled_iff_justified");
        }
        if r.is_ok() {
            reach("justified");
        }
        if bad_of(&mut v) {
            reach("exposed");
        }
    }
    h_vr_run => {
        // a complete run: t shares recover the secret; a complainer gets its share from the justification
        let (n, t) = [(3usize, 2usize), (3, 3), (5, 3), (8, 5)][choose("size", 0, 3) as usize];
        let w = world(n);
        let secret = sv("secret");
        let mut dl = dealer(&w, secret, t);
        let sid = dl.session_id();
        let mut vs: Vec<Verifier> = (0..n).map(|i| verifier(&w, i)).collect();
        let cheat = choose("cheat", 0, 2);
        let mut rs = vec![];
        for i in 0..n {
            let good = dl.plaintext_deal(i).unwrap().clone();
            let mut d = good.clone();
            if cheat > 0 && i == 1 {
                if cheat == 1 { d.verif_parts().1.v = sv("wrong"); } else { d.verif_parts().2.v = sv("wrong"); }
            }
            let e = encrypt(&w, &mut dl, i, d);
            *dl.plaintext_deal(i).unwrap() = good;
            let r = vs[i].process_encrypted_deal(&e).unwrap();
            assume(sig_ok(&w.xp[i], &r.hash(&G).unwrap(), &r.signature));
            rs.push(r);
        }
        check(dl.commits().is_none() && dl.secret_commit().is_none(), "nothing_revealed_early");
        let mut js = vec![];
        for r in &rs {
            if let Some(j) = dl.process_response(r).unwrap() {
                js.push(j);
            }
            for i in 0..n {
                if r.index != i as u32 {
                    check(vs[i].process_response(r).is_ok(), "response_delivered");
                }
            }
        }
        let complained = !rs[1].approved;
        check(rs[0].approved && rs[2].approved && js.len() == complained as usize, "only_the_cheated_complains");
        for i in 0..n {
            for j in &js {
                check(vs[i].process_justification(j).is_ok(), "justification_accepted");
            }
            check(vs[i].deal_certified(), "certified");
        }
        let deals: Vec<Deal> = vs.iter().map(|v| v.deal().unwrap()).collect();
        let cs = dl.plaintext_deal(0).unwrap().clone().verif_parts().4.clone();
        for (i, d) in deals.iter().enumerate() {
            let mut d = d.clone();
            let (s, sh, rn, t2, c) = d.verif_parts();
            check(same(s, &sid) && *t2 == t && sh.i == i && rn.i == i && *c == cs, "certified_deal_fields");
            check(opens(&w, &cs, i, &sh.v, &rn.v), "certified_share_opens_commitment");
        }
        let order = choose("order", 0, 2) as usize;
        let pick: Vec<Deal> = (0..t).map(|k| deals[(k + order) % n].clone()).collect();
        check(recover_secret(G, pick.clone(), n, t).unwrap().0.eq(secret.0), "secret_recovered");
        check(recover_secret(G, pick[1..].to_vec(), n, t).is_err(), "fewer_than_t_refused");
        let mut mixed = pick.clone();
        let l = mixed.len() - 1;
        let o = bytes("osid", 32);
        *mixed[l].verif_parts().0 = o.clone();
        check(recover_secret(G, mixed, n, t).is_ok() == same(&o, &sid), "sessions_do_not_mix");
        if !complained {
            check(dl.secret_commit().unwrap().0.eq(secret.0), "secret_commitment");
            let fc = dl.commits().unwrap();
            check(fc.len() == t && fc[0].0.eq(secret.0), "revealed_commitments");
            for i in 0..n {
                let v = deals[i].clone().verif_parts().1.v;
                check(v.0.eq(pt_eval(&fc, i as i64 + 1)), "share_matches_revealed_commitments");
            }
        } else {
            reach("justified");
        }
    }
    h_vr_setup => {
        let n = choose("n", 1, 3) as usize;
        let t = choose("t", 0, 4) as usize;
        let w = world(n);
        let secret = sv("secret");
        match new_dealer(G, w.d, secret, &w.xp, t) {
            Err(_) => check(t < 2 || t > n, "dealer_threshold_refused"),
            Ok(mut dl) => {
                check(t >= 2 && t <= n, "dealer_threshold_checked");
                let sid = dl.session_id();
                let c = dl.plaintext_deal(0).unwrap().clone().verif_parts().4.clone();
                check(c.len() == t, "commitments");
                check(same(&sid, &sid_of(&w, &c, t)), "session_of_dealer");
                let mut sh_ = vec![];
                for i in 0..n {
                    let mut d = dl.plaintext_deal(i).unwrap().clone();
                    let (s, sh, rn, t2, cc) = d.verif_parts();
                    check(same(s, &sid) && *t2 == t && sh.i == i && rn.i == i && *cc == c, "deal_fields");
                    check(opens(&w, &c, i, &sh.v, &rn.v), "deal_share");
                    sh_.push(Some(sh.clone()));
                }
                check(kyber_rs::share::poly::recover_secret(G, &sh_, t, n).unwrap().0.eq(secret.0), "shares_of_the_secret");
                check(dl.plaintext_deal(n).is_err() && dl.encrypted_deal(n).is_err(), "no_such_verifier");
                check(dl.secret_commit().is_none() && dl.commits().is_none(), "nothing_revealed_early");
                check(minimum_t(n) == (n + 1) / 2, "minimum_threshold");
            }
        }
        let y = snz("y");
        let r = new_verifier(&G, &y, &w.dp, &w.xp);
        let mut member = false;
        for p in &w.xp {
            member = or(member, p.0.eq(y.0));
        }
        check(r.is_ok() == member, "verifier_iff_listed");
        if let Ok(v) = r {
            check(w.xp[v.index()].0.eq(y.0), "verifier_index");
        }
    }
    h_vr_messages => {
        // what is signed of a response or justification names every part of it
        let t = [2, 7][choose("size", 0, 1) as usize];
        let sid = bytes("sid", 32);
        if choose("kind", 0, 1) == 0 {
            let a = vss::Response { session_id: sid, index: 1, approved: choose("status", 0, 1) == 1, signature: vec![] };
            let mut b = a.clone();
            match choose("part", 0, 2) {
                0 => b.index = 1 + [1, 256, 65536, 1 << 24][choose("off", 0, 3) as usize],
                1 => b.approved = !a.approved,
                _ => { let s2 = bytes("sid2", 32); assume(!same(&b.session_id, &s2)); b.session_id = s2; }
            }
            check(!same(&a.hash(&G).unwrap(), &b.hash(&G).unwrap()), "response_named");
            check(same(&a.hash(&G).unwrap(), &a.clone().hash(&G).unwrap()), "hash_is_a_function");
            reach("response");
        } else {
            let f = sv("fresh");
            let sh = |l: &str| PriShare { i: 1, v: sv(l) };
            let deal = vss::Deal::<G>::verif_new(sid.clone(), sh("sec"), sh("rnd"), t, (0..t).map(|i| pv(&format!("c{i}"))).collect());
            let a = vss::Justification::<G>::verif_new(sid, 1, deal, vec![]);
            let mut b = a.clone();
            let (jsid, k, d, _) = b.verif_parts();
            let (sid, sec, rnd, tt, c) = d.verif_parts();
            match choose("part", 0, 8) {
                0 => *k = 1 + [1, 256, 65536, 1 << 24][choose("off", 0, 3) as usize],
                1 => { let s2 = bytes("sid2", 32); assume(!same(jsid, &s2)); *jsid = s2; }
                2 => { assume(!sec.v.0.eq(f.0)); sec.v = f; }
                3 => *tt += choose("more", 1, 2) as usize,
                4 => { let k = choose("place", 0, t as i64 - 1) as usize; assume(!c[k].0.eq(f.0)); c[k] = P(f.0); }
                5 => { let s2 = bytes("sid2", 32); assume(!same(sid, &s2)); *sid = s2; }
                6 => sec.i = 2,
                7 => { assume(!rnd.v.0.eq(f.0)); rnd.v = f; }
                _ => rnd.i = 2,
            }
            check(!same(&a.verif_hash(G).unwrap(), &b.verif_hash(G).unwrap()), "justification_named");
            reach("justification");
        }
    }
    h_vr_session_wide => {
        // any single part of long lists counts
        let (n, t) = [(5, 3), (9, 9), (33, 20)][choose("size", 0, 2) as usize];
        let w = world(n);
        let c: Vec<P> = (0..t).map(|i| pv(&format!("c{i}"))).collect();
        let (mut xp2, mut c2) = (w.xp.clone(), c.clone());
        let f = pv("fresh");
        let verifiers = choose("list", 0, 1) == 0;
        let l = if verifiers { &mut xp2 } else { &mut c2 };
        let k = [0, 1, 2, l.len() / 2, l.len() - 2, l.len() - 1][choose("place", 0, 5) as usize];
        assume(!l[k].0.eq(f.0));
        l[k] = f;
        let s1 = sid_of(&w, &c, t);
        check(!same(&s1, &verif_session_id(&G, &w.dp, &xp2, &c2, t)), "session_binds_every_part");
        check(same(&s1, &verif_session_id(&G, &w.dp, &w.xp, &c, t)), "session_is_a_function");
        check(same(&context(&G, &w.dp, &w.xp), &context(&G, &w.dp, &xp2)) != verifiers, "context_binds_every_participant");
    }
    h_vr_session => {
        // the session identifier, the encryption context and the second generator bind all their parts
        let (n, t) = (2, 2);
        let w = world(n);
        let c: Vec<P> = vec![pv("c0"), pv("c1")];
        let (dp2, mut xp2, mut c2, mut t2) = (pv("d2"), vec![pv("y0"), pv("y1")], vec![pv("e0"), pv("e1")], t);
        match choose("shape", 0, 3) {
            0 => {}
            1 => t2 = choose("t2", 0, 5) as usize,
            2 => { xp2.push(pv("y2")); c2.pop(); }
            _ => { c2.push(pv("e2")); xp2.pop(); t2 = 3; }
        }
        let eqv = |a: &[P], b: &[P]| a.len() == b.len() && (0..a.len()).fold(true, |e, i| and(e, a[i].0.eq(b[i].0)));
        let s1 = sid_of(&w, &c, t);
        let s2 = verif_session_id(&G, &dp2, &xp2, &c2, t2);
        let all = and(and(dp2.0.eq(w.dp.0), t2 == t), and(eqv(&xp2, &w.xp), eqv(&c2, &c)));
        if t2 == c2.len() {
            check(same(&s1, &s2) == all, "session_binds_everything");
        } else {
            check(!same(&s1, &s2) || t2 == t, "session_binds_threshold");
        }
        check(same(&context(&G, &w.dp, &w.xp), &context(&G, &dp2, &xp2)) == and(dp2.0.eq(w.dp.0), eqv(&xp2, &w.xp)), "context_binds_participants");
    }
}
fn certified(steps: usize) {
    let n = 3;
    let t = choose("t", 2, 3) as usize;
    let (w, mut dl, mut v) = honest(n, t, 0);
    let sid = dl.session_id();
    let d = dl.plaintext_deal(0).unwrap().clone();
    let e = encrypt(&w, &mut dl, 0, d.clone());
    v.process_encrypted_deal(&e).unwrap();
    let mut st: HashMap<usize, bool> = HashMap::new();
    st.insert(0, true);
    let mut bad = false;
    // the history may begin with answers of the other verifiers
    let begun = choose("begun", 0, 2);
    for (i, ok) in [(2, true), (1, false)].into_iter().take(begun as usize) {
        check(v.process_response(&resp(&w, i, &sid, ok)).is_ok(), "first_answer_counts");
        st.insert(i, ok);
    }
    for k in 0..steps {
        let ev = choose(&nm("event", k), 0, 4);
        let i = if ev < 4 { choose(&nm("who", k), 1, 2) as usize } else { 0 };
        match ev {
            0 | 1 => {
                let r = v.process_response(&resp(&w, i, &sid, ev == 0));
                check(r.is_ok() == !st.contains_key(&i), "one_response_each");
                st.entry(i).or_insert(ev == 0);
            }
            2 | 3 => {
                let mut g = dl.plaintext_deal(i).unwrap().clone();
                if ev == 3 {
                    let x = sv(&nm("bad", k));
                    assume(!x.0.eq(g.verif_parts().1.v.0));
                    g.verif_parts().1.v = x;
                }
                let r = v.process_justification(&vss::Justification::verif_new(sid.clone(), i as u32, g, vec![]));
                let open = st.get(&i) == Some(&false);
                check(r.is_ok() == (open && ev == 2), "justification_of_open_complaints_only");
                if open {
                    bad |= ev == 3;
                    if ev == 2 {
                        st.insert(i, true);
                    }
                }
            }
            _ => {
                // whoever has not answered by the timeout counts as complaining
                v.set_timeout();
                for i in 0..n {
                    st.entry(i).or_insert(false);
                }
            }
        }
        let app = st.values().filter(|x| **x).count();
        let enough = app >= t;
        check(v.enough_approvals() == enough, "enough_approvals_counted");
        let ok = enough && st.len() == n && !bad;
        check(v.deal_certified() == ok, "certified_iff_rules");
        check(v.deal().is_some() == ok, "deal_released_iff_certified");
        if ok {
            reach("certified");
        }
    }
}
