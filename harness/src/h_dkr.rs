//! Distributed key generation (Rabin variant) over the ideal group.
use crate::h_poly::{coeffs, eval};
use crate::h_sig::bytes;
use crate::h_vss::{keys, pt_eval, sig_ok, signed};
use crate::harness;
use crate::intr::*;
use crate::toy::*;
use kyber_rs::share::dkg::rabin::*;
use kyber_rs::share::poly::{recover_secret, PriShare, PubPoly};
use kyber_rs::share::vss::rabin::vss;

type Gen = DistKeyGenerator<G>;
type Share = DistKeyShare<G>;

fn sorted(mut v: Vec<usize>) -> Vec<usize> {
    v.sort();
    v
}
fn gens(n: usize, t: usize) -> (Vec<S>, Vec<P>, Vec<Gen>) {
    nonzero_draws();
    let (x, p) = keys(n, "x");
    let g = (0..n).map(|i| new_dist_key_generator(&G, &x[i], &p, t).unwrap()).collect();
    (x, p, g)
}
/// deals of generator i to everyone else; the one to `victim` carries a wrong share
fn deals_of(g: &mut Gen, victim: Option<usize>) -> Vec<Option<Deal<P>>> {
    let mut saved = None;
    if let Some(v) = victim {
        let d = g.dealer.plaintext_deal(v).unwrap();
        saved = Some(d.clone());
        let w = sv(&nm("wrong", v));
        let sh = d.verif_parts().1;
        assume(!w.0.eq(sh.v.0));
        sh.v = w;
    }
    let n = g.participants.len();
    let mut m = g.deals().unwrap();
    if let Some(v) = victim {
        *g.dealer.plaintext_deal(v).unwrap() = saved.unwrap();
    }
    (0..n).map(|i| m.remove(&i)).collect()
}
fn good_share(s: &Share, i: usize, t: usize) {
    check(s.commits.len() == t && s.share.i == i, "share_index");
    check(s.public().0.eq(s.commits[0].0), "public_key");
    check(s.share.v.0.eq(pt_eval(&s.commits, i as i64 + 1)), "share_on_polynomial");
}
fn recovers(sh: &[Share], t: usize, n: usize) {
    let order = choose("order", 0, sh.len() as i64 - 1) as usize;
    let pick: Vec<Option<PriShare<S>>> = (0..t).map(|k| Some(sh[(k + order) % sh.len()].share.clone())).collect();
    check(recover_secret(G, &pick, t, n).unwrap().0.eq(sh[0].commits[0].0), "secret_behind_key_recovered");
}
#[derive(Clone, Copy, PartialEq)]
enum B {
    Honest,
    Absent,
    Justified,
    Unjustified,
    /// deals, but never reveals its commitments
    Mute,
}
/// a whole run; `silent`'s responses are lost
fn run(n: usize, t: usize, b: &[B], silent: Option<usize>) {
    let (_, _, mut g) = gens(n, t);
    let mut st: Vec<Vec<Option<bool>>> = vec![vec![None; n]; n];
    let mut rs = vec![];
    let mut victims = vec![];
    for i in 0..n {
        let v = (i + 1) % n;
        let cheat = b[i] == B::Justified || b[i] == B::Unjustified;
        let ds = deals_of(&mut g[i], if cheat { Some(v) } else { None });
        if b[i] == B::Absent {
            continue;
        }
        if b[i] == B::Unjustified || (cheat && silent == Some(v)) {
            victims.push(v);
        }
        st[i][i] = Some(true);
        for (k, d) in ds.iter().enumerate() {
            check(d.is_some() == (k != i), "a_deal_for_everyone_else");
            if let Some(d) = d {
                let r = g[k].process_deal(d).unwrap();
                check(r.response.approved == !(cheat && k == v), "complains_iff_cheated");
                check(r.index == i as u32 && r.response.index == k as u32, "response_names_dealer_and_verifier");
                if silent != Some(k) {
                    st[i][k] = Some(r.response.approved);
                    rs.push((k, r));
                }
            }
        }
    }
    let mut js = vec![];
    for (k, r) in &rs {
        for i in 0..n {
            if i != *k {
                let j = g[i].process_response(r);
                // an absent dealer's deal is unknown
                check(j.is_ok(), "response_taken");
                let j = j.unwrap();
                check(j.is_some() == (i == r.index as usize && !r.response.approved), "dealer_justifies_complaints");
                if let Some(j) = j {
                    js.push((i, j));
                }
            }
        }
    }
    for (k, j) in &js {
        if b[*k] == B::Justified {
            let mut d = j.justification.clone();
            st[*k][*d.verif_parts().1 as usize] = Some(true);
            for i in 0..n {
                if i != *k {
                    check(g[i].process_justification(j).is_ok(), "justification_accepted");
                }
            }
        }
    }
    // views of the honest who can be heard and hold no bad share
    let views: Vec<usize> = (0..n).filter(|i| b[*i] != B::Unjustified && silent != Some(*i) && !victims.contains(i)).collect();
    let app = |st: &Vec<Vec<Option<bool>>>, i: usize| st[i].iter().filter(|r| **r == Some(true)).count();
    let early: Vec<usize> = (0..n).filter(|i| st[*i].iter().all(|r| r.is_some()) && app(&st, *i) >= t).collect();
    for i in &views {
        check(sorted(g[*i].qual()) == early, "qualified_before_the_timeout");
    }
    for g in g.iter_mut() {
        g.set_timeout();
    }
    let qual: Vec<usize> = (0..n).filter(|i| app(&st, *i) >= t).collect();
    for i in &views {
        check(sorted(g[*i].qual()) == qual, "qualified_dealers");
        check((0..n).all(|d| g[*i].is_in_qual(d as u32) == qual.contains(&d)), "is_in_qual");
        check(g[*i].certified() == (qual.len() >= t), "certified_iff_threshold");
        check(!g[*i].finished(), "not_finished_without_commitments");
        check(g[*i].dist_key_share().is_err(), "no_key_without_commitments");
    }
    if qual.len() < t {
        reach("no_key");
        return;
    }
    let mut key = F::int(1, 0);
    for i in &qual {
        if b[*i] == B::Mute {
            continue;
        }
        let sc = g[*i].secret_commits().unwrap();
        key = key.add(g[*i].dealer.secret.0);
        for k in &views {
            if k != i {
                check(g[*k].process_secret_commits(&sc).unwrap().is_none(), "commitments_taken");
            }
        }
    }
    let mute = qual.iter().any(|i| b[*i] == B::Mute);
    let mut sh = vec![];
    for i in &views {
        if b[*i] == B::Mute {
            continue;
        }
        check(g[*i].finished() == !mute, "finished_iff_all_revealed");
        match g[*i].dist_key_share() {
            Ok(s) => {
                check(!mute, "no_key_without_commitments");
                good_share(&s, *i, t);
                check(s.commits[0].0.eq(key), "key_is_the_sum_of_the_qualified");
                sh.push(s);
            }
            Err(_) => { check(mute, "key_once_all_revealed"); reach("withheld"); }
        }
    }
    for s in &sh {
        check(s.commits == sh[0].commits, "same_polynomial_everywhere");
    }
    if sh.len() >= t {
        recovers(&sh, t, n);
        reach("key");
    }
}
/// three nodes up to the point where all deals are certified
fn certified(n: usize, t: usize) -> (Vec<S>, Vec<P>, Vec<Gen>) {
    let (x, p, mut g) = gens(n, t);
    let mut rs = vec![];
    for i in 0..n {
        for (k, d) in deals_of(&mut g[i], None).iter().enumerate() {
            if let Some(d) = d {
                rs.push((k, g[k].process_deal(d).unwrap()));
            }
        }
    }
    for (k, r) in &rs {
        for i in 0..n {
            if i != *k {
                g[i].process_response(r).unwrap();
            }
        }
    }
    (x, p, g)
}

harness! {
    h_dr_run => {
        let b = [B::Honest, B::Justified, B::Mute][choose("dealer0", 0, 2) as usize];
        run(3, choose("t", 2, 3) as usize, &[b, B::Honest, B::Honest], None);
    }
    h_dr_wide => {
        // larger groups with slack above the threshold
        use B::*;
        match choose("case", 0, 5) {
            0 => run(5, 3, &[Honest; 5], None),
            1 => run(7, 4, &[Honest; 7], None),
            2 => run(5, 3, &[Justified, Honest, Absent, Honest, Honest], None),
            3 => run(5, 3, &[Honest, Unjustified, Honest, Absent, Honest], Some(4)),
            4 => run(5, 3, &[Absent, Absent, Honest, Honest, Absent], None),
            _ => run(6, 4, &[Honest, Mute, Absent, Honest, Justified, Honest], Some(0)),
        }
    }
    h_dr_run4 => {
        let b = [B::Honest, B::Justified, B::Mute][choose("dealer0", 0, 2) as usize];
        run(4, choose("t", 2, 4) as usize, &[b, B::Honest, B::Honest, B::Honest], None);
    }
    h_dr_faults4 => {
        let b = [B::Honest, B::Absent, B::Justified, B::Unjustified];
        let b0 = b[choose("dealer0", 0, 3) as usize];
        let b3 = b[choose("dealer3", 0, 1) as usize];
        let s = choose("silent", 0, 1) == 1;
        run(4, choose("t", 3, 4) as usize, &[b0, B::Honest, B::Honest, b3], if s { Some(3) } else { None });
    }
    h_dr_faults => {
        let b = [B::Honest, B::Absent, B::Justified, B::Unjustified];
        let b0 = b[choose("dealer0", 0, 3) as usize];
        let b1 = b[choose("dealer1", 0, 1) as usize];
        let b2 = b[choose("dealer2", 0, 1) as usize];
        let s = choose("silent", 0, 1) == 1;
        run(3, choose("t", 2, 3) as usize, &[b0, b1, b2], if s { Some(2) } else { None });
    }
    h_dr_setup => {
        // who can take part, and with which thresholds
        nonzero_draws();
        let (n, t) = (3, choose("t", 0, 4) as usize);
        let (_, p) = keys(n, "x");
        let y = snz("y");
        let mut member = false;
        for q in &p {
            member = or(member, q.0.eq(y.0));
        }
        match new_dist_key_generator(&G, &y, &p, t) {
            Err(_) => { check(!(member && t >= 2 && t <= n), "member_taken"); reach("refused"); }
            Ok(g) => {
                check(and(member, t >= 2 && t <= n), "stranger_or_threshold_refused");
                check(p[g.index as usize].0.eq(y.0) && g.t == t, "index_and_threshold");
                check(!g.certified() && !g.finished() && g.dist_key_share().is_err(), "no_key_at_first");
                reach("taken");
            }
        }
    }
    h_dr_deal => {
        // what a node accepts as a deal
        let (n, t, me) = (3, 2, 1);
        let (x, p, mut g) = gens(n, t);
        let t2 = choose("dealer_t", 2, 3) as usize;
        if t2 != t {
            g[0].dealer = vss::new_dealer(G, x[0], sv("secret"), &p, t2).unwrap();
        }
        let mut m = g[0].dealer.encrypted_deals().unwrap();
        let e2 = g[2].dealer.encrypted_deals().unwrap();
        let good = Deal { index: 0, deal: m.remove(me) };
        let other = m.remove(1);
        let mut d = good.clone();
        match choose("change", 0, 4) {
            0 => {}
            1 => d.index = choose("index", 0, 3) as u32,
            2 => d.deal = other,
            3 => d.deal = e2[me].clone(),
            _ => {
                let (dh, sig, no, ci) = d.deal.verif_parts();
                match choose("part", 0, 3) {
                    0 => { let old = dh.0; *dh = pv("dh"); assume(!dh.0.eq(old)); *sig = bytes("sig", 64); }
                    1 => *sig = bytes("sig", 64),
                    2 => { let old = no.clone(); *no = bytes("nonce", 12); assume(!same(no, &old)); }
                    _ => { let l = ci.len(); ci[l - 1] = bytes("b", 1)[0]; }
                }
            }
        }
        let i = d.index as usize;
        let (mut dd, mut gg) = (d.clone(), good.clone());
        let (a, b) = (dd.deal.verif_parts(), gg.deal.verif_parts());
        use kyber_rs::encoding::BinaryMarshaler;
        let same_deal = and(and(a.0.0.eq(b.0.0), sig_ok(&p[0], &a.0.marshal_binary().unwrap(), a.1)), and(same(a.2, b.2), same(a.3, b.3)));
        let r = g[me].process_deal(&d);
        check(r.is_ok() == and(i == 0 && t2 == t, same_deal), "accepted_iff_the_dealer_sent_it_here_with_the_threshold");
        check(g[me].verifiers.len() == r.is_ok() as usize, "refused_deal_leaves_no_trace");
        if let Ok(r) = r {
            check(r.index == 0 && r.response.index == me as u32 && r.response.approved, "approved");
            check(g[me].process_deal(&d).is_err(), "second_deal_refused");
            reach("accepted");
        } else {
            reach("refused");
        }
    }
    h_dr_response => {
        // what a node does with a response
        let (n, t) = (3, 2);
        let me = 2 * choose("me", 0, 1) as usize;
        let (x, p, mut g) = gens(n, t);
        let ds = deals_of(&mut g[0], None);
        deals_of(&mut g[2], None);
        if me == 2 {
            g[2].process_deal(ds[2].as_ref().unwrap()).unwrap();
        }
        let di = choose("dealer", 0, 3) as usize;
        let vi = choose("verifier", 0, 3) as usize;
        let st = choose("status", 0, 1) == 1;
        let sid = g[0].dealer.session_id();
        let claim = if choose("session", 0, 1) == 0 { sid.clone() } else { bytes("sid", 32) };
        let mut q = vss::Response { session_id: claim.clone(), index: vi as u32, approved: st, signature: vec![] };
        let m = q.hash(&G).unwrap();
        q.signature = if choose("signature", 0, 1) == 0 { signed(&x[choose("signer", 0, 2) as usize], &m) } else { bytes("sig", 64) };
        let sig = vi < n && sig_ok(&p[vi], &m, &q.signature);
        let known = di == 0 || di == me;
        let held = known && (vi == me || vi == di);
        let cur = if di < n && known { g[di].dealer.session_id() } else { claim.clone() };
        let ok = and(known && !held, and(sig, same(&claim, &cur)));
        match g[me].process_response(&Response { index: di as u32, response: q.clone() }) {
            Err(_) => { check(!ok, "authentic_response_accepted"); reach("refused"); }
            Ok(j) => {
                check(ok, "only_authentic_responses_accepted");
                check(j.is_some() == (di == me && !st), "dealer_justifies_complaints_about_its_deal");
                if let Some(j) = j {
                    let mut k = j.justification.clone();
                    let (s, i, d, _) = k.verif_parts();
                    check(j.index == me as u32 && same(s, &cur) && *i == vi as u32 && *d == *g[me].dealer.plaintext_deal(vi).unwrap(), "justification_reveals_that_deal");
                    reach("justified");
                }
                reach("accepted");
            }
        }
    }
    h_dr_messages => {
        // what is signed of a message names every part of it
        let t = [2, 7][choose("size", 0, 1) as usize];
        let f = sv("fresh");
        match choose("kind", 0, 2) {
            0 => {
                let a = SecretCommits::<G> { index: choose("index", 0, 3) as u32, commitments: (0..t).map(|i| pv(&nm("c", i))).collect(), session_id: bytes("sid", 32), signature: vec![] };
                let mut b = a.clone();
                let k = choose("part", 0, t as i64) as usize;
                if k == t {
                    b.index = a.index + [1, 256, 65536, 1 << 24][choose("off", 0, 3) as usize];
                } else {
                    b.commitments[k] = P(f.0);
                    assume(!a.commitments[k].0.eq(f.0));
                }
                check(!same(&a.hash(&G).unwrap(), &b.hash(&G).unwrap()), "commitments_named");
                b = a.clone();
                b.commitments.pop();
                check(!same(&a.hash(&G).unwrap(), &b.hash(&G).unwrap()), "commitments_named");
                check(same(&a.hash(&G).unwrap(), &a.clone().hash(&G).unwrap()), "hash_is_a_function");
                reach("commitments");
            }
            1 => {
                let sh = |l: &str| PriShare { i: 1, v: sv(l) };
                let deal = vss::Deal::<G>::verif_new(bytes("sid", 32), sh("sec"), sh("rnd"), t, (0..t).map(|i| pv(&nm("c", i))).collect());
                let a = ComplaintCommits::<G> { index: 1, dealer_index: 2, deal, signature: vec![] };
                let mut b = a.clone();
                let (sid, sec, rnd, tt, c) = b.deal.verif_parts();
                match choose("part", 0, 8) {
                    0 => b.index = choose("index", 2, 3) as u32,
                    1 => b.dealer_index = choose("dealer", 0, 1) as u32,
                    2 => { assume(!sec.v.0.eq(f.0)); sec.v = f; }
                    3 => { assume(!rnd.v.0.eq(f.0)); rnd.v = f; }
                    4 => *tt += choose("more", 1, 2) as usize,
                    5 => { let k = choose("place", 0, t as i64 - 1) as usize; assume(!c[k].0.eq(f.0)); c[k] = P(f.0); }
                    6 => { let s2 = bytes("sid2", 32); assume(!same(sid, &s2)); *sid = s2; }
                    7 => sec.i = 2,
                    _ => rnd.i = 2,
                }
                check(!same(&a.hash(&G).unwrap(), &b.hash(&G).unwrap()), "complaint_named");
                reach("complaint");
            }
            _ => {
                let a = ReconstructCommits::<G> { session_id: bytes("sid", 32), index: 1, dealer_index: 2, share: PriShare { i: 1, v: sv("v") }, signature: vec![] };
                let mut b = a.clone();
                match choose("part", 0, 3) {
                    0 => b.index = choose("index", 2, 3) as u32,
                    1 => b.dealer_index = choose("dealer", 0, 1) as u32,
                    2 => { assume(!b.share.v.0.eq(f.0)); b.share.v = f; }
                    _ => b.share.i = 2,
                }
                check(!same(&a.hash(&G).unwrap(), &b.hash(&G).unwrap()), "reconstruction_named");
                reach("reconstruction");
            }
        }
    }
    h_dr_commits => {
        // what a node accepts as the revealed commitments of a dealer
        let (n, t, me) = (3, 2, 1);
        let (x, p, mut g) = certified(n, t);
        let sc = g[0].secret_commits().unwrap();
        let sid = sc.session_id.clone();
        check(sc.commitments.len() == t && sc.commitments[0].0.eq(g[0].dealer.secret.0), "own_commitments");
        check(sig_ok(&p[0], &sc.hash(&G).unwrap(), &sc.signature), "commitments_signed");
        let share = g[0].dealer.plaintext_deal(me).unwrap().clone().verif_parts().1.v;
        let mut c = sc.clone();
        match choose("change", 0, 4) {
            0 => {}
            1 => c.index = choose("index", 0, 3) as u32,
            2 => c.session_id = bytes("sid", 32),
            3 => c.signature = bytes("sig", 64),
            _ => {
                c.commitments = (0..choose("len", 0, 3)).map(|i| pv(&nm("c", i as usize))).collect();
                c.signature = signed(&x[0], &c.hash(&G).unwrap());
            }
        }
        let i = c.index as usize;
        let authentic = i < n && and(sig_ok(&p[i], &c.hash(&G).unwrap(), &c.signature), i == 0 && and(same(&c.session_id, &sid), c.commitments.len() == t));
        match g[me].process_secret_commits(&c) {
            Err(_) => { check(!authentic, "authentic_commitments_answered"); reach("refused"); }
            Ok(r) => {
                check(authentic, "only_authentic_commitments_answered");
                let fits = share.0.eq(pt_eval(&c.commitments, me as i64 + 1));
                check(r.is_none() == fits, "complains_iff_own_share_does_not_fit");
                check(g[me].commitments.contains_key(&0) == fits, "stored_iff_they_fit");
                if let Some(mut r) = r {
                    check(r.index == me as u32 && r.dealer_index == 0 && r.deal.verif_parts().1.v.0.eq(share.0), "complaint_reveals_own_deal");
                    check(sig_ok(&p[me], &r.hash(&G).unwrap(), &r.signature), "complaint_signed");
                    reach("complained");
                } else {
                    let (_, k) = g[me].commitments[&0].info();
                    check(k == c.commitments, "stored_as_revealed");
                    reach("accepted");
                }
            }
        }
    }
    h_dr_complaint => {
        // complaints about revealed commitments, at a node that had accepted them
        let (n, t, me) = (3, 2, 2);
        let (x, p, mut g) = certified(n, t);
        let mut sc = g[0].secret_commits().unwrap();
        let cheat = choose("cheat", 0, 1) == 1;
        if cheat {
            // still fits the share of node 2
            let l = snz("l").0;
            sc.commitments[0] = P(sc.commitments[0].0.sub(l.mul(F::int(1, 3))));
            sc.commitments[1] = P(sc.commitments[1].0.add(l));
            sc.signature = signed(&x[0], &sc.hash(&G).unwrap());
        }
        check(g[me].process_secret_commits(&sc).unwrap().is_none(), "fitting_commitments_accepted");
        let v = choose("victim", 0, 2) as usize;
        let deal = g[0].dealer.plaintext_deal(v).unwrap().clone();
        let mut cc = ComplaintCommits::<G> { index: 1, dealer_index: 0, deal, signature: vec![] };
        let mut signer = 1;
        let mut genuine = true;
        match choose("change", 0, 4) {
            0 => {}
            1 => { cc.deal.verif_parts().1.v = sv("v"); genuine = cc.deal.verif_parts().1.v.0.eq(g[0].dealer.plaintext_deal(v).unwrap().clone().verif_parts().1.v.0); }
            2 => signer = choose("signer", 0, 2) as usize,
            3 => cc.dealer_index = choose("dealer", 0, 3) as u32,
            _ => cc.index = choose("index", 0, 3) as u32,
        }
        let h = cc.hash(&G).unwrap();
        cc.signature = signed(&x[signer], &h);
        let issuer = cc.index as usize;
        let misfit = cheat && v != 2;
        let ok = and(issuer < n && cc.dealer_index == 0 && misfit && sig_ok(&p[issuer], &h, &cc.signature), genuine);
        match g[me].process_complaint_commits(&cc) {
            Err(_) => {
                check(!ok, "proved_complaint_answered");
                check(g[me].commitments.contains_key(&0), "commitments_kept");
                reach("refused");
            }
            Ok(r) => {
                check(ok, "only_proved_complaints_answered");
                check(!g[me].commitments.contains_key(&0) && !g[me].finished(), "false_commitments_dropped");
                check(r.index == me as u32 && r.dealer_index == 0 && same(&r.session_id, &sc.session_id), "reconstruction_names");
                let own = g[0].dealer.plaintext_deal(me).unwrap().clone().verif_parts().1.clone();
                check(r.share == own, "own_share_revealed");
                check(sig_ok(&p[me], &r.hash(&G).unwrap(), &r.signature), "reconstruction_signed");
                // a second node's share is enough
                let mut r0 = ReconstructCommits::<G> { session_id: sc.session_id.clone(), index: 1, dealer_index: 0,
                    share: g[0].dealer.plaintext_deal(1).unwrap().clone().verif_parts().1.clone(), signature: vec![] };
                r0.signature = signed(&x[1], &r0.hash(&G).unwrap());
                check(g[me].process_reconstruct_commits(&r).is_ok() && !g[me].commitments.contains_key(&0), "own_share_counts_once");
                let mut bad = r0.clone();
                bad.signature = bytes("sig", 64);
                let forged_ok = sig_ok(&p[1], &bad.hash(&G).unwrap(), &bad.signature);
                check(g[me].process_reconstruct_commits(&bad).is_ok() == forged_ok, "reconstruction_signature_checked");
                check(g[me].process_reconstruct_commits(&r0).is_ok(), "reconstruction_taken");
                let (_, k) = g[me].commitments[&0].info();
                check(k.len() == t && k[0].0.eq(g[0].dealer.secret.0), "true_commitments_reconstructed");
                check(own.v.0.eq(pt_eval(&k, me as i64 + 1)), "true_commitments_reconstructed");
                reach("reconstructed");
            }
        }
    }
    h_dr_reconstruct => {
        // a polynomial is rebuilt from t shares of distinct nodes, once its commitments are gone
        nonzero_draws();
        let (n, t) = (4, choose("t", 2, 3) as usize);
        let (x, p) = keys(n, "x");
        let mut g = new_dist_key_generator(&G, &x[0], &p, t).unwrap();
        let c = coeffs(t, "a");
        let sid = bytes("sid", 32);
        let revealed = choose("revealed", 0, 1) == 1;
        if revealed {
            let cs = vec![pv("c0"), pv("c1")];
            g.commitments.insert(1, PubPoly::new(&G, None, &cs));
        }
        let mut seen = vec![];
        let faulty = choose("faulty", 0, 3) as usize;
        let kind = if faulty < 3 { choose("fault", 1, 4) } else { 0 };
        for k in 0..3 {
            let f = if faulty == k { kind } else { 0 };
            let i = if f == 3 { 4 } else { choose(&nm("who", k), 2, 3) as usize };
            let mut rc = ReconstructCommits::<G> { session_id: sid.clone(), index: i as u32, dealer_index: 1,
                share: PriShare { i, v: S(eval(&c, i as i64 + 1)) }, signature: vec![] };
            if f == 4 {
                // a node's share counts once, under whatever index it comes
                rc.share = PriShare { i: 0, v: S(eval(&c, 1)) };
            }
            let s = if f == 1 { 2 + (i + 1) % 2 } else { i.min(3) };
            rc.signature = signed(&x[s], &rc.hash(&G).unwrap());
            let done = seen.len() >= t;
            let signed_by = i < n && sig_ok(&p[i], &rc.hash(&G).unwrap(), &rc.signature);
            if f == 2 {
                rc.session_id = bytes(&nm("other", k), 32);
                assume(!same(&rc.session_id, &sid));
                // without others to compare with, the first share decides the session
                if seen.is_empty() { continue; }
            }
            let r = g.process_reconstruct_commits(&rc);
            let ok = done || (!revealed && signed_by && f != 2);
            // (a repeated share may be ignored before its session is looked at)
            check(r.is_ok() == ok || (f == 2 && seen.contains(&i)), "share_taken_iff_signed_and_wanted");
            if ok && f != 2 && !done && !seen.contains(&i) {
                seen.push(i);
            }
            if !revealed {
                check(g.commitments.contains_key(&1) == (seen.len() >= t), "rebuilt_iff_enough_shares");
            }
        }
        if !revealed && seen.len() >= t {
            let (_, k) = g.commitments[&1].info();
            for j in 0..t {
                check(k[j].0.eq(c[j].0), "rebuilt_polynomial");
            }
            reach("rebuilt");
        }
    }
}
