//! Distributed key generation and resharing (Pedersen variant) over the ideal group.
use crate::h_poly::{coeffs, eval};
use crate::h_sig::bytes;
use crate::h_vss::{keys, pt_eval, sig_ok, signed};
use crate::harness;
use crate::intr::*;
use crate::toy::*;
use kyber_rs::encoding::BinaryMarshaler;
use kyber_rs::share::dkg::pedersen::structs::*;
use kyber_rs::share::dkg::pedersen::*;
use kyber_rs::share::poly::{coefficients_to_pri_poly, recover_secret, PriShare};
use kyber_rs::share::vss::pedersen::vss::{self, minimum_t};

/// no entropy source of the caller's
#[derive(Clone, Default)]
pub struct NoRead;
impl std::io::Read for NoRead {
    fn read(&mut self, _: &mut [u8]) -> std::io::Result<usize> {
        Ok(0)
    }
}
type Gen = DistKeyGenerator<G, NoRead>;
type Cfg = Config<G, NoRead>;
type Share = DistKeyShare<G>;

fn config(x: S, new: &[P], t: usize) -> Cfg {
    Config {
        suite: G,
        longterm: x,
        old_nodes: vec![],
        public_coeffs: None,
        new_nodes: new.to_vec(),
        share: None,
        threshold: t,
        old_threshold: 0,
        reader: None,
        user_reader_only: false,
    }
}
/// sum of the dealers' polynomials
fn sum(ps: &[&[P]]) -> Vec<P> {
    let n = ps[0].len();
    (0..n).map(|k| P(ps.iter().fold(F::int(1, 0), |a, p| a.add(p[k].0)))).collect()
}
fn same_points(a: &[P], b: &[P]) -> bool {
    a.len() == b.len() && (0..a.len()).fold(true, |e, i| and(e, a[i].0.eq(b[i].0)))
}
fn sorted(mut v: Vec<usize>) -> Vec<usize> {
    v.sort();
    v
}
fn good_share(s: &Share, i: usize, key: &[P]) {
    check(same_points(&s.commits, key), "public_polynomial");
    check(s.public().0.eq(key[0].0), "public_key");
    check(s.share.i == i, "share_index");
    check(s.share.v.0.eq(pt_eval(key, i as i64 + 1)), "share_on_polynomial");
}
/// any t of the shares recover the secret behind the key
fn recovers(sh: &[Share], t: usize, n: usize, key: P) {
    let order = choose("order", 0, sh.len() as i64 - 1) as usize;
    let pick: Vec<Option<PriShare<S>>> = (0..t).map(|k| Some(sh[(k + order) % sh.len()].share.clone())).collect();
    let s = recover_secret(G, &pick, t, n).unwrap();
    check(s.0.eq(key.0), "secret_behind_key_recovered");
}
/// deals of generator i to everyone else; the one to `victim` carries a wrong share
fn deals_of(g: &mut Gen, victim: Option<usize>) -> Vec<Option<Deal<P>>> {
    let mut saved = None;
    if let Some(v) = victim {
        let d = g.dealer.plaintext_deal(v).unwrap();
        saved = Some(d.clone());
        let w = sv(&nm("wrong", v));
        let (_, sh, _, _) = d.verif_parts();
        assume(!w.0.eq(sh.v.0));
        sh.v = w;
    }
    let n = g.c.new_nodes.len();
    let mut m = g.deals().unwrap();
    if let Some(v) = victim {
        *g.dealer.plaintext_deal(v).unwrap() = saved.unwrap();
    }
    (0..n).map(|i| m.remove(&i)).collect()
}

fn run(n: usize, t: usize, cheat: bool) {
    nonzero_draws();
    let (x, p) = keys(n, "x");
    let mut g: Vec<Gen> = (0..n).map(|i| new_dist_key_generator(G, x[i], &p, t).unwrap()).collect();
    let poly: Vec<Vec<P>> = g.iter().map(|g| g.dealer.commits()).collect();
    let mut rs = vec![];
    for i in 0..n {
        check(g[i].expected_deals() == n - 1, "expected_deals");
        let ds = deals_of(&mut g[i], if cheat && i == 0 { Some(1) } else { None });
        for (k, d) in ds.iter().enumerate() {
            check(d.is_some() == (k != i), "a_deal_for_everyone_else");
            if let Some(d) = d {
                let r = g[k].process_deal(d).unwrap();
                check(r.response.status == !(cheat && i == 0 && k == 1), "complains_iff_cheated");
                check(r.index == i as u32 && r.response.index == k as u32, "response_names_dealer_and_verifier");
                rs.push((k, r));
            }
        }
    }
    let mut js = vec![];
    for (k, r) in &rs {
        for i in 0..n {
            if i != *k {
                let j = g[i].process_response(r).unwrap();
                check(j.is_some() == (i == r.index as usize && !r.response.status), "dealer_justifies_complaints");
                if let Some(j) = j {
                    js.push((i, j));
                }
            }
        }
    }
    for i in 0..n {
        check(g[i].certified() == (!cheat || i == 0), "unjustified_complaint_blocks");
        for (k, j) in &js {
            if i != *k {
                check(g[i].process_justification(j).is_ok(), "justification_accepted");
            }
        }
    }
    let ps: Vec<&[P]> = poly.iter().map(|p| &p[..]).collect();
    let key = sum(&ps);
    let mut sh = vec![];
    for i in 0..n {
        check(g[i].certified() && g[i].threshold_certified(), "certified");
        check(sorted(g[i].qual()) == (0..n).collect::<Vec<_>>() && g[i].is_in_qual(i as u32) && !g[i].is_in_qual(n as u32), "everyone_qualified");
        check(g[i].qualified_shares() == (0..n).collect::<Vec<_>>(), "everyone_holds_a_share");
        let s = g[i].dist_key_share().unwrap();
        good_share(&s, i, &key);
        check((0..t).fold(true, |e, k| and(e, s.private_poly[k].0.eq(poly[i][k].0))), "own_polynomial_kept");
        sh.push(s);
    }
    recovers(&sh, t, n, key[0]);
    reach("generated");
}

#[derive(Clone, Copy, PartialEq)]
enum B {
    Honest,
    Absent,
    Justified,
    Unjustified,
}
/// dealers that stay away or cheat, a node whose responses are lost, and the timeout
fn faults(n: usize, t: usize, b: &[B], silent: Option<usize>) {
    nonzero_draws();
    let (x, p) = keys(n, "x");
    let mut g: Vec<Gen> = (0..n).map(|i| new_dist_key_generator(G, x[i], &p, t).unwrap()).collect();
    let poly: Vec<Vec<P>> = g.iter().map(|g| g.dealer.commits()).collect();
    // what each deal's responses look like to the others: None is missing
    let mut st: Vec<Vec<Option<bool>>> = vec![vec![None; n]; n];
    let mut rs = vec![];
    for i in 0..n {
        let v = (i + 1) % n;
        let cheat = b[i] == B::Justified || b[i] == B::Unjustified;
        let ds = deals_of(&mut g[i], if cheat { Some(v) } else { None });
        if b[i] == B::Absent {
            continue;
        }
        st[i][i] = Some(true);
        for (k, d) in ds.iter().enumerate() {
            if let Some(d) = d {
                let r = g[k].process_deal(d).unwrap();
                check(r.response.status == !(cheat && k == v), "complains_iff_cheated");
                if silent != Some(k) {
                    st[i][k] = Some(r.response.status);
                    rs.push((k, r));
                }
            }
        }
    }
    let mut js = vec![];
    for (k, r) in &rs {
        for i in 0..n {
            if i != *k {
                if let Some(j) = g[i].process_response(r).unwrap() {
                    js.push((i, j));
                }
            }
        }
    }
    for (k, j) in &js {
        if b[*k] == B::Justified {
            st[*k][j.justification_index()] = Some(true);
            for i in 0..n {
                if i != *k {
                    check(g[i].process_justification(j).is_ok(), "justification_accepted");
                }
            }
        }
    }
    let views: Vec<usize> = (0..n).filter(|i| b[*i] != B::Unjustified && silent != Some(*i)).collect();
    let full = (0..n).all(|i| st[i].iter().all(|r| *r == Some(true)));
    for i in &views {
        check(g[*i].certified() == full, "certified_early_iff_faultless");
    }
    for g in g.iter_mut() {
        g.set_timeout();
    }
    let qual: Vec<usize> = (0..n).filter(|i| {
        let app = st[*i].iter().filter(|r| **r == Some(true)).count();
        let bad = st[*i].iter().any(|r| *r == Some(false));
        let missing = st[*i].iter().filter(|r| r.is_none()).count();
        !bad && app >= t && missing <= n - t
    }).collect();
    // holders with a response on every deal that was made and has no open complaint
    let holders: Vec<usize> = (0..n).filter(|h| (0..n).all(|i| st[i][i].is_none() || st[i].iter().any(|r| *r == Some(false)) || st[i][*h].is_some())).collect();
    let mut sh = vec![];
    for i in &views {
        let g = &g[*i];
        check(sorted(g.qual()) == qual, "qualified_dealers");
        check((0..n).all(|d| g.is_in_qual(d as u32) == qual.contains(&d)), "is_in_qual");
        check(g.threshold_certified() == (qual.len() >= t), "threshold_certified");
        if b[*i] != B::Absent {
            check(g.qualified_shares() == holders, "qualified_shares");
        }
        match g.dist_key_share() {
            Ok(s) => {
                check(qual.len() >= t, "no_key_without_threshold");
                let ps: Vec<&[P]> = qual.iter().map(|i| &poly[*i][..]).collect();
                good_share(&s, *i, &sum(&ps));
                sh.push(s);
            }
            Err(_) => {
                check(qual.len() < t, "key_once_threshold_is_reached");
                reach("no_key");
            }
        }
    }
    if sh.len() >= t {
        recovers(&sh, t, n, sh[0].commits[0]);
        reach("key");
    }
}
trait Ji {
    fn justification_index(&self) -> usize;
}
impl Ji for Justification<G> {
    fn justification_index(&self) -> usize {
        let mut j = self.justification.clone();
        *j.verif_parts().1 as usize
    }
}

#[derive(Clone, Copy, PartialEq)]
enum Old {
    Honest,
    Absent,
    /// deals another secret, and insists
    Forged,
    /// a wrong share, justified later
    Justified,
}
/// resharing from nodes 0..no (threshold `to`) to the nodes listed
fn reshare(no: usize, to: usize, new: &[usize], t: usize, bad: Old, silent: bool) {
    nonzero_draws();
    let nn = new.len();
    let all = no.max(new.iter().max().unwrap() + 1);
    let (x, p) = keys(all, "x");
    let c = coeffs(to, "a");
    let com: Vec<P> = c.iter().map(|a| P(a.0)).collect();
    let pp = coefficients_to_pri_poly(&G, &c);
    let newp: Vec<P> = new.iter().map(|i| p[*i]).collect();
    let nodes: Vec<usize> = (0..all).filter(|i| *i < no || new.contains(i)).collect();
    let mut g: Vec<Gen> = nodes.iter().map(|i| {
        let mut cfg = config(x[*i], &newp, t);
        cfg.old_nodes = p[..no].to_vec();
        cfg.old_threshold = to;
        if *i < no {
            let mut s = pp.eval(*i);
            if *i == 2 && bad == Old::Forged {
                s.v = sv("forged");
                assume(!s.v.0.eq(pp.eval(2).v.0));
            }
            cfg.share = Some(DistKeyShare { commits: com.clone(), share: s, private_poly: c.clone() });
        } else {
            cfg.public_coeffs = Some(com.clone());
        }
        new_dist_key_handler(cfg).unwrap()
    }).collect();
    let at = |i: usize| nodes.iter().position(|k| *k == i).unwrap();
    for k in 0..nodes.len() {
        let isnew = new.contains(&nodes[k]);
        let isold = nodes[k] < no;
        check(g[k].expected_deals() == if isnew { no - isold as usize } else { 0 }, "expected_deals");
        check(g[k].can_issue == isold && g[k].can_receive == isnew, "roles");
    }
    let mut rs = vec![];
    for i in 0..no {
        let lie = i == 2 && bad == Old::Justified;
        let ds = deals_of(&mut g[i], if lie { Some(0) } else { None });
        check(ds.iter().all(|d| d.is_some()), "a_deal_for_every_new_node");
        if i == 2 && bad == Old::Absent {
            continue;
        }
        for (k, d) in ds.iter().enumerate() {
            let d = d.clone().unwrap();
            let r = g[at(new[k])].process_deal(&d).unwrap();
            check(r.response.status == !(i == 2 && (bad == Old::Forged || (lie && k == 0))), "complains_iff_wrong_share_or_secret");
            let mut m = vss::Response { signature: vec![], ..r.response.clone() };
            let h = m.hash(&G).unwrap();
            m.signature = r.response.signature.clone();
            check(sig_ok(&newp[k], &h, &m.signature), "response_signed");
            if !(silent && k == 0) {
                rs.push((new[k], r));
            }
        }
    }
    let mut js = vec![];
    for (k, r) in &rs {
        for i in 0..nodes.len() {
            if nodes[i] != *k {
                let res = g[i].process_response(r);
                // a forger's complaint about its own deal may already be assumed
                check(res.is_ok() || (bad == Old::Forged && r.index == 2 && (*k == 2 || nodes[i] == 2)), "response_taken");
                if let Some(j) = res.unwrap_or(None) {
                    check(!r.response.status && nodes[i] == r.index as usize, "dealer_justifies_complaints");
                    js.push((nodes[i], j));
                }
            }
        }
    }
    for (k, j) in &js {
        for i in 0..nodes.len() {
            if nodes[i] != *k && new.contains(&nodes[i]) {
                let r = g[i].process_justification(j);
                check(r.is_ok() == (bad == Old::Justified), "another_secret_cannot_be_justified");
            }
        }
    }
    for (k, i) in new.iter().enumerate() {
        // without a timeout, everybody must have answered every old node's deal
        if !((*i == 2 && bad != Old::Honest) || (silent && k == 0)) {
            let all = !silent && (bad == Old::Honest || bad == Old::Justified);
            check(g[at(*i)].certified() == all, "certified_early_iff_faultless");
        }
    }
    for g in g.iter_mut() {
        g.set_timeout();
    }
    // who counts: with a silent new node, deals have one response less
    let enough = !silent || t < nn;
    let mut qual: Vec<usize> = if enough { (0..no).collect() } else { vec![] };
    if bad == Old::Absent || bad == Old::Forged {
        qual.retain(|i| *i != 2);
    }
    if bad == Old::Justified && silent {
        // the complaint is lost with the silent node
    }
    let mut sh = vec![];
    for (k, i) in new.iter().enumerate() {
        // a forger's own view, and that of a node that cannot be heard, do not matter
        if (*i == 2 && bad != Old::Honest) || (silent && k == 0) {
            continue;
        }
        let g = &g[at(*i)];
        check(sorted(g.qual()) == qual, "qualified_dealers");
        match g.dist_key_share() {
            Ok(s) => {
                check(enough, "no_key_without_threshold");
                check(s.commits.len() == t && s.commits[0].0.eq(com[0].0), "public_key_unchanged");
                check(s.share.i == k && s.share.v.0.eq(pt_eval(&s.commits, k as i64 + 1)), "share_on_new_polynomial");
                sh.push(s);
            }
            Err(_) => {
                check(!enough, "key_once_threshold_is_reached");
                reach("no_key");
            }
        }
    }
    for s in &sh {
        check(same_points(&s.commits, &sh[0].commits), "same_new_polynomial");
    }
    if sh.len() >= t {
        let pick: Vec<Option<PriShare<S>>> = sh[..t].iter().map(|s| Some(s.share.clone())).collect();
        check(recover_secret(G, &pick, t, nn).unwrap().0.eq(c[0].0), "secret_unchanged");
        reach("reshared");
    }
    for i in 0..no {
        if !new.contains(&i) {
            check(g[at(i)].dist_key_share().is_err(), "leaving_node_gets_no_share");
        }
    }
}

harness! {
    h_dp_run => {
        run(3, choose("t", 2, 3) as usize, choose("cheat", 0, 1) == 1);
    }
    h_dp_faults => {
        let b = [B::Honest, B::Absent, B::Justified, B::Unjustified];
        let b0 = b[choose("dealer0", 0, 3) as usize];
        let b1 = b[choose("dealer1", 0, 1) as usize];
        let b2 = b[choose("dealer2", 0, 3) as usize];
        let s = choose("silent", 0, 1) == 1;
        faults(3, choose("t", 2, 3) as usize, &[b0, b1, b2], if s { Some(2) } else { None });
    }
    h_dp_wide => {
        // larger groups with slack above the threshold
        use B::*;
        match choose("case", 0, 5) {
            0 => run(5, 3, choose("cheat", 0, 1) == 1),
            1 => run(7, 4, false),
            2 => faults(5, 3, &[Justified, Honest, Absent, Honest, Honest], None),
            3 => faults(5, 3, &[Honest, Unjustified, Honest, Absent, Honest], Some(4)),
            4 => faults(5, 3, &[Absent, Unjustified, Honest, Honest, Absent], None),
            _ => faults(6, 4, &[Honest, Honest, Absent, Honest, Justified, Honest], Some(1)),
        }
    }
    h_dp_run4 => {
        run(4, choose("t", 2, 4) as usize, choose("cheat", 0, 1) == 1);
    }
    h_dp_faults4 => {
        let b = [B::Honest, B::Absent, B::Justified, B::Unjustified];
        let b0 = b[choose("dealer0", 0, 3) as usize];
        let b3 = b[choose("dealer3", 0, 3) as usize];
        let s = choose("silent", 0, 1) == 1;
        faults(4, choose("t", 3, 4) as usize, &[b0, B::Honest, B::Honest, b3], if s { Some(3) } else { None });
    }
    h_dp_reshare => {
        let bad = [Old::Honest, Old::Absent, Old::Forged, Old::Justified][choose("bad", 0, 3) as usize];
        let new: &[usize] = [&[0, 1, 2], &[3, 2, 1], &[3, 4, 5]][choose("layout", 0, 2) as usize];
        reshare(3, 2, new, choose("t", 2, 3) as usize, bad, choose("silent", 0, 1) == 1);
    }
    h_dp_reshare_wide => {
        // groups that grow and shrink, with slack above the thresholds
        use Old::*;
        match choose("case", 0, 6) {
            0 => reshare(3, 2, &[0, 1, 2, 3, 4], 3, Honest, false),
            1 => reshare(5, 3, &[1, 5], 2, Honest, false),
            2 => reshare(5, 4, &[6, 4, 0], 2, Absent, false),
            3 => reshare(3, 2, &[4, 1, 3, 0, 5], 4, Absent, true),
            4 => reshare(3, 3, &[0, 1, 3, 4], 2, Honest, true),
            5 => reshare(4, 3, &[0, 1, 4, 5, 6], 3, Justified, false),
            _ => reshare(4, 2, &[0, 1, 3, 4, 5], 3, Forged, false),
        }
    }
    h_dp_collude => {
        // a dealer that reshares another secret to one node, helped by the other new nodes
        nonzero_draws();
        let (no, nn, to) = (3, 3, 2);
        let t = choose("t", 2, 3) as usize;
        let (x, p) = keys(6, "x");
        let c = coeffs(to, "a");
        let com: Vec<P> = c.iter().map(|a| P(a.0)).collect();
        let pp = coefficients_to_pri_poly(&G, &c);
        let newp = [p[3], p[4], p[5]];
        let mk = |i: usize, v: Option<S>| {
            let mut cfg = config(x[i], &newp, t);
            cfg.old_nodes = p[..no].to_vec();
            cfg.old_threshold = to;
            if i < no {
                let mut s = pp.eval(i);
                s.v = v.unwrap_or(s.v);
                cfg.share = Some(DistKeyShare { commits: com.clone(), share: s, private_poly: c.clone() });
            } else {
                cfg.public_coeffs = Some(com.clone());
            }
            new_dist_key_handler::<G, NoRead>(cfg).unwrap()
        };
        let mut me = mk(4, None);
        let f = sv("forged");
        let forged = !f.0.eq(pp.eval(2).v.0);
        let before = choose("before", 0, 1) == 1;
        let say = |g: &Gen, k: usize, ok: bool| {
            let mut r = vss::Response { session_id: g.dealer.session_id(), index: k as u32, status: ok, signature: vec![] };
            r.signature = signed(&x[no + k], &r.hash(&G).unwrap());
            Response { index: g.oidx as u32, response: r }
        };
        for i in [0, 2] {
            let mut g = mk(i, if i == 2 { Some(f) } else { None });
            let d = g.deals().unwrap().remove(&1).unwrap();
            let helpers = [say(&g, 0, true), say(&g, 2, true)];
            if before {
                for r in &helpers { me.process_response(r).unwrap(); }
            }
            let r = me.process_deal(&d).unwrap();
            check(r.response.status == !(i == 2 && forged), "complains_iff_another_secret");
            if !before {
                for r in &helpers { me.process_response(r).unwrap(); }
            }
            check(me.is_in_qual(i as u32) == r.response.status, "own_complaint_counts");
            if i == 2 && forged {
                let j = vss::Justification::verif_new(g.dealer.session_id(), 1, g.dealer.plaintext_deal(1).unwrap().clone(), vec![]);
                check(me.process_justification(&Justification { index: 2, justification: j }).is_err(), "another_secret_cannot_be_justified");
                me.set_timeout();
                check(!me.is_in_qual(2) && me.dist_key_share().is_err(), "one_good_deal_is_not_enough");
                reach("forged");
            } else if i == 2 {
                let s = me.dist_key_share().unwrap();
                check(s.commits.len() == t && s.commits[0].0.eq(com[0].0), "public_key_unchanged");
                reach("reshared");
            }
        }
    }
    h_dp_deal => {
        // what a node accepts as a deal
        nonzero_draws();
        let (n, me) = (3, 1);
        let t = choose("t", 2, 3) as usize;
        let (x, p) = keys(n, "x");
        let mut g: Vec<Gen> = (0..n).map(|i| new_dist_key_generator(G, x[i], &p, t).unwrap()).collect();
        let t2 = choose("dealer_t", 2, 3) as usize;
        if t2 != t {
            g[0] = new_dist_key_generator(G, x[0], &p, t2).unwrap();
        }
        let ds = deals_of(&mut g[0], None);
        let e = deals_of(&mut g[2], None);
        let good = ds[me].clone().unwrap();
        let mut d = good.clone();
        let sign = |d: &mut Deal<P>, k: usize| d.signature = signed(&x[k], &d.marshal_binary().unwrap());
        match choose("change", 0, 6) {
            0 => {}
            1 => d.index = choose("index", 0, 3) as u32,
            2 => { d.index = choose("index", 0, 3) as u32; sign(&mut d, 2); }
            3 => d.signature = bytes("sig", 64),
            4 => { d = ds[2].clone().unwrap(); if choose("resign", 0, 1) == 1 { sign(&mut d, 0); } }
            5 => { d.deal = e[me].clone().unwrap().deal; sign(&mut d, 0); }
            _ => { let l = choose("siglen", 0, 2) as usize; d.signature = bytes("sig", [0, 32, 65][l]); }
        }
        let i = d.index as usize;
        let authentic = i < n && sig_ok(&p[i], &d.marshal_binary().unwrap(), &d.signature);
        let mut dd = d.clone();
        let mut gg = good.clone();
        let (a, b) = (dd.deal.verif_parts(), gg.deal.verif_parts());
        let same_deal = and(and(a.0.0.eq(b.0.0), same(a.1, b.1)), and(same(a.2, b.2), same(a.3, b.3)));
        let r = g[me].process_deal(&d);
        let sent = and(authentic, i == 0 && same_deal);
        if t2 == t {
            check(r.is_ok() == sent, "accepted_iff_the_dealer_sent_it_here");
        } else {
            check(sent || r.is_err(), "accepted_iff_the_dealer_sent_it_here");
            check(r.map_or(true, |r| !r.response.status), "deal_of_another_threshold_not_approved");
            check(!g[me].qual().contains(&0), "deal_of_another_threshold_not_qualified");
            reach("foreign_threshold");
            return;
        }
        for k in 0..n {
            let v = &g[me].verifiers()[&(k as u32)];
            check(v.responses().is_empty() == !(k == 0 && r.is_ok()), "only_that_dealer_s_state_changes");
        }
        if let Ok(r) = r {
            check(r.index == 0 && r.response.index == me as u32 && r.response.status, "approved");
            check(g[me].process_deal(&d).is_err(), "second_deal_refused");
            let v = &g[me].verifiers()[&0];
            check(v.responses().len() == 2 && v.responses()[&0].status, "dealer_approves_its_own_deal");
            reach("accepted");
        } else {
            check(g[me].process_deal(&good).is_ok(), "forgery_does_not_block_the_real_deal");
            reach("refused");
        }
    }
    h_dp_response => {
        // what a node does with a response
        nonzero_draws();
        let (n, t) = (3, 2);
        let me = 2 * choose("me", 0, 1) as usize;
        let (x, p) = keys(n, "x");
        let mut g: Vec<Gen> = (0..n).map(|i| new_dist_key_generator(G, x[i], &p, t).unwrap()).collect();
        let ds = deals_of(&mut g[0], None);
        deals_of(&mut g[2], None);
        if me == 2 {
            g[2].process_deal(ds[2].as_ref().unwrap()).unwrap();
        }
        let sid = g[0].dealer.session_id();
        let di = choose("dealer", 0, 3) as usize;
        let vi = choose("verifier", 0, 3) as usize;
        let st = choose("status", 0, 1) == 1;
        let claim = if choose("session", 0, 1) == 0 { sid.clone() } else { bytes("sid", 32) };
        let mut q = vss::Response { session_id: claim.clone(), index: vi as u32, status: st, signature: vec![] };
        let m = q.hash(&G).unwrap();
        q.signature = if choose("signature", 0, 1) == 0 { signed(&x[choose("signer", 0, 2) as usize], &m) } else { bytes("sig", 64) };
        let sig = vi < n && sig_ok(&p[vi], &m, &q.signature);
        // node me knows the deals of 0 and itself
        let known = di == 0 || di == me;
        let held = known && (vi == me || vi == di);
        let cur = if di < n && known { g[di].dealer.session_id() } else { claim.clone() };
        let ok = and(di < n && !held, and(sig, same(&claim, &cur)));
        match g[me].process_response(&Response { index: di as u32, response: q.clone() }) {
            Err(_) => { check(!ok, "authentic_response_accepted"); reach("refused"); }
            Ok(j) => {
                check(ok, "only_authentic_responses_accepted");
                check(j.is_some() == (di == me && !st), "dealer_justifies_complaints_about_its_deal");
                let v = &g[me].verifiers()[&(di as u32)];
                check(v.responses()[&(vi as u32)].status == (st || j.is_some()), "response_recorded");
                if let Some(j) = j {
                    let mut k = j.justification.clone();
                    let (s, i, d, _) = k.verif_parts();
                    check(j.index == me as u32 && same(s, &cur) && *i == vi as u32 && *d == *g[me].dealer.plaintext_deal(vi).unwrap(), "justification_reveals_that_deal");
                    reach("justified");
                }
                reach("accepted");
            }
        }
    }
    h_dp_handler => {
        // which configurations are taken, and what they mean
        nonzero_draws();
        let (x, p) = keys(4, "x");
        let lists = |k: i64| -> Vec<P> {
            match k {
                0 => vec![],
                1 => vec![p[0], p[1], p[2]],
                2 => vec![p[1], p[2], p[3]],
                3 => vec![p[1], p[0]],
                _ => vec![p[0], p[1], p[1]],
            }
        };
        let has_me = |k: i64| k == 1 || k == 3 || k == 4;
        let new = choose("new", 0, 4);
        let old = choose("old", 0, 4);
        let t = choose("t", 0, 4) as usize;
        let mut c = config(x[0], &lists(new), t);
        c.old_nodes = lists(old);
        c.old_threshold = 2 * choose("old_t", 0, 1) as usize;
        let share = choose("share", 0, 1) == 1;
        let coeffs_ = choose("coeffs", 0, 1) == 1;
        let cs = vec![pv("c0"), pv("c1")];
        if share {
            c.share = Some(DistKeyShare { commits: cs.clone(), share: PriShare { i: 0, v: sv("v") }, private_poly: vec![] });
        }
        if coeffs_ {
            c.public_coeffs = Some(cs.clone());
        }
        let re = share || coeffs_;
        let nn = c.new_nodes.len();
        let tt = if t == 0 { minimum_t(nn) } else { t };
        let issue = share || (!re && has_me(new));
        let dealers = if !re && has_me(new) { new } else { old };
        let ok = (has_me(new) || has_me(old))
            && !(re && (old == 0 || c.old_threshold == 0))
            && !(issue && (tt < 2 || tt > nn))
            && !(has_me(new) && dealers == 4);
        match new_dist_key_handler(c) {
            Err(_) => { check(!ok, "valid_configuration_taken"); reach("refused"); }
            Ok(g) => {
                check(ok, "invalid_configuration_refused");
                check(g.can_issue == issue && g.can_receive == has_me(new) && g.is_resharing == re, "roles");
                check(g.new_t == tt, "threshold_default");
                check(g.verifiers().len() == if has_me(new) { lists(dealers).len() } else { 0 }, "a_verifier_per_dealer");
                // (an empty new list has no threshold worth naming)
                check(nn == 0 || (!g.threshold_certified() && !g.certified()), "nothing_certified_at_first");
                check(g.dist_key_share().is_err(), "no_key_at_first");
                reach("taken");
            }
        }
    }
    h_dp_renew => {
        // renewing a share with one of a polynomial whose secret is zero
        let n = choose("n", 1, 3) as usize;
        let m = choose("m", 0, 3) as usize;
        let (a, b) = (coeffs(n, "a"), coeffs(m, "b"));
        let i = choose("i", 0, 1) as usize;
        let k = choose("k", 0, 1) as usize;
        let mk = |c: &[S], i: usize| DistKeyShare::<G> {
            commits: c.iter().map(|x| P(x.0)).collect(),
            share: PriShare { i, v: S(eval(c, i as i64 + 1)) },
            private_poly: c.to_vec(),
        };
        let (d, z) = (mk(&a, i), mk(&b, k));
        let zero = m > 0 && b[0].0.is0(1);
        match d.renew(G, z.clone()) {
            Err(_) => { check(!(zero && i == k && n == m), "renewal_taken"); reach("refused"); }
            Ok(s) => {
                check(and(zero, i == k && n == m), "bad_renewal_refused");
                check(s.public().0.eq(d.public().0), "public_key_unchanged");
                check(s.share.i == i && s.share.v.0.eq(d.share.v.0.add(z.share.v.0)), "share_sum");
                check(s.commits.len() == n && s.share.v.0.eq(pt_eval(&s.commits, i as i64 + 1)), "share_on_polynomial");
                reach("renewed");
            }
        }
    }
}
