//! Secret sharing and polynomial commitments over the ideal group (share/poly.rs).
use crate::harness;
use crate::intr::*;
use crate::toy::*;
use kyber_rs::share::poly::*;
use kyber_rs::{Point, Scalar};

pub fn coeffs(t: usize, n: &str) -> Vec<S> {
    (0..t).map(|i| sv(&nm(n, i))).collect()
}
pub fn eval(c: &[S], x: i64) -> F {
    let mut r = F::int(1, 0);
    let mut p = F::int(1, 1);
    for k in c {
        r = r.add(k.0.mul(p));
        p = p.mul(F::int(1, x));
    }
    r
}
/// which of n shares survive, in what order, with or without gaps and repetitions
fn pick_shares<T: Clone>(all: &[T], n: usize) -> (Vec<Option<T>>, usize) {
    let mask = choose("present", 0, (1 << n) - 1) as usize;
    let shape = choose("shape", 0, 3);
    let mut v: Vec<Option<T>> = vec![];
    let mut k = 0;
    for i in 0..n {
        if mask >> i & 1 == 1 {
            v.push(Some(all[i].clone()));
            k += 1;
        } else if shape == 0 {
            v.push(None);
        }
    }
    match shape {
        2 => v.reverse(),
        3 => {
            if let Some(f) = v.first().cloned() {
                v.push(f);
            }
        }
        _ => {}
    }
    (v, k)
}
fn recover(t: usize, n: usize) {
    let c = coeffs(t, "c");
    let p = coefficients_to_pri_poly(&G, &c);
    let all: Vec<PriShare<S>> = p.shares(n).into_iter().map(|x| x.unwrap()).collect();
    check(all.len() == n, "share_count");
    for (i, s) in all.iter().enumerate() {
        check(s.i == i, "share_index");
    }
    let (v, k) = pick_shares(&all, n);
    match recover_secret(G, &v, t, n) {
        Ok(s) => {
            check(k >= t, "too_few_refused");
            check(s.0.eq(c[0].0), "secret_recovered");
        }
        Err(_) => check(k < t, "enough_accepted"),
    }
    match recover_pri_poly(&G, &v, t, n) {
        Ok(q) => {
            check(k >= t, "poly_too_few_refused");
            let d = q.coefficients();
            check(d.len() == t, "poly_degree");
            for j in 0..t {
                check(d[j].0.eq(c[j].0), "poly_recovered");
            }
        }
        Err(_) => check(k < t, "poly_enough_accepted"),
    }
}
fn recover_pub(t: usize, n: usize) {
    let c = coeffs(t, "c");
    let pp = coefficients_to_pri_poly(&G, &c);
    let custom = choose("base", 0, 1) == 1;
    let b = if custom { P(F::nz(1, "b")) } else { P(F::int(1, 1)) };
    let q = if custom { pp.commit(Some(&b)) } else { pp.commit(None) };
    let all: Vec<PubShare<P>> = q.shares(n).into_iter().map(|x| x.unwrap()).collect();
    check(all.len() == n, "pub_share_count");
    let (v, k) = pick_shares(&all, n);
    match recover_commit(G, &v, t, n) {
        Ok(s) => {
            check(k >= t, "commit_too_few_refused");
            check(s.0.eq(c[0].0.mul(b.0)), "commit_recovered");
        }
        Err(_) => check(k < t, "commit_enough_accepted"),
    }
    panic_ok(false);
    match recover_pub_poly(G, &v, t, n) {
        Ok(r) => {
            check(k >= t, "pubpoly_too_few_refused");
            let (_, d) = r.info();
            check(d.len() == t, "pubpoly_degree");
            for j in 0..t.min(d.len()) {
                check(d[j].0.eq(c[j].0.mul(b.0)), "pubpoly_recovered");
            }
        }
        Err(_) => check(k < t, "pubpoly_enough_accepted"),
    }
}

/// the survivors are the given indices; the first t of them suffice, and one fewer never does
fn recover_wide(public: bool) {
    let idx: &[usize] = [
        &[0usize, 1, 2, 3, 4, 5, 6, 7, 8][..], &[8, 3, 6, 1, 9, 0, 7, 2, 5, 4], &[2, 3, 5, 6, 9, 10, 11], &[254, 255, 256, 257], &[255, 0, 511],
        &[65535, 65536, 1], &[99, 199, 299, 399, 499], &[31, 32, 33, 63, 64, 127, 128],
    ][choose("set", 0, 7) as usize];
    let k = idx.len();
    let t = if choose("less", 0, 1) == 1 { k - 1 } else { k };
    let n = idx.iter().max().unwrap() + 1;
    let c = coeffs(t, "c");
    let p = coefficients_to_pri_poly(&G, &c);
    let sh: Vec<PriShare<S>> = idx.iter().map(|&i| p.eval(i)).collect();
    if !public {
        let v: Vec<_> = sh.into_iter().map(Some).collect();
        match recover_secret(G, &v, t, n) {
            Ok(s) => check(s.0.eq(c[0].0), "secret_recovered"),
            Err(_) => check(false, "enough_accepted"),
        }
        check(recover_secret(G, &v[..t - 1], t, n).is_err(), "too_few_refused");
        match recover_pri_poly(&G, &v, t, n) {
            Ok(q) => {
                let d = q.coefficients();
                check(d.len() == t, "poly_degree");
                for j in 0..t.min(d.len()) {
                    check(d[j].0.eq(c[j].0), "poly_recovered");
                }
            }
            Err(_) => check(false, "poly_enough_accepted"),
        }
        check(recover_pri_poly(&G, &v[..t - 1], t, n).is_err(), "poly_too_few_refused");
    } else {
        let q = p.commit(None);
        let v: Vec<_> = idx.iter().map(|&i| Some(q.eval(i))).collect();
        match recover_commit(G, &v, t, n) {
            Ok(s) => check(s.0.eq(c[0].0), "commit_recovered"),
            Err(_) => check(false, "commit_enough_accepted"),
        }
        check(recover_commit(G, &v[..t - 1], t, n).is_err(), "commit_too_few_refused");
        match recover_pub_poly(G, &v, t, n) {
            Ok(r) => {
                let (_, d) = r.info();
                check(d.len() == t, "pubpoly_degree");
                for j in 0..t.min(d.len()) {
                    check(d[j].0.eq(c[j].0), "pubpoly_recovered");
                }
            }
            Err(_) => check(false, "pubpoly_enough_accepted"),
        }
        check(recover_pub_poly(G, &v[..t - 1], t, n).is_err(), "pubpoly_too_few_refused");
    }
    reach("recovered");
}

harness! {
    h_poly_recover => {
        let t = choose("t", 1, 3) as usize;
        let n = choose("n", t as i64, 4) as usize;
        recover(t, n);
    }
    h_poly_recover_big => {
        let t = choose("t", 2, 5) as usize;
        let n = choose("n", t as i64, 6) as usize;
        recover(t, n);
    }
    h_poly_recover_pub => {
        let t = choose("t", 1, 3) as usize;
        let n = choose("n", t as i64, 4) as usize;
        recover_pub(t, n);
    }
    h_poly_recover_pub_big => {
        let t = choose("t", 2, 4) as usize;
        let n = choose("n", t as i64, 5) as usize;
        recover_pub(t, n);
    }
    h_poly_recover_wide => {
        // larger thresholds, and shares of far-apart indices
        recover_wide(false);
    }
    h_poly_recover_pub_wide => {
        recover_wide(true);
    }
    h_poly_new => {
        // a fresh sharing polynomial has the requested secret and threshold, and independent coefficients
        let t = choose("t", 1, 4) as usize;
        let given = choose("given", 0, 1) == 1;
        let s = sv("secret");
        let p = new_pri_poly(G, t, if given { Some(s) } else { None }, Fresh);
        check(p.threshold() == t, "threshold");
        let c = p.coefficients();
        check(c.len() == t, "coefficient_count");
        if given { check(p.secret().0.eq(s.0), "secret_is_given"); }
        check(p.secret().0.eq(c[0].0), "secret_is_constant_term");
        // every drawn coefficient is free: any value at all is possible for each of them
        for i in 0..t {
            for j in 0..i {
                // any two coefficients can differ (a needed reach point)
                if !c[i].0.eq(c[j].0) { reach(&nm(&nm("distinct", i), j)); }
            }
        }
        for i in 0..5usize {
            let e = p.eval(i);
            check(e.i == i, "eval_index");
            check(e.v.0.eq(eval(&c, i as i64 + 1)), "eval_value");
        }
    }
    h_poly_eval => {
        let t = [1usize, 2, 3, 4, 5, 8, 17][choose("t", 0, 6) as usize];
        let i = [0usize, 1, 2, 7, 255, 65535, 1 << 31, (1 << 32) + 5][choose("i", 0, 7) as usize];
        let c = coeffs(t, "c");
        let p = coefficients_to_pri_poly(&G, &c);
        let e = p.eval(i);
        check(e.i == i && e.v.0.eq(eval(&c, i as i64 + 1)), "private_eval");
        let b = P(F::nz(1, "b"));
        for base in [None, Some(b)] {
            let q = p.commit(base.as_ref());
            let bf = match base { None => F::int(1, 1), Some(x) => x.0 };
            check(q.threshold() == t, "commit_threshold");
            check(q.commit().0.eq(c[0].0.mul(bf)), "commit_secret");
            let (bb, cm) = q.info();
            check(bb.is_some() == base.is_some(), "commit_base");
            check(cm.len() == t, "commit_len");
            let r = q.eval(i);
            check(r.i == i, "public_eval_index");
            check(r.v.0.eq(eval(&c, i as i64 + 1).mul(bf)), "public_eval");
            // the commitment accepts exactly the right value at each index
            let w = sv("w");
            let ok = q.check(&PriShare { i, v: w });
            check(ok == w.0.eq(e.v.0), "check_iff_on_polynomial");
        }
    }
    h_poly_algebra => {
        let (t, u) = [(1usize, 1usize), (1, 2), (1, 3), (2, 1), (2, 2), (2, 3), (3, 1), (3, 2), (3, 3), (6, 4), (7, 7)][choose("tu", 0, 10) as usize];
        let (c, d) = (coeffs(t, "c"), coeffs(u, "d"));
        let p = coefficients_to_pri_poly(&G, &c);
        let q = coefficients_to_pri_poly(&G, &d);
        let (b, bb) = (P(F::nz(1, "b")), None);
        let base: Option<&P> = if choose("base", 0, 1) == 1 { Some(&b) } else { bb };
        match p.add(&q) {
            Ok(r) => {
                check(t == u, "sum_needs_same_threshold");
                for i in 0..3 {
                    check(r.eval(i).v.0.eq(p.eval(i).v.0.add(q.eval(i).v.0)), "sum_evaluates_to_sum");
                }
                let rc = r.commit(base);
                let sum = p.commit(base).add(&q.commit(base)).unwrap();
                check(rc.equal(&sum).unwrap(), "commitment_homomorphic");
                check(sum.info().0.is_some() == base.is_some(), "sum_keeps_base");
                let i = 2;
                check(sum.check(&r.eval(i)), "sum_checks_sum_share");
            }
            Err(_) => {
                check(t != u, "same_threshold_added");
                check(p.commit(base).add(&q.commit(base)).is_err(), "public_sum_needs_same_threshold");
            }
        }
        let m = p.mul(&q);
        check(m.threshold() == t + u - 1, "product_degree");
        for i in 0..3 {
            check(m.eval(i).v.0.eq(p.eval(i).v.0.mul(q.eval(i).v.0)), "product_evaluates_to_product");
        }
        // equality means equal coefficients
        let mut all = t == u;
        if t == u {
            for i in 0..t { all = and(all, c[i].0.eq(d[i].0)); }
        }
        check(p.equal(&q).unwrap() == all, "private_equal");
        check(p.commit(base).equal(&q.commit(base)).unwrap() == all, "public_equal");
    }
    h_poly_share_hash => {
        // share digests identify the share
        let (a, b) = (sv("a"), sv("b"));
        const I: [usize; 9] = [0, 1, 2, 3, 255, 256, 65535, 65536, 70000];
        let (i, j) = (I[choose("i", 0, 8) as usize], I[choose("j", 0, 8) as usize]);
        let eq = and(i == j, a.0.eq(b.0));
        let h = |i: usize, v: S| PriShare { i, v }.hash(G).unwrap();
        check(same(&h(i, a), &h(j, b)) == eq, "private_share_digest");
        let h = |i: usize, v: P| PubShare { i, v }.hash(G).unwrap();
        check(same(&h(i, P(a.0)), &h(j, P(b.0))) == eq, "public_share_digest");
    }
}
#[allow(unused)]
fn unused() {
    let _ = P::default().null();
    let _ = S::default().zero();
}
