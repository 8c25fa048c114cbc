//! Edwards curve formulas over GF(p).
use crate::ff::*;
use crate::harness;
use crate::intr::*;
use kyber_rs::encoding::{BinaryMarshaler, BinaryUnmarshaler};
use kyber_rs::group::edwards25519::verif::*;
use kyber_rs::group::edwards25519::Point;
use kyber_rs::group::{Point as _, PointCanCheckCanonicalAndSmallOrder};

fn complete(e: &(F, F, F, F)) {
    // the law is complete because d is not a square: neither denominator vanishes on the curve
    assume(!e.1.is0(0));
    assume(!e.3.is0(0));
}
fn two(sub: bool) -> (Aff, Aff, ExtendedGroupElement, ExtendedGroupElement, (F, F, F, F)) {
    let a = aff_in("a");
    let b = aff_in("b");
    let p = ext(a, "za");
    let q = ext(b, "zb");
    let e = if sub { edw_add(a, neg(b)) } else { edw_add(a, b) };
    complete(&e);
    (a, b, p, q, e)
}
fn pt(a: Aff, n: &str) -> Point {
    Point::verif_new(ext(a, n), false)
}
fn pre(b: Aff) -> PreComputedGroupElement {
    PreComputedGroupElement {
        y_plus_x: mk_fe(b.y.add(b.x)),
        y_minus_x: mk_fe(b.y.sub(b.x)),
        xy2d: mk_fe(b.x.mul(b.y).mul(d()).mul(F::int(0, 2))),
    }
}
/// p stands for the affine point (x, y)
fn stands_for(p: &ExtendedGroupElement, a: Aff, w: &str) {
    let o = F::int(0, 1);
    is_rep(p, (a.x, o, a.y, o), w);
}
fn pow(a: F, e: &[u8; 32]) -> F {
    let mut r = F::int(0, 1);
    for i in (0..256).rev() {
        r = r.mul(r);
        if (e[i / 8] >> (i % 8)) & 1 == 1 {
            r = r.mul(a);
        }
    }
    r
}
/// p - k for small k, shifted right by s
fn p_minus(k: u8, s: u32) -> [u8; 32] {
    let mut b = P_LE;
    b[0] -= k;
    for _ in 0..s {
        for i in 0..32 {
            let c = if i < 31 { b[i + 1] & 1 } else { 0 };
            b[i] = b[i] >> 1 | c << 7;
        }
    }
    b
}
/// u and v of the decompression equation v x^2 = u
fn uv(y: F) -> (F, F) {
    let yy = y.mul(y);
    (yy.sub(F::int(0, 1)), d().mul(yy).add(F::int(0, 1)))
}
/// The exponentiation w = a^((p-5)/8), a = u v^7, satisfies a w^2 = a^((p-1)/4), a fourth root of
/// unity (or 0 for a = 0). Returns whether a is a nonzero square, that is whether (a w^2)^2 = 1.
fn root_facts(y: F) -> bool {
    unsafe {
        if !symbolic() || POW.2 == 0 {
            return false;
        }
        let (u, v) = uv(y);
        let (a, w) = (F(POW.0), F(POW.1));
        let v2 = v.mul(v);
        if POW.2 != 1 || !a.eq(u.mul(v2).mul(v2).mul(v2).mul(v)) {
            // not the expected argument: nothing is known about the root
            return false;
        }
        let i = fe_val(&SQRT_M1);
        let one = F::int(0, 1);
        let e = a.mul(w).mul(w);
        let ks = [one, one.neg(), i, i.neg(), F::int(0, 0)];
        let k = choose("root", 0, 4) as usize;
        assume(e.eq(ks[k]));
        assume((k == 4) == u.is0(0));
        if k == 4 { assume(w.is0(0)); }
        k < 2
    }
}
/// parity(-x) = !parity(x) for x != 0 in GF(p), p odd
fn parity_facts(x: F) {
    if symbolic() {
        let n = x.neg();
        assume(or(x.is0(0), x.parity() != n.parity()));
        assume(or(!x.is0(0), !x.parity()));
    }
}

/// a point of small order, or the generator, in plain limbs with z = 1 (or z = -1)
fn literal(n: &str) -> (Aff, ExtendedGroupElement) {
    let (zero, mut one, mut minus) = ([0i32; 10], [0i32; 10], [0i32; 10]);
    one[0] = 1;
    minus[0] = -1;
    let i = SQRT_M1;
    let mut mi = i;
    for l in mi.iter_mut() {
        *l = -*l;
    }
    let mut e = match choose(n, 0, 4) {
        0 => ExtendedGroupElement { x: zero, y: one, z: one, t: zero },
        1 => ExtendedGroupElement { x: zero, y: minus, z: one, t: zero },
        2 => ExtendedGroupElement { x: i, y: zero, z: one, t: zero },
        3 => ExtendedGroupElement { x: mi, y: zero, z: one, t: zero },
        _ => Point::default().base().verif_ge().clone(),
    };
    let a = Aff { x: fe_val(&e.x).mul(fe_val(&e.z).inv()), y: fe_val(&e.y).mul(fe_val(&e.z).inv()) };
    let zk = choose(&(n.to_string() + "z"), 0, 2);
    if zk == 2 {
        // a scaling that starts like one
        let mut z = one;
        z[4] = 1 << 20;
        let s = fe_val(&z);
        for c in [&mut e.x, &mut e.y, &mut e.t] {
            if *c != zero {
                *c = mk_fe(fe_val(c).mul(s));
            }
        }
        e.z = if e.z == one { z } else { mk_fe(fe_val(&e.z).mul(s)) };
    } else if zk == 1 {
        for c in [&mut e.x, &mut e.y, &mut e.z, &mut e.t] {
            for l in c.iter_mut() {
                *l = -*l;
            }
        }
    }
    (a, e)
}
harness! {
    h_ge_special => {
        // operands with telling limbs, and operands that repeat or oppose each other
        let (a, p, b, q) = match choose("operands", 0, 5) {
            0 => { let (a, p) = literal("a"); let (b, q) = literal("b"); (a, p, b, q) }
            1 => { let a = aff_in("a"); let p = ext(a, "za"); let (b, q) = literal("b"); (a, p, b, q) }
            2 => { let (a, p) = literal("a"); let b = aff_in("b"); (a, p, b, ext(b, "zb")) }
            3 => { let a = aff_in("a"); let p = ext(a, "za"); (a, p, a, p) }
            4 => { let a = aff_in("a"); (a, ext(a, "za"), a, ext(a, "zb")) }
            _ => {
                let a = aff_in("a");
                let p = ext(a, "za");
                let q = ExtendedGroupElement { x: mk_fe(fe_val(&p.x).neg()), y: p.y, z: p.z, t: mk_fe(fe_val(&p.t).neg()) };
                (a, p, neg(a), q)
            }
        };
        let (p, q) = (Point::verif_new(p, false), Point::verif_new(q, false));
        let e = edw_add(a, b);
        complete(&e);
        is_rep(Point::default().add(&p, &q).verif_ge(), e, "special_sum");
        is_rep(p.clone().add(&p, &q).verif_ge(), e, "special_sum_reused");
        let e = edw_add(a, neg(b));
        complete(&e);
        is_rep(Point::default().sub(&p, &q).verif_ge(), e, "special_difference");
        is_rep(q.clone().sub(&p, &q).verif_ge(), e, "special_difference_reused");
        stands_for(Point::default().neg(&p).verif_ge(), neg(a), "special_negation");
        stands_for(p.clone().neg(&p).verif_ge(), neg(a), "special_negation_reused");
    }
    h_ge_add => {
        let (_, _, p, q, e) = two(false);
        let r = Point::default().add(&Point::verif_new(p, false), &Point::verif_new(q, false));
        is_rep(r.verif_ge(), e, "sum");
    }
    h_ge_sub => {
        let (_, _, p, q, e) = two(true);
        let r = Point::default().sub(&Point::verif_new(p, false), &Point::verif_new(q, false));
        is_rep(r.verif_ge(), e, "difference");
    }
    h_ge_double => {
        let a = aff_in("a");
        let e = edw_add(a, a);
        complete(&e);
        let mut p = ext(a, "za");
        let mut r = CompletedGroupElement::default();
        p.double(&mut r);
        let mut o = ExtendedGroupElement::default();
        r.to_extended(&mut o);
        is_rep(&o, e, "double");
        // the projective detour used between doublings keeps the point
        let mut s = ProjectiveGroupElement::default();
        r.to_projective(&mut s);
        let (x, y, z) = (fe_val(limbs(&s, 0)), fe_val(limbs(&s, 1)), fe_val(limbs(&s, 2)));
        check(x.mul(fe_val(&o.z)).eq(fe_val(&o.x).mul(z)), "projective_x");
        check(y.mul(fe_val(&o.z)).eq(fe_val(&o.y).mul(z)), "projective_y");
        check(!z.is0(0), "projective_z");
    }
    h_ge_mixed => {
        let (_, b, mut p, _, e) = two(false);
        let mut q = pre(b);
        let mut r = CompletedGroupElement::default();
        r.mixed_add(&mut p, &mut q);
        let mut o = ExtendedGroupElement::default();
        r.to_extended(&mut o);
        is_rep(&o, e, "mixed_sum");
        let en = edw_add(Aff { x: fe_val(&p.x).mul(fe_val(&p.z).inv()), y: fe_val(&p.y).mul(fe_val(&p.z).inv()) }, neg(b));
        complete(&en);
        let mut r = CompletedGroupElement::default();
        r.mixed_sub(p, pre(b));
        r.to_extended(&mut o);
        is_rep(&o, en, "mixed_difference");
    }
    h_ge_neg_null => {
        let a = aff_in("a");
        let p = pt(a, "za");
        let n = Point::default().neg(&p);
        stands_for(n.verif_ge(), neg(a), "negation");
        let z = Point::default().null();
        stands_for(z.verif_ge(), Aff { x: F::int(0, 0), y: F::int(0, 1) }, "null");
        let z2 = p.clone().null();
        stands_for(z2.verif_ge(), Aff { x: F::int(0, 0), y: F::int(0, 1) }, "null_reused");
        let mut q = Point::default();
        let s = q.set(&p);
        stands_for(s.verif_ge(), a, "set_result");
        stands_for(q.verif_ge(), a, "set_receiver");
        let b = p.base();
        let y = F::int(0, 4).mul(F::int(0, 5).inv());
        let g = b.verif_ge();
        let zi = fe_val(&g.z).inv();
        check(!fe_val(&g.z).is0(0), "base_z");
        check(fe_val(&g.y).mul(zi).eq(y), "base_y");
        check(on_curve(fe_val(&g.x).mul(zi), y), "base_on_curve");
        check(fe_val(&g.t).eq(fe_val(&g.x).mul(fe_val(&g.y)).mul(zi)), "base_t");
        check(!fe_val(&g.x).mul(zi).parity(), "base_sign");
    }
    h_ge_select => {
        // select_cached: entry |b| of the table, negated for negative b
        let b = choose("b", -8, 8) as i32;
        let mut ai = [CachedGroupElement::default(); 8];
        for (i, c) in ai.iter_mut().enumerate() {
            for k in 0..4 {
                *limbs_mut(c, k) = mk_fe(F::var(0, &format!("c{}{}", i, k)));
            }
        }
        let mut c = CachedGroupElement::default();
        verif_select_cached(&mut c, &ai, b);
        let one = F::int(0, 1);
        let zero = F::int(0, 0);
        let e: [F; 4] = if b == 0 { [one, one, one, zero] } else {
            let s = &ai[b.unsigned_abs() as usize - 1];
            let v: Vec<F> = (0..4).map(|k| fe_val(limbs(s, k))).collect();
            if b > 0 { [v[0], v[1], v[2], v[3]] } else { [v[1], v[0], v[2], v[3].neg()] }
        };
        for k in 0..4 {
            check(fe_val(limbs(&c, k)).eq(e[k]), "cached_entry");
        }
        let pos = choose("pos", 0, 31) as usize;
        let mut t = PreComputedGroupElement::default();
        verif_select_pre_computed(&mut t, pos, b);
        let e: [F; 3] = if b == 0 { [one, one, zero] } else {
            let s = &BASE[pos][b.unsigned_abs() as usize - 1];
            let v: Vec<F> = (0..3).map(|k| fe_val(limbs(s, k))).collect();
            if b > 0 { [v[0], v[1], v[2]] } else { [v[1], v[0], v[2].neg()] }
        };
        for k in 0..3 {
            check(fe_val(limbs(&t, k)).eq(e[k]), "base_entry");
        }
    }
    h_ge_base_table => {
        // entry (i, j) is (j+1) 256^i B: first entries double eight times, the others add the first
        let half = F::int(0, 2).inv();
        let aff = |t: &PreComputedGroupElement| -> Aff {
            let (p, m) = (fe_val(&t.y_plus_x), fe_val(&t.y_minus_x));
            let a = Aff { x: p.sub(m).mul(half), y: p.add(m).mul(half) };
            check(on_curve(a.x, a.y), "entry_on_curve");
            check(fe_val(&t.xy2d).eq(a.x.mul(a.y).mul(d()).mul(F::int(0, 2))), "entry_xy2d");
            a
        };
        let plus = |a: Aff, b: Aff| -> Aff {
            let e = edw_add(a, b);
            Aff { x: e.0.mul(e.1.inv()), y: e.2.mul(e.3.inv()) }
        };
        let y = F::int(0, 4).mul(F::int(0, 5).inv());
        let mut first = Aff { x: F::int(0, 0), y };
        for i in 0..32 {
            let t0 = aff(&BASE[i][0]);
            if i == 0 {
                check(t0.y.eq(y), "first_is_base");
                check(!t0.x.parity(), "first_is_base_sign");
            } else {
                let mut q = first;
                for _ in 0..8 { q = plus(q, q); }
                check(q.x.eq(t0.x), "row_start_x");
                check(q.y.eq(t0.y), "row_start_y");
            }
            first = t0;
            let mut prev = t0;
            for j in 1..8 {
                let t = aff(&BASE[i][j]);
                let e = plus(prev, t0);
                check(e.x.eq(t.x), "row_step_x");
                check(e.y.eq(t.y), "row_step_y");
                prev = t;
            }
        }
    }
    h_pt_decode_sound => {
        // whatever bytes are accepted stand for a curve point with the encoded y and sign
        let s: [u8; 32] = arr("s");
        let y = f_of_bytes(&s);
        if symbolic() { y_rule(y, "v"); }
        let mut p = Point::default();
        let ok = p.unmarshal_binary(&s).is_ok();
        let (u, v) = uv(y);
        let c = root_facts(y);
        if ok {
            reach("accepted");
            let g = p.verif_ge();
            let (x, yy, z, t) = (fe_val(&g.x), fe_val(&g.y), fe_val(&g.z), fe_val(&g.t));
            check(z.eq(F::int(0, 1)), "z_is_one");
            check(yy.eq(y), "y_as_encoded");
            check(on_curve(x, y), "on_curve");
            check(t.eq(x.mul(y)), "t_is_xy");
            parity_facts(x);
            check(or(x.is0(0), x.parity() == (s[31] >> 7 == 1)), "sign_as_encoded");
        } else {
            reach("rejected");
            // Euler: if u/v is a square, u v^7 is zero or has quadratic character 1
            if symbolic() { check(!or(u.is0(0), c), "rejected_has_no_point"); }
            let x0 = F::var(0, "x0");
            if !symbolic() { check(!v.mul(x0).mul(x0).eq(u), "rejected_has_no_point"); }
        }
    }
    h_pt_len => {
        let n = choose("len", 0, 40) as usize;
        let mut b = vec![0u8; n];
        fill("b", &mut b);
        let mut p = Point::default();
        let r = p.unmarshal_binary(&b);
        check(n == 32 || r.is_err(), "wrong_length_refused");
    }
    h_pt_encode => {
        let a = aff_in("a");
        let p = pt(a, "z");
        let b = p.marshal_binary().unwrap();
        check(b.len() == 32, "encoded_length");
        let mut e = f_bytes(a.y);
        e[31] ^= (a.x.parity() as u8) << 7;
        check(same(&b, &e), "encoding_of_affine");
        check((b[31] >> 7 == 1) == a.x.parity(), "sign_bit");
    }
    h_pt_special => {
        // points in plain limbs, with scalings that look trivial or nearly so
        let (a, e) = literal("a");
        let p = Point::verif_new(e, false);
        let b = p.marshal_binary().unwrap();
        let mut w = f_bytes(a.y);
        w[31] ^= (a.x.parity() as u8) << 7;
        check(same(&b, &w), "special_encoding");
        let q = pt(a, "z2");
        check(p == q, "special_equal");
        check(q == p, "special_equal_reversed");
        check(p.cmp(&q) == core::cmp::Ordering::Equal, "special_order");
    }
    h_pt_roundtrip => {
        // decoding the encoding of a point gives the point back
        let a = aff_in("a");
        let p = pt(a, "z");
        let b = p.marshal_binary().unwrap();
        let mut q = Point::default();
        let ok = q.unmarshal_binary(&b).is_ok();
        // u/v = x^2 is a square
        let c = root_facts(a.y);
        if symbolic() { assume(or(a.x.is0(0), c)); }
        check(ok, "own_encoding_accepted");
        if ok {
            let g = q.verif_ge();
            let (x, y) = (fe_val(&g.x), fe_val(&g.y));
            check(y.eq(a.y), "y_back");
            check(or(x.eq(a.x), x.eq(a.x.neg())), "x_up_to_sign");
            parity_facts(a.x);
            parity_facts(x);
            check(x.eq(a.x), "x_back");
        }
    }
    h_pt_eq => {
        // equality, hashing and ordering follow the point, not its representation
        let a = aff_in("a");
        let p = pt(a, "z1");
        let q = pt(a, "z2");
        check(p == q, "same_point_equal");
        check(p.cmp(&q) == core::cmp::Ordering::Equal, "same_point_same_order");
        // an unrelated point, or the negative
        let b = if choose("negative", 0, 1) == 0 { aff_in("b") } else { neg(a) };
        let r = pt(b, "z3");
        // encodings are injective on (y, sign); two curve points with the same y and sign coincide
        let e = p == r;
        if e {
            check(a.y.eq(b.y), "equal_means_same_y");
            check(a.x.parity() == b.x.parity(), "equal_means_same_sign");
        } else {
            check(!and(a.y.eq(b.y), a.x.eq(b.x)), "unequal_means_different");
        }
    }
    h_fe_chain => {
        // inversion and the square-root exponentiation, as powers
        let a = F::var(0, "a");
        let f = mk_fe(a);
        let mut r = [0i32; 10];
        fe_invert(&mut r, &f);
        check(fe_val(&r).eq(pow(a, &p_minus(2, 0))), "invert_power");
        check(or(a.is0(0), fe_val(&r).mul(a).eq(F::int(0, 1))), "invert_inverse");
        fe_pow22523(&mut r, &f);
        check(fe_val(&r).eq(pow(a, &p_minus(5, 3))), "pow22523_power");
    }
    h_small_order => {
        let a = aff_in("a");
        let p = pt(a, "z");
        // canonical constants encode exactly one field element each
        for w in WEAK_KEYS.iter() {
            let k = F::k(0, w);
            assume(same(&f_bytes(a.y), w) == a.y.eq(k));
        }
        // the other root of d y^4 + 2 y^2 - 1 is not a square
        let mut m8 = [0u8; 32];
        m8.copy_from_slice(&WEAK8);
        let y8 = F::k(0, &m8);
        let r2 = d().inv().neg().mul(y8.mul(y8).inv());
        assume(!a.y.mul(a.y).eq(r2));
        let so = p.has_small_order();
        // 8P = 0 iff 4P has x = 0 iff x y (x^2 + y^2) = 0
        let t = a.x.mul(a.y).mul(a.x.mul(a.x).add(a.y.mul(a.y)));
        if so {
            reach("small");
            check(t.is0(0), "reported_small_is_small");
        } else {
            reach("large");
            check(!t.is0(0), "small_is_reported");
        }
    }
    h_pt_canonical => {
        let n = choose("len", 30, 34) as usize;
        let mut b = vec![0u8; n];
        fill("b", &mut b);
        let c = Point::default().is_canonical(&b);
        if n != 32 {
            check(!c, "wrong_length_not_canonical");
        } else {
            let mut m = [0u8; 32];
            m.copy_from_slice(&b);
            m[31] &= 0x7f;
            check(c == lt_bytes(&m, &P_LE), "canonical_iff_below_p");
        }
    }
}
/// y coordinate of a point of order 8
const WEAK8: [u8; 32] = [
    0x26, 0xe8, 0x95, 0x8f, 0xc2, 0xb2, 0x27, 0xb0, 0x45, 0xc3, 0xf4, 0x89, 0xf2, 0xef, 0x98, 0xf0, 0xd5, 0xdf, 0xac, 0x05, 0xd3, 0xc6, 0x33, 0x39, 0xb1,
    0x38, 0x02, 0x88, 0x6d, 0x53, 0xfc, 0x05,
];
/// a < b as little-endian numbers, branch free
pub fn lt_bytes(a: &[u8; 32], b: &[u8; 32]) -> bool {
    let mut lt = false;
    for i in 0..32 {
        // most significant byte wins, so start from the least
        lt = or(a[i] < b[i], and(a[i] == b[i], lt));
    }
    lt
}
