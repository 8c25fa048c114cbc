//! Modular integers (group/integer_field), over the real bignum crate except for its long division.
use crate::bn::*;
use crate::h_scalar::Draws;
use crate::h_point::Slow;
use crate::harness;
use crate::intr::*;
use kyber_rs::encoding::{BinaryMarshaler, BinaryUnmarshaler, Marshaling};
use kyber_rs::group::integer_field::integer::{ByteOrder, Int};
use kyber_rs::group::Scalar as _;
use num_bigint_dig::{BigInt, Sign};

fn moduli(i: i64) -> (BigInt, Z) {
    let m: Vec<u8> = match i {
        0 => vec![7],
        1 => vec![1, 0, 1],
        2 => vec![0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0x1f],
        3 => vec![13, 0, 0, 0, 0, 0, 0, 0, 1],
        _ => L_LE.to_vec(),
    };
    let z = Z::le(&m);
    (BigInt::from_bytes_le(Sign::Plus, &m), z)
}
fn size(m: &BigInt) -> usize {
    m.to_bytes_be().1.len()
}
/// any value below the modulus
fn val(n: &str, m: &BigInt, zm: Z) -> (Int, Z) {
    let mut b = vec![0u8; size(m)];
    fill(n, &mut b);
    let z = Z::le(&b);
    assume(z.lt(zm));
    (Int::new_int(BigInt::from_bytes_le(Sign::Plus, &b), m.clone()), z)
}
/// r is the representative of z modulo m, and carries m
fn exact(r: &Int, z: Z, m: &BigInt, zm: Z, w: &str) {
    let (v, rm) = r.verif_parts();
    check(rm == m, "modulus_kept");
    let zv = zi(v);
    check(and(zv.cong(z, zm), and(zv.lt(zm), Z::i(0).le_(zv))), w);
}
fn old(m: &BigInt) -> Int {
    // a receiver with other contents
    Int::new_int64(5, m.clone())
}

fn addsub(k: i64) {
        let (m, zm) = moduli(choose("m", if k == 4 { 4 } else { 0 }, k));
        let (a, x) = val("a", &m, zm);
        let (b, y) = val("b", &m, zm);
        match choose("op", 0, 3) {
            0 => exact(&(&a + &b), x.add(y), &m, zm, "sum"),
            1 => exact(&old(&m).sub(&a, &b), x.sub(y), &m, zm, "difference"),
            2 => exact(&old(&m).neg(&a), Z::i(0).sub(x), &m, zm, "negation"),
            _ => exact(&old(&m).set(&a), x, &m, zm, "copy"),
        }
}

harness! {
    h_int_add => { addsub(3) }
    h_int_add_big => { addsub(4) }
    h_int_mul => {
        let (m, zm) = moduli(choose("m", 0, 2));
        let (a, x) = val("a", &m, zm);
        let (b, y) = val("b", &m, zm);
        exact(&(&a * &b), x.mul(y), &m, zm, "product");
    }
    h_int_inv => {
        let (m, zm) = moduli(choose("m", 0, 2));
        let (b, y) = val("b", &m, zm);
        assume(Z::i(0).lt(y));
        let r = old(&m).inv(&b);
        let (v, rm) = r.verif_parts();
        check(rm == &m, "modulus_kept");
        check(and(zi(v).mul(y).cong(Z::i(1), zm), zi(v).lt(zm)), "inverse");
    }
    h_int_div => {
        let (m, zm) = moduli(choose("m", 0, 1));
        let (a, x) = val("a", &m, zm);
        let (b, y) = val("b", &m, zm);
        assume(Z::i(0).lt(y));
        let other = BigInt::from(11);
        let r = old(if choose("fresh", 0, 1) == 1 { &other } else { &m }).div(&a, &b);
        let (v, rm) = r.verif_parts();
        check(rm == &m, "modulus_kept");
        let inv = LAST_INV.with(|l| l.get());
        check(and(zi(v).cong(x.mul(Z(inv)), zm), zi(v).lt(zm)), "quotient");
    }
    h_int_exp => {
        let (m, zm) = moduli(choose("m", 0, 1));
        let (a, x) = val("a", &m, zm);
        let (r0, _) = val("old", &m, zm);
        let e = choose("e", 0, 2);
        let mut z = Z::i(1);
        for _ in 0..e { z = z.mul(x); }
        exact(&r0.exp(&a, &BigInt::from(e)), z, &m, zm, "power");
    }
    h_int_small => {
        let (m, zm) = moduli(choose("m", 0, 3));
        let v = bits("v", 64);
        let i = v as i64;
        match choose("op", 0, 3) {
            0 => exact(&old(&m).set_int64(i), Z::i(i), &m, zm, "set_int64"),
            1 => exact(&Int::new_int64(i, m.clone()), Z::i(i), &m, zm, "new_int64"),
            2 => exact(&old(&m).set_uint64(v), Z::le(&v.to_le_bytes()), &m, zm, "set_uint64"),
            _ => {
                exact(&old(&m).zero(), Z::i(0), &m, zm, "zero");
                exact(&old(&m).one(), Z::i(1), &m, zm, "one");
            }
        }
    }
    h_int_uint64 => {
        // reading back a value that fits
        let (m, zm) = moduli(choose("m", 0, 3));
        let n = size(&m).min(8);
        let mut b = vec![0u8; n];
        fill("a", &mut b);
        let z = Z::le(&b);
        assume(z.lt(zm));
        let a = Int::new_int(BigInt::from_bytes_le(Sign::Plus, &b), m.clone());
        check(Z::le(&a.uint64().to_le_bytes()).eq(z), "uint64");
        check(a.nonzero() == !z.eq(Z::i(0)), "nonzero");
    }
    h_int_bytes => {
        let (m, zm) = moduli(choose("m", 0, 3));
        let n = [0usize, 1, 3, 9, 32, 65][choose("len", 0, 5) as usize];
        let mut b = vec![0u8; n];
        fill("b", &mut b);
        let le = choose("le", 0, 1) == 1;
        let bo = if le { ByteOrder::LittleEndian } else { ByteOrder::BigEndian };
        let r = Int::new_int_bytes(&b, &m, bo);
        check(r.bo == bo, "order_kept");
        if !le { b.reverse(); }
        exact(&r, Z::le(&b), &m, zm, "from_bytes");
        exact(&r.clone().set_bytes(&[]), Z::i(0), &m, zm, "from_no_bytes");
    }
    h_int_marshal => {
        let (m, zm) = moduli(choose("m", 0, 3));
        let (mut a, x) = val("a", &m, zm);
        let le = choose("le", 0, 1) == 1;
        a.bo = if le { ByteOrder::LittleEndian } else { ByteOrder::BigEndian };
        panic_ok(false);
        let mut e = a.marshal_binary().unwrap();
        check(e.len() == size(&m) && a.marshal_size() == size(&m), "encoded_length");
        let mut back = old(&m);
        back.bo = a.bo;
        check(back.unmarshal_binary(&e).is_ok(), "own_encoding_accepted");
        exact(&back, x, &m, zm, "decoded_value");
        if !le { e.reverse(); }
        check(Z::le(&e).eq(x), "encoded_value");
    }
    h_int_stream => {
        // stream encodings are the binary encoding, whatever the chunks; small values modulo long moduli
        let (m, zm) = moduli(choose("m", 0, 3));
        let v = range("v", 0, 6);
        let mut a = Int::new_int64(v, m.clone());
        a.bo = if choose("le", 0, 1) == 1 { ByteOrder::LittleEndian } else { ByteOrder::BigEndian };
        let e = a.marshal_binary().unwrap();
        let n = e.len();
        if choose("dir", 0, 1) == 0 {
            crate::h_scalar::stream(&a, &e);
        } else {
            let l = [0, n - 1, n, n + 3][choose("len", 0, 3) as usize];
            let mut d = e.clone();
            d.resize(l, 9);
            let mut r = Slow { data: d, pos: 0, step: [1usize, 64][choose("rstep", 0, 1) as usize] };
            let mut q = old(&m);
            q.bo = a.bo;
            let ok = q.unmarshal_from(&mut r).is_ok();
            check(ok == (l >= n), "read_iff_complete");
            if ok {
                exact(&q, Z::i(v), &m, zm, "reads_the_encoded_value");
                check(r.pos == n, "consumes_one_encoding");
                reach("read");
            }
        }
    }
    h_int_pad => {
        // explicit byte lengths
        let (m, zm) = moduli(choose("m", 0, 1));
        let (a, x) = val("a", &m, zm);
        let s = size(&m);
        let min = choose("min", 0, s as i64 + 2) as usize;
        let max = choose("max", 0, s as i64 + 3) as usize;
        panic_ok(false);
        match a.little_endian(min, max) {
            Ok(b) => {
                check(b.len() >= min && (max == 0 || b.len() <= max), "little_endian_length");
                check(Z::le(&b).eq(x), "little_endian_value");
            }
            Err(_) => check(max != 0 && (max < min || max < s), "little_endian_refusal"),
        }
        match a.big_endian(min, max) {
            Ok(mut b) => {
                check(b.len() >= min && (max == 0 || b.len() <= max), "big_endian_length");
                b.reverse();
                check(Z::le(&b).eq(x), "big_endian_value");
            }
            Err(_) => check(max != 0 && (max < min || max < s), "big_endian_refusal"),
        }
    }
    h_int_unmarshal => {
        let (m, zm) = moduli(choose("m", 0, 3));
        let s = size(&m);
        let n = [0, 1, s - 1, s, s + 1][choose("len", 0, 4) as usize];
        let mut b = vec![0u8; n];
        fill("b", &mut b);
        let le = choose("le", 0, 1) == 1;
        let (mut a, x) = val("old", &m, zm);
        a.bo = if le { ByteOrder::LittleEndian } else { ByteOrder::BigEndian };
        let ok = a.unmarshal_binary(&b).is_ok();
        if !le { b.reverse(); }
        let z = Z::le(&b);
        check(ok == (n == s && z.lt(zm)), "accepted_iff_in_range");
        exact(&a, if ok { z } else { x }, &m, zm, "decoded_or_kept");
    }
    h_int_string => {
        let (m, zm) = moduli(choose("m", 0, 1));
        let n = choose("len", 1, 3) as usize;
        let mut z = Z::i(0);
        let mut s: Vec<u8> = vec![];
        for i in 0..n {
            let d = range(&nm("d", i), 0, 15);
            z = z.mul(Z::i(16)).add(Z::i(d));
            s.push(if d < 10 { b'0' + d as u8 } else { b'a' + (d - 10) as u8 });
        }
        let s = String::from_utf8(s).unwrap();
        exact(&Int::new_int_string(s, String::new(), 16, &m), z, &m, zm, "from_string");
    }
    h_int_cmp => {
        let (m, zm) = moduli(choose("m", 0, 3));
        let (a, x) = val("a", &m, zm);
        let (b, y) = val("b", &m, zm);
        use core::cmp::Ordering::*;
        let c = a.cmp(&b);
        check((c == Less) == x.lt(y), "less");
        check((c == Equal) == x.eq(y), "equal");
        check((a == b) == x.eq(y), "eq");
    }
    h_int_pick => {
        let (m, zm) = moduli(choose("m", 0, 3));
        let mut st = Draws { n: 0, last: vec![], max: 2 };
        let r = old(&m).pick(&mut st);
        let (v, rm) = r.verif_parts();
        check(rm == &m, "modulus_kept");
        check(and(zi(v).lt(zm), Z::i(0).le_(zi(v))), "pick_in_range");
    }
    h_int_jacobi => {
        // 1 for nonzero squares, -1 for non-squares, 0 for zero
        let p = [3u8, 7, 13, 17][choose("m", 0, 3) as usize];
        let (m, zm) = (BigInt::from(p), Z::i(p as i64));
        let (a, x) = val("a", &m, zm);
        let r = old(&m).jacobi(&a);
        let (v, rm) = r.verif_parts();
        check(rm == &m, "modulus_kept");
        let z = zi(v);
        let mut square = false;
        for k in 1..p as i64 {
            square = or(square, x.eq(Z::i(k * k % p as i64)));
        }
        let zero = x.eq(Z::i(0));
        check(and(or(!zero, z.eq(Z::i(0))), and(or(!square, z.eq(Z::i(1))), or(or(zero, square), z.add(Z::i(1)).cong(Z::i(0), zm)))), "symbol");
    }
    h_int_sqrt => {
        // a returned root squares to the operand; a square is not refused
        let p = [2u8, 7, 13, 17][choose("m", 0, 3) as usize];
        let (m, zm) = (BigInt::from(p), Z::i(p as i64));
        let (a, x) = val("a", &m, zm);
        let mut r = old(&m);
        let ok = r.sqrt(&a).is_ok();
        let (v, rm) = r.verif_parts();
        if ok {
            check(rm == &m, "modulus_kept");
            check(zi(v).mul(zi(v)).cong(x, zm), "root_squares_back");
            check(and(Z::i(0).le_(zi(v)), zi(v).lt(zm)), "root_in_range");
            reach("square");
        } else {
            let mut square = false;
            for k in 0..p as i64 {
                square = or(square, x.eq(Z::i(k * k % p as i64)));
            }
            check(!square, "square_not_refused");
            reach("refused");
        }
    }
}
