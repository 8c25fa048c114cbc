#![allow(dead_code, static_mut_refs)]
mod intr;
mod ff;
mod h_ge;
mod h_num;
mod h_poly;
mod h_smul;
mod bn;
mod h_scalar;
mod h_int;
mod h_sig;
mod ed;
mod h_ed;
mod h_vss;
mod h_vssr;
mod h_dkp;
mod h_dkr;
mod h_enc;
mod h_point;
mod toy;

pub type H = (&'static str, fn());
fn main() {
    let a: Vec<String> = std::env::args().collect();
    let all: Vec<H> = [h_num::LIST, h_ge::LIST, h_poly::LIST, h_smul::LIST, h_scalar::LIST, h_int::LIST, h_sig::LIST, h_ed::LIST, h_vss::LIST, h_vssr::LIST, h_dkp::LIST, h_dkr::LIST, h_enc::LIST, h_point::LIST].concat();
    if a.len() < 2 {
        for (n, _) in &all {
            println!("{}", n);
        }
        return;
    }
    intr::RP.with(|r| {
        let mut r = r.borrow_mut();
        if a.len() > 2 {
            if let Some(s) = a[2].strip_prefix("random:") {
                r.random = true;
                r.seed = s.parse().unwrap_or(1);
            } else {
                let t = std::fs::read_to_string(&a[2]).expect("input file");
                for l in t.lines() {
                    let p: Vec<&str> = l.split('\t').collect();
                    let hx = |s: &str| -> Vec<u8> { (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap()).collect() };
                    match p[0] {
                        "in" => {
                            r.inputs.insert(p[1].to_string(), p[2].parse().unwrap());
                        }
                        "seed" => {
                            r.random = true;
                            r.seed = p[1].parse().unwrap();
                        }
                        "uf" => {
                            r.ufs.insert((p[1].to_string(), hx(p[2])), hx(p[3]));
                        }
                        "enc" => {
                            r.encs.insert((p[1].parse().unwrap(), p[2].to_string()), hx(p[3]));
                        }
                        "dec" => {
                            r.decs.insert((p[1].parse().unwrap(), p[2].parse().unwrap(), hx(p[3])), p[4].parse().unwrap());
                        }
                        _ => {}
                    }
                }
            }
        }
    });
    for (n, f) in &all {
        if *n == a[1] {
            f();
            intr::finish();
        }
    }
    eprintln!("no such harness");
    std::process::exit(3);
}
#[macro_export]
macro_rules! harness {
    ($($n:ident => $b:block)*) => {
        $(#[no_mangle] #[inline(never)] pub fn $n() $b)*
        pub const LIST: &[$crate::H] = &[$((stringify!($n), $n as fn())),*];
    };
}
