//! Encryption to a public key, the authenticated Diffie-Hellman channel, the extendable output
//! function, mixed randomness and key pairs.
use crate::h_sig::bytes;
use crate::harness;
use crate::intr::*;
use crate::toy::*;
use kyber_rs::cipher::{Stream, StreamError};
use kyber_rs::dh::{Dh, AEAD};
use kyber_rs::encoding::{BinaryMarshaler, BinaryUnmarshaler};
use kyber_rs::encrypt::{decrypt, encrypt};
use kyber_rs::group::edwards25519::SuiteEd25519;
use kyber_rs::util::key::{new_key_pair, Generator, KeyError, Pair};
use kyber_rs::util::random::{self, RandStream};
use kyber_rs::{Point, XOFFactory, XOF};
use sha2::{Digest, Sha256};
use std::io::{Read, Write};

fn nonce(n: &str) -> [u8; 12] {
    arr::<12>(n)
}
/// one byte of `b` at a chosen place becomes another one
fn change(b: &mut [u8], n: &str) {
    let l = b.len();
    // every place of a short string, and those around the block boundaries of a long one
    let i = if l <= 50 { choose(n, 0, l as i64 - 1) as usize } else {
        let p: Vec<usize> = [0, 1, 15, 16, 31, 32, 33, 47, 63, 64, 65, 127, 128, 129, l - 17, l - 16, l - 2, l - 1].into_iter().filter(|&p| p < l).collect();
        lens(n, &p)
    };
    let c = bytes(&(n.to_owned() + "_byte"), 1)[0];
    assume(c != b[i]);
    b[i] = c;
}
fn lens(n: &str, v: &[usize]) -> usize {
    v[choose(n, 0, v.len() as i64 - 1) as usize]
}
/// a source that fails after `left` bytes and hands them out `step` at a time
#[derive(Clone)]
struct Source {
    data: Vec<u8>,
    pos: usize,
    step: usize,
    error: bool,
}
impl Read for Source {
    fn read(&mut self, b: &mut [u8]) -> std::io::Result<usize> {
        let n = b.len().min(self.step).min(self.data.len() - self.pos);
        if n == 0 && self.error && !b.is_empty() {
            return Err(std::io::Error::from(std::io::ErrorKind::BrokenPipe));
        }
        b[..n].copy_from_slice(&self.data[self.pos..self.pos + n]);
        self.pos += n;
        Ok(n)
    }
}
/// whether a text opens under AES-256-GCM: for texts whose length was changed, an opening can
/// only be a coincidence of the ideal tag function, which is left out
fn opens(key: &[u8], n: &[u8], c: &[u8], aad: &[u8]) -> bool {
    use aes_gcm::{aead::{Aead, Payload}, Aes256Gcm, GenericArray, KeyInit};
    Aes256Gcm::new(GenericArray::from_slice(key)).decrypt(GenericArray::from_slice(n), Payload { msg: c, aad }).is_ok()
}
struct Dead;
impl Stream for Dead {
    fn xor_key_stream(&mut self, _: &mut [u8], _: &[u8]) -> Result<(), StreamError> {
        Err(StreamError::ReadersFailure)
    }
}
/// the first n bytes of the stream seeded with m
fn xof_ref(m: &[u8], n: usize) -> Vec<u8> {
    let mut h = blake3::Hasher::new();
    h.update(m);
    let mut o = vec![0u8; n];
    h.finalize_xof().fill(&mut o);
    o
}
fn rd(x: &mut dyn XOF, n: usize) -> Vec<u8> {
    let mut o = vec![0u8; n];
    x.read_exact(&mut o).unwrap();
    o
}
#[derive(Clone, Copy, Default, Debug, PartialEq, Eq)]
struct K(i64, S);
impl core::fmt::Display for K {
    fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result {
        f.write_str("K")
    }
}
impl kyber_rs::Group for K {
    type POINT = P;
    fn scalar_len(&self) -> usize {
        32
    }
    fn scalar(&self) -> S {
        S::default()
    }
    fn point_len(&self) -> usize {
        32
    }
    fn point(&self) -> P {
        P::default()
    }
    fn is_prime_order(&self) -> Option<bool> {
        Some(true)
    }
}
impl kyber_rs::group::HashFactory for K {
    type T = Sha256;
}
impl kyber_rs::Random for K {
    fn random_stream(&self) -> Box<dyn Stream> {
        Box::new(Fresh)
    }
}
impl kyber_rs::util::key::Suite for K {}
impl Generator<S> for K {
    fn new_key<X: Stream>(&self, _: &mut X) -> Result<Option<S>, KeyError> {
        match self.0 {
            0 => Ok(None),
            1 => Ok(Some(self.1)),
            _ => Err(KeyError::CurveError(kyber_rs::group::edwards25519::CurveError::StreamError(StreamError::ReadersFailure))),
        }
    }
}

harness! {
    h_ecies => {
        // whatever is encrypted to a key opens with that key and no other
        nonzero_draws();
        let x = sv("x");
        let m = bytes("m", lens("len", &[0, 1, 31, 33, 65, 150]));
        let c = encrypt(G, P(x.0), &m).unwrap();
        check(c.len() == 32 + m.len() + 16, "ephemeral_key_text_and_tag");
        match decrypt(G, x, &c) {
            Ok(d) => check(d.len() == m.len() && same(&d, &m), "decrypts_to_the_message"),
            Err(_) => check(false, "own_key_decrypts"),
        }
        let y = sv("y");
        assume(!y.0.eq(x.0));
        check(decrypt(G, y, &c).is_err(), "other_keys_do_not_decrypt");
        let d = encrypt(G, P(x.0), &m).unwrap();
        if !same(&c[..32], &d[..32]) {
            reach("fresh_ephemeral_key");
        }
        reach("decrypted");
    }
    h_ecies_tamper => {
        nonzero_draws();
        let x = snz("x");
        let m = bytes("m", lens("len", &[0, 1, 3, 40]));
        let mut c = encrypt(G, P(x.0), &m).unwrap();
        let what = choose("what", 0, 3);
        let (mut r, mut buf) = (P::default(), vec![]);
        if what > 1 {
            r.unmarshal_binary(&c[..32]).unwrap();
            buf = <G as Dh>::hkdf(&P(r.0.mul(x.0)).marshal_binary().unwrap(), &[], Some(44)).unwrap();
        }
        match what {
            0 => { let l = c.len(); change(&mut c[32..l], "at"); }
            1 => {
                let mut r = P::default();
                r.unmarshal_binary(&c[..32]).unwrap();
                let q = pv("r");
                assume(!q.0.eq(r.0));
                c[..32].copy_from_slice(&q.marshal_binary().unwrap());
            }
            2 => { let l = choose("cut", 0, c.len() as i64 - 1) as usize; c.truncate(l); }
            _ => c.push(bytes("more", 1)[0]),
        }
        if what > 1 && c.len() >= 48 {
            let key = <G as Dh>::hkdf(&r.marshal_binary().unwrap(), &buf, None).unwrap();
            assume(!opens(&key, &buf[32..], &c[32..], &[]));
        }
        // a changed ciphertext is refused, without a panic
        check(decrypt(G, x, &c).is_err(), "tampering_refused");
        reach("refused");
    }
    h_ecies_garbage => {
        // no input of any length makes decryption panic; what is too short is refused
        let x = sv("x");
        let c = bytes("c", choose("len", 0, 50) as usize);
        let r = decrypt(G, x, &c);
        check(c.len() >= 48 || r.is_err(), "too_short_refused");
        if let Ok(m) = r {
            check(m.len() == c.len() - 48, "message_length");
        }
        reach("answered");
    }
    h_aead => {
        // sealed texts open exactly under the same key, context, nonce and additional data
        let k = pv("k");
        let (lc, lm, la) = match choose("long", 0, 4) {
            0 => (lens("ctx_len", &[0, 1, 3]), lens("len", &[0, 1, 33]), lens("aad", &[0, 1, 2])),
            1 => (130, 2, 0),
            2 => (1, 150, 0),
            3 => (0, 2, 70),
            _ => (130, 150, 70),
        };
        let ctx = bytes("ctx", lc);
        let n = nonce("n");
        let m = bytes("m", lm);
        let aad = match la { 0 => None, l => Some(bytes("a", l)) };
        let a = AEAD::<G>::new(k, &ctx).unwrap();
        let c = a.seal(None, &n, &m, aad.as_deref()).unwrap();
        check(c.len() == m.len() + 16, "text_and_tag");
        let b = AEAD::<G>::new(k, &ctx).unwrap();
        match b.open(None, &n, &c, aad.as_deref()) {
            Ok(d) => check(d.len() == m.len() && same(&d, &m), "opens_to_the_text"),
            Err(_) => check(false, "same_key_opens"),
        }
        let mut d = vec![0u8; c.len()];
        check(a.seal(Some(&mut d), &n, &m, aad.as_deref()).is_ok() && same(&d, &c), "sealed_into_buffer");
        let mut d = vec![0u8; m.len()];
        check(b.open(Some(&mut d), &n, &c, aad.as_deref()).is_ok() && same(&d, &m), "opened_into_buffer");
        // and nothing else opens
        let (mut k2, mut ctx2, mut n2, mut c2, mut aad2) = (k, ctx.clone(), n, c.clone(), aad.clone());
        let what = choose("what", 0, 8);
        match what {
            0 => { k2 = pv("k2"); assume(!k2.0.eq(k.0)); }
            1 => ctx2.push(bytes("more", 1)[0]),
            2 => { assume(!ctx.is_empty()); change(&mut ctx2, "ctx_at"); }
            3 => change(&mut n2, "n_at"),
            4 => change(&mut c2, "c_at"),
            5 => { c2.truncate(choose("cut", 0, c.len() as i64 - 1) as usize); }
            8 => c2.push(bytes("more", 1)[0]),
            6 => { let mut v = aad2.unwrap_or_default(); v.push(bytes("more", 1)[0]); aad2 = Some(v); }
            _ => {
                assume(aad.is_some());
                if choose("drop", 0, 1) == 0 { aad2 = None } else { change(aad2.as_mut().unwrap(), "a_at") }
            }
        }
        if what == 5 || what == 8 {
            let key = <G as Dh>::hkdf(&k.marshal_binary().unwrap(), &ctx, None).unwrap();
            assume(!opens(&key, &n, &c2, aad.as_deref().unwrap_or(&[])));
        }
        let e = AEAD::<G>::new(k2, &ctx2).unwrap();
        check(e.open(None, &n2, &c2, aad2.as_deref()).is_err(), "anything_else_refused");
        reach("refused");
    }
    h_dh => {
        // both sides agree, and the derived channel binds what it was derived from
        let (x, y) = (sv("x"), sv("y"));
        let s = <G as Dh>::dh_exchange(G, x, P(y.0));
        check(s.0.eq(<G as Dh>::dh_exchange(G, y, P(x.0)).0), "both_sides_agree");
        check(s.0.eq(x.0.mul(y.0)), "the_product");
        let info = bytes("info", lens("info_len", &[0, 1, 3, 130]));
        let n = nonce("n");
        let m = bytes("m", lens("len", &[0, 1, 33, 150]));
        let c = <G as Dh>::encrypt(&s, &info, &n, &m).unwrap();
        match <G as Dh>::decrypt(&s, &info, &n, &c) {
            Ok(d) => check(d.len() == m.len() && same(&d, &m), "decrypts_to_the_message"),
            Err(_) => check(false, "same_key_decrypts"),
        }
        let (mut s2, mut info2, mut n2, mut c2) = (s, info.clone(), n, c.clone());
        match choose("what", 0, 4) {
            0 => { s2 = pv("s2"); assume(!s2.0.eq(s.0)); }
            1 => info2.push(bytes("more", 1)[0]),
            2 => { assume(!info.is_empty()); change(&mut info2, "info_at"); }
            3 => change(&mut n2, "n_at"),
            _ => change(&mut c2, "c_at"),
        }
        check(<G as Dh>::decrypt(&s2, &info2, &n2, &c2).is_err(), "anything_else_refused");
        reach("refused");
    }
    h_hkdf => {
        // derived keys: the requested length, determined by input and context, different for different ones
        let k = bytes("ikm", lens("ikm_len", &[0, 1, 32, 100]));
        let i = bytes("info", lens("info_len", &[0, 2, 70, 300]));
        let n = lens("out", &[0, 31, 32, 65, 300]);
        let o = <G as Dh>::hkdf(&k, &i, Some(n)).unwrap();
        check(o.len() == n, "requested_length");
        let mut w = vec![0u8; n];
        hkdf::Hkdf::<Sha256>::new(None, &k).expand(&i, &mut w).unwrap();
        check(same(&o, &w), "the_hkdf_output");
        let d = <G as Dh>::hkdf(&k, &i, None).unwrap();
        check(d.len() == 32, "default_length");
        let l = n.min(32);
        check(same(&o[..l], &d[..l]), "same_stream");
        check(<G as Dh>::hkdf(&k, &i, Some(255 * 32 + 1)).is_err(), "too_long_refused");
        let (mut k2, mut i2) = (k.clone(), i.clone());
        match choose("what", 0, 3) {
            0 => { assume(!k.is_empty()); change(&mut k2, "k_at"); }
            1 => { assume(!i.is_empty()); change(&mut i2, "i_at"); }
            2 => k2.push(bytes("more", 1)[0]),
            _ => i2.push(bytes("more", 1)[0]),
        }
        check(!same(&<G as Dh>::hkdf(&k2, &i2, None).unwrap(), &d), "different_inputs_different_keys");
        reach("derived");
    }
    h_aes_key => {
        // only 32-byte keys
        let b = bytes("key", lens("key_len", &[0, 16, 31, 32, 33]));
        let r = <G as Dh>::aes_encrypt(&b, &[0; 12], &[1, 2], None);
        check(r.is_ok() == (b.len() == 32), "key_length_checked");
        check(<G as Dh>::aes_decrypt(&b, &[0; 12], &r.unwrap_or_default(), None).is_ok() == (b.len() == 32), "key_length_checked");
        reach("tried");
    }
    h_xof_stream => {
        // reads and key streams, however split, hand out the one stream of everything absorbed
        let seed = bytes("seed", lens("seed_len", &[0, 1, 3, 130]));
        let mut x = SuiteEd25519::new_blake3_sha256_ed25519().xof(if seed.is_empty() && choose("none", 0, 1) == 1 { None } else { Some(&seed) });
        let mut m = seed;
        for k in 0..2 {
            let w = bytes("w", lens(&nm("w_len", k), &[0, 2]));
            x.write_all(&w).unwrap();
            m.extend_from_slice(&w);
        }
        let want = xof_ref(&m, 600);
        let mut p = 0;
        for k in 0..3 {
            let n = lens(&nm("n", k), &[0, 1, 24, 150]);
            match choose(&nm("how", k), 0, 1) {
                0 => check(same(&rd(&mut *x, n), &want[p..p + n]), "stream_of_everything_absorbed"),
                _ => {
                    let s = bytes("src", n);
                    let pad = choose(&nm("pad", k), 0, 1) as usize;
                    let mut d = vec![7u8; n + pad];
                    x.xor_key_stream(&mut d, &s).unwrap();
                    for i in 0..n {
                        check(d[i] == s[i] ^ want[p + i], "key_stream_is_the_stream");
                    }
                    check(pad == 0 || d[n] == 7, "rest_of_the_destination_untouched");
                }
            }
            p += n;
        }
        let mut d = [0u8; 2];
        check(x.xor_key_stream(&mut d, &[1, 2, 3]).is_err(), "short_destination_refused");
        check(same(&rd(&mut *x, 8), &want[p..p + 8]), "refusal_consumes_nothing");
        reach("streamed");
    }
    h_xof_clone => {
        // a copy goes on from the same state, and neither disturbs the other
        let seed = bytes("seed", lens("seed_len", &[0, 2]));
        let mut x = SuiteEd25519::new_blake3_sha256_ed25519().xof(Some(&seed));
        let mut m = seed;
        let pre = lens("pre", &[0, 1, 33, 150]);
        let want = xof_ref(&m, 360);
        if pre > 0 {
            rd(&mut *x, pre);
        }
        let mut y = XOF::clone(&x);
        if pre == 0 {
            // still absorbing: each absorbs its own
            let w = bytes("w", 2);
            y.write_all(&w).unwrap();
            m.extend_from_slice(&w);
            let z = xof_ref(&m, 40);
            check(same(&rd(&mut *y, 40), &z), "copy_absorbs_on_its_own");
            check(same(&rd(&mut *x, 40), &want[..40]), "original_undisturbed");
        } else {
            let k = lens("k", &[1, 32, 150]);
            check(same(&rd(&mut *x, k), &want[pre..pre + k]), "original_goes_on");
            check(same(&rd(&mut *y, 32), &want[pre..pre + 32]), "copy_goes_on_from_there");
            check(same(&rd(&mut *x, 8), &want[pre + k..pre + k + 8]), "original_goes_on");
        }
        reach("copied");
    }
    h_xof_reseed => {
        // reading ends absorption until a reseed, which depends on all that went before
        let seed = bytes("seed", lens("seed_len", &[0, 2]));
        let mut x = SuiteEd25519::new_blake3_sha256_ed25519().xof(Some(&seed));
        let pre = lens("pre", &[0, 1, 130, 300]);
        if choose("how", 0, 1) == 0 {
            rd(&mut *x, pre);
        } else {
            let s = bytes("s", pre);
            let mut d = vec![0u8; pre];
            x.xor_key_stream(&mut d, &s).unwrap();
        }
        let w = bytes("w", 2);
        // (reading nothing may or may not end absorption)
        let refused = x.write(&w).is_err();
        check(pre == 0 || refused, "write_after_read_refused");
        if pre > 0 {
            check(x.write_all(&w).is_err(), "write_after_read_refused");
        }
        check(x.flush().is_ok(), "flush_does_nothing");
        let mut m = seed;
        if !refused {
            m.extend_from_slice(&w);
        }
        x.reseed();
        let key = xof_ref(&m, pre + 128)[pre..].to_vec();
        let mut k2 = key.clone();
        let v = bytes("v", lens("v_len", &[0, 2, 140]));
        check(x.write_all(&v).is_ok(), "writeable_after_reseed");
        k2.extend_from_slice(&v);
        check(same(&rd(&mut *x, 40), &xof_ref(&k2, 40)), "reseeded_with_its_own_output");
        reach("reseeded");
    }
    h_rs_mix => {
        // every source that gives its 32 bytes goes into the stream; it fails exactly when none does
        let n = choose("sources", 1, 3) as usize;
        let mut seed = vec![];
        let mut good = 0;
        let mut rs: Vec<Box<dyn Read>> = vec![];
        let mut ss = vec![];
        for k in 0..n {
            let (len, step, error) = match choose(&nm("kind", k), 0, 4) { 0 => (64, 64, false), 1 => (64, 5, false), 2 => (31, 7, false), 3 => (20, 20, true), _ => (0, 1, true) };
            let s = Source { data: bytes(&nm("data", k), len), pos: 0, step, error };
            if len >= 32 {
                seed.extend_from_slice(&s.data[..32]);
                good += 1;
            }
            ss.push(s.clone());
            rs.push(Box::new(s));
        }
        let mut r = RandStream::new(rs);
        let len = lens("len", &[0, 1, 40, 200]);
        let src = bytes("src", len);
        let mut d = vec![0u8; len];
        let bad = choose("short", 0, 1) == 1;
        if bad {
            let mut e = vec![0u8; len + 1];
            check(r.xor_key_stream(&mut e, &src).is_err(), "mismatched_lengths_refused");
        }
        let o = r.xor_key_stream(&mut d, &src);
        check(o.is_ok() == (good > 0), "fails_exactly_when_all_sources_fail");
        if o.is_ok() {
            let ks = xof_ref(&Sha256::digest(&seed), len);
            for i in 0..len {
                check(d[i] == src[i] ^ ks[i], "stream_seeded_by_all_good_sources");
            }
            // the next draw takes fresh bytes
            let mut seed = vec![];
            for s in &ss {
                if s.data.len() == 64 {
                    seed.extend_from_slice(&s.data[32..]);
                }
            }
            let mut d = vec![0u8; 8];
            r.xor_key_stream(&mut d, &[0; 8]).unwrap();
            check(same(&d, &xof_ref(&Sha256::digest(&seed), 8)), "next_draw_takes_fresh_bytes");
            reach("mixed");
        } else {
            reach("failed");
        }
    }
    h_rs_fail => {
        // a failing source is never replaced by predictable bits
        match choose("what", 0, 2) {
            0 => {
                let mut b = [0u8; 4];
                check(random::bytes(&mut b, &mut Dead).is_err(), "failure_reported");
                let mut d = vec![1u8; 4];
                check(random::bytes(&mut d, &mut RandStream::new(vec![Box::new(std::io::empty())])).is_err(), "failure_reported");
                reach("reported");
            }
            1 => {
                panic_ok(true);
                reach("asked");
                let _ = random::bits(choose("n", 1, 20) as u64, choose("exact", 0, 1) == 1, &mut Dead);
                check(false, "no_bits_from_a_failed_source");
            }
            _ => {
                panic_ok(true);
                let m = num_bigint_dig::BigInt::from(1000);
                let _ = random::random_int(&m, &mut Dead);
                check(false, "no_number_from_a_failed_source");
            }
        }
    }
    h_rs_default => {
        // without sources the system's randomness is used, afresh for every stream and draw
        let mut a = if choose("new", 0, 1) == 0 { RandStream::default() } else { RandStream::new(vec![]) };
        let (mut x, mut y) = ([0u8; 16], [0u8; 16]);
        a.xor_key_stream(&mut x, &[0; 16]).unwrap();
        a.xor_key_stream(&mut y, &[0; 16]).unwrap();
        if !same(&x, &y) {
            reach("differs");
        }
        let mut z = [0u8; 16];
        RandStream::default().xor_key_stream(&mut z, &[0; 16]).unwrap();
        if !same(&x, &z) {
            reach("differs_per_stream");
        }
        check(random::bytes(&mut x, &mut a).is_ok(), "draws");
    }
    h_keypair => {
        // a pair's public key is its private key times the generator; the private one is the generator's or drawn
        let k = K(choose("generator", 0, 2), sv("generated"));
        match new_key_pair(&k) {
            Err(_) => { check(k.0 == 2, "failure_only_from_the_generator"); reach("failed"); }
            Ok(Pair { public, private }) => {
                check(k.0 != 2, "failure_reported");
                check(public.0.eq(private.0), "public_key_belongs_to_the_private");
                if k.0 == 1 {
                    check(private.0.eq(k.1.0), "the_generator_s_key");
                } else if !private.0.is0(1) {
                    reach("drawn");
                }
            }
        }
    }
}
