//! AES-256-GCM as an ideal authenticated cipher: ciphertext = msg xor KS(key,nonce) || TAG(key,nonce,aad,body),
//! TAG collision-free; opening recomputes the tag.
pub use digest::generic_array::GenericArray;
use digest::generic_array::typenum::{U12, U32};
extern "C" {
    fn uf_bytes(name: *const u8, name_len: usize, inp: *const u8, in_len: usize, out: *mut u8, out_len: usize, inj: bool);
}
fn uf(name: &str, inp: &[u8], out: &mut [u8], inj: bool) {
    unsafe { uf_bytes(name.as_ptr(), name.len(), inp.as_ptr(), inp.len(), out.as_mut_ptr(), out.len(), inj) }
}
pub mod aead {
    #[derive(Debug, Clone, Copy, PartialEq, Eq)]
    pub struct Error;
    impl core::fmt::Display for Error {
        fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result {
            f.write_str("aead::Error")
        }
    }
    impl std::error::Error for Error {}
    pub struct Payload<'m, 'a> {
        pub msg: &'m [u8],
        pub aad: &'a [u8],
    }
    impl<'m> From<&'m [u8]> for Payload<'m, '_> {
        fn from(msg: &'m [u8]) -> Self {
            Self { msg, aad: b"" }
        }
    }
    pub trait Aead {
        fn encrypt<'m, 'a>(&self, nonce: &super::Nonce12, p: impl Into<Payload<'m, 'a>>) -> Result<Vec<u8>, Error>;
        fn decrypt<'m, 'a>(&self, nonce: &super::Nonce12, p: impl Into<Payload<'m, 'a>>) -> Result<Vec<u8>, Error>;
    }
}
pub type Nonce12 = GenericArray<u8, U12>;
pub trait KeyInit: Sized {
    fn new(key: &GenericArray<u8, U32>) -> Self;
}
#[derive(Clone)]
pub struct Aes256Gcm {
    key: [u8; 32],
}
impl KeyInit for Aes256Gcm {
    fn new(key: &GenericArray<u8, U32>) -> Self {
        let mut k = [0u8; 32];
        k.copy_from_slice(key);
        Aes256Gcm { key: k }
    }
}
impl Aes256Gcm {
    fn xor(&self, nonce: &Nonce12, m: &[u8]) -> Vec<u8> {
        let mut out = Vec::with_capacity(m.len());
        let mut i = 0;
        while i < m.len() {
            let mut inp = self.key.to_vec();
            inp.extend_from_slice(nonce);
            inp.extend_from_slice(&(i as u32).to_le_bytes());
            let mut ks = [0u8; 32];
            uf("aesks", &inp, &mut ks, false);
            let mut j = 0;
            while j < 32 && i < m.len() {
                out.push(m[i] ^ ks[j]);
                i += 1;
                j += 1;
            }
        }
        out
    }
    fn tag(&self, nonce: &Nonce12, aad: &[u8], body: &[u8]) -> [u8; 16] {
        let mut inp = self.key.to_vec();
        inp.extend_from_slice(nonce);
        inp.extend_from_slice(&(aad.len() as u32).to_le_bytes());
        inp.extend_from_slice(aad);
        inp.extend_from_slice(body);
        let mut t = [0u8; 16];
        uf("aestag", &inp, &mut t, true);
        t
    }
}
impl aead::Aead for Aes256Gcm {
    fn encrypt<'m, 'a>(&self, nonce: &Nonce12, p: impl Into<aead::Payload<'m, 'a>>) -> Result<Vec<u8>, aead::Error> {
        let p = p.into();
        let mut body = self.xor(nonce, p.msg);
        let t = self.tag(nonce, p.aad, &body);
        body.extend_from_slice(&t);
        Ok(body)
    }
    fn decrypt<'m, 'a>(&self, nonce: &Nonce12, p: impl Into<aead::Payload<'m, 'a>>) -> Result<Vec<u8>, aead::Error> {
        let p = p.into();
        if p.msg.len() < 16 {
            return Err(aead::Error);
        }
        let n = p.msg.len() - 16;
        let t = self.tag(nonce, p.aad, &p.msg[..n]);
        if p.msg[n..] != t[..] {
            return Err(aead::Error);
        }
        Ok(self.xor(nonce, &p.msg[..n]))
    }
}
