//! HKDF as an injective uninterpreted function: output block i for salt s, key material k and
//! context c is U(i, s, k, c).
use core::marker::PhantomData;
extern "C" {
    fn uf_bytes(name: *const u8, name_len: usize, inp: *const u8, in_len: usize, out: *mut u8, out_len: usize, inj: bool);
}
#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub struct InvalidLength;
impl core::fmt::Display for InvalidLength {
    fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result {
        f.write_str("invalid number of blocks, too large output")
    }
}
impl std::error::Error for InvalidLength {}
#[derive(Clone)]
pub struct Hkdf<H> {
    k: Vec<u8>,
    h: PhantomData<H>,
}
impl<H> Hkdf<H> {
    pub fn new(salt: Option<&[u8]>, ikm: &[u8]) -> Self {
        let s = salt.unwrap_or(&[]);
        let mut k = (s.len() as u32).to_le_bytes().to_vec();
        k.extend_from_slice(s);
        k.extend_from_slice(&(ikm.len() as u32).to_le_bytes());
        k.extend_from_slice(ikm);
        Hkdf { k, h: PhantomData }
    }
    pub fn expand(&self, info: &[u8], out: &mut [u8]) -> Result<(), InvalidLength> {
        if out.len() > 255 * 32 {
            return Err(InvalidLength);
        }
        let mut i = 0;
        while i * 32 < out.len() {
            let mut m = vec![i as u8];
            m.extend_from_slice(&self.k);
            m.extend_from_slice(info);
            let mut o = [0u8; 32];
            unsafe { uf_bytes(b"hkdf".as_ptr(), 4, m.as_ptr(), m.len(), o.as_mut_ptr(), 32, true) };
            let n = (out.len() - i * 32).min(32);
            out[i * 32..i * 32 + n].copy_from_slice(&o[..n]);
            i += 1;
        }
        Ok(())
    }
}
