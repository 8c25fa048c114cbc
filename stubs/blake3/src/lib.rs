//! BLAKE3 as an extendable uninterpreted function: byte 64*i.. of the stream of message m is
//! U(i, m), for an uninterpreted U.
use std::io::{Read, Write};
extern "C" {
    fn uf_bytes(name: *const u8, name_len: usize, inp: *const u8, in_len: usize, out: *mut u8, out_len: usize, inj: bool);
}
#[derive(Clone)]
pub struct Hasher {
    m: Vec<u8>,
}
#[derive(Clone)]
pub struct OutputReader {
    m: Vec<u8>,
    pos: u64,
}
impl Default for Hasher {
    fn default() -> Self {
        Self::new()
    }
}
impl Hasher {
    pub fn new() -> Self {
        Hasher { m: vec![] }
    }
    pub fn update(&mut self, b: &[u8]) -> &mut Self {
        self.m.extend_from_slice(b);
        self
    }
    pub fn reset(&mut self) -> &mut Self {
        self.m.clear();
        self
    }
    pub fn finalize_xof(&self) -> OutputReader {
        OutputReader { m: self.m.clone(), pos: 0 }
    }
}
impl Write for Hasher {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        self.update(b);
        Ok(b.len())
    }
    fn flush(&mut self) -> std::io::Result<()> {
        Ok(())
    }
}
impl OutputReader {
    pub fn position(&self) -> u64 {
        self.pos
    }
    pub fn set_position(&mut self, p: u64) {
        self.pos = p;
    }
    pub fn fill(&mut self, buf: &mut [u8]) {
        let mut i = 0;
        while i < buf.len() {
            let blk = self.pos / 32;
            let off = (self.pos % 32) as usize;
            let mut inp = blk.to_le_bytes().to_vec();
            inp.extend_from_slice(&self.m);
            let mut out = [0u8; 32];
            unsafe { uf_bytes(b"blake3".as_ptr(), 6, inp.as_ptr(), inp.len(), out.as_mut_ptr(), 32, false) };
            let n = (32 - off).min(buf.len() - i);
            buf[i..i + n].copy_from_slice(&out[off..off + n]);
            i += n;
            self.pos += n as u64;
        }
    }
}
impl Read for OutputReader {
    fn read(&mut self, buf: &mut [u8]) -> std::io::Result<usize> {
        self.fill(buf);
        Ok(buf.len())
    }
}
