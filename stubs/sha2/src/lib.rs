//! SHA-2 as an uninterpreted, collision-free function of the whole message.
use digest::block_buffer::Eager;
use digest::consts::{U128, U32, U64};
use digest::core_api::{Block, BlockSizeUser, Buffer, BufferKindUser, CoreWrapper, FixedOutputCore, UpdateCore};
use digest::{HashMarker, Output, OutputSizeUser};
pub use digest::{self, Digest};

extern "C" {
    fn uf_bytes(name: *const u8, name_len: usize, inp: *const u8, in_len: usize, out: *mut u8, out_len: usize, inj: bool);
}
fn uf(name: &str, inp: &[u8], out: &mut [u8]) {
    unsafe { uf_bytes(name.as_ptr(), name.len(), inp.as_ptr(), inp.len(), out.as_mut_ptr(), out.len(), true) }
}
macro_rules! hash {
    ($core:ident, $name:ident, $tag:expr, $out:ty, $blk:ty) => {
        #[derive(Clone, Default)]
        pub struct $core {
            m: Vec<u8>,
        }
        impl HashMarker for $core {}
        impl BlockSizeUser for $core {
            type BlockSize = $blk;
        }
        impl BufferKindUser for $core {
            type BufferKind = Eager;
        }
        impl OutputSizeUser for $core {
            type OutputSize = $out;
        }
        impl UpdateCore for $core {
            fn update_blocks(&mut self, blocks: &[Block<Self>]) {
                for b in blocks {
                    self.m.extend_from_slice(b);
                }
            }
        }
        impl FixedOutputCore for $core {
            fn finalize_fixed_core(&mut self, buffer: &mut Buffer<Self>, out: &mut Output<Self>) {
                self.m.extend_from_slice(buffer.get_data());
                // each 32-byte half is taken to be collision-free
                let o = out.as_mut_slice();
                uf($tag, &self.m, &mut o[..32]);
                if o.len() == 64 {
                    uf(concat!($tag, "-high"), &self.m, &mut o[32..]);
                }
            }
        }
        impl digest::Reset for $core {
            fn reset(&mut self) {
                self.m.clear();
            }
        }
        pub type $name = CoreWrapper<$core>;
    };
}
hash!(Sha256VarCore, Sha256, "sha256", U32, U64);
hash!(Sha512VarCore, Sha512, "sha512", U64, U128);
impl digest::core_api::AlgorithmName for Sha256VarCore {
    fn write_alg_name(f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result {
        f.write_str("Sha256")
    }
}
impl digest::core_api::AlgorithmName for Sha512VarCore {
    fn write_alg_name(f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result {
        f.write_str("Sha512")
    }
}
