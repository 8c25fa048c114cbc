//! Randomness: every byte drawn is a fresh unknown.
extern "C" {
    fn sym_bytes(name: *const u8, name_len: usize, p: *mut u8, len: usize);
}
#[derive(Debug)]
pub struct Error;
impl core::fmt::Display for Error {
    fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result {
        f.write_str("rng")
    }
}
impl std::error::Error for Error {}
pub trait RngCore {
    fn next_u32(&mut self) -> u32;
    fn next_u64(&mut self) -> u64;
    fn fill_bytes(&mut self, dest: &mut [u8]);
    fn try_fill_bytes(&mut self, dest: &mut [u8]) -> Result<(), Error>;
}
pub trait SeedableRng: Sized {
    fn from_entropy() -> Self;
    fn seed_from_u64(_s: u64) -> Self {
        Self::from_entropy()
    }
}
impl<R: RngCore + ?Sized> RngCore for Box<R> {
    fn next_u32(&mut self) -> u32 {
        (**self).next_u32()
    }
    fn next_u64(&mut self) -> u64 {
        (**self).next_u64()
    }
    fn fill_bytes(&mut self, dest: &mut [u8]) {
        (**self).fill_bytes(dest)
    }
    fn try_fill_bytes(&mut self, dest: &mut [u8]) -> Result<(), Error> {
        (**self).try_fill_bytes(dest)
    }
}
impl std::io::Read for dyn RngCore {
    fn read(&mut self, buf: &mut [u8]) -> std::io::Result<usize> {
        self.fill_bytes(buf);
        Ok(buf.len())
    }
}
pub trait Fill {
    fn fill_from<R: RngCore + ?Sized>(&mut self, r: &mut R);
}
macro_rules! fill_int { ($($t:ty),*) => {$(
    impl Fill for [$t] {
        fn fill_from<R: RngCore + ?Sized>(&mut self, r: &mut R) {
            for x in self.iter_mut() {
                let mut b = [0u8; core::mem::size_of::<$t>()];
                r.fill_bytes(&mut b);
                *x = <$t>::from_le_bytes(b);
            }
        }
    }
    impl Gen for $t {
        fn gen_from<R: RngCore + ?Sized>(r: &mut R) -> Self {
            let mut b = [0u8; core::mem::size_of::<$t>()];
            r.fill_bytes(&mut b);
            <$t>::from_le_bytes(b)
        }
    }
)*}}
fill_int!(u8, u16, u32, u64, u128, usize, i8, i16, i32, i64, i128, isize);
pub trait Gen {
    fn gen_from<R: RngCore + ?Sized>(r: &mut R) -> Self;
}
impl Gen for bool {
    fn gen_from<R: RngCore + ?Sized>(r: &mut R) -> Self {
        r.next_u32() & 1 == 1
    }
}
pub trait Rng: RngCore {
    fn r#gen<T: Gen>(&mut self) -> T {
        T::gen_from(self)
    }
    fn fill<T: Fill + ?Sized>(&mut self, d: &mut T) {
        d.fill_from(self)
    }
}
pub fn thread_rng() -> rngs::StdRng {
    rngs::StdRng
}
pub fn random<T: Gen>() -> T {
    T::gen_from(&mut rngs::StdRng)
}
pub mod prelude {
    pub use crate::distributions::Distribution;
    pub use crate::rngs::StdRng;
    pub use crate::{random, thread_rng, Rng, RngCore, SeedableRng};
}
pub mod distributions {
    use crate::Rng;
    pub trait Distribution<T> {
        fn sample<R: Rng + ?Sized>(&self, rng: &mut R) -> T;
    }
    pub mod uniform {
        use crate::Rng;
        pub trait SampleUniform: Sized {
            type Sampler: UniformSampler<X = Self>;
        }
        pub trait SampleBorrow<B> {
            fn borrow(&self) -> &B;
        }
        impl<B: SampleUniform> SampleBorrow<B> for B {
            fn borrow(&self) -> &B {
                self
            }
        }
        impl<'a, B: SampleUniform> SampleBorrow<B> for &'a B {
            fn borrow(&self) -> &B {
                *self
            }
        }
        pub trait UniformSampler: Sized {
            type X;
            fn new<B1: SampleBorrow<Self::X> + Sized, B2: SampleBorrow<Self::X> + Sized>(l: B1, h: B2) -> Self;
            fn new_inclusive<B1: SampleBorrow<Self::X> + Sized, B2: SampleBorrow<Self::X> + Sized>(l: B1, h: B2) -> Self;
            fn sample<R: Rng + ?Sized>(&self, rng: &mut R) -> Self::X;
            fn sample_single<R: Rng + ?Sized, B1: SampleBorrow<Self::X> + Sized, B2: SampleBorrow<Self::X> + Sized>(l: B1, h: B2, rng: &mut R) -> Self::X {
                Self::new(l, h).sample(rng)
            }
        }
    }
}
impl<T: RngCore + ?Sized> Rng for T {}
pub mod rngs {
    use super::*;
    #[derive(Clone, Debug)]
    pub struct StdRng;
    pub type OsRng = StdRng;
    impl RngCore for StdRng {
        fn next_u32(&mut self) -> u32 {
            let mut b = [0u8; 4];
            self.fill_bytes(&mut b);
            u32::from_le_bytes(b)
        }
        fn next_u64(&mut self) -> u64 {
            let mut b = [0u8; 8];
            self.fill_bytes(&mut b);
            u64::from_le_bytes(b)
        }
        fn fill_bytes(&mut self, dest: &mut [u8]) {
            unsafe { sym_bytes(b"rng".as_ptr(), 3, dest.as_mut_ptr(), dest.len()) }
        }
        fn try_fill_bytes(&mut self, dest: &mut [u8]) -> Result<(), Error> {
            self.fill_bytes(dest);
            Ok(())
        }
    }
    impl SeedableRng for StdRng {
        fn from_entropy() -> Self {
            StdRng
        }
    }
}
