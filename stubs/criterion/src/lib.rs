//! Stand-in for the benchmark harness (no benchmark runs here).
pub mod measurement {
    pub trait Measurement {}
    pub struct WallTime;
    impl Measurement for WallTime {}
}
use measurement::Measurement;
pub enum BatchSize {
    SmallInput,
    LargeInput,
    PerIteration,
}
pub struct Bencher;
impl Bencher {
    pub fn iter<O, R: FnMut() -> O>(&mut self, _r: R) {}
    pub fn iter_batched<I, O, S: FnMut() -> I, R: FnMut(I) -> O>(&mut self, _s: S, _r: R, _b: BatchSize) {}
    pub fn iter_batched_ref<I, O, S: FnMut() -> I, R: FnMut(&mut I) -> O>(&mut self, _s: S, _r: R, _b: BatchSize) {}
}
pub struct BenchmarkGroup<M: Measurement>(core::marker::PhantomData<M>);
impl<M: Measurement> BenchmarkGroup<M> {
    pub fn bench_function<I, F: FnMut(&mut Bencher)>(&mut self, _id: I, _f: F) -> &mut Self {
        self
    }
    pub fn finish(self) {}
}
pub struct Criterion;
impl Criterion {
    pub fn benchmark_group<S: Into<String>>(&mut self, _n: S) -> BenchmarkGroup<measurement::WallTime> {
        BenchmarkGroup(core::marker::PhantomData)
    }
    pub fn bench_function<I, F: FnMut(&mut Bencher)>(&mut self, _id: I, _f: F) -> &mut Self {
        self
    }
}
pub fn black_box<T>(x: T) -> T {
    x
}
