// ---- the part of the rand crate that differential evolution uses ---------------------------
// An assumed contract (rand 0.8): gen_range yields a value of the half-open range and panics on
// an empty one; gen::<f32>() yields a value below 1.
pub mod rand {
use vstd::prelude::*;
use vstd::std_specs::cmp::*;
pub mod distributions { pub mod uniform {
    pub trait SampleUniform: Sized {}
    impl SampleUniform for usize {}
    impl SampleUniform for f32 {}
    impl SampleUniform for f64 {}
} }
pub open spec fn lt<T: PartialOrd>(a: T, b: T) -> bool { a.partial_cmp_spec(&b) == Some(core::cmp::Ordering::Less) }
pub open spec fn le<T: PartialOrd>(a: T, b: T) -> bool { lt(a, b) || a.partial_cmp_spec(&b) == Some(core::cmp::Ordering::Equal) }
pub trait SampleRange<T>: Sized { spec fn nonempty(self) -> bool; spec fn has(self, x: T) -> bool; }
impl<T: PartialOrd> SampleRange<T> for core::ops::Range<T> {
    open spec fn nonempty(self) -> bool { lt(self.start, self.end) }
    open spec fn has(self, x: T) -> bool { le(self.start, x) && lt(x, self.end) }
}
pub trait Standard: Sized { spec fn std_ok(x: Self) -> bool; }
impl Standard for f32 { open spec fn std_ok(x: f32) -> bool { le(0.0f32, x) && lt(x, 1.0f32) } }
pub trait Rng: Sized {
    fn gen_range<T: distributions::uniform::SampleUniform, R: SampleRange<T>>(&mut self, range: R) -> (x: T)
        requires range.nonempty() || crate::vxp::may_panic(),
        ensures range.nonempty(), range.has(x);
    fn gen<T: Standard>(&mut self) -> (x: T)
        ensures T::std_ok(x);
}
}
