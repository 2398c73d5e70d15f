// ================================================================ rand : the random generator
/// the random generator: a state machine; any value in range may come out
#[verifier::external_body]
pub struct StdRng { k: u64 }
#[verifier::external_body]
pub struct RngSt { k: u64 }
pub uninterp spec fn rng_next(s: RngSt) -> RngSt;
pub uninterp spec fn draw32(s: RngSt, lo: F32, hi: F32) -> F32;
pub uninterp spec fn draw64(s: RngSt, lo: F64, hi: F64) -> F64;
impl StdRng { pub uninterp spec fn st(&self) -> RngSt; }
pub trait VxRng<T> { fn vx_gen_range(&mut self, r: core::ops::Range<T>) -> (x: T); }
impl VxRng<F32> for StdRng {
    #[verifier::external_body]
    fn vx_gen_range(&mut self, r: core::ops::Range<F32>) -> (x: F32)
        ensures x == draw32(old(self).st(), r.start, r.end), final(self).st() == rng_next(old(self).st()),
            ext_lt(r.start.e(), r.end.e()) ==> x.fin() && ext_le(r.start.e(), x.e()) && ext_lt(x.e(), r.end.e()),
    { unimplemented!() }
}
impl VxRng<F64> for StdRng {
    #[verifier::external_body]
    fn vx_gen_range(&mut self, r: core::ops::Range<F64>) -> (x: F64)
        ensures x == draw64(old(self).st(), r.start, r.end), final(self).st() == rng_next(old(self).st()),
            ext_lt(r.start.e(), r.end.e()) ==> x.fin() && ext_le(r.start.e(), x.e()) && ext_lt(x.e(), r.end.e()),
    { unimplemented!() }
}
pub uninterp spec fn trunc_(x: F64) -> usize;
/// a float cast to an integer: towards zero
#[verifier::external_body]
pub fn ftrunc(x: F64) -> (r: usize)
    ensures r == trunc_(x), x.fin() && 0real <= x.v() < usize::MAX as real ==> r as real <= x.v() < r as real + 1real,
{ unimplemented!() }
