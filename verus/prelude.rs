#![feature(allocator_api)]
#![allow(unused_imports, unused_variables, unused_mut, unused_assignments, unused_parens, dead_code, non_snake_case)]
use vstd::prelude::*;
use vstd::std_specs::ops::*;
use vstd::std_specs::cmp::*;
use core::cmp::Ordering;
use std::collections::*;
verus! {
// ---------------------------------------------------------------- floating point
// Ext is the value of a float: NaN, -inf, +inf or a real number (-0 and +0 have the same value).
pub open spec fn lit_v(n: int, d: int) -> real { if d == 1 { n as real } else { (n as real) / (d as real) } }
pub enum Ext { NaN, NInf, PInf, Fin(real) }
pub open spec fn ext_lt(a: Ext, b: Ext) -> bool {
    match (a, b) {
        (Ext::NaN, _) => false,
        (_, Ext::NaN) => false,
        (Ext::NInf, Ext::NInf) => false,
        (Ext::NInf, _) => true,
        (_, Ext::NInf) => false,
        (Ext::PInf, _) => false,
        (_, Ext::PInf) => true,
        (Ext::Fin(x), Ext::Fin(y)) => x < y,
    }
}
pub open spec fn ext_eq(a: Ext, b: Ext) -> bool { a == b && !(a is NaN) }
pub open spec fn ext_le(a: Ext, b: Ext) -> bool { ext_lt(a, b) || ext_eq(a, b) }
pub open spec fn ext_neg(a: Ext) -> Ext {
    match a { Ext::NaN => Ext::NaN, Ext::NInf => Ext::PInf, Ext::PInf => Ext::NInf, Ext::Fin(x) => Ext::Fin(0real - x) }
}
pub open spec fn ext_abs(a: Ext) -> Ext {
    match a { Ext::NaN => Ext::NaN, Ext::NInf => Ext::PInf, Ext::PInf => Ext::PInf, Ext::Fin(x) => Ext::Fin(if x < 0real { 0real - x } else { x }) }
}
pub open spec fn ext_add(a: Ext, b: Ext) -> Ext {
    match (a, b) {
        (Ext::NaN, _) => Ext::NaN,
        (_, Ext::NaN) => Ext::NaN,
        (Ext::NInf, Ext::PInf) => Ext::NaN,
        (Ext::PInf, Ext::NInf) => Ext::NaN,
        (Ext::NInf, _) => Ext::NInf,
        (_, Ext::NInf) => Ext::NInf,
        (Ext::PInf, _) => Ext::PInf,
        (_, Ext::PInf) => Ext::PInf,
        (Ext::Fin(x), Ext::Fin(y)) => Ext::Fin(x + y),
    }
}
pub open spec fn ext_sub(a: Ext, b: Ext) -> Ext { ext_add(a, ext_neg(b)) }
// product / quotient are only specified on finite operands (and a non-zero divisor)
pub uninterp spec fn ext_mul_other(a: Ext, b: Ext) -> Ext;
pub uninterp spec fn ext_div_other(a: Ext, b: Ext) -> Ext;
pub open spec fn ext_mul(a: Ext, b: Ext) -> Ext {
    match (a, b) { (Ext::Fin(x), Ext::Fin(y)) => Ext::Fin(x * y), _ => ext_mul_other(a, b) }
}
pub open spec fn ext_div(a: Ext, b: Ext) -> Ext {
    match (a, b) { (Ext::Fin(x), Ext::Fin(y)) => if y != 0real { Ext::Fin(x / y) } else { ext_div_other(a, b) }, _ => ext_div_other(a, b) }
}
pub open spec fn ext_cmp(a: Ext, b: Ext) -> Option<Ordering> {
    if a is NaN || b is NaN { None } else if ext_lt(a, b) { Some(Ordering::Less) } else if a == b { Some(Ordering::Equal) } else { Some(Ordering::Greater) }
}
//@FLOAT-BEGIN
#[derive(Clone, Copy)]
#[verifier::external_body]
pub struct FXX { _f: fXX }
impl FXX {
    /// the value of the float
    pub uninterp spec fn e(self) -> Ext;
    pub open spec fn nan(self) -> bool { self.e() is NaN }
    pub open spec fn fin(self) -> bool { self.e() is Fin }
    pub open spec fn v(self) -> real { self.e()->Fin_0 }
    pub uninterp spec fn add_(self, o: FXX) -> FXX;
    pub uninterp spec fn sub_(self, o: FXX) -> FXX;
    pub uninterp spec fn mul_(self, o: FXX) -> FXX;
    pub uninterp spec fn div_(self, o: FXX) -> FXX;
    pub uninterp spec fn neg_(self) -> FXX;
    pub uninterp spec fn exp_(self) -> FXX;
    pub uninterp spec fn ln_(self) -> FXX;
    pub uninterp spec fn lit_(n: int, d: int) -> FXX;
    #[verifier::external_body]
    pub fn is_nan(self) -> (r: bool) ensures r == self.nan() { unimplemented!() }
    #[verifier::external_body]
    pub fn abs(self) -> (r: FXX) ensures r.e() == ext_abs(self.e()) { unimplemented!() }
    #[verifier::external_body]
    pub fn copysign(self, s: FXX) -> (r: FXX)
        ensures
            r.e() == ext_abs(self.e()) || r.e() == ext_neg(ext_abs(self.e())),
            ext_lt(Ext::Fin(0real), s.e()) ==> r.e() == ext_abs(self.e()),
            ext_lt(s.e(), Ext::Fin(0real)) ==> r.e() == ext_neg(ext_abs(self.e())),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn exp(self) -> (r: FXX) ensures r == self.exp_() { unimplemented!() }
    #[verifier::external_body]
    pub fn ln(self) -> (r: FXX) ensures r == self.ln_() { unimplemented!() }
    #[verifier::external_body]
    pub fn total_cmp(&self, o: &FXX) -> (r: Ordering)
        ensures
            !self.nan() && !o.nan() ==> (ext_lt(self.e(), o.e()) ==> r is Less) && (ext_lt(o.e(), self.e()) ==> r is Greater),
            *self == *o ==> r is Equal,
    { unimplemented!() }
    #[verifier::external_body]
    pub fn ZERO() -> (r: FXX) ensures r.e() == Ext::Fin(0real), r == FXX::lit_(0, 1) { unimplemented!() }
    #[verifier::external_body]
    pub fn ONE() -> (r: FXX) ensures r.e() == Ext::Fin(1real), r == FXX::lit_(1, 1) { unimplemented!() }
    #[verifier::external_body]
    pub fn NAN() -> (r: FXX) ensures r.nan() { unimplemented!() }
    #[verifier::external_body]
    pub fn INFINITY() -> (r: FXX) ensures r.e() == Ext::PInf { unimplemented!() }
    #[verifier::external_body]
    pub fn NEG_INFINITY() -> (r: FXX) ensures r.e() == Ext::NInf { unimplemented!() }
    pub uninterp spec fn max_() -> FXX;
    #[verifier::external_body]
    pub fn MAX() -> (r: FXX) ensures r == FXX::max_(), r.fin() { unimplemented!() }
}
#[verifier::external_body]
pub fn flit@W@(n: i64, d: i64) -> (r: FXX)
    requires d > 0
    ensures r.e() == Ext::Fin(lit_v(n as int, d as int)), r == FXX::lit_(n as int, d as int)
{ unimplemented!() }
impl AddSpecImpl<FXX> for FXX { open spec fn obeys_add_spec() -> bool { true } open spec fn add_req(self, o: FXX) -> bool { true } open spec fn add_spec(self, o: FXX) -> FXX { self.add_(o) } }
impl core::ops::Add<FXX> for FXX { type Output = FXX; #[verifier::external_body] fn add(self, o: FXX) -> (r: FXX) { unimplemented!() } }
impl AddSpecImpl<&FXX> for FXX { open spec fn obeys_add_spec() -> bool { true } open spec fn add_req(self, o: &FXX) -> bool { true } open spec fn add_spec(self, o: &FXX) -> FXX { self.add_(*o) } }
impl core::ops::Add<&FXX> for FXX { type Output = FXX; #[verifier::external_body] fn add(self, o: &FXX) -> (r: FXX) { unimplemented!() } }
impl SubSpecImpl<FXX> for FXX { open spec fn obeys_sub_spec() -> bool { true } open spec fn sub_req(self, o: FXX) -> bool { true } open spec fn sub_spec(self, o: FXX) -> FXX { self.sub_(o) } }
impl core::ops::Sub<FXX> for FXX { type Output = FXX; #[verifier::external_body] fn sub(self, o: FXX) -> (r: FXX) { unimplemented!() } }
impl MulSpecImpl<FXX> for FXX { open spec fn obeys_mul_spec() -> bool { true } open spec fn mul_req(self, o: FXX) -> bool { true } open spec fn mul_spec(self, o: FXX) -> FXX { self.mul_(o) } }
impl core::ops::Mul<FXX> for FXX { type Output = FXX; #[verifier::external_body] fn mul(self, o: FXX) -> (r: FXX) { unimplemented!() } }
impl DivSpecImpl<FXX> for FXX { open spec fn obeys_div_spec() -> bool { true } open spec fn div_req(self, o: FXX) -> bool { true } open spec fn div_spec(self, o: FXX) -> FXX { self.div_(o) } }
impl core::ops::Div<FXX> for FXX { type Output = FXX; #[verifier::external_body] fn div(self, o: FXX) -> (r: FXX) { unimplemented!() } }
impl NegSpecImpl for FXX { open spec fn obeys_neg_spec() -> bool { true } open spec fn neg_req(self) -> bool { true } open spec fn neg_spec(self) -> FXX { self.neg_() } }
impl core::ops::Neg for FXX { type Output = FXX; #[verifier::external_body] fn neg(self) -> (r: FXX) { unimplemented!() } }
impl NegSpecImpl for &FXX { open spec fn obeys_neg_spec() -> bool { true } open spec fn neg_req(self) -> bool { true } open spec fn neg_spec(self) -> FXX { self.neg_() } }
impl core::ops::Neg for &FXX { type Output = FXX; #[verifier::external_body] fn neg(self) -> (r: FXX) { unimplemented!() } }
impl SubSpecImpl<&FXX> for &FXX { open spec fn obeys_sub_spec() -> bool { true } open spec fn sub_req(self, o: &FXX) -> bool { true } open spec fn sub_spec(self, o: &FXX) -> FXX { self.sub_(*o) } }
impl<'a,'b> core::ops::Sub<&'b FXX> for &'a FXX { type Output = FXX; #[verifier::external_body] fn sub(self, o: &'b FXX) -> (r: FXX) { unimplemented!() } }
impl SubSpecImpl<FXX> for &FXX { open spec fn obeys_sub_spec() -> bool { true } open spec fn sub_req(self, o: FXX) -> bool { true } open spec fn sub_spec(self, o: FXX) -> FXX { self.sub_(o) } }
impl<'a> core::ops::Sub<FXX> for &'a FXX { type Output = FXX; #[verifier::external_body] fn sub(self, o: FXX) -> (r: FXX) { unimplemented!() } }
impl DivSpecImpl<FXX> for &FXX { open spec fn obeys_div_spec() -> bool { true } open spec fn div_req(self, o: FXX) -> bool { true } open spec fn div_spec(self, o: FXX) -> FXX { self.div_(o) } }
impl<'a> core::ops::Div<FXX> for &'a FXX { type Output = FXX; #[verifier::external_body] fn div(self, o: FXX) -> (r: FXX) { unimplemented!() } }
impl AddSpecImpl<&FXX> for &FXX { open spec fn obeys_add_spec() -> bool { true } open spec fn add_req(self, o: &FXX) -> bool { true } open spec fn add_spec(self, o: &FXX) -> FXX { self.add_(*o) } }
impl<'a,'b> core::ops::Add<&'b FXX> for &'a FXX { type Output = FXX; #[verifier::external_body] fn add(self, o: &'b FXX) -> (r: FXX) { unimplemented!() } }
impl AddAssignSpecImpl<FXX> for FXX { open spec fn obeys_add_assign_spec() -> bool { true } open spec fn add_assign_req(&self, o: FXX) -> bool { true } open spec fn add_assign_spec(&self, o: FXX) -> &FXX { &self.add_(o) } }
impl core::ops::AddAssign<FXX> for FXX { #[verifier::external_body] fn add_assign(&mut self, o: FXX) { unimplemented!() } }
impl MulAssignSpecImpl<FXX> for FXX { open spec fn obeys_mul_assign_spec() -> bool { true } open spec fn mul_assign_req(&self, o: FXX) -> bool { true } open spec fn mul_assign_spec(&self, o: FXX) -> &FXX { &self.mul_(o) } }
impl core::ops::MulAssign<FXX> for FXX { #[verifier::external_body] fn mul_assign(&mut self, o: FXX) { unimplemented!() } }
impl DivAssignSpecImpl<FXX> for FXX { open spec fn obeys_div_assign_spec() -> bool { true } open spec fn div_assign_req(&self, o: FXX) -> bool { true } open spec fn div_assign_spec(&self, o: FXX) -> &FXX { &self.div_(o) } }
impl core::ops::DivAssign<FXX> for FXX { #[verifier::external_body] fn div_assign(&mut self, o: FXX) { unimplemented!() } }
impl PartialEqSpecImpl<FXX> for FXX { open spec fn obeys_eq_spec() -> bool { true } open spec fn eq_spec(&self, o: &FXX) -> bool { ext_eq(self.e(), o.e()) } }
impl core::cmp::PartialEq<FXX> for FXX { #[verifier::external_body] fn eq(&self, o: &FXX) -> (r: bool) { unimplemented!() } }
impl PartialOrdSpecImpl<FXX> for FXX { open spec fn obeys_partial_cmp_spec() -> bool { true } open spec fn partial_cmp_spec(&self, o: &FXX) -> Option<Ordering> { ext_cmp(self.e(), o.e()) } }
impl core::cmp::PartialOrd<FXX> for FXX { #[verifier::external_body] fn partial_cmp(&self, o: &FXX) -> (r: Option<Ordering>) { unimplemented!() } }
//@FLOAT-END
// a literal whose width the compiler infers
pub trait VxLit: Sized { spec fn is_lit(self, n: int, d: int) -> bool; }
impl VxLit for F32 { open spec fn is_lit(self, n: int, d: int) -> bool { self.e() == Ext::Fin(lit_v(n as int, d as int)) && self == F32::lit_(n, d) } }
impl VxLit for F64 { open spec fn is_lit(self, n: int, d: int) -> bool { self.e() == Ext::Fin(lit_v(n as int, d as int)) && self == F64::lit_(n, d) } }
#[verifier::external_body]
pub fn flit<F: VxLit>(n: i64, d: i64) -> (r: F) requires d > 0 ensures r.is_lit(n as int, d as int) { unimplemented!() }
// ---- conversions
pub uninterp spec fn to64_(x: F32) -> F64;
pub uninterp spec fn to32_(x: F64) -> F32;
pub uninterp spec fn int64_(x: int) -> F64;
pub uninterp spec fn int32_(x: int) -> F32;
pub trait ToF: Sized {
    spec fn s64(self) -> F64;
    spec fn s32(self) -> F32;
    spec fn ext(self) -> Ext;
    spec fn exact64(self) -> bool;
}
impl ToF for F32 { open spec fn s64(self) -> F64 { to64_(self) } open spec fn s32(self) -> F32 { self } open spec fn ext(self) -> Ext { self.e() } open spec fn exact64(self) -> bool { true } }
impl ToF for F64 { open spec fn s64(self) -> F64 { self } open spec fn s32(self) -> F32 { to32_(self) } open spec fn ext(self) -> Ext { self.e() } open spec fn exact64(self) -> bool { true } }
impl ToF for usize { open spec fn s64(self) -> F64 { int64_(self as int) } open spec fn s32(self) -> F32 { int32_(self as int) } open spec fn ext(self) -> Ext { Ext::Fin(self as real) } open spec fn exact64(self) -> bool { self < 0x20_0000_0000_0000 } }
impl ToF for u16 { open spec fn s64(self) -> F64 { int64_(self as int) } open spec fn s32(self) -> F32 { int32_(self as int) } open spec fn ext(self) -> Ext { Ext::Fin(self as real) } open spec fn exact64(self) -> bool { true } }
// widening to f64 is exact (f32, u16, and usize below 2^53)
#[verifier::external_body]
pub fn cvt64<X: ToF>(x: X) -> (r: F64) ensures r == x.s64(), x.exact64() ==> r.e() == x.ext() { unimplemented!() }
#[verifier::external_body]
pub fn cvt32<X: ToF>(x: X) -> (r: F32) ensures r == x.s32() { unimplemented!() }
pub axiom fn axiom_widen(x: F32) ensures #[trigger] to64_(x).e() == x.e();
// ---- idealised arithmetic: machine rounding and overflow are treated as mathematical.
// Used only by the units that say so (broadcast use ideal;).
pub uninterp spec fn rexp(x: real) -> real;
pub uninterp spec fn rln(x: real) -> real;
pub mod ideal {
    use super::*;
    //@IDEAL-BEGIN
    pub broadcast axiom fn add32(a: F32, b: F32) ensures #[trigger] a.add_(b).e() == ext_add(a.e(), b.e());
    pub broadcast axiom fn sub32(a: F32, b: F32) ensures #[trigger] a.sub_(b).e() == ext_sub(a.e(), b.e());
    pub broadcast axiom fn mul32(a: F32, b: F32) ensures #[trigger] a.mul_(b).e() == ext_mul(a.e(), b.e());
    pub broadcast axiom fn div32(a: F32, b: F32) ensures #[trigger] a.div_(b).e() == ext_div(a.e(), b.e());
    pub broadcast axiom fn add64(a: F64, b: F64) ensures #[trigger] a.add_(b).e() == ext_add(a.e(), b.e());
    pub broadcast axiom fn sub64(a: F64, b: F64) ensures #[trigger] a.sub_(b).e() == ext_sub(a.e(), b.e());
    pub broadcast axiom fn mul64(a: F64, b: F64) ensures #[trigger] a.mul_(b).e() == ext_mul(a.e(), b.e());
    pub broadcast axiom fn div64(a: F64, b: F64) ensures #[trigger] a.div_(b).e() == ext_div(a.e(), b.e());
    pub broadcast axiom fn exp64(a: F64) ensures a.fin() ==> (#[trigger] a.exp_()).e() == Ext::Fin(rexp(a.v())) && rexp(a.v()) > 0real;
    pub broadcast axiom fn ln64(a: F64) ensures a.fin() && a.v() > 0real ==> (#[trigger] a.ln_()).e() == Ext::Fin(rln(a.v())) && rexp(rln(a.v())) == a.v();
    pub axiom fn exp_neg(x: real) ensures rexp(x) > 0real, rexp(x) * rexp(0real - x) == 1real;
    pub broadcast axiom fn narrow(a: F64) ensures #[trigger] to32_(a).e() == a.e();
    pub broadcast axiom fn int64(a: int) ensures #[trigger] int64_(a).e() == Ext::Fin(a as real);
    pub broadcast axiom fn int32(a: int) ensures #[trigger] int32_(a).e() == Ext::Fin(a as real);
    //@IDEAL-END
}
pub broadcast group ideal_arith { ideal::add32, ideal::sub32, ideal::mul32, ideal::div32, ideal::add64, ideal::sub64, ideal::mul64, ideal::div64, ideal::exp64, ideal::ln64, ideal::narrow, ideal::int64, ideal::int32, exact::neg32, exact::neg64, exact::wid }
// the same facts with products and quotients kept opaque (the solver's nonlinear arithmetic stays out of the way)
#[verifier::opaque]
pub open spec fn rmul(x: real, y: real) -> real { x * y }
#[verifier::opaque]
pub open spec fn rdiv(x: real, y: real) -> real { x / y }
pub mod opq {
    use super::*;
    pub broadcast proof fn mul32(a: F32, b: F32) requires a.fin(), b.fin(), ensures (#[trigger] a.mul_(b)).e() == Ext::Fin(rmul(a.v(), b.v())), { broadcast use ideal::mul32; reveal(rmul); }
    pub broadcast proof fn mul64(a: F64, b: F64) requires a.fin(), b.fin(), ensures (#[trigger] a.mul_(b)).e() == Ext::Fin(rmul(a.v(), b.v())), { broadcast use ideal::mul64; reveal(rmul); }
    pub broadcast proof fn div32(a: F32, b: F32) requires a.fin(), b.fin(), b.v() != 0real, ensures (#[trigger] a.div_(b)).e() == Ext::Fin(rdiv(a.v(), b.v())), { broadcast use ideal::div32; reveal(rdiv); }
    pub broadcast proof fn div64(a: F64, b: F64) requires a.fin(), b.fin(), b.v() != 0real, ensures (#[trigger] a.div_(b)).e() == Ext::Fin(rdiv(a.v(), b.v())), { broadcast use ideal::div64; reveal(rdiv); }
    pub broadcast proof fn comm(x: real, y: real) ensures #[trigger] rmul(x, y) == rmul(y, x), { reveal(rmul); assert(x * y == y * x) by (nonlinear_arith); }
}
pub broadcast group opaque_arith { ideal::add32, ideal::sub32, ideal::add64, ideal::sub64, ideal::exp64, ideal::ln64, ideal::narrow, ideal::int64, ideal::int32, exact::neg32, exact::neg64, exact::wid, opq::mul32, opq::mul64, opq::div32, opq::div64, opq::comm }
// exact IEEE facts about operators (no idealisation)
pub mod exact {
    use super::*;
    pub broadcast axiom fn neg32(a: F32) ensures #[trigger] a.neg_().e() == ext_neg(a.e());
    pub broadcast axiom fn neg64(a: F64) ensures #[trigger] a.neg_().e() == ext_neg(a.e());
    pub broadcast axiom fn wid(a: F32) ensures #[trigger] to64_(a).e() == a.e();
}
pub broadcast group exact_arith { exact::neg32, exact::neg64, exact::wid }
/// only the vacuity run calls this
#[verifier::external_body]
pub fn vx_diverge<T>() -> (r: T) ensures false { unimplemented!() }
