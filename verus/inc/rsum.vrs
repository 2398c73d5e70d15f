// ================================================================ utils.rs : sums (real-number contracts)
pub open spec fn all_fin64(s: Seq<F64>) -> bool { forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]).fin() }
pub open spec fn all_fin32(s: Seq<F32>) -> bool { forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]).fin() }
pub open spec fn vals64(s: Seq<F64>) -> Seq<real> { Seq::new(s.len(), |i: int| s[i].v()) }
pub open spec fn vals32(s: Seq<F32>) -> Seq<real> { Seq::new(s.len(), |i: int| s[i].v()) }
pub open spec fn rsum(s: Seq<real>) -> real decreases s.len() { if s.len() == 0 { 0real } else { rsum(s.drop_last()) + s.last() } }
pub proof fn lemma_rsum_update(s: Seq<real>, i: int, x: real)
    requires 0 <= i < s.len(),
    ensures rsum(s.update(i, x)) == rsum(s) - s[i] + x,
    decreases s.len()
{
    if i == s.len() - 1 { assert(s.update(i, x).drop_last() =~= s.drop_last()); }
    else { lemma_rsum_update(s.drop_last(), i, x); assert(s.update(i, x).drop_last() =~= s.drop_last().update(i, x)); }
}
pub proof fn lemma_rsum_cat(a: Seq<real>, b: Seq<real>)
    ensures rsum(a + b) == rsum(a) + rsum(b),
    decreases b.len()
{
    if b.len() == 0 { assert(a + b =~= a); }
    else { assert((a + b).drop_last() =~= a + b.drop_last()); lemma_rsum_cat(a, b.drop_last()); }
}
pub proof fn lemma_rsum_zero(s: Seq<real>)
    requires forall|i: int| 0 <= i < s.len() ==> s[i] == 0real,
    ensures rsum(s) == 0real,
    decreases s.len()
{ if s.len() > 0 { lemma_rsum_zero(s.drop_last()); } }
/// Iterator::sum on floats adds up the items
pub trait VxSumF: Sized {
    spec fn vx_fs(&self) -> Seq<F64>;
    fn vx_fsum(self) -> (r: F64) ensures all_fin64(self.vx_fs()) ==> r.e() == Ext::Fin(rsum(vals64(self.vx_fs()))),
        forall|s: Seq<real>| #[trigger] hint(s) && s.len() == self.vx_fs().len() && (forall|i: int| 0 <= i < s.len() ==> (#[trigger] self.vx_fs()[i]).e() == Ext::Fin(s[i])) ==> r.e() == Ext::Fin(rsum(s));
}
impl VxSumF for Vec<F64> {
    open spec fn vx_fs(&self) -> Seq<F64> { self@ }
    #[verifier::external_body]
    fn vx_fsum(self) -> (r: F64) { unimplemented!() }
}
