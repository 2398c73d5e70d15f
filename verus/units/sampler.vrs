/*@prelude*/
/*@include ../inc/ext.vrs*/
/*@include ../inc/matrix.vrs*/
/*@include ../inc/rowmajor.vrs*/
/*@include ../inc/tree.vrs*/
/*@include ../inc/booster_types.vrs*/
/*@include ../inc/sampler.vrs*/
/// the rates gradient based sampling is meant for
pub open spec fn goss_ok(b: GradientBooster, idx: Seq<usize>, g: Seq<F32>, h: Seq<F32>) -> bool {
    &&& g.len() == idx.len() && h.len() == idx.len() && idx.len() < 0xffff_ffff
    &&& forall|k: int| 0 <= k < g.len() ==> !(#[trigger] g[k]).nan()
    &&& b.top_rate.fin() && 0real <= b.top_rate.v() <= 1real && b.other_rate.fin() && 0real < b.other_rate.v() <= 1real
}
impl GradientBooster {
/*@fn gradientbooster.rs :: GradientBooster :: sample_index
std to_owned
ret r
spec:
    requires self.sample_method is Goss ==> goss_ok(*self, index@, old(grad)@, old(hess)@),
    ensures
        self.sample_method is None ==> r.0@ == index@ && r.1@.len() == 0,
        self.sample_method is Random ==> random_rows(index@, self.subsample.e(), r.0@, r.1@),
        !(self.sample_method is Goss) ==> final(grad)@ == old(grad)@ && final(hess)@ == old(hess)@,
        self.sample_method is Goss ==> goss_rows(self.top_rate, self.other_rate, old(grad)@, old(hess)@, final(grad)@, final(hess)@, r.0@) && r.1@.len() == 0,
*/
}
} fn main() {}
