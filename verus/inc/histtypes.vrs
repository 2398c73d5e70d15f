/*@include ../inc/fsum.vrs*/
// ================================================================ histogram.rs
/// contribution of row i to bin b of a feature
pub open spec fn bin_val(feat: Seq<u16>, vals: Seq<F32>, b: int, i: usize) -> real { if feat[i as int] as int == b { vals[i as int].v() } else { 0real } }
/// sum of the values of the listed rows that fall in bin b
pub open spec fn bin_sum(idx: Seq<usize>, feat: Seq<u16>, vals: Seq<F32>, b: int) -> real { fsum(idx, |i: usize| bin_val(feat, vals, b, i)) }
/// h is the histogram of the listed rows: the missing bin, then one bin per cut but the last
pub open spec fn is_hist(h: Seq<Bin<F32>>, idx: Seq<usize>, feat: Seq<u16>, cuts: Seq<F64>, grad: Seq<F32>, hess: Seq<F32>) -> bool {
    &&& h.len() == cuts.len()
    &&& forall|b: int| 0 <= b < h.len() ==> bin_is(#[trigger] h[b], b, idx, feat, cuts, grad, hess)
}
pub open spec fn bin_is(x: Bin<F32>, b: int, idx: Seq<usize>, feat: Seq<u16>, cuts: Seq<F64>, grad: Seq<F32>, hess: Seq<F32>) -> bool {
    &&& x.gradient_sum.e() == Ext::Fin(bin_sum(idx, feat, grad, b))
    &&& x.hessian_sum.e() == Ext::Fin(bin_sum(idx, feat, hess, b))
    &&& if b == 0 { x.cut_value.nan() } else { x.cut_value == cuts[b - 1] }
}
/// a histogram matrix holds, for every offered column, the histogram of the listed rows
#[verifier::opaque]
pub open spec fn is_hists(H: HistogramMatrix, idx: Seq<usize>, data: Matrix<u16>, cuts: JaggedMatrix<F64>, grad: Seq<F32>, hess: Seq<F32>, ci: Seq<usize>) -> bool {
    &&& H.0.wf() && H.0.cols == ci.len()
    &&& forall|k: int| 0 <= k < ci.len() ==> #[trigger] col_is(H, k, idx, data, cuts, grad, hess, ci)
}
pub proof fn lemma_is_hists(H: HistogramMatrix, idx: Seq<usize>, data: Matrix<u16>, cuts: JaggedMatrix<F64>, grad: Seq<F32>, hess: Seq<F32>, ci: Seq<usize>)
    requires is_hists(H, idx, data, cuts, grad, hess, ci),
    ensures H.0.wf() && H.0.cols == ci.len(), forall|k: int| 0 <= k < ci.len() ==> #[trigger] col_is(H, k, idx, data, cuts, grad, hess, ci),
{ reveal(is_hists); }
pub open spec fn col_is(H: HistogramMatrix, k: int, idx: Seq<usize>, data: Matrix<u16>, cuts: JaggedMatrix<F64>, grad: Seq<F32>, hess: Seq<F32>, ci: Seq<usize>) -> bool {
    &&& H.0.ends@[k] - H.0.start(k) == cuts.col(ci[k] as int).len()
    &&& is_hist(H.0.col(k), idx, data.col(ci[k] as int), cuts.col(ci[k] as int), grad, hess)
}
/// binned data, cuts, gradients and offered columns fit together
pub open spec fn train_ok(data: Matrix<u16>, cuts: JaggedMatrix<F64>, grad: Seq<F32>, hess: Seq<F32>, ci: Seq<usize>) -> bool {
    &&& data.wf() && cuts.wf() && cuts.cols == data.cols
    &&& grad.len() == data.rows && hess.len() == data.rows && all_fin(grad) && all_fin(hess)
    &&& forall|k: int| 0 <= k < ci.len() ==> (#[trigger] ci[k]) < data.cols
    &&& forall|c: int| 0 <= c < data.cols ==> (#[trigger] cuts.col(c)).len() >= 1 && cuts.start(c) + 1 <= cuts.ends@[c]
    &&& (ci.len() == data.cols ==> forall|k: int| 0 <= k < ci.len() ==> #[trigger] ci[k] == k)
}
pub open spec fn all_fin(s: Seq<F32>) -> bool { forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]).fin() }
pub open spec fn idx_ok(idx: Seq<usize>, n: int) -> bool { forall|k: int| 0 <= k < idx.len() ==> (#[trigger] idx[k]) < n }
