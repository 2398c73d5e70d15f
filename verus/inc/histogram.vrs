/// sum over the first n positions of a list of rows, with the values listed in the same order
pub open spec fn pos_sum(idx: Seq<usize>, feat: Seq<u16>, sv: Seq<F32>, b: int, n: int) -> real decreases n {
    if n <= 0 { 0real } else { pos_sum(idx, feat, sv, b, n - 1) + if feat[idx[n - 1] as int] as int == b { sv[n - 1].v() } else { 0real } }
}
pub proof fn lemma_pos_sum(idx: Seq<usize>, feat: Seq<u16>, sv: Seq<F32>, vals: Seq<F32>, b: int, n: int)
    requires 0 <= n <= idx.len(), sv.len() == idx.len(), forall|k: int| 0 <= k < idx.len() ==> sv[k] == vals[(#[trigger] idx[k]) as int],
    ensures pos_sum(idx, feat, sv, b, n) == bin_sum(idx.subrange(0, n), feat, vals, b),
    decreases n
{
    if n > 0 {
        lemma_pos_sum(idx, feat, sv, vals, b, n - 1);
        assert(idx.subrange(0, n).drop_last() =~= idx.subrange(0, n - 1));
        assert(idx.subrange(0, n).last() == idx[n - 1]);
    }
}
impl Bin<F32> {
/*@fn histogram.rs :: Bin <f32> :: new_f32
ret r
spec:
    ensures r.gradient_sum.e() == Ext::Fin(0real), r.hessian_sum.e() == Ext::Fin(0real), r.cut_value == cut_value,
*/
/*@fn histogram.rs :: Bin <f32> :: from_parent_child
ret r
spec:
    ensures
        r.gradient_sum.e() == ext_sub(root_bin.gradient_sum.e(), child_bin.gradient_sum.e()),
        r.hessian_sum.e() == ext_sub(root_bin.hessian_sum.e(), child_bin.hessian_sum.e()),
        r.cut_value == root_bin.cut_value,
start:
    broadcast use ideal_arith;
*/
/*@fn histogram.rs :: Bin <f32> :: from_parent_two_children
ret r
spec:
    ensures
        r.gradient_sum.e() == ext_sub(root_bin.gradient_sum.e(), ext_add(first_child_bin.gradient_sum.e(), second_child_bin.gradient_sum.e())),
        r.hessian_sum.e() == ext_sub(root_bin.hessian_sum.e(), ext_add(first_child_bin.hessian_sum.e(), second_child_bin.hessian_sum.e())),
        r.cut_value == root_bin.cut_value,
start:
    broadcast use ideal_arith;
*/
}
impl Bin<F64> {
/*@fn histogram.rs :: Bin <f64> :: new_f64
ret r
spec:
    ensures r.gradient_sum.e() == Ext::Fin(0real), r.hessian_sum.e() == Ext::Fin(0real), r.cut_value == cut_value,
*/
/*@fn histogram.rs :: Bin <f64> :: as_f32_bin
ret r
spec:
    ensures r.gradient_sum.e() == self.gradient_sum.e(), r.hessian_sum.e() == self.hessian_sum.e(), r.cut_value == self.cut_value,
start:
    broadcast use ideal_arith;
*/
}
/*@fn histogram.rs :: create_feature_histogram
std get_mut
extendcollect
ret r
spec:
    requires
        cuts@.len() >= 1, sorted_grad@.len() == index@.len(), sorted_hess@.len() == index@.len(), idx_ok(index@, feature@.len() as int),
        all_fin(sorted_grad@), all_fin(sorted_hess@),
    ensures
        r@.len() == cuts@.len(),
        forall|b: int| 0 <= b < r@.len() ==> {
            &&& (#[trigger] r@[b]).gradient_sum.e() == Ext::Fin(pos_sum(index@, feature@, sorted_grad@, b, index@.len() as int))
            &&& r@[b].hessian_sum.e() == Ext::Fin(pos_sum(index@, feature@, sorted_hess@, b, index@.len() as int))
            &&& if b == 0 { r@[b].cut_value.nan() } else { r@[b].cut_value == cuts@[b - 1] }
        },
start:
    broadcast use ideal_arith;
closure 1:
    |c: &F64| -> (o: Bin<F64>) ensures o.gradient_sum.e() == Ext::Fin(0real), o.hessian_sum.e() == Ext::Fin(0real), o.cut_value == *c
before "for ((i":
    proof {
        assert(histogram@.len() == 1 + (cuts@.len() - 1));
    }
loop 1 hoist z iter it:
    invariant
        sorted_grad@.len() == index@.len(), sorted_hess@.len() == index@.len(), idx_ok(index@, feature@.len() as int),
        all_fin(sorted_grad@), all_fin(sorted_hess@),
        z_s.len() == index@.len(), forall|k: int| 0 <= k < z_s.len() ==> *((#[trigger] z_s[k]).0.0) == index@[k] && *z_s[k].0.1 == sorted_grad@[k] && *z_s[k].1 == sorted_hess@[k],
        it.seq() == z_s,
        histogram@.len() == cuts@.len(),
        forall|b: int| 0 <= b < histogram@.len() ==> {
            &&& (#[trigger] histogram@[b]).gradient_sum.e() == Ext::Fin(pos_sum(index@, feature@, sorted_grad@, b, it.index@))
            &&& histogram@[b].hessian_sum.e() == Ext::Fin(pos_sum(index@, feature@, sorted_hess@, b, it.index@))
            &&& if b == 0 { histogram@[b].cut_value.nan() } else { histogram@[b].cut_value == cuts@[b - 1] }
        },
loop 1 start:
    broadcast use ideal_arith;
    proof { assert(z_s[it.index@] == ((i, g), h)); }
closure 2:
    |b: &Bin<F64>| -> (o: Bin<F32>) ensures o.gradient_sum.e() == b.gradient_sum.e(), o.hessian_sum.e() == b.hessian_sum.e(), o.cut_value == b.cut_value
*/
/// number of bins of the first m offered columns
pub open spec fn cum(cuts: JaggedMatrix<F64>, ci: Seq<usize>, m: int) -> int decreases m {
    if m <= 0 { 0 } else { cum(cuts, ci, m - 1) + cuts.col(ci[m - 1] as int).len() }
}
pub proof fn lemma_cum_mono(cuts: JaggedMatrix<F64>, ci: Seq<usize>, i: int, j: int)
    requires 0 <= i <= j,
    ensures 0 <= cum(cuts, ci, i) <= cum(cuts, ci, j),
    decreases j
{ if i < j { lemma_cum_mono(cuts, ci, i, j - 1); } else if i > 0 { lemma_cum_mono(cuts, ci, i - 1, i - 1); } }
pub proof fn lemma_cum_all(cuts: JaggedMatrix<F64>, ci: Seq<usize>, m: int)
    requires cuts.wf(), 0 <= m <= ci.len(), ci.len() == cuts.cols, forall|k: int| 0 <= k < ci.len() ==> #[trigger] ci[k] == k,
    ensures m > 0 ==> cum(cuts, ci, m) == cuts.ends@[m - 1], m == 0 ==> cum(cuts, ci, m) == 0,
    decreases m
{
    if m > 0 {
        lemma_cum_all(cuts, ci, m - 1);
        assert(ci[m - 1] == m - 1);
        let c = m - 1;
        assert(cuts.start(c) <= cuts.ends@[c]);
        assert(cuts.ends@[c] <= cuts.ends@.last());
        assert(cuts.col(c).len() == cuts.ends@[c] - cuts.start(c));
    }
}
/// the first m columns are in place
pub open spec fn cols_done(d: Seq<Bin<F32>>, m: int, idx: Seq<usize>, data: Matrix<u16>, cuts: JaggedMatrix<F64>, grad: Seq<F32>, hess: Seq<F32>, ci: Seq<usize>) -> bool {
    &&& d.len() == cum(cuts, ci, m)
    &&& forall|k: int| 0 <= k < m ==> #[trigger] col_done(d, k, idx, data, cuts, grad, hess, ci)
}
#[verifier::opaque]
pub open spec fn col_done(d: Seq<Bin<F32>>, k: int, idx: Seq<usize>, data: Matrix<u16>, cuts: JaggedMatrix<F64>, grad: Seq<F32>, hess: Seq<F32>, ci: Seq<usize>) -> bool {
    0 <= cum(cuts, ci, k) <= cum(cuts, ci, k + 1) <= d.len() && is_hist(d.subrange(cum(cuts, ci, k), cum(cuts, ci, k + 1)), idx, data.col(ci[k] as int), cuts.col(ci[k] as int), grad, hess)
}
pub proof fn lemma_col_step(d: Seq<Bin<F32>>, x: Seq<Bin<F32>>, m: int, idx: Seq<usize>, data: Matrix<u16>, cuts: JaggedMatrix<F64>, grad: Seq<F32>, hess: Seq<F32>, ci: Seq<usize>, sg: Seq<F32>, sh: Seq<F32>)
    requires
        0 <= m < ci.len(), cols_done(d, m, idx, data, cuts, grad, hess, ci),
        sg.len() == idx.len(), sh.len() == idx.len(),
        forall|k: int| 0 <= k < idx.len() ==> sg[k] == grad[(#[trigger] idx[k]) as int],
        forall|k: int| 0 <= k < idx.len() ==> sh[k] == hess[(#[trigger] idx[k]) as int],
        x.len() == cuts.col(ci[m] as int).len(),
        forall|b: int| 0 <= b < x.len() ==> {
            &&& (#[trigger] x[b]).gradient_sum.e() == Ext::Fin(pos_sum(idx, data.col(ci[m] as int), sg, b, idx.len() as int))
            &&& x[b].hessian_sum.e() == Ext::Fin(pos_sum(idx, data.col(ci[m] as int), sh, b, idx.len() as int))
            &&& if b == 0 { x[b].cut_value.nan() } else { x[b].cut_value == cuts.col(ci[m] as int)[b - 1] }
        },
    ensures cols_done(d + x, m + 1, idx, data, cuts, grad, hess, ci),
{
    let n = d + x;
    lemma_cum_mono(cuts, ci, m, m + 1);
    assert(n.len() == cum(cuts, ci, m + 1));
    assert forall|k: int| 0 <= k < m + 1 implies #[trigger] col_done(n, k, idx, data, cuts, grad, hess, ci) by {
        reveal(col_done);
        if k < m { assert(col_done(d, k, idx, data, cuts, grad, hess, ci)); }
        lemma_cum_mono(cuts, ci, k, k + 1);
        lemma_cum_mono(cuts, ci, k + 1, m + 1);
        let a = cum(cuts, ci, k); let b = cum(cuts, ci, k + 1);
        if k < m {
            lemma_cum_mono(cuts, ci, k + 1, m);
            assert(n.subrange(a, b) =~= d.subrange(a, b));
        } else {
            assert(n.subrange(a, b) =~= x);
            let feat = data.col(ci[m] as int);
            assert(idx.subrange(0, idx.len() as int) =~= idx);
            assert forall|q: int| 0 <= q < x.len() implies bin_is(#[trigger] x[q], q, idx, feat, cuts.col(ci[m] as int), grad, hess) by {
                lemma_pos_sum(idx, feat, sg, grad, q, idx.len() as int);
                lemma_pos_sum(idx, feat, sh, hess, q, idx.len() as int);
            }
        }
    }
}
/// one bin is the difference of two
pub open spec fn diff_bin(r: Bin<F32>, a: Bin<F32>, b: Bin<F32>) -> bool {
    &&& r.gradient_sum.e() == ext_sub(a.gradient_sum.e(), b.gradient_sum.e())
    &&& r.hessian_sum.e() == ext_sub(a.hessian_sum.e(), b.hessian_sum.e())
    &&& r.cut_value == a.cut_value
}
pub open spec fn diff2_bin(r: Bin<F32>, a: Bin<F32>, b: Bin<F32>, c: Bin<F32>) -> bool {
    &&& r.gradient_sum.e() == ext_sub(a.gradient_sum.e(), ext_add(b.gradient_sum.e(), c.gradient_sum.e()))
    &&& r.hessian_sum.e() == ext_sub(a.hessian_sum.e(), ext_add(b.hessian_sum.e(), c.hessian_sum.e()))
    &&& r.cut_value == a.cut_value
}
pub open spec fn same_shape(a: HistogramMatrix, b: HistogramMatrix) -> bool { a.0.ends@ == b.0.ends@ && a.0.cols == b.0.cols && a.0.data@.len() == b.0.data@.len() }
/// r holds the bins of the root less those of the child
#[verifier::opaque]
pub open spec fn sub1(r: HistogramMatrix, root: HistogramMatrix, c: HistogramMatrix) -> bool {
    &&& same_shape(r, c)
    &&& forall|k: int| 0 <= k < r.0.data@.len() ==> diff_bin(#[trigger] r.0.data@[k], root.0.data@[k], c.0.data@[k])
}
#[verifier::opaque]
pub open spec fn sub2(r: HistogramMatrix, root: HistogramMatrix, c1: HistogramMatrix, c2: HistogramMatrix) -> bool {
    &&& same_shape(r, c1)
    &&& forall|k: int| 0 <= k < r.0.data@.len() ==> diff2_bin(#[trigger] r.0.data@[k], root.0.data@[k], c1.0.data@[k], c2.0.data@[k])
}
impl HistogramMatrix {
/*@fn histogram.rs :: HistogramMatrix :: empty
ret r
spec:
    ensures r.0.wf(), r.0.cols == 0,
*/
/*@fn histogram.rs :: HistogramMatrix :: new
flatloop Bin<F32>
std to_vec=vx_to_owned to_owned=vx_to_owned sum
ret r
spec:
    requires
        train_ok(*data, *cuts, grad@, hess@, col_index@), idx_ok(index@, data.rows as int),
        !sort ==> index@.len() == data.rows && forall|k: int| 0 <= k < index@.len() ==> #[trigger] index@[k] == k,
    ensures
        is_hists(r, index@, *data, *cuts, grad@, hess@, col_index@),
        forall|k: int| 0 <= k < col_index@.len() ==> #[trigger] r.0.ends@[k] == cum(*cuts, col_index@, k + 1),
loop 1 iter it:
    invariant
        train_ok(*data, *cuts, grad@, hess@, col_index@), idx_ok(index@, data.rows as int),
        it.seq().len() == index@.len(), forall|k: int| 0 <= k < index@.len() ==> *(#[trigger] it.seq()[k]) == index@[k],
        n_grad@.len() == it.index@, n_hess@.len() == it.index@,
        forall|k: int| 0 <= k < it.index@ ==> n_grad@[k] == grad@[(#[trigger] index@[k]) as int],
        forall|k: int| 0 <= k < it.index@ ==> n_hess@[k] == hess@[(#[trigger] index@[k]) as int],
loop 1 start:
    proof { assert(*i == index@[it.index@]); }
before "let histograms":
    proof {
        assert forall|k: int| 0 <= k < sorted_grad@.len() implies (#[trigger] sorted_grad@[k]).fin() by { assert(index@[k] < data.rows); assert(grad@[index@[k] as int].fin()); }
        assert forall|k: int| 0 <= k < sorted_hess@.len() implies (#[trigger] sorted_hess@[k]).fin() by { assert(index@[k] < data.rows); assert(hess@[index@[k] as int].fin()); }
    }
loop 2 iter jt:
    invariant
        train_ok(*data, *cuts, grad@, hess@, col_index@), idx_ok(index@, data.rows as int),
        sorted_grad@.len() == index@.len(), sorted_hess@.len() == index@.len(), all_fin(sorted_grad@), all_fin(sorted_hess@),
        forall|k: int| 0 <= k < index@.len() ==> sorted_grad@[k] == grad@[(#[trigger] index@[k]) as int],
        forall|k: int| 0 <= k < index@.len() ==> sorted_hess@[k] == hess@[(#[trigger] index@[k]) as int],
        jt.seq().len() == col_index@.len(), forall|k: int| 0 <= k < col_index@.len() ==> *(#[trigger] jt.seq()[k]) == col_index@[k],
        cols_done(vx_acc@, jt.index@, index@, *data, *cuts, grad@, hess@, col_index@),
loop 2 start:
    let ghost acc0 = vx_acc@;
    proof { assert(*col == col_index@[jt.index@]); assert(cuts.col(*col as int).len() >= 1); }
loop 2 end:
    proof { assert(vx_acc@ =~= acc0 + vx_acc@.subrange(acc0.len() as int, vx_acc@.len() as int)); lemma_col_step(acc0, vx_acc@.subrange(acc0.len() as int, vx_acc@.len() as int), jt.index@, index@, *data, *cuts, grad@, hess@, col_index@, sorted_grad@, sorted_hess@); }
loop 3 iter kt:
    invariant
        train_ok(*data, *cuts, grad@, hess@, col_index@), idx_ok(index@, data.rows as int),
        sorted_grad@.len() == index@.len(), sorted_hess@.len() == index@.len(), all_fin(sorted_grad@), all_fin(sorted_hess@),
        forall|k: int| 0 <= k < index@.len() ==> sorted_grad@[k] == grad@[(#[trigger] index@[k]) as int],
        forall|k: int| 0 <= k < index@.len() ==> sorted_hess@[k] == hess@[(#[trigger] index@[k]) as int],
        kt.seq().len() == col_index@.len(), forall|k: int| 0 <= k < col_index@.len() ==> *(#[trigger] kt.seq()[k]) == col_index@[k],
        cols_done(vx_acc@, kt.index@, index@, *data, *cuts, grad@, hess@, col_index@),
loop 3 start:
    let ghost acc0 = vx_acc@;
    proof { assert(*col == col_index@[kt.index@]); assert(cuts.col(*col as int).len() >= 1); }
loop 3 end:
    proof { assert(vx_acc@ =~= acc0 + vx_acc@.subrange(acc0.len() as int, vx_acc@.len() as int)); lemma_col_step(acc0, vx_acc@.subrange(acc0.len() as int, vx_acc@.len() as int), kt.index@, index@, *data, *cuts, grad@, hess@, col_index@, sorted_grad@, sorted_hess@); }
before "let ends":
    let ghost total = cum(*cuts, col_index@, col_index@.len() as int);
    proof { assert(histograms@.len() == total); assert(histograms@.len() <= usize::MAX) by { let n = histograms.len(); } }
loop 4 iter lt:
    invariant
        train_ok(*data, *cuts, grad@, hess@, col_index@), total == cum(*cuts, col_index@, col_index@.len() as int), total <= usize::MAX,
        lt.seq().len() == col_index@.len(), forall|k: int| 0 <= k < col_index@.len() ==> *(#[trigger] lt.seq()[k]) == col_index@[k],
        vx_acc@.len() == lt.index@, vx_state == cum(*cuts, col_index@, lt.index@),
        forall|k: int| 0 <= k < lt.index@ ==> #[trigger] vx_acc@[k] == cum(*cuts, col_index@, k + 1),
    ensures
        vx_acc@.len() == col_index@.len(),
        forall|k: int| 0 <= k < col_index@.len() ==> #[trigger] vx_acc@[k] == cum(*cuts, col_index@, k + 1),
loop 4 start:
    proof { assert(*i == col_index@[lt.index@]); lemma_cum_mono(*cuts, col_index@, lt.index@ + 1, col_index@.len() as int); }
tail:
    proof {
        reveal(is_hists);
        let m = col_index@.len() as int;
        assert forall|k: int| 0 <= k < m implies #[trigger] r.0.ends@[k] == cum(*cuts, col_index@, k + 1) by {
            if m == data.cols { lemma_cum_all(*cuts, col_index@, k + 1); }
        }
        assert forall|i: int, j: int| 0 <= i <= j < r.0.ends@.len() implies #[trigger] r.0.ends@[i] <= #[trigger] r.0.ends@[j] by { lemma_cum_mono(*cuts, col_index@, i + 1, j + 1); }
        assert forall|k: int| 0 <= k < m implies #[trigger] col_is(r, k, index@, *data, *cuts, grad@, hess@, col_index@) by {
            assert(col_done(histograms@, k, index@, *data, *cuts, grad@, hess@, col_index@));
            reveal(col_done);
            assert(r.0.start(k) == cum(*cuts, col_index@, k)) by { if k > 0 { assert(r.0.ends@[k - 1] == cum(*cuts, col_index@, k)); } }
            assert(r.0.ends@[k] == cum(*cuts, col_index@, k + 1));
            assert(r.0.col(k) == histograms@.subrange(cum(*cuts, col_index@, k), cum(*cuts, col_index@, k + 1)));
        }
    }
*/
/*@fn histogram.rs :: HistogramMatrix :: from_parent_child
std to_owned=vx_to_owned
ret r
spec:
    requires root_histogram.0.data@.len() == child_histogram.0.data@.len(),
    ensures
        sub1(r, *root_histogram, *child_histogram),
start:
    reveal(sub1);
closure 1:
    |p__: (&Bin<F32>, &Bin<F32>)| -> (o: Bin<F32>) ensures diff_bin(o, *p__.0, *p__.1)
*/
/*@fn histogram.rs :: HistogramMatrix :: from_parent_two_children
std to_owned=vx_to_owned
ret r
spec:
    requires root_histogram.0.data@.len() == first_child_histogram.0.data@.len(), root_histogram.0.data@.len() == second_child_histogram.0.data@.len(),
    ensures
        sub2(r, *root_histogram, *first_child_histogram, *second_child_histogram),
start:
    reveal(sub2);
closure 1:
    |p__: ((&Bin<F32>, &Bin<F32>), &Bin<F32>)| -> (o: Bin<F32>) ensures diff2_bin(o, *p__.0.0, *p__.0.1, *p__.1)
*/
}
/// a row list split in two, in any order: the sums add up
pub proof fn lemma_bin_sum_split(all: Seq<usize>, a: Seq<usize>, b: Seq<usize>, feat: Seq<u16>, vals: Seq<F32>, q: int)
    requires all.to_multiset() == (a + b).to_multiset(),
    ensures bin_sum(all, feat, vals, q) == bin_sum(a, feat, vals, q) + bin_sum(b, feat, vals, q),
{
    let f = |i: usize| bin_val(feat, vals, q, i);
    lemma_fsum_perm(all, a + b, f);
    lemma_fsum_cat(a, b, f);
}
/// subtraction: the remaining rows' histogram is the parent's less the child's
pub proof fn lemma_sub_hists(r: HistogramMatrix, root: HistogramMatrix, child: HistogramMatrix, all: Seq<usize>, a: Seq<usize>, b: Seq<usize>, data: Matrix<u16>, cuts: JaggedMatrix<F64>, grad: Seq<F32>, hess: Seq<F32>, ci: Seq<usize>)
    requires
        is_hists(root, all, data, cuts, grad, hess, ci), is_hists(child, a, data, cuts, grad, hess, ci), same_shape(root, child), sub1(r, root, child),
        all.to_multiset() == (a + b).to_multiset(),
    ensures is_hists(r, b, data, cuts, grad, hess, ci), same_shape(r, root),
{
    reveal(is_hists); reveal(sub1); reveal(sub2);
    assert forall|k: int| 0 <= k < ci.len() implies #[trigger] col_is(r, k, b, data, cuts, grad, hess, ci) by {
        assert(col_is(root, k, all, data, cuts, grad, hess, ci));
        assert(col_is(child, k, a, data, cuts, grad, hess, ci));
        let (feat, cu) = (data.col(ci[k] as int), cuts.col(ci[k] as int));
        let h = r.0.col(k);
        assert(r.0.start(k) == root.0.start(k) && r.0.start(k) == child.0.start(k));
        assert(0 <= r.0.start(k) <= r.0.ends@[k]);
        assert(r.0.ends@[k] <= r.0.ends@.last());
        assert(h.len() == cu.len());
        assert forall|q: int| 0 <= q < h.len() implies bin_is(#[trigger] h[q], q, b, feat, cu, grad, hess) by {
            let j = r.0.start(k) + q;
            assert(diff_bin(r.0.data@[j], root.0.data@[j], child.0.data@[j]));
            assert(bin_is(root.0.col(k)[q], q, all, feat, cu, grad, hess));
            assert(bin_is(child.0.col(k)[q], q, a, feat, cu, grad, hess));
            lemma_bin_sum_split(all, a, b, feat, grad, q);
            lemma_bin_sum_split(all, a, b, feat, hess, q);
        }
    }
}
pub proof fn lemma_sub2_hists(r: HistogramMatrix, root: HistogramMatrix, c1: HistogramMatrix, c2: HistogramMatrix, all: Seq<usize>, a1: Seq<usize>, a2: Seq<usize>, b: Seq<usize>, data: Matrix<u16>, cuts: JaggedMatrix<F64>, grad: Seq<F32>, hess: Seq<F32>, ci: Seq<usize>)
    requires
        is_hists(root, all, data, cuts, grad, hess, ci), is_hists(c1, a1, data, cuts, grad, hess, ci), is_hists(c2, a2, data, cuts, grad, hess, ci),
        same_shape(root, c1), same_shape(root, c2), sub2(r, root, c1, c2),
        all.to_multiset() == (a1 + a2 + b).to_multiset(),
    ensures is_hists(r, b, data, cuts, grad, hess, ci), same_shape(r, root),
{
    reveal(is_hists); reveal(sub1); reveal(sub2);
    assert forall|k: int| 0 <= k < ci.len() implies #[trigger] col_is(r, k, b, data, cuts, grad, hess, ci) by {
        assert(col_is(root, k, all, data, cuts, grad, hess, ci));
        assert(col_is(c1, k, a1, data, cuts, grad, hess, ci));
        assert(col_is(c2, k, a2, data, cuts, grad, hess, ci));
        let (feat, cu) = (data.col(ci[k] as int), cuts.col(ci[k] as int));
        let h = r.0.col(k);
        assert(r.0.start(k) == root.0.start(k) && r.0.start(k) == c1.0.start(k) && r.0.start(k) == c2.0.start(k));
        assert(0 <= r.0.start(k) <= r.0.ends@[k]);
        assert(r.0.ends@[k] <= r.0.ends@.last());
        assert(h.len() == cu.len());
        assert forall|q: int| 0 <= q < h.len() implies bin_is(#[trigger] h[q], q, b, feat, cu, grad, hess) by {
            let j = r.0.start(k) + q;
            assert(diff2_bin(r.0.data@[j], root.0.data@[j], c1.0.data@[j], c2.0.data@[j]));
            assert(bin_is(root.0.col(k)[q], q, all, feat, cu, grad, hess));
            assert(bin_is(c1.0.col(k)[q], q, a1, feat, cu, grad, hess));
            assert(bin_is(c2.0.col(k)[q], q, a2, feat, cu, grad, hess));
            let f = |i: usize| bin_val(feat, grad, q, i);
            let g = |i: usize| bin_val(feat, hess, q, i);
            lemma_fsum_cat(a1, a2, f); lemma_fsum_cat(a1, a2, g);
            lemma_bin_sum_split(all, a1 + a2, b, feat, grad, q);
            lemma_bin_sum_split(all, a1 + a2, b, feat, hess, q);
        }
    }
}
/// the bins of a histogram add up to the totals of the rows, when every row falls in one of them
pub open spec fn bins_to(idx: Seq<usize>, feat: Seq<u16>, vals: Seq<F32>, m: int) -> real decreases m {
    if m <= 0 { 0real } else { bins_to(idx, feat, vals, m - 1) + bin_sum(idx, feat, vals, m - 1) }
}
/// contribution of the rows below bin m
pub open spec fn below_val(feat: Seq<u16>, vals: Seq<F32>, m: int, i: usize) -> real { if (feat[i as int] as int) < m { vals[i as int].v() } else { 0real } }
pub proof fn lemma_bins_to(idx: Seq<usize>, feat: Seq<u16>, vals: Seq<F32>, m: int)
    requires m >= 0,
    ensures bins_to(idx, feat, vals, m) == fsum(idx, |i: usize| below_val(feat, vals, m, i)),
    decreases m
{
    let z = |i: usize| below_val(feat, vals, m, i);
    if m == 0 { lemma_fsum_zero(idx, z); }
    else {
        lemma_bins_to(idx, feat, vals, m - 1);
        lemma_fsum_add(idx, |i: usize| below_val(feat, vals, m - 1, i), |i: usize| bin_val(feat, vals, m - 1, i), z);
    }
}
pub proof fn lemma_fsum_zero(s: Seq<usize>, f: spec_fn(usize) -> real)
    requires forall|k: int| 0 <= k < s.len() ==> f(#[trigger] s[k]) == 0real,
    ensures fsum(s, f) == 0real,
    decreases s.len()
{ if s.len() > 0 { assert(f(s[s.len() - 1]) == 0real); assert forall|k: int| 0 <= k < s.drop_last().len() implies f(#[trigger] s.drop_last()[k]) == 0real by { assert(s[k] == s.drop_last()[k]); } lemma_fsum_zero(s.drop_last(), f); } }
/// every row falls in a bin: the bins add up to the totals
pub proof fn lemma_totals(idx: Seq<usize>, feat: Seq<u16>, vals: Seq<F32>, m: int)
    requires m >= 0, forall|k: int| 0 <= k < idx.len() ==> (feat[(#[trigger] idx[k]) as int] as int) < m,
    ensures bins_to(idx, feat, vals, m) == fsum(idx, |i: usize| vals[i as int].v()),
{
    lemma_bins_to(idx, feat, vals, m);
    lemma_fsum_ext(idx, |i: usize| below_val(feat, vals, m, i), |i: usize| vals[i as int].v());
}
