// ================================================================ growing: rows, statistics and bounds of a node
pub ghost struct Env<'a> { pub data: Matrix<'a, u16>, pub cuts: JaggedMatrix<F64>, pub grad: Seq<F32>, pub hess: Seq<F32>, pub ci: Seq<usize> }
/// binned training data as the binning step leaves it (P04)
pub open spec fn env_ok(v: Env) -> bool {
    &&& train_ok(v.data, v.cuts, v.grad, v.hess, v.ci)
    &&& forall|i: int| 0 <= i < v.hess.len() ==> (#[trigger] v.hess[i]).v() >= 0real
    &&& forall|c: int| 0 <= c < v.data.cols ==> (#[trigger] v.cuts.col(c)).len() <= 65535
    &&& forall|c: int, r: int| 0 <= c < v.data.cols && 0 <= r < v.data.rows ==> (#[trigger] v.data.col(c)[r]) < v.cuts.col(c).len()
}
pub open spec fn seg(index: Seq<usize>, n: SplittableNode) -> Seq<usize> { index.subrange(n.start_idx as int, n.stop_idx as int) }
pub open spec fn seg_ok(index: Seq<usize>, n: SplittableNode) -> bool { n.start_idx <= n.stop_idx <= index.len() }
pub open spec fn tot(rows: Seq<usize>, vals: Seq<F32>) -> real { fsum(rows, |i: usize| vals[i as int].v()) }
/// the totals of the node are those of the rows
pub open spec fn tot_is(n: SplittableNode, rows: Seq<usize>, v: Env) -> bool {
    n.gradient_sum.e() == Ext::Fin(tot(rows, v.grad)) && n.hessian_sum.e() == Ext::Fin(tot(rows, v.hess))
}
pub open spec fn stat_is(n: SplittableNode, rows: Seq<usize>, v: Env) -> bool {
    tot_is(n, rows, v) && is_hists(n.histograms, rows, v.data, v.cuts, v.grad, v.hess, v.ci)
}
pub proof fn lemma_fsum_nonneg(s: Seq<usize>, f: spec_fn(usize) -> real)
    requires forall|k: int| 0 <= k < s.len() ==> f(#[trigger] s[k]) >= 0real,
    ensures fsum(s, f) >= 0real,
    decreases s.len()
{ if s.len() > 0 { assert(f(s[s.len() - 1]) >= 0real); assert forall|k: int| 0 <= k < s.drop_last().len() implies f(#[trigger] s.drop_last()[k]) >= 0real by { assert(s[k] == s.drop_last()[k]); } lemma_fsum_nonneg(s.drop_last(), f); } }
/// gradient of the rows in the bins 1..=i
pub open spec fn upto_val(feat: Seq<u16>, vals: Seq<F32>, i: int, r: usize) -> real { if 1 <= feat[r as int] && (feat[r as int] as int) <= i { vals[r as int].v() } else { 0real } }
pub proof fn lemma_prefix(h: Seq<Bin<F32>>, rows: Seq<usize>, feat: Seq<u16>, cuts: Seq<F64>, grad: Seq<F32>, hess: Seq<F32>, i: int)
    requires is_hist(h, rows, feat, cuts, grad, hess), 0 <= i < h.len(),
    ensures
        pg(h, i) == fsum(rows, |r: usize| upto_val(feat, grad, i, r)),
        ph(h, i) == fsum(rows, |r: usize| upto_val(feat, hess, i, r)),
    decreases i
{
    let g = |r: usize| upto_val(feat, grad, i, r);
    let k = |r: usize| upto_val(feat, hess, i, r);
    if i == 0 { lemma_fsum_zero(rows, g); lemma_fsum_zero(rows, k); }
    else {
        lemma_prefix(h, rows, feat, cuts, grad, hess, i - 1);
        assert(bin_is(h[i], i, rows, feat, cuts, grad, hess));
        lemma_fsum_add(rows, |r: usize| upto_val(feat, grad, i - 1, r), |r: usize| bin_val(feat, grad, i, r), g);
        lemma_fsum_add(rows, |r: usize| upto_val(feat, hess, i - 1, r), |r: usize| bin_val(feat, hess, i, r), k);
    }
}
/// the histogram of a node's rows is consistent with its totals
pub proof fn lemma_hist_ok(h: Seq<Bin<F32>>, rows: Seq<usize>, feat: Seq<u16>, cuts: Seq<F64>, grad: Seq<F32>, hess: Seq<F32>, n: int)
    requires
        is_hist(h, rows, feat, cuts, grad, hess), 1 <= h.len() <= 65535, idx_ok(rows, n), feat.len() == n, grad.len() == n, hess.len() == n,
        forall|r: int| 0 <= r < n ==> (#[trigger] feat[r]) < h.len(),
        forall|r: int| 0 <= r < n ==> (#[trigger] hess[r]).v() >= 0real,
    ensures hist_ok(h, tot(rows, grad), tot(rows, hess)),
{
    let m = h.len() - 1;
    lemma_prefix(h, rows, feat, cuts, grad, hess, m);
    assert(bin_is(h[0], 0, rows, feat, cuts, grad, hess));
    assert forall|k: int| 0 <= k < rows.len() implies feat[(#[trigger] rows[k]) as int] < h.len() by { assert(feat[rows[k] as int] < h.len()); }
    lemma_fsum_add(rows, |r: usize| upto_val(feat, grad, m, r), |r: usize| bin_val(feat, grad, 0, r), |i: usize| grad[i as int].v());
    lemma_fsum_add(rows, |r: usize| upto_val(feat, hess, m, r), |r: usize| bin_val(feat, hess, 0, r), |i: usize| hess[i as int].v());
    assert forall|b: int| 0 <= b < h.len() implies (#[trigger] h[b]).gradient_sum.fin() && h[b].hessian_sum.fin() && h[b].hessian_sum.v() >= 0real by {
        assert(bin_is(h[b], b, rows, feat, cuts, grad, hess));
        let f = |i: usize| bin_val(feat, hess, b, i);
        assert forall|k: int| 0 <= k < rows.len() implies f(#[trigger] rows[k]) >= 0real by { assert(hess[rows[k] as int].v() >= 0real); }
        lemma_fsum_nonneg(rows, f);
    }
}
pub proof fn lemma_ready(s: Spl, n: SplittableNode, rows: Seq<usize>, v: Env)
    requires env_ok(v), s_ok(s), n_ok(n), stat_is(n, rows, v), idx_ok(rows, v.data.rows as int),
    ensures node_ready(s, n, v.ci.len() as int),
{
    reveal(is_hists);
    assert forall|k: int| 0 <= k < v.ci.len() implies #[trigger] feat_ready(n, k) by {
        assert(col_is(n.histograms, k, rows, v.data, v.cuts, v.grad, v.hess, v.ci));
        let c = v.ci[k] as int;
        let h = n.histograms.0.col(k);
        assert(v.cuts.col(c).len() >= 1 && v.cuts.col(c).len() <= 65535);
        assert(h.len() == v.cuts.col(c).len());
        assert forall|r: int| 0 <= r < v.data.rows implies (#[trigger] v.data.col(c)[r]) < h.len() by {}
        lemma_hist_ok(h, rows, v.data.col(c), v.cuts.col(c), v.grad, v.hess, v.data.rows as int);
    }
}
/// histograms of the same columns have the same shape
pub proof fn lemma_shape(a: HistogramMatrix, ra: Seq<usize>, b: HistogramMatrix, rb: Seq<usize>, v: Env)
    requires is_hists(a, ra, v.data, v.cuts, v.grad, v.hess, v.ci), is_hists(b, rb, v.data, v.cuts, v.grad, v.hess, v.ci),
    ensures same_shape(a, b),
{
    reveal(is_hists);
    lemma_shape_to(a, ra, b, rb, v, v.ci.len() as int);
    assert(a.0.ends@ =~= b.0.ends@);
}
pub proof fn lemma_shape_to(a: HistogramMatrix, ra: Seq<usize>, b: HistogramMatrix, rb: Seq<usize>, v: Env, m: int)
    requires is_hists(a, ra, v.data, v.cuts, v.grad, v.hess, v.ci), is_hists(b, rb, v.data, v.cuts, v.grad, v.hess, v.ci), 0 <= m <= v.ci.len(),
    ensures forall|k: int| 0 <= k < m ==> a.0.ends@[k] == b.0.ends@[k],
    decreases m
{
    if m > 0 {
        reveal(is_hists);
        lemma_shape_to(a, ra, b, rb, v, m - 1);
        assert(col_is(a, m - 1, ra, v.data, v.cuts, v.grad, v.hess, v.ci));
        assert(col_is(b, m - 1, rb, v.data, v.cuts, v.grad, v.hess, v.ci));
    }
}
/// the child a bin is sent to
pub open spec fn side_of(b: u16, split: u16, n: SplittableNode) -> usize { if b == 0 { n.missing_node } else if b < split { n.left_child } else { n.right_child } }
pub open spec fn all_side(rows: Seq<usize>, feat: Seq<u16>, split: u16, n: SplittableNode, c: usize) -> bool {
    forall|q: int| 0 <= q < rows.len() ==> side_of(feat[(#[trigger] rows[q]) as int], split, n) == c
}
pub open spec fn sub_bounds(c: SplittableNode, p: SplittableNode) -> bool { ext_le(p.lower_bound.e(), c.lower_bound.e()) && ext_le(c.upper_bound.e(), p.upper_bound.e()) }
/// the part of the result that concerns one child
pub open spec fn kid_ok(n0: SplittableNode, n1: SplittableNode, index: Seq<usize>, c: SplittableNode, num: int, split: u16, v: Env) -> bool {
    &&& c.num == num && c.depth == n0.depth + 1 && c.is_leaf && n_ok(c) && sub_bounds(c, n0) && seg_ok(index, c)
    &&& tot_is(c, seg(index, c), v) && (!c.is_missing_leaf ==> stat_is(c, seg(index, c), v))
    &&& all_side(seg(index, c), v.data.col(n1.split_feature as int), split, n1, c.num)
}
/// outside of the segment of the node nothing moves, inside nothing is lost
pub open spec fn moved(index0: Seq<usize>, index1: Seq<usize>, n: SplittableNode) -> bool {
    &&& index1.len() == index0.len()
    &&& forall|k: int| 0 <= k < index0.len() && !(n.start_idx <= k < n.stop_idx) ==> #[trigger] index1[k] == index0[k]
    &&& seg(index1, n).to_multiset() == seg(index0, n).to_multiset()
}
/// the node keeps everything but what makes it a parent
pub open spec fn parent_of(n0: SplittableNode, n1: SplittableNode) -> bool {
    &&& n1.num == n0.num && n1.weight_value == n0.weight_value && n1.gain_value == n0.gain_value && n1.gradient_sum == n0.gradient_sum && n1.hessian_sum == n0.hessian_sum
    &&& n1.depth == n0.depth && n1.start_idx == n0.start_idx && n1.stop_idx == n0.stop_idx && n1.lower_bound == n0.lower_bound && n1.upper_bound == n0.upper_bound
    &&& n1.histograms == n0.histograms && !n1.is_leaf && n1.is_missing_leaf == n0.is_missing_leaf
}
/// the children keep the constraint on the split feature, the minimum hessian and gamma
pub open spec fn limits_kept(s: Spl, n1: SplittableNode, l: SplittableNode, r: SplittableNode) -> bool {
    let d = s_dir(s, n1.split_feature);
    &&& d == 1 ==> ext_le(l.upper_bound.e(), r.lower_bound.e())
    &&& d == -1 ==> ext_le(r.upper_bound.e(), l.lower_bound.e())
    &&& l.hessian_sum.v() >= s.min_leaf_weight.v() && r.hessian_sum.v() >= s.min_leaf_weight.v()
    &&& ext_lt(Ext::Fin(s.gamma.v()), n1.split_gain.e())
}
pub open spec fn is_cut(f: usize, split: u16, value: F64, v: Env) -> bool {
    &&& exists|k: int| 0 <= k < v.ci.len() && #[trigger] v.ci[k] == f
    &&& 1 <= split < v.cuts.col(f as int).len() && value == v.cuts.col(f as int)[split - 1]
}
/// the best candidate of the node
pub open spec fn chosen(x: SplitInfo, s: Spl, n: SplittableNode, ci: Seq<usize>) -> bool {
    exists|k: int| 0 <= k < ci.len() && 1 <= x.split_bin < n.histograms.0.col(k).len() && #[trigger] info_is(x, s, n, n.histograms.0.col(k), ci[k], x.split_bin - 1)
}
impl SplittableNode {
/*@fn node.rs :: SplittableNode :: from_node_info
ret r
spec:
    ensures r.num == num, r.histograms == histograms, r.weight_value == node_info.weight, r.gain_value == node_info.gain, r.gradient_sum == node_info.grad,
        r.hessian_sum == node_info.cover, r.depth == depth, r.start_idx == start_idx, r.stop_idx == stop_idx,
        r.lower_bound == node_info.bounds.0, r.upper_bound == node_info.bounds.1, r.is_leaf, !r.is_missing_leaf,
*/
/*@fn node.rs :: SplittableNode :: new
ret r
spec:
    ensures r.num == num, r.histograms == histograms, r.weight_value == weight_value, r.gain_value == gain_value, r.gradient_sum == gradient_sum,
        r.hessian_sum == hessian_sum, r.depth == depth, r.start_idx == start_idx, r.stop_idx == stop_idx,
        r.lower_bound == lower_bound, r.upper_bound == upper_bound, r.is_leaf, !r.is_missing_leaf,
*/
/*@fn node.rs :: SplittableNode :: update_children
lit f32
spec:
    ensures
        parent_of(*old(self), *final(self)),
        final(self).left_child == left_child, final(self).right_child == right_child, final(self).missing_node == missing_child,
        final(self).split_feature == split_info.split_feature, final(self).split_value == split_info.split_value,
        final(self).split_gain.e() == ext_sub(ext_sub(ext_add(ext_add(split_info.left_node.gain.e(), split_info.right_node.gain.e()),
            match split_info.missing_node { MissingInfo::Branch(n) => n.gain.e(), MissingInfo::Leaf(n) => n.gain.e(), _ => Ext::Fin(0real) }),
            old(self).gain_value.e()), Ext::Fin(0real)),
*/
/*@fn node.rs :: SplittableNode :: as_node
ret r
spec:
    ensures r.num == self.num, r.weight_value == self.weight_value.mul_(learning_rate), r.hessian_sum == self.hessian_sum, r.depth == self.depth,
        r.missing_node == self.missing_node, r.split_value == self.split_value, r.split_feature == self.split_feature, r.split_gain == self.split_gain,
        r.left_child == self.left_child, r.right_child == self.right_child, r.is_leaf == self.is_leaf,
*/
}
/// rows of a segment cut in two
pub proof fn lemma_seg_cut(index: Seq<usize>, a: int, m: int, b: int)
    requires 0 <= a <= m <= b <= index.len(),
    ensures index.subrange(a, b) == index.subrange(a, m) + index.subrange(m, b),
{ assert(index.subrange(a, b) =~= index.subrange(a, m) + index.subrange(m, b)); }
/// totals of the rows of a split, from the histogram: rows a hold the bins 1..=i (and the missing bin if ml), rows b the rest
pub proof fn lemma_side_tot(h: Seq<Bin<F32>>, all: Seq<usize>, a: Seq<usize>, b: Seq<usize>, feat: Seq<u16>, cuts: Seq<F64>, vals: Seq<F32>, i: int, ml: bool)
    requires
        0 <= i < h.len(), all.to_multiset() == (a + b).to_multiset(),
        forall|q: int| 0 <= q < a.len() ==> (if feat[(#[trigger] a[q]) as int] == 0 { ml } else { (feat[a[q] as int] as int) <= i }),
        forall|q: int| 0 <= q < b.len() ==> (if feat[(#[trigger] b[q]) as int] == 0 { !ml } else { (feat[b[q] as int] as int) > i }),
    ensures
        tot(all, vals) == tot(a, vals) + tot(b, vals),
        tot(a, vals) == fsum(all, |r: usize| upto_val(feat, vals, i, r)) + if ml { bin_sum(all, feat, vals, 0) } else { 0real },
{
    let t = |r: usize| vals[r as int].v();
    let u = |r: usize| upto_val(feat, vals, i, r);
    let z = |r: usize| bin_val(feat, vals, 0, r);
    lemma_fsum_perm(all, a + b, t); lemma_fsum_cat(a, b, t);
    lemma_fsum_perm(all, a + b, u); lemma_fsum_cat(a, b, u);
    lemma_fsum_perm(all, a + b, z); lemma_fsum_cat(a, b, z);
    lemma_fsum_zero(b, u);
    if ml { lemma_fsum_zero(b, z); lemma_fsum_add(a, u, z, t); }
    else { lemma_fsum_zero(a, z); lemma_fsum_ext(a, u, t); }
}
/// a rearrangement inside the segment of a node
pub proof fn lemma_pivoted(index0: Seq<usize>, index1: Seq<usize>, n: SplittableNode, rows: int)
    requires
        seg_ok(index0, n), idx_ok(index0, rows), index1.len() == index0.len(),
        exists|piv: Seq<usize>| {
            &&& index1 == #[trigger] (index0.subrange(0, n.start_idx as int) + piv) + index0.subrange(n.stop_idx as int, index0.len() as int)
            &&& piv.len() == n.stop_idx - n.start_idx && piv.to_multiset() == seg(index0, n).to_multiset() && idx_ok(piv, rows)
        },
    ensures moved(index0, index1, n), idx_ok(index1, rows),
{
    let piv = choose|piv: Seq<usize>| {
            &&& index1 == #[trigger] (index0.subrange(0, n.start_idx as int) + piv) + index0.subrange(n.stop_idx as int, index0.len() as int)
            &&& piv.len() == n.stop_idx - n.start_idx && piv.to_multiset() == seg(index0, n).to_multiset() && idx_ok(piv, rows)
        };
    assert(seg(index1, n) =~= piv);
    assert forall|k: int| 0 <= k < index1.len() implies (#[trigger] index1[k]) < rows by {
        if n.start_idx <= k < n.stop_idx { assert(index1[k] == seg(index1, n)[k - n.start_idx]); } else { assert(index0[k] < rows); }
    }
}
pub proof fn lemma_cat_comm(a: Seq<usize>, b: Seq<usize>)
    ensures (a + b).to_multiset() == (b + a).to_multiset(),
{
    vstd::seq_lib::lemma_multiset_commutative(a, b);
    vstd::seq_lib::lemma_multiset_commutative(b, a);
    assert((a + b).to_multiset() =~= (b + a).to_multiset());
}
pub proof fn lemma_shapes(a: HistogramMatrix, ra: Seq<usize>, v: Env)
    requires is_hists(a, ra, v.data, v.cuts, v.grad, v.hess, v.ci),
    ensures forall|b: HistogramMatrix, rb: Seq<usize>| #[trigger] is_hists(b, rb, v.data, v.cuts, v.grad, v.hess, v.ci) ==> same_shape(a, b),
{
    assert forall|b: HistogramMatrix, rb: Seq<usize>| #[trigger] is_hists(b, rb, v.data, v.cuts, v.grad, v.hess, v.ci) implies same_shape(a, b) by { lemma_shape(a, ra, b, rb, v); }
}
