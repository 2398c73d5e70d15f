// ================================================================ splitter.rs : creating the children (branching splitter)
pub open spec fn split_done(s: Spl, n0: SplittableNode, n1: SplittableNode, index0: Seq<usize>, index1: Seq<usize>, kids: Seq<SplittableNode>, nn: int, b: u16, v: Env) -> bool {
    &&& moved(index0, index1, n0) && idx_ok(index1, v.data.rows as int) && parent_of(n0, n1)
    &&& is_cut(n1.split_feature, b, n1.split_value, v)
    &&& kids.len() == 3 && n1.missing_node == nn && n1.left_child == nn + 1 && n1.right_child == nn + 2
    &&& kid_ok(n0, n1, index1, kids[0], nn, b, v) && kid_ok(n0, n1, index1, kids[1], nn + 1, b, v) && kid_ok(n0, n1, index1, kids[2], nn + 2, b, v)
    &&& kids[0].start_idx == n0.start_idx && kids[0].stop_idx == kids[1].start_idx && kids[1].stop_idx == kids[2].start_idx && kids[2].stop_idx == n0.stop_idx
    &&& !kids[1].is_missing_leaf && !kids[2].is_missing_leaf
    &&& limits_kept(s, n1, kids[1], kids[2])
    // the missing child is split further only if allowed, not empty, and not below a feature on which missing terminates
    &&& !kids[0].is_missing_leaf ==> s.allow_missing_splits && kids[0].start_idx < kids[0].stop_idx && !s.terminate_missing_features@.contains(n1.split_feature)
    // its weight follows the treatment
    &&& s.missing_node_treatment is AssignToParent ==> kids[0].weight_value == n0.weight_value
    &&& averaging(s.missing_node_treatment) ==> kids[0].weight_value.v() == lim(cover_avg(kids[2].weight_value.v(), kids[2].hessian_sum.v(), kids[1].weight_value.v(), kids[1].hessian_sum.v()), n0.lower_bound.e(), n0.upper_bound.e())
    &&& s.missing_node_treatment is None && kids[0].gradient_sum.v() == 0real && kids[0].hessian_sum.v() == 0real ==> kids[0].weight_value.v() == n0.weight_value.v()
    &&& s.missing_node_treatment is None && kids[0].gradient_sum.v() != 0real && kids[0].hessian_sum.v() != 0real ==> kids[0].weight_value.v() == cw(s_par(s, n0), kids[0].gradient_sum.v(), kids[0].hessian_sum.v())
    // asked to, the children bracket the parent
    &&& s.force_children_to_bound_parent ==> bracket(n0, kids[1], kids[2])
}
pub open spec fn bracket(p: SplittableNode, l: SplittableNode, r: SplittableNode) -> bool {
    l.weight_value.v() <= p.weight_value.v() <= r.weight_value.v() || r.weight_value.v() <= p.weight_value.v() <= l.weight_value.v()
}
pub open spec fn n_new() -> int { 3 }
/// rows a, b, c of a split with a missing child: the totals from the histogram
pub proof fn lemma_three_tot(h: Seq<Bin<F32>>, all: Seq<usize>, m: Seq<usize>, a: Seq<usize>, b: Seq<usize>, feat: Seq<u16>, vals: Seq<F32>, i: int)
    requires
        all.to_multiset() == (m + a + b).to_multiset(),
        forall|q: int| 0 <= q < m.len() ==> feat[(#[trigger] m[q]) as int] == 0,
        forall|q: int| 0 <= q < a.len() ==> 0 < feat[(#[trigger] a[q]) as int] <= i,
        forall|q: int| 0 <= q < b.len() ==> feat[(#[trigger] b[q]) as int] > i, 0 <= i,
    ensures
        tot(all, vals) == tot(m, vals) + tot(a, vals) + tot(b, vals),
        tot(a, vals) == fsum(all, |r: usize| upto_val(feat, vals, i, r)),
        tot(m, vals) == bin_sum(all, feat, vals, 0),
{
    let t = |r: usize| vals[r as int].v();
    let u = |r: usize| upto_val(feat, vals, i, r);
    let z = |r: usize| bin_val(feat, vals, 0, r);
    lemma_fsum_perm(all, m + a + b, t); lemma_fsum_cat(m + a, b, t); lemma_fsum_cat(m, a, t);
    lemma_fsum_perm(all, m + a + b, u); lemma_fsum_cat(m + a, b, u); lemma_fsum_cat(m, a, u);
    lemma_fsum_perm(all, m + a + b, z); lemma_fsum_cat(m + a, b, z); lemma_fsum_cat(m, a, z);
    lemma_fsum_zero(m, u); lemma_fsum_zero(b, u); lemma_fsum_ext(a, u, t);
    lemma_fsum_zero(a, z); lemma_fsum_zero(b, z); lemma_fsum_ext(m, z, t);
}
pub open spec fn three_hists(root: HistogramMatrix, m: Seq<usize>, a: Seq<usize>, b: Seq<usize>, v: Env) -> bool {
    &&& forall|r: HistogramMatrix, x: HistogramMatrix, y: HistogramMatrix| #[trigger] sub2(r, root, x, y) && is_hists(x, a, v.data, v.cuts, v.grad, v.hess, v.ci) && is_hists(y, b, v.data, v.cuts, v.grad, v.hess, v.ci) ==> is_hists(r, m, v.data, v.cuts, v.grad, v.hess, v.ci)
    &&& forall|r: HistogramMatrix, x: HistogramMatrix, y: HistogramMatrix| #[trigger] sub2(r, root, x, y) && is_hists(x, m, v.data, v.cuts, v.grad, v.hess, v.ci) && is_hists(y, b, v.data, v.cuts, v.grad, v.hess, v.ci) ==> is_hists(r, a, v.data, v.cuts, v.grad, v.hess, v.ci)
    &&& forall|r: HistogramMatrix, x: HistogramMatrix, y: HistogramMatrix| #[trigger] sub2(r, root, x, y) && is_hists(x, m, v.data, v.cuts, v.grad, v.hess, v.ci) && is_hists(y, a, v.data, v.cuts, v.grad, v.hess, v.ci) ==> is_hists(r, b, v.data, v.cuts, v.grad, v.hess, v.ci)
    &&& (m.len() == 0 ==> forall|r: HistogramMatrix, x: HistogramMatrix| #[trigger] sub1(r, root, x) && is_hists(x, a, v.data, v.cuts, v.grad, v.hess, v.ci) ==> is_hists(r, b, v.data, v.cuts, v.grad, v.hess, v.ci))
    &&& (m.len() == 0 ==> forall|r: HistogramMatrix, x: HistogramMatrix| #[trigger] sub1(r, root, x) && is_hists(x, b, v.data, v.cuts, v.grad, v.hess, v.ci) ==> is_hists(r, a, v.data, v.cuts, v.grad, v.hess, v.ci))
}
/// the histogram of any of the three sides, from the parent and the other two
pub proof fn lemma_three_hists(root: HistogramMatrix, all: Seq<usize>, m: Seq<usize>, a: Seq<usize>, b: Seq<usize>, v: Env)
    requires
        is_hists(root, all, v.data, v.cuts, v.grad, v.hess, v.ci),
        all.to_multiset() == (m + a + b).to_multiset(),
    ensures
        three_hists(root, m, a, b, v),
{
    lemma_shapes(root, all, v);
    lemma_cat3(m, a, b);
    assert forall|r: HistogramMatrix, x: HistogramMatrix, y: HistogramMatrix| #[trigger] sub2(r, root, x, y) && is_hists(x, a, v.data, v.cuts, v.grad, v.hess, v.ci) && is_hists(y, b, v.data, v.cuts, v.grad, v.hess, v.ci) implies is_hists(r, m, v.data, v.cuts, v.grad, v.hess, v.ci) by {
        lemma_sub2_hists(r, root, x, y, all, a, b, m, v.data, v.cuts, v.grad, v.hess, v.ci); }
    assert forall|r: HistogramMatrix, x: HistogramMatrix, y: HistogramMatrix| #[trigger] sub2(r, root, x, y) && is_hists(x, m, v.data, v.cuts, v.grad, v.hess, v.ci) && is_hists(y, b, v.data, v.cuts, v.grad, v.hess, v.ci) implies is_hists(r, a, v.data, v.cuts, v.grad, v.hess, v.ci) by {
        lemma_sub2_hists(r, root, x, y, all, m, b, a, v.data, v.cuts, v.grad, v.hess, v.ci); }
    assert forall|r: HistogramMatrix, x: HistogramMatrix, y: HistogramMatrix| #[trigger] sub2(r, root, x, y) && is_hists(x, m, v.data, v.cuts, v.grad, v.hess, v.ci) && is_hists(y, a, v.data, v.cuts, v.grad, v.hess, v.ci) implies is_hists(r, b, v.data, v.cuts, v.grad, v.hess, v.ci) by {
        lemma_sub2_hists(r, root, x, y, all, m, a, b, v.data, v.cuts, v.grad, v.hess, v.ci); }
    if m.len() == 0 {
        assert(m + a + b =~= a + b);
        lemma_cat_comm(a, b);
        assert forall|r: HistogramMatrix, x: HistogramMatrix| #[trigger] sub1(r, root, x) && is_hists(x, a, v.data, v.cuts, v.grad, v.hess, v.ci) implies is_hists(r, b, v.data, v.cuts, v.grad, v.hess, v.ci) by {
            lemma_sub_hists(r, root, x, all, a, b, v.data, v.cuts, v.grad, v.hess, v.ci); }
        assert forall|r: HistogramMatrix, x: HistogramMatrix| #[trigger] sub1(r, root, x) && is_hists(x, b, v.data, v.cuts, v.grad, v.hess, v.ci) implies is_hists(r, a, v.data, v.cuts, v.grad, v.hess, v.ci) by {
            lemma_sub_hists(r, root, x, all, b, a, v.data, v.cuts, v.grad, v.hess, v.ci); }
    }
}
pub proof fn lemma_cat3(m: Seq<usize>, a: Seq<usize>, b: Seq<usize>)
    ensures (m + a + b).to_multiset() == (a + b + m).to_multiset(), (m + a + b).to_multiset() == (m + b + a).to_multiset(),
{
    broadcast use vstd::seq_lib::group_to_multiset_ensures;
    vstd::seq_lib::lemma_multiset_commutative(m + a, b); vstd::seq_lib::lemma_multiset_commutative(m, a);
    vstd::seq_lib::lemma_multiset_commutative(a + b, m); vstd::seq_lib::lemma_multiset_commutative(a, b);
    vstd::seq_lib::lemma_multiset_commutative(m + b, a); vstd::seq_lib::lemma_multiset_commutative(m, b);
    assert((m + a + b).to_multiset() =~= (a + b + m).to_multiset());
    assert((m + a + b).to_multiset() =~= (m + b + a).to_multiset());
}
pub open spec fn three_blocks(piv: Seq<usize>, feat: Seq<u16>, mi: int, si: int, i: int) -> bool {
    &&& 0 <= mi <= si <= piv.len()
    &&& forall|k: int| #![trigger piv[k]] 0 <= k < mi ==> bin_of(piv, feat, k) == 0
    &&& forall|k: int| #![trigger piv[k]] mi <= k < si ==> 0 < bin_of(piv, feat, k) <= i
    &&& forall|k: int| #![trigger piv[k]] si <= k < piv.len() ==> bin_of(piv, feat, k) > i
}
/// rows, totals and histograms of the three sides after the rows of a node were rearranged
pub proof fn lemma_sides3(index0: Seq<usize>, index1: Seq<usize>, n0: SplittableNode, v: Env, f: usize, h: Seq<Bin<F32>>, i: int, mi: int, si: int, m: Seq<usize>, a: Seq<usize>, b: Seq<usize>)
    requires
        env_ok(v), seg_ok(index0, n0), idx_ok(index0, v.data.rows as int), index1.len() == index0.len(), f < v.data.cols,
        is_hists(n0.histograms, seg(index0, n0), v.data, v.cuts, v.grad, v.hess, v.ci),
        exists|piv: Seq<usize>| {
            &&& index1 == #[trigger] (index0.subrange(0, n0.start_idx as int) + piv) + index0.subrange(n0.stop_idx as int, index0.len() as int)
            &&& piv.len() == n0.stop_idx - n0.start_idx && piv.to_multiset() == seg(index0, n0).to_multiset() && idx_ok(piv, v.data.rows as int)
            &&& three_blocks(piv, v.data.col(f as int), mi, si, i)
        },
        0 <= i,
        m == index1.subrange(n0.start_idx as int, n0.start_idx + mi), a == index1.subrange(n0.start_idx + mi, n0.start_idx + si), b == index1.subrange(n0.start_idx + si, n0.stop_idx as int),
    ensures ({
        let rows = seg(index0, n0);
        let feat = v.data.col(f as int);
        &&& moved(index0, index1, n0) && idx_ok(index1, v.data.rows as int)
        &&& rows.to_multiset() == (m + a + b).to_multiset() && idx_ok(m, v.data.rows as int) && idx_ok(a, v.data.rows as int) && idx_ok(b, v.data.rows as int)
        &&& forall|j: int| 0 <= j < m.len() ==> feat[(#[trigger] m[j]) as int] == 0
        &&& forall|j: int| 0 <= j < a.len() ==> 0 < feat[(#[trigger] a[j]) as int] <= i
        &&& forall|j: int| 0 <= j < b.len() ==> feat[(#[trigger] b[j]) as int] > i
        &&& tot(rows, v.grad) == tot(m, v.grad) + tot(a, v.grad) + tot(b, v.grad)
        &&& tot(rows, v.hess) == tot(m, v.hess) + tot(a, v.hess) + tot(b, v.hess)
        &&& tot(a, v.grad) == fsum(rows, |r: usize| upto_val(feat, v.grad, i, r)) && tot(m, v.grad) == bin_sum(rows, feat, v.grad, 0)
        &&& tot(a, v.hess) == fsum(rows, |r: usize| upto_val(feat, v.hess, i, r)) && tot(m, v.hess) == bin_sum(rows, feat, v.hess, 0)
        &&& three_hists(n0.histograms, m, a, b, v)
    }),
{
    let feat = v.data.col(f as int);
    let rows = seg(index0, n0);
    let piv = choose|piv: Seq<usize>| {
            &&& index1 == #[trigger] (index0.subrange(0, n0.start_idx as int) + piv) + index0.subrange(n0.stop_idx as int, index0.len() as int)
            &&& piv.len() == n0.stop_idx - n0.start_idx && piv.to_multiset() == seg(index0, n0).to_multiset() && idx_ok(piv, v.data.rows as int)
            &&& three_blocks(piv, v.data.col(f as int), mi, si, i)
        };
    lemma_pivoted(index0, index1, n0, v.data.rows as int);
    assert(piv =~= seg(index1, n0));
    assert(m + a + b =~= piv);
    assert forall|j: int| 0 <= j < m.len() implies feat[(#[trigger] m[j]) as int] == 0 by { assert(m[j] == piv[j]); assert(bin_of(piv, feat, j) == 0); }
    assert forall|j: int| 0 <= j < a.len() implies 0 < feat[(#[trigger] a[j]) as int] <= i by { assert(a[j] == piv[j + mi]); assert(bin_of(piv, feat, j + mi) > 0); }
    assert forall|j: int| 0 <= j < b.len() implies feat[(#[trigger] b[j]) as int] > i by { assert(b[j] == piv[j + si]); assert(bin_of(piv, feat, j + si) > i); }
    lemma_three_tot(h, rows, m, a, b, feat, v.grad, i);
    lemma_three_tot(h, rows, m, a, b, feat, v.hess, i);
    assert forall|j: int| 0 <= j < m.len() implies (#[trigger] m[j]) < v.data.rows by { assert(m[j] == piv[j]); }
    assert forall|j: int| 0 <= j < a.len() implies (#[trigger] a[j]) < v.data.rows by { assert(a[j] == piv[j + mi]); }
    assert forall|j: int| 0 <= j < b.len() implies (#[trigger] b[j]) < v.data.rows by { assert(b[j] == piv[j + si]); }
    lemma_three_hists(n0.histograms, rows, m, a, b, v);
}
/// which side is largest only decides which histogram is derived: nothing is assumed about it
pub trait VxMaxBy<T>: Sized {
    fn vx_max_by<F: FnMut(&T, &T) -> Ordering>(self, f: F) -> (r: Option<T>);
}
impl<T, I: Iterator<Item = T>> VxMaxBy<T> for I {
    #[verifier::external_body]
    fn vx_max_by<F: FnMut(&T, &T) -> Ordering>(self, f: F) -> (r: Option<T>) { unimplemented!() }
}
impl MissingBranchSplitter {
/*@fn splitter.rs :: Splitter for MissingBranchSplitter :: handle_split_info
attr #[verifier::rlimit(100)] #[verifier::spinoff_prover]
lit f32
std max_by
ret r
spec:
    requires ({
        let v = Env { data: *data, cuts: *cuts, grad: grad@, hess: hess@, ci: col_index@ };
        &&& env_ok(v) && s_ok(*self) && n_ok(*old(node)) && seg_ok(old(index)@, *old(node)) && idx_ok(old(index)@, data.rows as int)
        &&& stat_is(*old(node), seg(old(index)@, *old(node)), v)
        &&& chosen(split_info, *self, *old(node), col_index@)
        &&& *n_nodes + 3 <= usize::MAX && old(node).depth + 1 <= usize::MAX
    }),
    ensures split_done(*self, *old(node), *final(node), old(index)@, final(index)@, r@, *n_nodes as int, split_info.split_bin, Env { data: *data, cuts: *cuts, grad: grad@, hess: hess@, ci: col_index@ }),
start:
    broadcast use vstd::std_specs::hash::group_hash_axioms;
    let ghost v = Env { data: *data, cuts: *cuts, grad: grad@, hess: hess@, ci: col_index@ };
    let ghost n0 = *node;
    let ghost index0 = index@;
    let ghost rows = seg(index0, n0);
    let ghost k = choose|k: int| 0 <= k < col_index@.len() && 1 <= split_info.split_bin < n0.histograms.0.col(k).len() && #[trigger] info_is(split_info, *self, n0, n0.histograms.0.col(k), col_index@[k], split_info.split_bin - 1);
    let ghost f = col_index@[k];
    let ghost h = n0.histograms.0.col(k);
    let ghost i = split_info.split_bin - 1;
    let ghost feat = data.col(f as int);
    proof {
        assert(col_index@[k] < data.cols);
        lemma_is_hists(n0.histograms, rows, v.data, v.cuts, v.grad, v.hess, v.ci);
        assert(col_is(n0.histograms, k, rows, v.data, v.cuts, v.grad, v.hess, v.ci));
        assert(bin_is(h[i + 1], i + 1, rows, feat, cuts.col(f as int), grad@, hess@));
        assert(bin_is(h[0], 0, rows, feat, cuts.col(f as int), grad@, hess@));
        thm_accepted(split_info, *self, n0, h, f, i);
        thm_missing_child(split_info, *self, n0, h, f, i);
        thm_bounds(split_info, *self, n0, h, f, i);
        if self.force_children_to_bound_parent { thm_bracket(split_info, *self, n0, h, f, i); }
        lemma_shapes(n0.histograms, rows, v);
        lemma_prefix(h, rows, feat, cuts.col(f as int), grad@, hess@, i);
    }
before "let total_recs":
    let ghost index1 = index@;
    let ghost p = (n0.start_idx + missing_split_idx) as int;
    let ghost q = (n0.start_idx + split_idx) as int;
    let ghost m = index1.subrange(n0.start_idx as int, p);
    let ghost a = index1.subrange(p, q);
    let ghost b = index1.subrange(q, n0.stop_idx as int);
    proof { lemma_sides3(index0, index1, n0, v, f, h, i, missing_split_idx as int, split_idx as int, m, a, b); }
closure 1:
    |p1__: &(usize, &usize), p2__: &(usize, &usize)| -> (o: Ordering)
tail:
    proof {
        assert(all_side(m, feat, split_info.split_bin, *node, missing_child));
        assert(all_side(a, feat, split_info.split_bin, *node, left_child));
        assert(all_side(b, feat, split_info.split_bin, *node, right_child));
    }
*/
}
