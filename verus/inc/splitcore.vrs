// ================================================================ splitter.rs : the search for the best split (provided methods of the trait, for one splitter)
pub open spec fn s_par(s: Spl, n: SplittableNode) -> Par {
    Par { l1: s.l1.v(), l2: s.l2.v(), step: s.max_delta_step.v(), lo: n.lower_bound.e(), hi: n.upper_bound.e() }
}
pub open spec fn s_dir(s: Spl, f: usize) -> int {
    if s.constraints_map@.contains_key(f) { dir(Some(&s.constraints_map@[f])) } else { 0 }
}
/// the evaluated split of feature f with the bins 1..=i on the left
pub open spec fn cand(s: Spl, n: SplittableNode, h: Seq<Bin<F32>>, f: usize, i: int) -> Option<Ev> {
    spl_ev(s, s_par(s, n), pg(h, i), ph(h, i),
        n.gradient_sum.v() - pg(h, i) - h[0].gradient_sum.v(), n.hessian_sum.v() - ph(h, i) - h[0].hessian_sum.v(),
        h[0].gradient_sum.v(), h[0].hessian_sum.v(), n.weight_value.v(), s_dir(s, f))
}
pub open spec fn cand_gain(s: Spl, n: SplittableNode, h: Seq<Bin<F32>>, f: usize, i: int) -> Ext {
    match cand(s, n, h, f, i) {
        None => Ext::NInf,
        Some(e) => cull(ev_gain(e, n.gain_value.e(), s.gamma.v()), s_dir(s, f), e.l.w, e.r.w),
    }
}
pub open spec fn pos(e: Ext) -> bool { ext_lt(Ext::Fin(0real), e) }
/// what is kept of the chosen candidate
pub open spec fn info_is(x: SplitInfo, s: Spl, n: SplittableNode, h: Seq<Bin<F32>>, f: usize, i: int) -> bool {
    &&& cand(s, n, h, f, i) is Some
    &&& x.split_feature == f && x.split_bin == i + 1 && x.split_value == h[i + 1].cut_value
    &&& x.split_gain.e() == cand_gain(s, n, h, f, i) && pos(x.split_gain.e())
    &&& kept_is(x, cand(s, n, h, f, i)->0, n, s_dir(s, f))
}
/// children of the evaluated split, with the bounds that keep the constraint below them
pub open spec fn kept_is(x: SplitInfo, e: Ev, n: SplittableNode, d: int) -> bool {
    let lo = n.lower_bound.e();
    let hi = n.upper_bound.e();
    let mid = Ext::Fin((e.l.w + e.r.w) / 2real);
    &&& ni_is(x.left_node, e.l) && ni_is(x.right_node, e.r) && mi_is(x.missing_node, e.m, lo, hi)
    &&& d == 0 ==> ni_bounds(x.left_node, lo, hi) && ni_bounds(x.right_node, lo, hi)
    &&& d == 1 ==> ni_bounds(x.left_node, lo, mid) && ni_bounds(x.right_node, mid, hi)
    &&& d == -1 ==> ni_bounds(x.left_node, mid, hi) && ni_bounds(x.right_node, lo, mid)
}
/// best candidate of one feature
pub open spec fn best_of(r: Option<SplitInfo>, s: Spl, n: SplittableNode, h: Seq<Bin<F32>>, f: usize) -> bool {
    match r {
        None => forall|j: int| 0 <= j < h.len() - 1 ==> !pos(#[trigger] cand_gain(s, n, h, f, j)),
        Some(x) => {
            &&& 1 <= x.split_bin < h.len()
            &&& info_is(x, s, n, h, f, x.split_bin - 1)
            &&& forall|j: int| 0 <= j < h.len() - 1 ==> !ext_lt(x.split_gain.e(), #[trigger] cand_gain(s, n, h, f, j))
        }
    }
}
pub open spec fn feat_ready(n: SplittableNode, k: int) -> bool { hist_ok(n.histograms.0.col(k), n.gradient_sum.v(), n.hessian_sum.v()) }
pub open spec fn node_ready(s: Spl, n: SplittableNode, cols: int) -> bool {
    &&& s_ok(s) && n_ok(n) && n.histograms.0.wf() && n.histograms.0.cols == cols
    &&& forall|k: int| 0 <= k < cols ==> #[trigger] feat_ready(n, k)
}
/// best candidate of all offered features
pub open spec fn best_all(r: Option<SplitInfo>, s: Spl, n: SplittableNode, ci: Seq<usize>) -> bool {
    match r {
        None => forall|k: int, j: int| 0 <= k < ci.len() && 0 <= j < n.histograms.0.col(k).len() - 1 ==> !pos(#[trigger] cand_gain(s, n, n.histograms.0.col(k), ci[k], j)),
        Some(x) => {
            &&& exists|k: int| 0 <= k < ci.len() && 1 <= x.split_bin < n.histograms.0.col(k).len() && #[trigger] info_is(x, s, n, n.histograms.0.col(k), ci[k], x.split_bin - 1)
            &&& forall|k: int, j: int| 0 <= k < ci.len() && 0 <= j < n.histograms.0.col(k).len() - 1 ==> !ext_lt(x.split_gain.e(), #[trigger] cand_gain(s, n, n.histograms.0.col(k), ci[k], j))
        }
    }
}
pub open spec fn best_so_far(r: Option<SplitInfo>, best_gain: F32, s: Spl, n: SplittableNode, ci: Seq<usize>, m: int) -> bool {
    let H = n.histograms.0;
    match r {
        None => best_gain.e() == Ext::Fin(0real) && forall|k: int, j: int| 0 <= k < m && 0 <= j < H.col(k).len() - 1 ==> !pos(#[trigger] cand_gain(s, n, H.col(k), ci[k], j)),
        Some(x) => {
            &&& best_gain == x.split_gain && pos(best_gain.e())
            &&& exists|k: int| 0 <= k < m && 1 <= x.split_bin < H.col(k).len() && #[trigger] info_is(x, s, n, H.col(k), ci[k], x.split_bin - 1)
            &&& forall|k: int, j: int| 0 <= k < m && 0 <= j < H.col(k).len() - 1 ==> !ext_lt(x.split_gain.e(), #[trigger] cand_gain(s, n, H.col(k), ci[k], j))
        }
    }
}
pub proof fn lemma_le_trans(a: Ext, b: Ext, c: Ext)
    requires !ext_lt(b, a), ext_lt(b, c), !(b is NaN), !(a is NaN),
    ensures !ext_lt(c, a), ext_lt(a, c) || a == c,
{}
impl Spl {
/*@fn splitter.rs :: trait Splitter :: best_feature_split
lit f32
ret r
spec:
    requires s_ok(*self), n_ok(*node), node.histograms.0.wf(), idx < node.histograms.0.cols, feat_ready(*node, idx as int),
    ensures best_of(r, *self, *node, node.histograms.0.col(idx as int), feature),
start:
    broadcast use ideal_arith;
    broadcast use vstd::std_specs::hash::group_hash_axioms;
    let ghost h = node.histograms.0.col(idx as int);
loop 1:
    invariant
        s_ok(*self), n_ok(*node), h == node.histograms.0.col(idx as int), histogram@ == h, vx_s1@ == h.subrange(1, h.len() as int), *missing == h[0],
        hist_ok(h, node.gradient_sum.v(), node.hessian_sum.v()),
        vx_i1 <= vx_s1@.len(), dir(constraint) == s_dir(*self, feature),
        cuml_grad.e() == Ext::Fin(pg(h, vx_i1 as int)), cuml_hess.e() == Ext::Fin(ph(h, vx_i1 as int)),
        max_gain is Some == split_info is Some,
        match split_info {
            None => forall|j: int| 0 <= j < vx_i1 ==> !pos(#[trigger] cand_gain(*self, *node, h, feature, j)),
            Some(x) => {
                &&& max_gain->0 == x.split_gain
                &&& 1 <= x.split_bin <= vx_i1
                &&& info_is(x, *self, *node, h, feature, x.split_bin - 1)
                &&& forall|j: int| 0 <= j < vx_i1 ==> !ext_lt(x.split_gain.e(), #[trigger] cand_gain(*self, *node, h, feature, j))
            }
        },
    decreases vx_s1@.len() - vx_i1,
loop 1 start:
    broadcast use ideal_arith;
    let ghost q = vx_i1 as int;
    proof {
        lemma_ph(h, node.gradient_sum.v(), node.hessian_sum.v(), q, h.len() - 1);
        lemma_pos_trans();
        assert(h[q + 1].gradient_sum.fin() && h[0].gradient_sum.fin());
        lemma_spl_ev(*self, s_par(*self, *node), pg(h, q), ph(h, q),
            node.gradient_sum.v() - pg(h, q) - h[0].gradient_sum.v(), node.hessian_sum.v() - ph(h, q) - h[0].hessian_sum.v(),
            h[0].gradient_sum.v(), h[0].hessian_sum.v(), node.weight_value.v(), s_dir(*self, feature));
    }
*/
/*@fn splitter.rs :: trait Splitter :: best_split
lit f32
ret r
spec:
    requires node_ready(*self, *node, col_index@.len() as int),
    ensures best_all(r, *self, *node, col_index@),
start:
    let ghost H = node.histograms.0;
loop 1:
    invariant
        node_ready(*self, *node, col_index@.len() as int), H == node.histograms.0,
        vx_i1 <= col_index@.len(),
        best_so_far(best_split_info, best_gain, *self, *node, col_index@, vx_i1 as int),
    decreases col_index@.len() - vx_i1,
loop 1 start:
    proof { assert(feat_ready(*node, vx_i1 as int)); lemma_pos_trans(); }
*/
}
/// transitivity facts about the order of gains
pub proof fn lemma_pos_trans()
    ensures
        forall|a: Ext, b: Ext, c: Ext| #![trigger ext_lt(a, b), ext_lt(a, c)] ext_lt(a, b) && !ext_lt(a, c) ==> !ext_lt(b, c),
        forall|a: Ext, b: Ext| #![trigger pos(a), ext_lt(b, a)] !pos(a) && pos(b) ==> !ext_lt(b, a),
{}
