// ================================================================ splitter.rs : creating the children (imputing splitter)
pub open spec fn split_done(s: Spl, n0: SplittableNode, n1: SplittableNode, index0: Seq<usize>, index1: Seq<usize>, kids: Seq<SplittableNode>, nn: int, b: u16, v: Env) -> bool {
    &&& moved(index0, index1, n0) && idx_ok(index1, v.data.rows as int) && parent_of(n0, n1)
    &&& is_cut(n1.split_feature, b, n1.split_value, v)
    &&& kids.len() == 2 && n1.left_child == nn && n1.right_child == nn + 1 && (n1.missing_node == nn || n1.missing_node == nn + 1)
    &&& kid_ok(n0, n1, index1, kids[0], nn, b, v) && kid_ok(n0, n1, index1, kids[1], nn + 1, b, v)
    &&& kids[0].start_idx == n0.start_idx && kids[0].stop_idx == kids[1].start_idx && kids[1].stop_idx == n0.stop_idx
    &&& !kids[0].is_missing_leaf && !kids[1].is_missing_leaf
    &&& limits_kept(s, n1, kids[0], kids[1])
}
pub open spec fn n_new() -> int { 2 }
impl MissingImputerSplitter {
/*@fn splitter.rs :: Splitter for MissingImputerSplitter :: handle_split_info
lit f32
ret r
spec:
    requires ({
        let v = Env { data: *data, cuts: *cuts, grad: grad@, hess: hess@, ci: col_index@ };
        &&& env_ok(v) && s_ok(*self) && n_ok(*old(node)) && seg_ok(old(index)@, *old(node)) && idx_ok(old(index)@, data.rows as int)
        &&& stat_is(*old(node), seg(old(index)@, *old(node)), v)
        &&& chosen(split_info, *self, *old(node), col_index@)
        &&& *n_nodes + 2 <= usize::MAX && old(node).depth + 1 <= usize::MAX
    }),
    ensures split_done(*self, *old(node), *final(node), old(index)@, final(index)@, r@, *n_nodes as int, split_info.split_bin, Env { data: *data, cuts: *cuts, grad: grad@, hess: hess@, ci: col_index@ }),
start:
    let ghost v = Env { data: *data, cuts: *cuts, grad: grad@, hess: hess@, ci: col_index@ };
    let ghost n0 = *node;
    let ghost index0 = index@;
    let ghost rows = seg(index0, n0);
    let ghost k = choose|k: int| 0 <= k < col_index@.len() && 1 <= split_info.split_bin < n0.histograms.0.col(k).len() && #[trigger] info_is(split_info, *self, n0, n0.histograms.0.col(k), col_index@[k], split_info.split_bin - 1);
    let ghost f = col_index@[k];
    let ghost h = n0.histograms.0.col(k);
    let ghost i = split_info.split_bin - 1;
    let ghost feat = data.col(f as int);
    proof {
        assert(col_index@[k] < data.cols);
        lemma_is_hists(n0.histograms, rows, v.data, v.cuts, v.grad, v.hess, v.ci);
        assert(col_is(n0.histograms, k, rows, v.data, v.cuts, v.grad, v.hess, v.ci));
        assert(bin_is(h[i + 1], i + 1, rows, feat, cuts.col(f as int), grad@, hess@));
        assert(bin_is(h[0], 0, rows, feat, cuts.col(f as int), grad@, hess@));
        thm_accepted(split_info, *self, n0, h, f, i);
        thm_missing_side(split_info, *self, n0, h, f, i);
        thm_bounds(split_info, *self, n0, h, f, i);
        lemma_shapes(n0.histograms, rows, v);
        lemma_prefix(h, rows, feat, cuts.col(f as int), grad@, hess@, i);
    }
before "let total_recs":
    let ghost index1 = index@;
    let ghost p = n0.start_idx + split_idx;
    let ghost a = index1.subrange(n0.start_idx as int, p as int);
    let ghost b = index1.subrange(p as int, n0.stop_idx as int);
    proof {
        lemma_pivoted(index0, index1, n0, data.rows as int);
        lemma_seg_cut(index1, n0.start_idx as int, p as int, n0.stop_idx as int);
        let piv = seg(index1, n0);
        assert(rows.to_multiset() == (a + b).to_multiset());
        assert forall|q: int| 0 <= q < a.len() implies (if feat[(#[trigger] a[q]) as int] == 0 { !missing_right } else { (feat[a[q] as int] as int) <= i }) by { assert(a[q] == piv[q]); assert(goes_left(bin_of(piv, feat, q), split_info.split_bin, missing_right)); }
        assert forall|q: int| 0 <= q < b.len() implies (if feat[(#[trigger] b[q]) as int] == 0 { missing_right } else { (feat[b[q] as int] as int) > i }) by { assert(b[q] == piv[q + split_idx]); assert(!goes_left(bin_of(piv, feat, q + split_idx), split_info.split_bin, missing_right)); }
        lemma_side_tot(h, rows, a, b, feat, cuts.col(f as int), grad@, i, !missing_right);
        lemma_side_tot(h, rows, a, b, feat, cuts.col(f as int), hess@, i, !missing_right);
        assert forall|q: int| 0 <= q < a.len() implies (#[trigger] a[q]) < data.rows by { assert(a[q] == index1[q + n0.start_idx]); }
        assert forall|q: int| 0 <= q < b.len() implies (#[trigger] b[q]) < data.rows by { assert(b[q] == index1[q + p]); }
    }
before "let missing_child":
    proof {
        if n_left < n_right { lemma_sub_hists(right_histograms, n0.histograms, left_histograms, rows, a, b, *data, *cuts, grad@, hess@, col_index@); }
        else {
            assert((b + a).to_multiset() == (a + b).to_multiset()) by { lemma_cat_comm(a, b); }
            lemma_sub_hists(left_histograms, n0.histograms, right_histograms, rows, b, a, *data, *cuts, grad@, hess@, col_index@);
        }
    }
tail:
    proof {
        assert(all_side(a, feat, split_info.split_bin, *node, left_child));
        assert(all_side(b, feat, split_info.split_bin, *node, right_child));
    }
*/
}
