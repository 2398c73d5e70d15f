pub open spec fn spl_extra(s: Spl, p: F32, l: F32, r: F32) -> bool { s.force_children_to_bound_parent ==> l.v() <= p.v() <= r.v() || r.v() <= p.v() <= l.v() }
pub proof fn lemma_done(s: Spl, n0: SplittableNode, n1: SplittableNode, index0: Seq<usize>, index1: Seq<usize>, kids: Seq<SplittableNode>, nn: int, b: u16, v: Env)
    requires split_done(s, n0, n1, index0, index1, kids, nn, b, v), seg_ok(index0, n0),
    ensures done_common(s, n0, n1, index0, index1, kids, nn, b, v),
{
    let (m, a, c) = (seg(index1, kids[0]), seg(index1, kids[1]), seg(index1, kids[2]));
    let feat = v.data.col(n1.split_feature as int);
    assert(seg(index1, n0) =~= m + a + c);
    assert forall|j: int| 0 <= j < n_new() implies #[trigger] kid_rows(kids[j], n0, n1, index0, index1, b, v) by {
        assert forall|r: usize| r < v.data.rows implies #[trigger] count(seg(index1, kids[j]), r) == if side_of(feat[r as int], b, n1) == kids[j].num { count(seg(index0, n0), r) } else { 0 } by {
            lemma_count_cat(m, a, r);
            lemma_count_cat(m + a, c, r);
            if side_of(feat[r as int], b, n1) != kids[0].num { lemma_count_side(m, feat, b, n1, kids[0].num, r); }
            if side_of(feat[r as int], b, n1) != kids[1].num { lemma_count_side(a, feat, b, n1, kids[1].num, r); }
            if side_of(feat[r as int], b, n1) != kids[2].num { lemma_count_side(c, feat, b, n1, kids[2].num, r); }
            assert(j == 0 || j == 1 || j == 2);
        }
    }
}
impl MissingBranchSplitter {
/*@fn splitter.rs :: Splitter for MissingBranchSplitter :: get_max_delta_step
ret r
spec:
    ensures r == self.max_delta_step,
*/
/*@fn splitter.rs :: Splitter for MissingBranchSplitter :: get_learning_rate
ret r
spec:
    ensures r == self.learning_rate,
*/
/*@fn splitter.rs :: Splitter for MissingBranchSplitter :: new_leaves_added
ret r
spec:
    ensures r == n_new() - 1,
*/
/*@fn splitter.rs :: Splitter for MissingBranchSplitter :: clean_up_splits
spec:
    requires clean_pre(*self, old(tree).nodes@),
    ensures cleaned(*self, old(tree).nodes@, final(tree).nodes@),
start:
    let ghost a = tree.nodes@;
tail:
    proof {
        if !keeps_weights(*self) {
            assert forall|par: Seq<int>| #[trigger] tree_par(a, par) implies all_tgt(a, tree.nodes@, par) by {
                let r = choose|r: F64| #[trigger] avg_done(a, tree.nodes@, par, 0, r);
                lemma_root_done(a, tree.nodes@, par, r);
            }
        }
    }
*/
/*@fn splitter.rs :: MissingBranchSplitter :: update_average_missing_nodes
std get_mut
lit f64
ret r
spec:
    requires avg_wf(old(tree).nodes@), node_idx < old(tree).nodes@.len(), fin_w(old(tree).nodes@), exists|par: Seq<int>| #[trigger] tree_par(old(tree).nodes@, par),
    ensures same_but_weights(old(tree).nodes@, final(tree).nodes@), fin_w(final(tree).nodes@),
        forall|par: Seq<int>| #[trigger] tree_par(old(tree).nodes@, par) ==> avg_done(old(tree).nodes@, final(tree).nodes@, par, node_idx as int, r),
    decreases old(tree).nodes@.len() - node_idx,
start:
    broadcast use ideal_arith;
    let ghost i = node_idx as int;
    let ghost s0 = tree.nodes@;
    let ghost par0 = choose|par: Seq<int>| #[trigger] tree_par(s0, par);
    proof { assert(node_shape(tree.nodes@[node_idx as int], node_idx as int, tree.nodes@.len() as int)); assert(par_at(s0, par0, i));
        if s0[i].is_leaf { assert forall|par: Seq<int>| #[trigger] tree_par(s0, par) implies avg_done(s0, s0, par, i, to64_(s0[i].weight_value)) by { lemma_leaf_done(s0, par, i); } }
    }
before "let left_hessian":
    let ghost s1 = tree.nodes@;
    proof { lemma_par_same(s0, s1); assert(tree_par(s1, par0)); }
before "let (missing_hessian":
    let ghost s2 = tree.nodes@;
    proof { lemma_same_trans(s0, s1, s2); lemma_par_same(s0, s2); assert(tree_par(s2, par0)); }
before "let update":
    let ghost s3 = tree.nodes@;
    proof {
        lemma_same_trans(s0, s2, s3);
        let (l, r, m) = (left as int, right as int, missing as int);
        assert forall|par: Seq<int>| #[trigger] tree_par(s0, par) implies three_done(s0, s3, par, i) && right_avg_weight.e() == Ext::Fin(avgm(s0, r)) && left_avg_weight.e() == Ext::Fin(avgm(s0, l)) && (!s0[m].is_leaf ==> missing_avg_weight.e() == Ext::Fin(avgm(s0, m))) by {
            assert(tree_par(s1, par) && tree_par(s2, par));
            lemma_three(s0, s1, s2, s3, par, i, right_avg_weight, left_avg_weight, missing_avg_weight);
        }
        assert(tree_par(s0, par0));
        lemma_avgm_step(s0, par0, i);
        assert(same_shape_node(s0[r], s1[r]) && same_shape_node(s0[l], s1[l]) && same_shape_node(s0[m], s2[m]));
        lemma_den(s0[l].hessian_sum.v(), s0[r].hessian_sum.v(), if s0[m].is_leaf { 0real } else { s0[m].hessian_sum.v() });
    }
tail:
    proof {
        let s4 = tree.nodes@;
        assert(update.e() == Ext::Fin(avgm(s0, i)));
        assert forall|j: int| 0 <= j < s0.len() implies same_shape_node(s0[j], #[trigger] s4[j]) by { assert(same_shape_node(s0[j], s3[j])); }
        assert forall|par: Seq<int>| #[trigger] tree_par(s0, par) implies avg_done(s0, s4, par, i, update) by { lemma_last(s0, s3, s4, par, i, update); }
    }
*/
}
pub open spec fn fin_w(nodes: Seq<Node>) -> bool { forall|i: int| 0 <= i < nodes.len() ==> (#[trigger] nodes[i]).weight_value.fin() }
/// par names the only split node of which j is a child; the children of a split differ, the outer ones have cover
pub open spec fn par_at(nodes: Seq<Node>, par: Seq<int>, i: int) -> bool {
    let n = nodes[i];
    let (l, r, m) = (n.left_child as int, n.right_child as int, n.missing_node as int);
    node_shape(n, i, nodes.len() as int) && (i > 0 ==> 0 <= par[i] < i && !nodes[par[i]].is_leaf && is_kid(nodes[par[i]], i)) && (!n.is_leaf ==> {
        &&& l != r && m != l && m != r && par[l] == i && par[r] == i && par[m] == i
        &&& nodes[l].hessian_sum.fin() && nodes[r].hessian_sum.fin() && nodes[m].hessian_sum.fin()
        &&& nodes[l].hessian_sum.v() > 0real && nodes[r].hessian_sum.v() > 0real && nodes[m].hessian_sum.v() >= 0real
    })
}
pub open spec fn tree_par(nodes: Seq<Node>, par: Seq<int>) -> bool { par.len() == nodes.len() && forall|i: int| 0 <= i < nodes.len() ==> #[trigger] par_at(nodes, par, i) }
/// cover-weighted average of the leaves below a node, leaves of missing values left out
pub open spec fn avgm(nodes: Seq<Node>, i: int) -> real decreases nodes.len() - i {
    if 0 <= i < nodes.len() && !nodes[i].is_leaf && node_shape(nodes[i], i, nodes.len() as int) {
        let n = nodes[i];
        let (l, r, m) = (n.left_child as int, n.right_child as int, n.missing_node as int);
        if nodes[m].is_leaf { mean3(avgm(nodes, r), nodes[r].hessian_sum.v(), avgm(nodes, l), nodes[l].hessian_sum.v(), 0real, 0real) }
        else { mean3(avgm(nodes, r), nodes[r].hessian_sum.v(), avgm(nodes, l), nodes[l].hessian_sum.v(), avgm(nodes, m), nodes[m].hessian_sum.v()) }
    } else { nodes[i].weight_value.v() }
}
pub open spec fn mean3(a: real, ha: real, b: real, hb: real, c: real, hc: real) -> real { (a * ha + b * hb + c * hc) / (hb + ha + hc) }
pub proof fn lemma_den(a: real, b: real, c: real) requires a > 0real, b > 0real, c >= 0real ensures a + b + c > 0real {}
/// j lies at or below i
pub open spec fn up(par: Seq<int>, i: int, j: int) -> bool decreases j {
    j == i || (i < j && 0 <= par[j] < j && up(par, i, par[j]))
}
/// the weight a node ends with
pub open spec fn tgt(nodes: Seq<Node>, par: Seq<int>, j: int) -> real {
    if !nodes[j].is_leaf { avgm(nodes, j) } else if 0 < j && 0 <= par[j] < nodes.len() && nodes[par[j]].missing_node == j { avgm(nodes, par[j]) } else { nodes[j].weight_value.v() }
}
pub open spec fn at_tgt(a: Seq<Node>, b: Seq<Node>, par: Seq<int>, j: int) -> bool { b[j].weight_value.e() == Ext::Fin(tgt(a, par, j)) }
pub open spec fn avg_done(a: Seq<Node>, b: Seq<Node>, par: Seq<int>, i: int, r: F64) -> bool {
    &&& r.e() == Ext::Fin(avgm(a, i))
    &&& forall|j: int| 0 <= j < a.len() && j != i && up(par, i, j) ==> #[trigger] at_tgt(a, b, par, j)
    &&& b[i].weight_value.e() == Ext::Fin(avgm(a, i))
    &&& forall|j: int| 0 <= j < a.len() && !up(par, i, j) ==> #[trigger] b[j] == a[j]
}
/// everything strictly below i is final, except a leaf for missing values
pub open spec fn three_done(a: Seq<Node>, b: Seq<Node>, par: Seq<int>, i: int) -> bool {
    &&& forall|j: int| 0 <= j < a.len() && j != i && up(par, i, j) && !(j == a[i].missing_node && a[j].is_leaf) ==> #[trigger] at_tgt(a, b, par, j)
    &&& forall|j: int| 0 <= j < a.len() && !up(par, i, j) ==> #[trigger] b[j] == a[j]
    &&& b[i] == a[i]
}
pub proof fn lemma_par_same(a: Seq<Node>, b: Seq<Node>)
    requires same_but_weights(a, b), avg_wf(a),
    ensures avg_wf(b), forall|par: Seq<int>| tree_par(a, par) == #[trigger] tree_par(b, par),
{
    assert forall|i: int| 0 <= i < b.len() implies node_shape(#[trigger] b[i], i, b.len() as int) by { assert(same_shape_node(a[i], b[i])); assert(node_shape(a[i], i, a.len() as int)); }
    assert forall|par: Seq<int>| tree_par(a, par) == #[trigger] tree_par(b, par) by {
        assert forall|i: int| 0 <= i < b.len() implies par_at(a, par, i) == #[trigger] par_at(b, par, i) by {
            assert(same_shape_node(a[i], b[i]));
            assert(node_shape(a[i], i, a.len() as int));
            if !a[i].is_leaf {
                assert(same_shape_node(a[a[i].left_child as int], b[a[i].left_child as int]));
                assert(same_shape_node(a[a[i].right_child as int], b[a[i].right_child as int]));
                assert(same_shape_node(a[a[i].missing_node as int], b[a[i].missing_node as int]));
            }
        }
        if tree_par(a, par) { assert forall|i: int| 0 <= i < b.len() implies #[trigger] par_at(b, par, i) by { assert(par_at(a, par, i)); } }
        if tree_par(b, par) { assert forall|i: int| 0 <= i < a.len() implies #[trigger] par_at(a, par, i) by { assert(par_at(b, par, i)); } }
    }
}
pub proof fn lemma_same_trans(a: Seq<Node>, b: Seq<Node>, c: Seq<Node>)
    requires same_but_weights(a, b), same_but_weights(b, c),
    ensures same_but_weights(a, c),
{ assert forall|i: int| 0 <= i < a.len() implies same_shape_node(a[i], #[trigger] c[i]) by { assert(same_shape_node(a[i], b[i])); assert(same_shape_node(b[i], c[i])); } }
pub proof fn lemma_avgm_step(a: Seq<Node>, par: Seq<int>, i: int)
    requires tree_par(a, par), 0 <= i < a.len(), !a[i].is_leaf,
    ensures ({
        let n = a[i];
        let (l, r, m) = (n.left_child as int, n.right_child as int, n.missing_node as int);
        avgm(a, i) == if a[m].is_leaf { mean3(avgm(a, r), a[r].hessian_sum.v(), avgm(a, l), a[l].hessian_sum.v(), 0real, 0real) } else { mean3(avgm(a, r), a[r].hessian_sum.v(), avgm(a, l), a[l].hessian_sum.v(), avgm(a, m), a[m].hessian_sum.v()) } }),
{ assert(par_at(a, par, i)); }
pub proof fn lemma_up_child(par: Seq<int>, i: int, c: int, j: int)
    requires 0 <= i < c, par[c] == i, up(par, c, j),
    ensures up(par, i, j), j >= c,
    decreases j
{ if j != c { lemma_up_child(par, i, c, par[j]); } else { assert(up(par, i, i)); } }
pub proof fn lemma_up_apart(par: Seq<int>, i: int, c: int, d: int, j: int)
    requires 0 <= i < c, i < d, c != d, par[c] == i, par[d] == i, up(par, c, j),
    ensures !up(par, d, j),
    decreases j
{
    if j == c { if up(par, d, c) { assert(up(par, d, i)); } }
    else if j == d { assert(up(par, c, i)); }
    else { lemma_up_apart(par, i, c, d, par[j]); }
}
/// what lies strictly below i lies below one of its children
pub proof fn lemma_up_split(a: Seq<Node>, par: Seq<int>, i: int, j: int)
    requires tree_par(a, par), 0 <= i < a.len(), 0 <= j < a.len(), j != i, up(par, i, j),
    ensures !a[i].is_leaf, up(par, a[i].left_child as int, j) || up(par, a[i].right_child as int, j) || up(par, a[i].missing_node as int, j),
    decreases j
{
    assert(par_at(a, par, j));
    assert(par_at(a, par, i));
    if par[j] == i { assert(up(par, j, j)); }
    else {
        lemma_up_split(a, par, i, par[j]);
        lemma_up_ge(par, i, par[j]);
        let n = a[i];
        let (l, r, m) = (n.left_child as int, n.right_child as int, n.missing_node as int);
        if up(par, l, par[j]) { lemma_up_ge(par, l, par[j]); assert(up(par, l, j)); }
        else if up(par, r, par[j]) { lemma_up_ge(par, r, par[j]); assert(up(par, r, j)); }
        else { lemma_up_ge(par, m, par[j]); assert(up(par, m, j)); }
    }
}
/// averages only depend on what lies below
pub proof fn lemma_indep(a: Seq<Node>, b: Seq<Node>, par: Seq<int>, c: int, j: int)
    requires same_but_weights(a, b), tree_par(a, par), tree_par(b, par), 0 <= j < a.len(), 0 <= c, up(par, c, j),
        forall|k: int| 0 <= k < a.len() && up(par, c, k) ==> (#[trigger] b[k]).weight_value == a[k].weight_value,
    ensures avgm(a, j) == avgm(b, j),
    decreases a.len() - j
{
    assert(par_at(a, par, j)); assert(same_shape_node(a[j], b[j]));
    if !a[j].is_leaf {
        let n = a[j];
        let (l, r, m) = (n.left_child as int, n.right_child as int, n.missing_node as int);
        assert(same_shape_node(a[l], b[l]) && same_shape_node(a[r], b[r]) && same_shape_node(a[m], b[m]));
        lemma_up_ge(par, c, j);
        lemma_indep(a, b, par, c, l); lemma_indep(a, b, par, c, r); lemma_indep(a, b, par, c, m);
        lemma_avgm_step(a, par, j); lemma_avgm_step(b, par, j);
    } else { assert(b[j].weight_value == a[j].weight_value); }
}
pub proof fn lemma_up_ge(par: Seq<int>, c: int, j: int) requires up(par, c, j), 0 <= c ensures c <= j decreases j { if j != c { lemma_up_ge(par, c, par[j]); } }
pub proof fn lemma_leaf_done(a: Seq<Node>, par: Seq<int>, i: int)
    requires tree_par(a, par), fin_w(a), 0 <= i < a.len(), a[i].is_leaf,
    ensures avg_done(a, a, par, i, to64_(a[i].weight_value)),
{
    broadcast use exact_arith;
    assert forall|j: int| 0 <= j < a.len() && j != i && up(par, i, j) implies #[trigger] at_tgt(a, a, par, j) by { lemma_up_split(a, par, i, j); }
}
pub open spec fn same_below(a: Seq<Node>, b: Seq<Node>, par: Seq<int>, c: int) -> bool { forall|k: int| 0 <= k < a.len() && up(par, c, k) ==> (#[trigger] b[k]).weight_value == a[k].weight_value }
pub proof fn lemma_tgt_same(a: Seq<Node>, b: Seq<Node>, par: Seq<int>, c: int, j: int)
    requires same_but_weights(a, b), tree_par(a, par), tree_par(b, par), 0 <= j < a.len(), 0 <= c, up(par, c, j), same_below(a, b, par, c), j != c,
    ensures tgt(a, par, j) == tgt(b, par, j),
{
    assert(par_at(a, par, j));
    assert(same_shape_node(a[j], b[j]));
    assert(same_shape_node(a[par[j]], b[par[j]]));
    lemma_up_ge(par, c, par[j]);
    lemma_indep(a, b, par, c, j); lemma_indep(a, b, par, c, par[j]);
    assert(b[j].weight_value == a[j].weight_value);
}
/// one child is done: from the state before its turn to the state at the end
pub proof fn lemma_one(s0: Seq<Node>, a: Seq<Node>, b: Seq<Node>, e: Seq<Node>, par: Seq<int>, i: int, c: int, v: F64, j: int)
    requires
        same_but_weights(s0, a), same_but_weights(a, b), tree_par(s0, par), tree_par(a, par), 0 <= i < c < s0.len(), par[c] == i, same_below(s0, a, par, c), same_below(b, e, par, c),
        avg_done(a, b, par, c, v), 0 <= j < s0.len(), up(par, c, j), !s0[c].is_leaf || s0[i].missing_node != c,
    ensures at_tgt(s0, e, par, j), v.e() == Ext::Fin(avgm(s0, c)),
{
    assert(par_at(s0, par, c));
    assert(same_shape_node(s0[c], a[c]));
    assert(up(par, c, c));
    lemma_indep(s0, a, par, c, c);
    assert(e[j].weight_value == b[j].weight_value);
    if j != c { lemma_tgt_same(s0, a, par, c, j); assert(at_tgt(a, b, par, j)); }
}
pub proof fn lemma_three(s0: Seq<Node>, s1: Seq<Node>, s2: Seq<Node>, s3: Seq<Node>, par: Seq<int>, i: int, rv: F64, lv: F64, mv: F64)
    requires
        tree_par(s0, par), tree_par(s1, par), tree_par(s2, par), 0 <= i < s0.len(), !s0[i].is_leaf,
        same_but_weights(s0, s1), same_but_weights(s1, s2), same_but_weights(s0, s2), same_but_weights(s2, s3),
        avg_done(s0, s1, par, s0[i].right_child as int, rv), avg_done(s1, s2, par, s0[i].left_child as int, lv),
        if s0[s0[i].missing_node as int].is_leaf { s3 == s2 } else { avg_done(s2, s3, par, s0[i].missing_node as int, mv) },
    ensures
        three_done(s0, s3, par, i), rv.e() == Ext::Fin(avgm(s0, s0[i].right_child as int)), lv.e() == Ext::Fin(avgm(s0, s0[i].left_child as int)),
        !s0[s0[i].missing_node as int].is_leaf ==> mv.e() == Ext::Fin(avgm(s0, s0[i].missing_node as int)),
{
    let (l, r, m) = (s0[i].left_child as int, s0[i].right_child as int, s0[i].missing_node as int);
    assert(par_at(s0, par, i));
    assert forall|j: int| 0 <= j < s0.len() implies
        (up(par, r, j) ==> s2[j] == s1[j] && (#[trigger] s3[j]) == s1[j]) && (up(par, l, j) ==> s1[j] == s0[j] && s3[j] == s2[j]) && (up(par, m, j) ==> s2[j] == s0[j])
        && (!up(par, i, j) || j == i ==> s3[j] == s0[j]) by {
        if up(par, r, j) { lemma_up_apart(par, i, r, l, j); lemma_up_apart(par, i, r, m, j); }
        if up(par, l, j) { lemma_up_apart(par, i, l, r, j); lemma_up_apart(par, i, l, m, j); }
        if up(par, m, j) { lemma_up_apart(par, i, m, r, j); lemma_up_apart(par, i, m, l, j); }
        if !up(par, i, j) || j == i {
            if up(par, r, j) { lemma_up_child(par, i, r, j); }
            if up(par, l, j) { lemma_up_child(par, i, l, j); }
            if up(par, m, j) { lemma_up_child(par, i, m, j); }
        }
    }
    assert(same_below(s1, s3, par, r)) by { assert forall|k: int| 0 <= k < s0.len() && up(par, r, k) implies (#[trigger] s3[k]).weight_value == s1[k].weight_value by {} }
    assert(same_below(s0, s1, par, l)) by { assert forall|k: int| 0 <= k < s0.len() && up(par, l, k) implies (#[trigger] s1[k]).weight_value == s0[k].weight_value by { assert(s3[k] == s2[k]); } }
    assert(same_below(s2, s3, par, l)) by { assert forall|k: int| 0 <= k < s0.len() && up(par, l, k) implies (#[trigger] s3[k]).weight_value == s2[k].weight_value by {} }
    assert(same_below(s0, s2, par, m)) by { assert forall|k: int| 0 <= k < s0.len() && up(par, m, k) implies (#[trigger] s2[k]).weight_value == s0[k].weight_value by { lemma_up_apart(par, i, m, r, k); lemma_up_apart(par, i, m, l, k); } }
    assert(up(par, r, r) && up(par, l, l) && up(par, m, m));
    lemma_one(s0, s0, s1, s3, par, i, r, rv, r);
    lemma_one(s0, s1, s2, s3, par, i, l, lv, l);
    if !s0[m].is_leaf { lemma_one(s0, s2, s3, s3, par, i, m, mv, m); }
    assert forall|j: int| 0 <= j < s0.len() && j != i && up(par, i, j) && !(j == m && s0[j].is_leaf) implies #[trigger] at_tgt(s0, s3, par, j) by {
        lemma_up_split(s0, par, i, j);
        if up(par, r, j) { lemma_one(s0, s0, s1, s3, par, i, r, rv, j); }
        else if up(par, l, j) { lemma_one(s0, s1, s2, s3, par, i, l, lv, j); }
        else if !s0[m].is_leaf { lemma_one(s0, s2, s3, s3, par, i, m, mv, j); }
        else { lemma_up_split(s0, par, m, j); }
    }
    assert forall|j: int| 0 <= j < s0.len() && !up(par, i, j) implies #[trigger] s3[j] == s0[j] by {}
    assert(s3[i] == s0[i]);
}
/// the node itself and its missing leaf
pub proof fn lemma_last(s0: Seq<Node>, s3: Seq<Node>, s4: Seq<Node>, par: Seq<int>, i: int, u: F64)
    requires
        tree_par(s0, par), 0 <= i < s0.len(), !s0[i].is_leaf, three_done(s0, s3, par, i), u.e() == Ext::Fin(avgm(s0, i)), s4.len() == s0.len(), s3.len() == s0.len(),
        s4[i].weight_value.e() == u.e(), s0[s0[i].missing_node as int].is_leaf ==> s4[s0[i].missing_node as int].weight_value.e() == u.e(),
        forall|j: int| 0 <= j < s0.len() && j != i && !(j == s0[i].missing_node && s0[j].is_leaf) ==> #[trigger] s4[j] == s3[j],
    ensures avg_done(s0, s4, par, i, u),
{
    assert(par_at(s0, par, i));
    let m = s0[i].missing_node as int;
    assert forall|j: int| 0 <= j < s0.len() && j != i && up(par, i, j) implies #[trigger] at_tgt(s0, s4, par, j) by {
        if j == m && s0[j].is_leaf {} else { assert(at_tgt(s0, s3, par, j)); assert(s4[j] == s3[j]); }
    }
    assert forall|j: int| 0 <= j < s0.len() && !up(par, i, j) implies #[trigger] s4[j] == s0[j] by {
        if j == m { assert(up(par, i, m)) by { assert(up(par, i, i)); } }
        assert(s3[j] == s0[j]); assert(s4[j] == s3[j]);
    }
}
pub open spec fn spl_shape(l: int, r: int, m: int) -> bool { m != l && m != r }
pub open spec fn keeps_weights(s: Spl) -> bool { !(s.missing_node_treatment is AverageLeafWeight) }
pub open spec fn clean_pre(s: Spl, a: Seq<Node>) -> bool { a.len() > 0 && avg_wf(a) && (!keeps_weights(s) ==> fin_w(a) && exists|par: Seq<int>| #[trigger] tree_par(a, par)) }
pub open spec fn all_tgt(a: Seq<Node>, b: Seq<Node>, par: Seq<int>) -> bool { forall|j: int| 0 <= j < a.len() ==> #[trigger] at_tgt(a, b, par, j) }
pub open spec fn cleaned(s: Spl, a: Seq<Node>, b: Seq<Node>) -> bool {
    &&& same_but_weights(a, b) && (keeps_weights(s) ==> a == b)
    &&& !keeps_weights(s) ==> forall|par: Seq<int>| #[trigger] tree_par(a, par) ==> all_tgt(a, b, par)
}
/// every node lies below the root
pub proof fn lemma_up_root(a: Seq<Node>, par: Seq<int>, j: int)
    requires tree_par(a, par), 0 <= j < a.len(),
    ensures up(par, 0, j),
    decreases j
{ assert(par_at(a, par, j)); if j > 0 { lemma_up_root(a, par, par[j]); } }
pub proof fn lemma_root_done(a: Seq<Node>, b: Seq<Node>, par: Seq<int>, r: F64)
    requires tree_par(a, par), a.len() > 0, fin_w(a), avg_done(a, b, par, 0, r),
    ensures all_tgt(a, b, par),
{
    assert forall|j: int| 0 <= j < a.len() implies #[trigger] at_tgt(a, b, par, j) by {
        lemma_up_root(a, par, j);
        assert(par_at(a, par, 0));
        if j == 0 && a[0].is_leaf && 0 <= par[0] < a.len() { assert(par_at(a, par, par[0])); }
    }
}
/// the stored weights: times the learning rate; averaged where asked to
pub open spec fn stored(nodes: Seq<Node>, g: Gh, s: Spl) -> bool {
    if keeps_weights(s) { weights_inv(nodes, g, s.learning_rate) }
    else { exists|a: Seq<Node>| #[trigger] averaged(a, nodes, g, s) }
}
pub open spec fn averaged(a: Seq<Node>, nodes: Seq<Node>, g: Gh, s: Spl) -> bool { same_but_weights(a, nodes) && weights_inv(a, g, s.learning_rate) && all_tgt(a, nodes, g.par) }
pub proof fn lemma_tree_par(a: Seq<Node>, g: Gh, v: Env, s: Spl, md: int)
    requires tree_inv(a, g, v, s, md), s_ok(s), env_ok(v), averaging(s.missing_node_treatment),
    ensures tree_par(a, g.par),
{
    assert forall|i: int| 0 <= i < a.len() implies #[trigger] par_at(a, g.par, i) by {
        assert(node_fact(a, g, v, s, md, i));
        if !a[i].is_leaf {
            assert(split_fact(a, g, v, s, i));
            let (l, r, m) = (a[i].left_child as int, a[i].right_child as int, a[i].missing_node as int);
            assert(node_fact(a, g, v, s, md, l) && node_fact(a, g, v, s, md, r) && node_fact(a, g, v, s, md, m));
            lemma_fsum_nonneg_tot(g.rw[m], v);
        }
    }
}
pub proof fn lemma_clean_pre(a: Seq<Node>, g: Gh, v: Env, s: Spl, md: int)
    requires tree_inv(a, g, v, s, md), weights_inv(a, g, s.learning_rate), s_ok(s), env_ok(v), s.learning_rate.fin(),
    ensures clean_pre(s, a),
{
    broadcast use ideal_arith;
    lemma_avg_wf(a, g, v, s, md);
    if !keeps_weights(s) {
        lemma_tree_par(a, g, v, s, md);
        assert forall|i: int| 0 <= i < a.len() implies (#[trigger] a[i]).weight_value.fin() by { assert(node_fact(a, g, v, s, md, i)); }
    }
}
pub proof fn lemma_stored(a: Seq<Node>, b: Seq<Node>, g: Gh, v: Env, s: Spl, md: int)
    requires tree_inv(a, g, v, s, md), weights_inv(a, g, s.learning_rate), s_ok(s), env_ok(v), cleaned(s, a, b),
    ensures stored(b, g, s),
{ if !keeps_weights(s) { lemma_tree_par(a, g, v, s, md); assert(averaged(a, b, g, s)); } }
