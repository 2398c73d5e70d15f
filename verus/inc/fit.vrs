// ================================================================ splitter.rs : split_node
pub open spec fn none_left(s: Spl, n: SplittableNode, ci: Seq<usize>) -> bool { best_all(None, s, n, ci) }
impl Spl {
/*@fn splitter.rs :: trait Splitter :: split_node
ret r
spec:
    requires ({
        let v = Env { data: *data, cuts: *cuts, grad: grad@, hess: hess@, ci: col_index@ };
        &&& env_ok(v) && s_ok(*self) && n_ok(*old(node)) && seg_ok(old(index)@, *old(node)) && idx_ok(old(index)@, data.rows as int)
        &&& stat_is(*old(node), seg(old(index)@, *old(node)), v)
        &&& *n_nodes + 3 <= usize::MAX && old(node).depth + 1 <= usize::MAX
    }),
    ensures ({
        let v = Env { data: *data, cuts: *cuts, grad: grad@, hess: hess@, ci: col_index@ };
        ||| r@.len() == 0 && *final(node) == *old(node) && final(index)@ == old(index)@ && none_left(*self, *old(node), col_index@)
        ||| r@.len() == n_new() && exists|b: u16| #[trigger] split_done(*self, *old(node), *final(node), old(index)@, final(index)@, r@, *n_nodes as int, b, v)
    }),
start:
    proof {
        let v = Env { data: *data, cuts: *cuts, grad: grad@, hess: hess@, ci: col_index@ };
        let rows = seg(index@, *node);
        assert forall|k: int| 0 <= k < rows.len() implies (#[trigger] rows[k]) < data.rows by { assert(rows[k] == index@[k + node.start_idx]); }
        lemma_ready(*self, *node, rows, v);
    }
*/
}
impl Node {
/*@fn node.rs :: Node :: make_parent_node
spec:
    ensures parent_node(*old(self), split_node, *final(self)),
*/
}
pub open spec fn parent_node(a: Node, n: SplittableNode, b: Node) -> bool {
    &&& !b.is_leaf && b.missing_node == n.missing_node && b.split_value == n.split_value && b.split_feature == n.split_feature && b.split_gain == n.split_gain
    &&& b.left_child == n.left_child && b.right_child == n.right_child
    &&& b.num == a.num && b.weight_value == a.weight_value && b.hessian_sum == a.hessian_sum && b.depth == a.depth
}
pub open spec fn node_of(b: Node, n: SplittableNode, lr: F32) -> bool {
    &&& b.num == n.num && b.weight_value == n.weight_value.mul_(lr) && b.hessian_sum == n.hessian_sum && b.depth == n.depth && b.is_leaf == n.is_leaf
}
// ================================================================ tree.rs : growing a tree
/// what training knows about each node: parent, rows, bin of the split, bounds, weight before the learning rate
pub ghost struct Gh { pub par: Seq<int>, pub rw: Seq<Seq<usize>>, pub sb: Seq<u16>, pub lo: Seq<Ext>, pub hi: Seq<Ext>, pub uw: Seq<F32> }
pub open spec fn gh_len(g: Gh, n: int) -> bool { g.par.len() == n && g.rw.len() == n && g.sb.len() == n && g.lo.len() == n && g.hi.len() == n && g.uw.len() == n }
pub open spec fn count(rows: Seq<usize>, r: usize) -> nat { rows.to_multiset().count(r) }
pub open spec fn is_kid(n: Node, c: int) -> bool { c == n.left_child || c == n.right_child || c == n.missing_node }
/// the child a binned value is sent to
pub open spec fn nside(n: Node, sb: u16, b: u16) -> usize { if b == 0 { n.missing_node } else if b < sb { n.left_child } else { n.right_child } }
/// the child holds exactly the rows that the split sends to it
pub open spec fn rows_of(rc: Seq<usize>, ri: Seq<usize>, n: Node, sb: u16, feat: Seq<u16>, rows: int, c: int) -> bool {
    forall|r: usize| r < rows ==> #[trigger] count(rc, r) == if nside(n, sb, feat[r as int]) == c { count(ri, r) } else { 0 }
}
pub open spec fn kid_fact(nodes: Seq<Node>, g: Gh, v: Env, i: int, c: int) -> bool {
    &&& i < c < nodes.len() && g.par[c] == i && nodes[c].depth == nodes[i].depth + 1
    &&& ext_le(g.lo[i], g.lo[c]) && ext_le(g.hi[c], g.hi[i])
    &&& rows_of(g.rw[c], g.rw[i], nodes[i], g.sb[i], v.data.col(nodes[i].split_feature as int), v.data.rows as int, c)
}
pub open spec fn split_fact(nodes: Seq<Node>, g: Gh, v: Env, s: Spl, i: int) -> bool {
    let n = nodes[i];
    let l = n.left_child as int;
    let r = n.right_child as int;
    &&& l != r && kid_fact(nodes, g, v, i, l) && kid_fact(nodes, g, v, i, r) && kid_fact(nodes, g, v, i, n.missing_node as int)
    &&& is_cut(n.split_feature, g.sb[i], n.split_value, v)
    &&& s_dir(s, n.split_feature) == 1 ==> ext_le(g.hi[l], g.lo[r])
    &&& s_dir(s, n.split_feature) == -1 ==> ext_le(g.hi[r], g.lo[l])
    &&& nodes[l].hessian_sum.v() >= s.min_leaf_weight.v() && nodes[r].hessian_sum.v() >= s.min_leaf_weight.v()
    &&& ext_lt(Ext::Fin(s.gamma.v()), n.split_gain.e())
    &&& spl_extra(s, g.uw[i], g.uw[l], g.uw[r]) && spl_shape(l, r, n.missing_node as int)
}
pub open spec fn node_fact(nodes: Seq<Node>, g: Gh, v: Env, s: Spl, md: int, i: int) -> bool {
    let n = nodes[i];
    &&& n.num == i && n.depth <= i && n.depth <= md
    &&& n.hessian_sum.e() == Ext::Fin(tot(g.rw[i], v.hess)) && idx_ok(g.rw[i], v.data.rows as int)
    &&& bounds_ok(g.lo[i], g.hi[i]) && g.uw[i].fin() && within(g.lo[i], g.uw[i].v(), g.hi[i])
    &&& i > 0 ==> 0 <= g.par[i] < i && !nodes[g.par[i]].is_leaf && is_kid(nodes[g.par[i]], i)
    &&& !n.is_leaf ==> split_fact(nodes, g, v, s, i)
}
/// everything but the weights
pub open spec fn tree_inv(nodes: Seq<Node>, g: Gh, v: Env, s: Spl, md: int) -> bool {
    &&& nodes.len() >= 1 && gh_len(g, nodes.len() as int)
    &&& forall|i: int| 0 <= i < nodes.len() ==> #[trigger] node_fact(nodes, g, v, s, md, i)
}
/// the stored weight is the weight times the learning rate
pub open spec fn weights_inv(nodes: Seq<Node>, g: Gh, lr: F32) -> bool {
    gh_len(g, nodes.len() as int) && forall|i: int| 0 <= i < nodes.len() ==> (#[trigger] nodes[i]).weight_value == g.uw[i].mul_(lr)
}
pub open spec fn leafs(nodes: Seq<Node>) -> int decreases nodes.len() {
    if nodes.len() == 0 { 0 } else { leafs(nodes.drop_last()) + if nodes.last().is_leaf { 1int } else { 0 } }
}
// ---- pending nodes
pub open spec fn pend_one(p: SplittableNode, nodes: Seq<Node>, g: Gh, index: Seq<usize>, v: Env) -> bool {
    &&& p.num < nodes.len() && nodes[p.num as int].is_leaf && p.depth == nodes[p.num as int].depth
    &&& n_ok(p) && seg_ok(index, p) && stat_is(p, seg(index, p), v)
    &&& seg(index, p).to_multiset() == g.rw[p.num as int].to_multiset()
    &&& g.lo[p.num as int] == p.lower_bound.e() && g.hi[p.num as int] == p.upper_bound.e() && g.uw[p.num as int] == p.weight_value
}
pub open spec fn apart(p: SplittableNode, q: SplittableNode) -> bool { p.num != q.num && (p.stop_idx <= q.start_idx || q.stop_idx <= p.start_idx) }
pub open spec fn pend_inv(P: Seq<SplittableNode>, nodes: Seq<Node>, g: Gh, index: Seq<usize>, v: Env) -> bool {
    &&& idx_ok(index, v.data.rows as int)
    &&& forall|a: int| 0 <= a < P.len() ==> pend_one(#[trigger] P[a], nodes, g, index, v)
    &&& forall|a: int, b: int| 0 <= a < b < P.len() ==> apart(#[trigger] P[a], #[trigger] P[b])
}
/// first in, first out: pending depths never decrease and differ by at most one level; nothing is deeper than the next level
pub open spec fn fifo_inv(P: Seq<SplittableNode>, nodes: Seq<Node>, d: int) -> bool {
    &&& forall|a: int| 0 <= a < P.len() ==> d <= (#[trigger] P[a]).depth <= d + 1
    &&& forall|a: int, b: int| 0 <= a < b < P.len() ==> (#[trigger] P[a]).depth <= (#[trigger] P[b]).depth
    &&& levels_inv(nodes) && forall|i: int| 0 <= i < nodes.len() ==> (#[trigger] nodes[i]).depth <= d + 1
}
/// level by level
pub open spec fn levels_inv(nodes: Seq<Node>) -> bool { forall|i: int, j: int| 0 <= i < j < nodes.len() ==> (#[trigger] nodes[i]).depth <= (#[trigger] nodes[j]).depth }
/// pending nodes after the children were added
pub open spec fn pend_after(P: Seq<SplittableNode>, kids: Seq<SplittableNode>, k: int) -> Seq<SplittableNode> decreases k {
    if k <= 0 { P } else if kids[k - 1].is_missing_leaf { pend_after(P, kids, k - 1) } else { pend_after(P, kids, k - 1).push(kids[k - 1]) }
}
/// what both splitters promise about a split
pub open spec fn done_common(s: Spl, n0: SplittableNode, n1: SplittableNode, index0: Seq<usize>, index1: Seq<usize>, kids: Seq<SplittableNode>, nn: int, b: u16, v: Env) -> bool {
    let l = n1.left_child - nn;
    let r = n1.right_child - nn;
    let m = n1.missing_node - nn;
    &&& moved(index0, index1, n0) && idx_ok(index1, v.data.rows as int) && parent_of(n0, n1)
    &&& is_cut(n1.split_feature, b, n1.split_value, v)
    &&& kids.len() == n_new() && 0 <= l < n_new() && 0 <= r < n_new() && 0 <= m < n_new() && l != r
    &&& forall|j: int| 0 <= j < n_new() ==> #[trigger] one_of(j, l, r, m)
    &&& forall|j: int| 0 <= j < n_new() ==> kid_ok(n0, n1, index1, #[trigger] kids[j], nn + j, b, v)
    &&& forall|j: int| 0 <= j < n_new() ==> n0.start_idx <= (#[trigger] kids[j]).start_idx && kids[j].stop_idx <= n0.stop_idx
    &&& forall|i: int, j: int| 0 <= i < j < n_new() ==> (#[trigger] kids[i]).stop_idx <= (#[trigger] kids[j]).start_idx
    &&& forall|j: int| 0 <= j < n_new() ==> #[trigger] kid_rows(kids[j], n0, n1, index0, index1, b, v)
    &&& limits_kept(s, n1, kids[l], kids[r]) && spl_shape(l, r, m)
}
pub open spec fn one_of(j: int, l: int, r: int, m: int) -> bool { j == l || j == r || j == m }
pub open spec fn kid_rows(c: SplittableNode, n0: SplittableNode, n1: SplittableNode, index0: Seq<usize>, index1: Seq<usize>, b: u16, v: Env) -> bool {
    forall|r: usize| r < v.data.rows ==> #[trigger] count(seg(index1, c), r) == if side_of(v.data.col(n1.split_feature as int)[r as int], b, n1) == c.num { count(seg(index0, n0), r) } else { 0 }
}
pub proof fn lemma_count_side(rows: Seq<usize>, feat: Seq<u16>, b: u16, n: SplittableNode, c: usize, r: usize)
    requires all_side(rows, feat, b, n, c), side_of(feat[r as int], b, n) != c,
    ensures count(rows, r) == 0,
{
    broadcast use vstd::seq_lib::group_to_multiset_ensures;
    if count(rows, r) > 0 {
        assert(rows.contains(r));
        let q = choose|q: int| 0 <= q < rows.len() && rows[q] == r;
        assert(side_of(feat[rows[q] as int], b, n) == c);
    }
}
pub proof fn lemma_count_cat(a: Seq<usize>, b: Seq<usize>, r: usize)
    ensures count(a + b, r) == count(a, r) + count(b, r),
{ vstd::seq_lib::lemma_multiset_commutative(a, b); }
/// ghost state after a split
pub open spec fn g_next(g: Gh, i: int, b: u16, kids: Seq<SplittableNode>, index1: Seq<usize>) -> Gh {
    Gh {
        par: g.par + Seq::new(kids.len(), |j: int| i),
        rw: g.rw + Seq::new(kids.len(), |j: int| seg(index1, kids[j])),
        sb: g.sb.update(i, b) + Seq::new(kids.len(), |j: int| 0u16),
        lo: g.lo + Seq::new(kids.len(), |j: int| kids[j].lower_bound.e()),
        hi: g.hi + Seq::new(kids.len(), |j: int| kids[j].upper_bound.e()),
        uw: g.uw + Seq::new(kids.len(), |j: int| kids[j].weight_value),
    }
}
pub proof fn lemma_leafs_same(a: Seq<Node>, b: Seq<Node>)
    requires a.len() == b.len(), forall|i: int| 0 <= i < a.len() ==> (#[trigger] a[i]).is_leaf == b[i].is_leaf,
    ensures leafs(a) == leafs(b),
    decreases a.len()
{ if a.len() > 0 { lemma_leafs_same(a.drop_last(), b.drop_last()); } }
pub proof fn lemma_leafs_update(a: Seq<Node>, i: int, n: Node)
    requires 0 <= i < a.len(), a[i].is_leaf, !n.is_leaf,
    ensures leafs(a.update(i, n)) == leafs(a) - 1,
    decreases a.len()
{
    let b = a.update(i, n);
    if i == a.len() - 1 { lemma_leafs_same(a.drop_last(), b.drop_last()); }
    else { assert(b.drop_last() =~= a.drop_last().update(i, n)); lemma_leafs_update(a.drop_last(), i, n); }
}
pub proof fn lemma_leafs_push(a: Seq<Node>, k: int)
    requires 0 <= k <= a.len(), forall|i: int| k <= i < a.len() ==> (#[trigger] a[i]).is_leaf,
    ensures leafs(a) == leafs(a.subrange(0, k)) + a.len() - k,
    decreases a.len()
{
    if a.len() == k { assert(a.subrange(0, k) =~= a); }
    else { assert(a.drop_last().subrange(0, k) =~= a.subrange(0, k)); lemma_leafs_push(a.drop_last(), k); }
}
/// the tree and the pending nodes after a split
pub open spec fn step_ok(nodes0: Seq<Node>, nodes1: Seq<Node>, n0: SplittableNode, n1: SplittableNode, kids: Seq<SplittableNode>, lr: F32) -> bool {
    &&& n0.num < nodes0.len() && nodes1.len() == nodes0.len() + kids.len()
    &&& forall|j: int| 0 <= j < nodes0.len() && j != n0.num ==> #[trigger] nodes1[j] == nodes0[j]
    &&& parent_node(nodes0[n0.num as int], n1, nodes1[n0.num as int])
    &&& forall|j: int| 0 <= j < kids.len() ==> node_of(#[trigger] nodes1[nodes0.len() + j], kids[j], lr)
}
pub proof fn lemma_step_ok(a: Seq<Node>, p: Seq<Node>, c: Seq<Node>, n0: SplittableNode, n1: SplittableNode, kids: Seq<SplittableNode>, lr: F32)
    requires
        n0.num < a.len(), p.len() == a.len(), forall|j: int| 0 <= j < a.len() && j != n0.num ==> #[trigger] p[j] == a[j], parent_node(a[n0.num as int], n1, p[n0.num as int]),
        c.len() == a.len() + kids.len(), forall|j: int| 0 <= j < p.len() ==> c[j] == #[trigger] p[j],
        forall|j: int| 0 <= j < kids.len() ==> node_of(#[trigger] c[p.len() + j], kids[j], lr),
    ensures step_ok(a, c, n0, n1, kids, lr),
{
    assert forall|j: int| 0 <= j < a.len() && j != n0.num implies #[trigger] c[j] == a[j] by { assert(p[j] == a[j] && c[j] == p[j]); }
    assert(c[n0.num as int] == p[n0.num as int]);
    assert forall|j: int| 0 <= j < kids.len() implies node_of(#[trigger] c[a.len() + j], kids[j], lr) by { assert(node_of(c[p.len() + j], kids[j], lr)); }
}
pub proof fn lemma_step_tree(s: Spl, v: Env, md: int, lr: F32, nodes0: Seq<Node>, nodes1: Seq<Node>, g: Gh, n0: SplittableNode, n1: SplittableNode, index0: Seq<usize>, index1: Seq<usize>, kids: Seq<SplittableNode>, b: u16)
    requires
        tree_inv(nodes0, g, v, s, md), weights_inv(nodes0, g, lr), pend_one(n0, nodes0, g, index0, v), n0.depth + 1 <= md,
        done_common(s, n0, n1, index0, index1, kids, nodes0.len() as int, b, v), step_ok(nodes0, nodes1, n0, n1, kids, lr),
        spl_extra(s, n0.weight_value, kids[n1.left_child - nodes0.len()].weight_value, kids[n1.right_child - nodes0.len()].weight_value),
    ensures
        tree_inv(nodes1, g_next(g, n0.num as int, b, kids, index1), v, s, md), weights_inv(nodes1, g_next(g, n0.num as int, b, kids, index1), lr),
        leafs(nodes1) == leafs(nodes0) - 1 + kids.len(),
{
    let i = n0.num as int;
    let nn = nodes0.len() as int;
    let h = g_next(g, i, b, kids, index1);
    assert(node_fact(nodes0, g, v, s, md, i));
    let feat = v.data.col(n1.split_feature as int);
    assert forall|j: int| 0 <= j < n_new() implies #[trigger] kid_fact(nodes1, h, v, i, nn + j) by {
        assert(kid_ok(n0, n1, index1, kids[j], nn + j, b, v));
        assert(kid_rows(kids[j], n0, n1, index0, index1, b, v));
        assert(node_of(nodes1[nn + j], kids[j], lr));
        assert forall|r: usize| r < v.data.rows implies #[trigger] count(h.rw[nn + j], r) == if nside(nodes1[i], h.sb[i], feat[r as int]) == nn + j { count(h.rw[i], r) } else { 0 } by {
            assert(count(seg(index1, kids[j]), r) == if side_of(feat[r as int], b, n1) == kids[j].num { count(seg(index0, n0), r) } else { 0 });
        }
    }
    assert(kid_fact(nodes1, h, v, i, nn + (n1.left_child - nn)));
    assert(kid_fact(nodes1, h, v, i, nn + (n1.right_child - nn)));
    assert(kid_fact(nodes1, h, v, i, nn + (n1.missing_node - nn)));
    assert(node_of(nodes1[nn + (n1.left_child - nn)], kids[n1.left_child - nn], lr));
    assert(node_of(nodes1[nn + (n1.right_child - nn)], kids[n1.right_child - nn], lr));
    assert(split_fact(nodes1, h, v, s, i));
    assert forall|k: int| 0 <= k < nodes1.len() implies #[trigger] node_fact(nodes1, h, v, s, md, k) by {
        if k < nn {
            assert(node_fact(nodes0, g, v, s, md, k));
            if k != i && !nodes0[k].is_leaf {
                let n = nodes0[k];
                assert(split_fact(nodes0, g, v, s, k));
                assert(kid_fact(nodes0, g, v, k, n.left_child as int) && kid_fact(nodes1, h, v, k, n.left_child as int));
                assert(kid_fact(nodes0, g, v, k, n.right_child as int) && kid_fact(nodes1, h, v, k, n.right_child as int));
                assert(kid_fact(nodes0, g, v, k, n.missing_node as int) && kid_fact(nodes1, h, v, k, n.missing_node as int));
            }
        } else {
            let j = k - nn;
            assert(one_of(j, n1.left_child - nn, n1.right_child - nn, n1.missing_node - nn));
            assert(kid_fact(nodes1, h, v, i, nn + j));
            assert(kid_ok(n0, n1, index1, kids[j], nn + j, b, v));
            assert(node_of(nodes1[nn + j], kids[j], lr));
            let rows = seg(index1, kids[j]);
            assert forall|q: int| 0 <= q < rows.len() implies (#[trigger] rows[q]) < v.data.rows by { assert(rows[q] == index1[q + kids[j].start_idx]); }
        }
    }
    assert forall|k: int| 0 <= k < nodes1.len() implies (#[trigger] nodes1[k]).weight_value == h.uw[k].mul_(lr) by {
        if k < nn { assert(nodes0[k].weight_value == g.uw[k].mul_(lr)); } else { assert(node_of(nodes1[nn + (k - nn)], kids[k - nn], lr)); }
    }
    assert forall|k: int| nn <= k < nodes1.len() implies (#[trigger] nodes1[k]).is_leaf by { assert(kid_ok(n0, n1, index1, kids[k - nn], nn + (k - nn), b, v)); assert(node_of(nodes1[nn + (k - nn)], kids[k - nn], lr)); }
    lemma_leafs_push(nodes1, nn);
    assert(nodes1.subrange(0, nn) =~= nodes0.update(i, nodes1[i]));
    lemma_leafs_update(nodes0, i, nodes1[i]);
}
/// membership in the pending nodes after a split
pub open spec fn from_kid(kids: Seq<SplittableNode>, k: int, x: SplittableNode) -> bool { exists|j: int| 0 <= j < k && !kids[j].is_missing_leaf && #[trigger] kids[j] == x }
pub open spec fn from_kids(kids: Seq<SplittableNode>, k: int, x: SplittableNode, y: SplittableNode) -> bool {
    exists|i: int, j: int| 0 <= i < j < k && !kids[j].is_missing_leaf && !kids[i].is_missing_leaf && #[trigger] kids[i] == x && #[trigger] kids[j] == y
}
pub proof fn lemma_pend_after(P: Seq<SplittableNode>, kids: Seq<SplittableNode>, k: int)
    requires 0 <= k <= kids.len(),
    ensures
        P.len() <= pend_after(P, kids, k).len() <= P.len() + k,
        forall|a: int| 0 <= a < P.len() ==> #[trigger] pend_after(P, kids, k)[a] == P[a],
        forall|a: int| P.len() <= a < pend_after(P, kids, k).len() ==> from_kid(kids, k, #[trigger] pend_after(P, kids, k)[a]),
        forall|a: int, b: int| P.len() <= a < b < pend_after(P, kids, k).len() ==> from_kids(kids, k, #[trigger] pend_after(P, kids, k)[a], #[trigger] pend_after(P, kids, k)[b]),
    decreases k
{
    if k > 0 {
        lemma_pend_after(P, kids, k - 1);
        let Q = pend_after(P, kids, k - 1);
        let R = pend_after(P, kids, k);
        assert forall|a: int| P.len() <= a < R.len() implies from_kid(kids, k, #[trigger] R[a]) by {
            if a == Q.len() { assert(kids[k - 1] == R[a]); } else { assert(Q[a] == R[a]); assert(from_kid(kids, k - 1, Q[a])); }
        }
        assert forall|a: int, b: int| P.len() <= a < b < R.len() implies from_kids(kids, k, #[trigger] R[a], #[trigger] R[b]) by {
            assert(Q[a] == R[a]);
            assert(from_kid(kids, k - 1, Q[a]));
            if b == Q.len() {
                let i = choose|j: int| 0 <= j < k - 1 && !kids[j].is_missing_leaf && #[trigger] kids[j] == Q[a];
                assert(kids[i] == R[a] && kids[k - 1] == R[b]);
            } else {
                assert(Q[b] == R[b]); assert(from_kids(kids, k - 1, Q[a], Q[b]));
                let (i, j) = choose|i: int, j: int| 0 <= i < j < k - 1 && !kids[j].is_missing_leaf && !kids[i].is_missing_leaf && #[trigger] kids[i] == Q[a] && #[trigger] kids[j] == Q[b];
                assert(kids[i] == R[a] && kids[j] == R[b]);
            }
        }
    }
}
pub proof fn lemma_step_pend(s: Spl, v: Env, lr: F32, md: int, nodes0: Seq<Node>, nodes1: Seq<Node>, g: Gh, P0: Seq<SplittableNode>, k: int, n0: SplittableNode, n1: SplittableNode, index0: Seq<usize>, index1: Seq<usize>, kids: Seq<SplittableNode>, b: u16)
    requires
        tree_inv(nodes0, g, v, s, md), pend_inv(P0, nodes0, g, index0, v), 0 <= k < P0.len(), P0[k] == n0,
        done_common(s, n0, n1, index0, index1, kids, nodes0.len() as int, b, v), step_ok(nodes0, nodes1, n0, n1, kids, lr),
    ensures pend_inv(pend_after(P0.remove(k), kids, kids.len() as int), nodes1, g_next(g, n0.num as int, b, kids, index1), index1, v),
{
    let i = n0.num as int;
    let nn = nodes0.len() as int;
    let h = g_next(g, i, b, kids, index1);
    let Q = P0.remove(k);
    let P1 = pend_after(Q, kids, kids.len() as int);
    lemma_pend_after(Q, kids, kids.len() as int);
    assert forall|a: int| 0 <= a < Q.len() implies apart(#[trigger] Q[a], n0) && pend_one(Q[a], nodes1, h, index1, v) by {
        let z = if a < k { a } else { a + 1 };
        assert(Q[a] == P0[z]);
        assert(apart(P0[z], P0[k]) || apart(P0[k], P0[z]));
        assert(pend_one(P0[z], nodes0, g, index0, v));
        assert(seg(index1, Q[a]) =~= seg(index0, Q[a]));
    }
    assert forall|j: int| 0 <= j < kids.len() && !kids[j].is_missing_leaf implies pend_one(#[trigger] kids[j], nodes1, h, index1, v) by {
        assert(kid_ok(n0, n1, index1, kids[j], nn + j, b, v));
        assert(node_of(nodes1[nn + j], kids[j], lr));
    }
    assert forall|a: int| 0 <= a < P1.len() implies pend_one(#[trigger] P1[a], nodes1, h, index1, v) by {
        if a < Q.len() { assert(P1[a] == Q[a]); }
        else { assert(from_kid(kids, kids.len() as int, P1[a])); let j = choose|j: int| 0 <= j < kids.len() && !kids[j].is_missing_leaf && #[trigger] kids[j] == P1[a]; assert(pend_one(kids[j], nodes1, h, index1, v)); }
    }
    assert forall|a: int, c: int| 0 <= a < c < P1.len() implies apart(#[trigger] P1[a], #[trigger] P1[c]) by {
        if c < Q.len() {
            let (x, y) = (if a < k { a } else { a + 1 }, if c < k { c } else { c + 1 });
            assert(P1[a] == P0[x] && P1[c] == P0[y]);
            assert(apart(P0[x], P0[y]));
        } else if a < Q.len() {
            assert(from_kid(kids, kids.len() as int, P1[c])); let j = choose|j: int| 0 <= j < kids.len() && !kids[j].is_missing_leaf && #[trigger] kids[j] == P1[c];
            assert(kid_ok(n0, n1, index1, kids[j], nn + j, b, v));
            assert(P1[a] == Q[a] && apart(Q[a], n0) && pend_one(Q[a], nodes1, h, index1, v));
            let z = if a < k { a } else { a + 1 };
            assert(Q[a] == P0[z]); assert(pend_one(P0[z], nodes0, g, index0, v));
        } else {
            assert(from_kids(kids, kids.len() as int, P1[a], P1[c]));
            let (x, y) = choose|x: int, y: int| 0 <= x < y < kids.len() && !kids[y].is_missing_leaf && !kids[x].is_missing_leaf && #[trigger] kids[x] == P1[a] && #[trigger] kids[y] == P1[c];
            assert(kid_ok(n0, n1, index1, kids[x], nn + x, b, v));
            assert(kid_ok(n0, n1, index1, kids[y], nn + y, b, v));
        }
    }
}
pub proof fn lemma_step_fifo(s: Spl, v: Env, lr: F32, nodes0: Seq<Node>, nodes1: Seq<Node>, P0: Seq<SplittableNode>, d: int, n0: SplittableNode, n1: SplittableNode, index0: Seq<usize>, index1: Seq<usize>, kids: Seq<SplittableNode>, b: u16)
    requires
        fifo_inv(P0, nodes0, d), 0 < P0.len(), P0[0] == n0,
        done_common(s, n0, n1, index0, index1, kids, nodes0.len() as int, b, v), step_ok(nodes0, nodes1, n0, n1, kids, lr),
    ensures fifo_inv(pend_after(P0.remove(0), kids, kids.len() as int), nodes1, n0.depth as int),
{
    let Q = P0.remove(0);
    let P1 = pend_after(Q, kids, kids.len() as int);
    let nn = nodes0.len() as int;
    let e = n0.depth as int;
    lemma_pend_after(Q, kids, kids.len() as int);
    assert forall|j: int| 0 <= j < kids.len() implies (#[trigger] kids[j]).depth == e + 1 && nodes1[nn + j].depth == e + 1 by { assert(kid_ok(n0, n1, index1, kids[j], nn + j, b, v)); assert(node_of(nodes1[nn + j], kids[j], lr)); }
    assert forall|a: int| 0 <= a < P1.len() implies e <= (#[trigger] P1[a]).depth <= e + 1 by {
        if a < Q.len() { assert(P1[a] == P0[a + 1]); assert(P0[0].depth <= P0[a + 1].depth); }
        else { assert(from_kid(kids, kids.len() as int, P1[a])); let j = choose|j: int| 0 <= j < kids.len() && !kids[j].is_missing_leaf && #[trigger] kids[j] == P1[a]; }
    }
    assert forall|a: int, c: int| 0 <= a < c < P1.len() implies (#[trigger] P1[a]).depth <= (#[trigger] P1[c]).depth by {
        if c < Q.len() { assert(P1[a] == P0[a + 1] && P1[c] == P0[c + 1]); }
        else { assert(from_kid(kids, kids.len() as int, P1[c])); let j = choose|j: int| 0 <= j < kids.len() && !kids[j].is_missing_leaf && #[trigger] kids[j] == P1[c]; }
    }
    assert(d <= P0[0].depth <= d + 1);
    assert forall|x: int| 0 <= x < nodes1.len() implies (#[trigger] nodes1[x]).depth <= e + 1 && (x >= nn ==> nodes1[x].depth == e + 1) && (x < nn ==> nodes1[x].depth == nodes0[x].depth) by {
        if x >= nn { assert(kids[x - nn].depth == e + 1 && nodes1[nn + (x - nn)].depth == e + 1); }
        else { assert(nodes0[x].depth <= d + 1); if x == n0.num { assert(parent_node(nodes0[x], n1, nodes1[x])); } else { assert(nodes1[x] == nodes0[x]); } }
    }
    assert forall|x: int, y: int| 0 <= x < y < nodes1.len() implies (#[trigger] nodes1[x]).depth <= (#[trigger] nodes1[y]).depth by {
        if y < nn { assert(nodes0[x].depth <= nodes0[y].depth); }
    }
}
pub open spec fn node_shape(n: Node, i: int, len: int) -> bool { n.num == i && (!n.is_leaf ==> i < n.left_child < len && i < n.right_child < len && i < n.missing_node < len) }
pub open spec fn avg_wf(nodes: Seq<Node>) -> bool { forall|i: int| 0 <= i < nodes.len() ==> node_shape(#[trigger] nodes[i], i, nodes.len() as int) }
pub open spec fn same_shape_node(a: Node, b: Node) -> bool {
    &&& a.num == b.num && a.hessian_sum == b.hessian_sum && a.depth == b.depth && a.is_leaf == b.is_leaf && a.split_value == b.split_value && a.split_feature == b.split_feature
    &&& a.split_gain == b.split_gain && a.missing_node == b.missing_node && a.left_child == b.left_child && a.right_child == b.right_child
}
pub open spec fn same_but_weights(a: Seq<Node>, b: Seq<Node>) -> bool { a.len() == b.len() && forall|i: int| 0 <= i < a.len() ==> same_shape_node(a[i], #[trigger] b[i]) }
pub proof fn lemma_same_tree(a: Seq<Node>, b: Seq<Node>, g: Gh, v: Env, s: Spl, md: int)
    requires tree_inv(a, g, v, s, md), same_but_weights(a, b),
    ensures tree_inv(b, g, v, s, md), leafs(a) == leafs(b), levels_inv(a) ==> levels_inv(b),
{
    assert forall|i: int| 0 <= i < b.len() implies #[trigger] node_fact(b, g, v, s, md, i) by {
        assert(node_fact(a, g, v, s, md, i));
        assert(same_shape_node(a[i], b[i]));
        if i > 0 { assert(same_shape_node(a[g.par[i]], b[g.par[i]])); }
        if !a[i].is_leaf {
            assert(same_shape_node(a[a[i].left_child as int], b[a[i].left_child as int]));
            assert(same_shape_node(a[a[i].right_child as int], b[a[i].right_child as int]));
            assert(same_shape_node(a[a[i].missing_node as int], b[a[i].missing_node as int]));
        }
    }
    assert forall|i: int| 0 <= i < a.len() implies (#[trigger] a[i]).is_leaf == b[i].is_leaf by { assert(same_shape_node(a[i], b[i])); }
    lemma_leafs_same(a, b);
    assert forall|i: int, j: int| levels_inv(a) && 0 <= i < j < b.len() implies (#[trigger] b[i]).depth <= (#[trigger] b[j]).depth by { assert(same_shape_node(a[i], b[i]) && same_shape_node(a[j], b[j])); assert(a[i].depth <= a[j].depth); }
}
pub proof fn lemma_avg_wf(a: Seq<Node>, g: Gh, v: Env, s: Spl, md: int)
    requires tree_inv(a, g, v, s, md),
    ensures avg_wf(a),
{ assert forall|i: int| 0 <= i < a.len() implies node_shape(#[trigger] a[i], i, a.len() as int) by { assert(node_fact(a, g, v, s, md, i)); } }
/*@struct tree.rs :: Tree */
/*@enum sampler.rs :: SampleMethod */
/*@enum gradientbooster.rs :: GrowPolicy */
/// an allocation holds at most isize::MAX bytes, and a node takes more than 8
#[verifier::external_body]
pub proof fn axiom_node_vec(v: &Vec<Node>) ensures v@.len() + 16 <= usize::MAX {}
/// an empty queue behind the pointer
#[verifier::external_body]
fn vx_new_fifo() -> (r: Box<VecDeque<SplittableNode>>) ensures r.pend() == Seq::<SplittableNode>::empty() { Box::<VecDeque<SplittableNode>>::default() }
#[verifier::external_body]
fn vx_new_heap() -> (r: Box<VxHeap<SplittableNode>>) ensures r.pend() == Seq::<SplittableNode>::empty() { unimplemented!() }
pub open spec fn ident(index: Seq<usize>, n: int) -> bool { index.len() == n && forall|k: int| 0 <= k < n ==> #[trigger] index[k] == k }
pub proof fn lemma_tot_ident(index: Seq<usize>, vals: Seq<F32>, n: int)
    requires forall|k: int| 0 <= k < n ==> #[trigger] index[k] == k, 0 <= n <= index.len(), n <= vals.len(),
    ensures tot(index.subrange(0, n), vals) == rsum(vals32(vals).subrange(0, n)),
    decreases n
{
    if n > 0 {
        lemma_tot_ident(index, vals, n - 1);
        let a = index.subrange(0, n); let b = vals32(vals).subrange(0, n);
        assert(a.drop_last() =~= index.subrange(0, n - 1));
        assert(b.drop_last() =~= vals32(vals).subrange(0, n - 1));
        assert(a.last() == n - 1);
    } else { assert(index.subrange(0, 0) =~= Seq::empty()); assert(vals32(vals).subrange(0, 0) =~= Seq::empty()); }
}
pub proof fn lemma_fsum_nonneg_tot(rows: Seq<usize>, v: Env)
    requires env_ok(v), idx_ok(rows, v.data.rows as int),
    ensures tot(rows, v.hess) >= 0real,
{
    let f = |i: usize| v.hess[i as int].v();
    assert forall|k: int| 0 <= k < rows.len() implies f(#[trigger] rows[k]) >= 0real by { assert(v.hess[rows[k] as int].v() >= 0real); }
    lemma_fsum_nonneg(rows, f);
}
pub proof fn lemma_leafs_range(a: Seq<Node>)
    ensures 0 <= leafs(a) <= a.len(),
    decreases a.len()
{ if a.len() > 0 { lemma_leafs_range(a.drop_last()); } }
pub proof fn lemma_leafs_pos(a: Seq<Node>, i: int)
    requires 0 <= i < a.len(), a[i].is_leaf,
    ensures leafs(a) >= 1,
    decreases a.len()
{ lemma_leafs_range(a.drop_last()); if i < a.len() - 1 { lemma_leafs_pos(a.drop_last(), i); } }
/// taking a pending node out
pub proof fn lemma_drop(P: Seq<SplittableNode>, k: int, nodes: Seq<Node>, g: Gh, index: Seq<usize>, v: Env)
    requires pend_inv(P, nodes, g, index, v), 0 <= k < P.len(),
    ensures pend_inv(P.remove(k), nodes, g, index, v),
{
    let Q = P.remove(k);
    assert forall|a: int| 0 <= a < Q.len() implies pend_one(#[trigger] Q[a], nodes, g, index, v) by { let z = if a < k { a } else { a + 1 }; assert(Q[a] == P[z]); }
    assert forall|a: int, b: int| 0 <= a < b < Q.len() implies apart(#[trigger] Q[a], #[trigger] Q[b]) by {
        let (x, y) = (if a < k { a } else { a + 1 }, if b < k { b } else { b + 1 });
        assert(Q[a] == P[x] && Q[b] == P[y]); assert(apart(P[x], P[y]));
    }
}
pub proof fn lemma_drop_fifo(P: Seq<SplittableNode>, nodes: Seq<Node>, d: int)
    requires fifo_inv(P, nodes, d), 0 < P.len(),
    ensures fifo_inv(P.remove(0), nodes, d), forall|j: int| 0 <= j < P.len() ==> P[0].depth <= (#[trigger] P[j]).depth,
{
    let Q = P.remove(0);
    assert forall|a: int| 0 <= a < Q.len() implies d <= (#[trigger] Q[a]).depth <= d + 1 by { assert(Q[a] == P[a + 1]); }
    assert forall|a: int, b: int| 0 <= a < b < Q.len() implies (#[trigger] Q[a]).depth <= (#[trigger] Q[b]).depth by { assert(Q[a] == P[a + 1] && Q[b] == P[b + 1]); }
}
pub open spec fn root_gh(root: SplittableNode, idx: Seq<usize>) -> Gh {
    Gh { par: seq![-1int], rw: seq![idx], sb: seq![0u16], lo: seq![root.lower_bound.e()], hi: seq![root.upper_bound.e()], uw: seq![root.weight_value] }
}
pub proof fn lemma_root(root: SplittableNode, nodes: Seq<Node>, idx: Seq<usize>, v: Env, s: Spl, md: int, lr: F32)
    requires
        env_ok(v), idx_ok(idx, v.data.rows as int), nodes.len() == 1, node_of(nodes[0], root, lr), n_ok(root), root.num == 0, root.depth == 0, root.is_leaf, md >= 0,
        root.start_idx == 0, root.stop_idx == idx.len(), stat_is(root, idx, v),
    ensures
        tree_inv(nodes, root_gh(root, idx), v, s, md), weights_inv(nodes, root_gh(root, idx), lr), leafs(nodes) == 1,
        pend_inv(seq![root], nodes, root_gh(root, idx), idx, v), fifo_inv(seq![root], nodes, 0),
{
    let g = root_gh(root, idx);
    assert(seg(idx, root) =~= idx);
    assert(node_fact(nodes, g, v, s, md, 0));
    assert(leafs(nodes.drop_last()) == 0);
    assert(nodes.last() == nodes[0]);
}
/// the grown tree: some assignment of rows, bounds and parents to its nodes explains it
pub open spec fn grown(nodes: Seq<Node>, g: Gh, index: Seq<usize>, v: Env, s: Spl, ml: int, md: int, level_wise: bool) -> bool {
    &&& tree_inv(nodes, g, v, s, md) && g.rw[0] == index
    &&& leafs(nodes) <= 1 || leafs(nodes) <= ml
    &&& level_wise ==> levels_inv(nodes)
    &&& stored(nodes, g, s)
}
impl Tree {
/*@fn tree.rs :: Tree :: fit
subst T=Spl
lit f64
attr #[verifier::exec_allows_no_decreases_clause] #[verifier::rlimit(100)]
spec:
    requires ({
        let v = Env { data: *data, cuts: *cuts, grad: grad@, hess: hess@, ci: col_index@ };
        &&& env_ok(v) && s_ok(*splitter) && splitter.learning_rate.fin() && idx_ok(index@, data.rows as int) && old(self).nodes@.len() == 0
        &&& *sample_method is None ==> ident(index@, data.rows as int)
    }),
    ensures
        exists|g: Gh| #[trigger] grown(final(self).nodes@, g, index@, Env { data: *data, cuts: *cuts, grad: grad@, hess: hess@, ci: col_index@ }, *splitter, max_leaves as int, max_depth as int, *grow_policy is DepthWise),
start:
    broadcast use ideal_arith;
    let ghost v = Env { data: *data, cuts: *cuts, grad: grad@, hess: hess@, ci: col_index@ };
    let ghost idx = index@;
loop 1 iter it:
    invariant
        env_ok(v), idx_ok(idx, data.rows as int), v == (Env { data: *data, cuts: *cuts, grad: grad@, hess: hess@, ci: col_index@ }), index@ == idx,
        it.seq().len() == idx.len(), forall|k: int| 0 <= k < idx.len() ==> *(#[trigger] it.seq()[k]) == idx[k],
        gs.e() == Ext::Fin(tot(idx.subrange(0, it.index@), grad@)), hs.e() == Ext::Fin(tot(idx.subrange(0, it.index@), hess@)),
loop 1 start:
    broadcast use ideal_arith;
    proof {
        let a = idx.subrange(0, it.index@ + 1);
        assert(a.drop_last() =~= idx.subrange(0, it.index@));
        assert(a.last() == *i);
        assert(idx[it.index@] < data.rows);
    }
before "let mut n_nodes":
    proof {
        assert(idx.subrange(0, idx.len() as int) =~= idx);
        if *sample_method is None {
            lemma_tot_ident(idx, grad@, idx.len() as int); lemma_tot_ident(idx, hess@, idx.len() as int);
            assert(vals32(grad@).subrange(0, idx.len() as int) =~= vals32(grad@)); assert(vals32(hess@).subrange(0, idx.len() as int) =~= vals32(hess@));
        }
        lemma_fsum_nonneg_tot(idx, v);
    }
replace "Box::<VecDeque<SplittableNode>>::default()": vx_new_fifo()
replace "Box::<BinaryHeap<SplittableNode>>::default()": vx_new_heap()
before "growable.add_node(root_node)":
    let ghost mut g = root_gh(root_node, idx);
    let ghost mut d: int = 0;
    let ghost lr = splitter.learning_rate;
    proof {
        lemma_root(root_node, self.nodes@, idx, v, *splitter, max_depth as int, lr);
        assert(growable.pend().push(root_node) =~= seq![root_node]);
    }
loop 2:
    invariant
        env_ok(v), s_ok(*splitter), v == (Env { data: *data, cuts: *cuts, grad: grad@, hess: hess@, ci: col_index@ }), lr == splitter.learning_rate, lr.fin(),
        tree_inv(self.nodes@, g, v, *splitter, max_depth as int), weights_inv(self.nodes@, g, lr), pend_inv(growable.pend(), self.nodes@, g, index@, v), g.rw[0] == idx,
        n_nodes == self.nodes@.len(), n_leaves == leafs(self.nodes@), n_leaves <= 1 || n_leaves <= max_leaves,
        growable.by_gain() == !(*grow_policy is DepthWise), !growable.by_gain() ==> fifo_inv(growable.pend(), self.nodes@, d),
loop 2 start:
    let ghost P0 = growable.pend();
    let ghost nodes0 = self.nodes@;
    let ghost mut nodesP = self.nodes@;
    let ghost index0 = index@;
    proof { axiom_node_vec(&self.nodes); lemma_leafs_range(nodes0); }
before "let n_idx":
    let ghost n0 = node;
    let ghost k = if growable.by_gain() { choose|k: int| popped_at(P0, growable.pend(), k, n0) } else { 0 };
    proof {
        assert(popped_at(P0, growable.pend(), k, n0));
        // loss guided: no pending node has a higher score; depth-wise: no pending node is on a higher level
        assert(growable.by_gain() ==> forall|j: int| 0 <= j < P0.len() ==> !ext_lt(n0.gain_value.e(), (#[trigger] P0[j]).gain_value.e())) by {
            if growable.by_gain() {
                assert forall|j: int| 0 <= j < P0.len() implies !ext_lt(n0.gain_value.e(), (#[trigger] P0[j]).gain_value.e()) by {
                    assert(!SplittableNode::key_lt(n0, P0[j])); assert(pend_one(P0[j], nodes0, g, index0, v)); assert(pend_one(P0[k], nodes0, g, index0, v));
                }
            }
        }
        if !growable.by_gain() { lemma_drop_fifo(P0, nodes0, d); }
        assert(!growable.by_gain() ==> forall|j: int| 0 <= j < P0.len() ==> n0.depth <= (#[trigger] P0[j]).depth);
        lemma_drop(P0, k, nodes0, g, index0, v);
        assert(pend_one(P0[k], nodes0, g, index0, v));
        assert(node_fact(nodes0, g, v, *splitter, max_depth as int, n0.num as int));
        lemma_leafs_pos(nodes0, n0.num as int);
    }
before "let n_new_nodes":
    let ghost kids = new_nodes@;
    let ghost n1 = node;
    let ghost index1 = index@;
before "for n in new_nodes":
    proof { nodesP = self.nodes@; }
    let ghost bg = growable.by_gain();
loop 3 iter it:
    invariant
        it.seq() == kids, self.nodes@.len() == nodesP.len() + it.index@, lr == splitter.learning_rate,
        forall|j: int| 0 <= j < nodesP.len() ==> self.nodes@[j] == #[trigger] nodesP[j],
        forall|j: int| 0 <= j < it.index@ ==> node_of(#[trigger] self.nodes@[nodesP.len() + j], kids[j], lr),
        growable.pend() == pend_after(P0.remove(k), kids, it.index@), growable.by_gain() == bg,
loop 2 end:
    proof {
        if kids.len() > 0 {
            let b = choose|b: u16| #[trigger] split_done(*splitter, n0, n1, index0, index1, kids, nodes0.len() as int, b, v);
            lemma_done(*splitter, n0, n1, index0, index1, kids, nodes0.len() as int, b, v);
            assert(parent_node(nodes0[n0.num as int], n1, nodesP[n0.num as int]));
            lemma_step_ok(nodes0, nodesP, self.nodes@, n0, n1, kids, lr);
            lemma_step_tree(*splitter, v, max_depth as int, lr, nodes0, self.nodes@, g, n0, n1, index0, index1, kids, b);
            lemma_step_pend(*splitter, v, lr, max_depth as int, nodes0, self.nodes@, g, P0, k, n0, n1, index0, index1, kids, b);
            if !growable.by_gain() { lemma_step_fifo(*splitter, v, lr, nodes0, self.nodes@, P0, d, n0, n1, index0, index1, kids, b); d = n0.depth as int; }
            g = g_next(g, n0.num as int, b, kids, index1);
        }
    }
before "splitter.clean_up_splits":
    let ghost nodesF = self.nodes@;
    proof { lemma_clean_pre(nodesF, g, v, *splitter, max_depth as int); }
tail:
    proof {
        assert(same_but_weights(nodesF, self.nodes@));
        lemma_same_tree(nodesF, self.nodes@, g, v, *splitter, max_depth as int);
        lemma_stored(nodesF, self.nodes@, g, v, *splitter, max_depth as int);
        assert(grown(self.nodes@, g, idx, v, *splitter, max_leaves as int, max_depth as int, *grow_policy is DepthWise));
    }
*/
}
