// ================================================================ what a grown tree guarantees
// ---- P02: well formed
pub open spec fn split_wf(nodes: Seq<Node>, i: int, v: Env) -> bool {
    let n = nodes[i];
    let (l, r, m) = (n.left_child as int, n.right_child as int, n.missing_node as int);
    &&& i < l < nodes.len() && i < r < nodes.len() && i < m < nodes.len() && l != r
    &&& nodes[l].depth == n.depth + 1 && nodes[r].depth == n.depth + 1 && nodes[m].depth == n.depth + 1
    &&& exists|b: u16| #[trigger] is_cut(n.split_feature, b, n.split_value, v)
}
pub open spec fn parent_is(nodes: Seq<Node>, p: int, c: int) -> bool { 0 <= p < c && !nodes[p].is_leaf && is_kid(nodes[p], c) }
pub open spec fn has_parent(nodes: Seq<Node>, c: int) -> bool { exists|p: int| #[trigger] parent_is(nodes, p, c) }
pub proof fn thm_well_formed(nodes: Seq<Node>, g: Gh, index: Seq<usize>, v: Env, s: Spl, ml: int, md: int, lw: bool)
    requires grown(nodes, g, index, v, s, ml, md, lw),
    ensures
        nodes.len() > 0, nodes[0].depth == 0,
        forall|i: int| 0 <= i < nodes.len() ==> (#[trigger] nodes[i]).num == i,
        forall|i: int| 0 <= i < nodes.len() && !nodes[i].is_leaf ==> #[trigger] split_wf(nodes, i, v),
        // exactly one parent, the root none
        forall|c: int| 0 < c < nodes.len() ==> #[trigger] has_parent(nodes, c),
        forall|p: int, q: int, c: int| 0 <= c < nodes.len() && #[trigger] parent_is(nodes, p, c) && #[trigger] parent_is(nodes, q, c) ==> p == q,
        forall|p: int| !(#[trigger] parent_is(nodes, p, 0)),
{
    assert(node_fact(nodes, g, v, s, md, 0));
    assert forall|i: int| 0 <= i < nodes.len() implies (#[trigger] nodes[i]).num == i by { assert(node_fact(nodes, g, v, s, md, i)); }
    assert forall|i: int| 0 <= i < nodes.len() && !nodes[i].is_leaf implies #[trigger] split_wf(nodes, i, v) by { assert(node_fact(nodes, g, v, s, md, i)); }
    assert forall|c: int| 0 < c < nodes.len() implies #[trigger] has_parent(nodes, c) by { assert(node_fact(nodes, g, v, s, md, c)); assert(parent_is(nodes, g.par[c], c)); }
    assert forall|p: int, q: int, c: int| 0 <= c < nodes.len() && #[trigger] parent_is(nodes, p, c) && #[trigger] parent_is(nodes, q, c) implies p == q by {
        assert(node_fact(nodes, g, v, s, md, p)); assert(node_fact(nodes, g, v, s, md, q));
    }
}
// ---- P03: limits and policy
pub proof fn thm_limits(nodes: Seq<Node>, g: Gh, index: Seq<usize>, v: Env, s: Spl, ml: int, md: int, lw: bool)
    requires grown(nodes, g, index, v, s, ml, md, lw),
    ensures
        forall|i: int| 0 <= i < nodes.len() ==> (#[trigger] nodes[i]).depth <= md,
        leafs(nodes) <= 1 || leafs(nodes) <= ml,
        lw ==> forall|i: int, j: int| 0 <= i < j < nodes.len() ==> (#[trigger] nodes[i]).depth <= (#[trigger] nodes[j]).depth,
{ assert forall|i: int| 0 <= i < nodes.len() implies (#[trigger] nodes[i]).depth <= md by { assert(node_fact(nodes, g, v, s, md, i)); } }
// ---- P06: prediction and training agree
/// the child prediction sends a raw value to (as in Node::get_child_idx, P01)
pub open spec fn sent(n: Node, x: F64, missing: F64) -> int {
    (if is_miss(x, missing) { n.missing_node } else if ext_lt(x.e(), n.split_value.e()) { n.left_child } else { n.right_child }) as int
}
/// the bins are those of the raw values (P04)
pub open spec fn raw_bin(raw: spec_fn(int, int) -> F64, missing: F64, v: Env, c: int, r: int) -> bool {
    let b = v.data.col(c)[r];
    &&& cuts_ok(v.cuts.col(c))
    &&& (b == 0) == is_miss(raw(r, c), missing)
    &&& !is_miss(raw(r, c), missing) ==> is_bin(v.cuts.col(c), raw(r, c), b as int) && !raw(r, c).nan()
}
pub open spec fn bins_are(raw: spec_fn(int, int) -> F64, missing: F64, v: Env) -> bool {
    forall|c: int, r: int| 0 <= c < v.data.cols && 0 <= r < v.data.rows ==> #[trigger] raw_bin(raw, missing, v, c, r)
}
/// prediction of training row r passes node i
pub open spec fn passes(nodes: Seq<Node>, par: Seq<int>, raw: spec_fn(int, int) -> F64, missing: F64, r: int, i: int) -> bool decreases i {
    i == 0 || (0 <= par[i] < i && passes(nodes, par, raw, missing, r, par[i]) && sent(nodes[par[i]], raw(r, nodes[par[i]].split_feature as int), missing) == i)
}
pub proof fn thm_same_route(nodes: Seq<Node>, g: Gh, index: Seq<usize>, v: Env, s: Spl, ml: int, md: int, lw: bool, raw: spec_fn(int, int) -> F64, missing: F64, r: usize, i: int)
    requires env_ok(v), grown(nodes, g, index, v, s, ml, md, lw), bins_are(raw, missing, v), r < v.data.rows, 0 <= i < nodes.len(),
    ensures
        // a row is among the rows of a node exactly when its prediction passes the node
        count(g.rw[i], r) == if passes(nodes, g.par, raw, missing, r as int, i) { count(index, r) } else { 0 },
        // and the cover is the sum of the hessians of those rows
        nodes[i].hessian_sum.e() == Ext::Fin(tot(g.rw[i], v.hess)),
    decreases i
{
    assert(node_fact(nodes, g, v, s, md, i));
    if i > 0 {
        let p = g.par[i];
        thm_same_route(nodes, g, index, v, s, ml, md, lw, raw, missing, r, p);
        assert(node_fact(nodes, g, v, s, md, p));
        assert(split_fact(nodes, g, v, s, p));
        let n = nodes[p];
        let f = n.split_feature as int;
        assert(kid_fact(nodes, g, v, p, i));
        let k = choose|k: int| 0 <= k < v.ci.len() && #[trigger] v.ci[k] == n.split_feature;
        assert(f < v.data.cols);
        assert(raw_bin(raw, missing, v, f, r as int));
        let b = v.data.col(f)[r as int];
        if b != 0 { bin_compare(v.cuts.col(f), raw(r as int, f), b as int, g.sb[p] - 1); }
        assert(sent(n, raw(r as int, f), missing) == nside(n, g.sb[p], b));
        assert(rows_of(g.rw[i], g.rw[p], n, g.sb[p], v.data.col(f), v.data.rows as int, i));
        assert(count(g.rw[i], r) == if nside(n, g.sb[p], v.data.col(f)[r as int]) == i { count(g.rw[p], r) } else { 0 });
    }
}
/// the leaf prediction ends in, for any row of values
pub open spec fn ends(nodes: Seq<Node>, row: spec_fn(int) -> F64, missing: F64, i: int) -> int decreases nodes.len() - i {
    if 0 <= i < nodes.len() && !nodes[i].is_leaf {
        let c = sent(nodes[i], row(nodes[i].split_feature as int), missing);
        if i < c < nodes.len() { ends(nodes, row, missing, c) } else { i }
    } else { i }
}
pub open spec fn row_at(raw: spec_fn(int, int) -> F64, r: int) -> spec_fn(int) -> F64 { |f: int| raw(r, f) }
pub proof fn thm_leaf_of_row(nodes: Seq<Node>, g: Gh, index: Seq<usize>, v: Env, s: Spl, ml: int, md: int, lw: bool, raw: spec_fn(int, int) -> F64, missing: F64, r: int, i: int)
    requires grown(nodes, g, index, v, s, ml, md, lw), 0 <= i < nodes.len(), passes(nodes, g.par, raw, missing, r, i),
    ensures ({ let e = ends(nodes, row_at(raw, r), missing, i); 0 <= e < nodes.len() && nodes[e].is_leaf && passes(nodes, g.par, raw, missing, r, e) }),
    decreases nodes.len() - i
{
    assert(node_fact(nodes, g, v, s, md, i));
    if !nodes[i].is_leaf {
        let c = sent(nodes[i], raw(r, nodes[i].split_feature as int), missing);
        assert(split_fact(nodes, g, v, s, i));
        assert(kid_fact(nodes, g, v, i, c));
        assert(passes(nodes, g.par, raw, missing, r, c));
        thm_leaf_of_row(nodes, g, index, v, s, ml, md, lw, raw, missing, r, c);
    }
}
/// no other leaf: a leaf whose rows include r is the one prediction ends in
pub proof fn thm_only_leaf(nodes: Seq<Node>, g: Gh, index: Seq<usize>, v: Env, s: Spl, ml: int, md: int, lw: bool, raw: spec_fn(int, int) -> F64, missing: F64, r: int, i: int)
    requires grown(nodes, g, index, v, s, ml, md, lw), 0 <= i < nodes.len(), passes(nodes, g.par, raw, missing, r, i),
    ensures ends(nodes, row_at(raw, r), missing, 0) == ends(nodes, row_at(raw, r), missing, i), nodes[i].is_leaf ==> ends(nodes, row_at(raw, r), missing, 0) == i,
    decreases i
{
    assert(nodes[i].is_leaf ==> ends(nodes, row_at(raw, r), missing, i) == i);
    if i > 0 {
        let p = g.par[i];
        assert(node_fact(nodes, g, v, s, md, i));
        assert(node_fact(nodes, g, v, s, md, p));
        assert(split_fact(nodes, g, v, s, p));
        assert(kid_fact(nodes, g, v, p, i));
        thm_only_leaf(nodes, g, index, v, s, ml, md, lw, raw, missing, r, p);
        let row = row_at(raw, r);
        assert(row(nodes[p].split_feature as int) == raw(r, nodes[p].split_feature as int));
    }
}
// ---- P07: monotone constraints
/// x lies between the bounds, times the learning rate
pub open spec fn wb(lo: Ext, x: real, hi: Ext, lr: real) -> bool {
    (lo is Fin ==> lo->Fin_0 * lr <= x) && (hi is Fin ==> x <= hi->Fin_0 * lr)
}
pub open spec fn leaf_bounds(nodes: Seq<Node>, g: Gh, lr: real, i: int, j: int) -> bool { nodes[j].weight_value.fin() && wb(g.lo[i], nodes[j].weight_value.v(), g.hi[i], lr) }
pub proof fn lemma_wb_wider(lo: Ext, hi: Ext, lo2: Ext, hi2: Ext, x: real, lr: real)
    requires wb(lo, x, hi, lr), ext_le(lo2, lo), ext_le(hi, hi2), bounds_ok(lo, hi), bounds_ok(lo2, hi2), lr >= 0real,
    ensures wb(lo2, x, hi2, lr),
{
    if lo2 is Fin { let (a, b) = (lo->Fin_0, lo2->Fin_0); assert(lo is Fin); assert(b * lr <= a * lr) by (nonlinear_arith) requires b <= a, lr >= 0real; }
    if hi2 is Fin { let (a, b) = (hi->Fin_0, hi2->Fin_0); assert(hi is Fin); assert(a * lr <= b * lr) by (nonlinear_arith) requires a <= b, lr >= 0real; }
}
/// wherever prediction goes from a node, the weight stays inside the bounds of the node
pub proof fn lemma_ends_bounds(nodes: Seq<Node>, g: Gh, v: Env, s: Spl, md: int, row: spec_fn(int) -> F64, missing: F64, i: int)
    requires tree_inv(nodes, g, v, s, md), stored(nodes, g, s), s_ok(s), env_ok(v), s.learning_rate.fin(), s.learning_rate.v() >= 0real, 0 <= i < nodes.len(), inner(nodes, g, i),
    ensures ({ let e = ends(nodes, row, missing, i); 0 <= e < nodes.len() && leaf_bounds(nodes, g, s.learning_rate.v(), i, e) }),
    decreases nodes.len() - i
{
    let lr = s.learning_rate.v();
    assert(node_fact(nodes, g, v, s, md, i));
    if nodes[i].is_leaf { lemma_stored_bounds(nodes, g, v, s, md, i); }
    else {
        let c = sent(nodes[i], row(nodes[i].split_feature as int), missing);
        assert(split_fact(nodes, g, v, s, i));
        assert(kid_fact(nodes, g, v, i, c));
        assert(node_fact(nodes, g, v, s, md, c));
        let e = ends(nodes, row, missing, c);
        if inner(nodes, g, c) {
            lemma_ends_bounds(nodes, g, v, s, md, row, missing, c);
            lemma_wb_wider(g.lo[c], g.hi[c], g.lo[i], g.hi[i], nodes[e].weight_value.v(), lr);
        } else { lemma_stored_bounds_missing(nodes, g, v, s, md, i); }
    }
}
pub open spec fn at_most(d: int, a: real, b: real) -> bool { (d == 1 ==> a <= b) && (d == -1 ==> b <= a) }
/// two rows that differ only in feature f, both with a value for it
pub open spec fn raised(x: spec_fn(int) -> F64, y: spec_fn(int) -> F64, missing: F64, f: int) -> bool {
    &&& forall|c: int| c != f ==> #[trigger] x(c) == y(c)
    &&& !is_miss(x(f), missing) && !is_miss(y(f), missing) && ext_le(x(f).e(), y(f).e())
}
pub proof fn thm_monotone(nodes: Seq<Node>, g: Gh, v: Env, s: Spl, md: int, x: spec_fn(int) -> F64, y: spec_fn(int) -> F64, missing: F64, f: usize, i: int)
    requires tree_inv(nodes, g, v, s, md), stored(nodes, g, s), s_ok(s), env_ok(v), s.learning_rate.fin(), s.learning_rate.v() >= 0real, 0 <= i < nodes.len(), inner(nodes, g, i), raised(x, y, missing, f as int),
    ensures ({
        let (a, b) = (ends(nodes, x, missing, i), ends(nodes, y, missing, i));
        at_most(s_dir(s, f), nodes[a].weight_value.v(), nodes[b].weight_value.v()) }),
    decreases nodes.len() - i
{
    let lr = s.learning_rate.v();
    let n = nodes[i];
    assert(node_fact(nodes, g, v, s, md, i));
    if !n.is_leaf {
        assert(split_fact(nodes, g, v, s, i));
        let h = n.split_feature as int;
        let (c, d) = (sent(n, x(h), missing), sent(n, y(h), missing));
        assert(kid_fact(nodes, g, v, i, c) && kid_fact(nodes, g, v, i, d));
        let (l, r) = (n.left_child as int, n.right_child as int);
        if c == d {
            assert(node_fact(nodes, g, v, s, md, c));
            if inner(nodes, g, c) { thm_monotone(nodes, g, v, s, md, x, y, missing, f, c); } else { lemma_not_inner(nodes, g, v, s, md, i, c); }
        } else {
            assert(h == f) by { if h != f { assert(x(h) == y(h)); } }
            assert(c == l && d == r);
            assert(node_fact(nodes, g, v, s, md, l) && node_fact(nodes, g, v, s, md, r));
            lemma_inner(nodes, g, v, s, md, i);
            lemma_ends_bounds(nodes, g, v, s, md, x, missing, l);
            lemma_ends_bounds(nodes, g, v, s, md, y, missing, r);
            if s_dir(s, f) == 1 { let (a, b) = (g.hi[l]->Fin_0, g.lo[r]->Fin_0); assert(a * lr <= b * lr) by (nonlinear_arith) requires a <= b, lr >= 0real; }
            if s_dir(s, f) == -1 { let (a, b) = (g.hi[r]->Fin_0, g.lo[l]->Fin_0); assert(a * lr <= b * lr) by (nonlinear_arith) requires a <= b, lr >= 0real; }
        }
    }
}
/// the whole tree, and with it every sum of trees
pub proof fn thm_monotone_tree(nodes: Seq<Node>, g: Gh, index: Seq<usize>, v: Env, s: Spl, ml: int, md: int, lw: bool, x: spec_fn(int) -> F64, y: spec_fn(int) -> F64, missing: F64, f: usize)
    requires grown(nodes, g, index, v, s, ml, md, lw), s_ok(s), env_ok(v), s.learning_rate.fin(), s.learning_rate.v() >= 0real, raised(x, y, missing, f as int),
    ensures at_most(s_dir(s, f), nodes[ends(nodes, x, missing, 0)].weight_value.v(), nodes[ends(nodes, y, missing, 0)].weight_value.v()),
{
    assert(inner(nodes, g, 0));
    thm_monotone(nodes, g, v, s, md, x, y, missing, f, 0);
}
pub open spec fn model(trees: Seq<Seq<Node>>, x: spec_fn(int) -> F64, missing: F64, base: real) -> real decreases trees.len() {
    if trees.len() == 0 { base } else { model(trees.drop_last(), x, missing, base) + trees.last()[ends(trees.last(), x, missing, 0)].weight_value.v() }
}
pub proof fn thm_monotone_model(trees: Seq<Seq<Node>>, x: spec_fn(int) -> F64, y: spec_fn(int) -> F64, missing: F64, base: real, d: int)
    requires forall|k: int| 0 <= k < trees.len() ==> at_most(d, (#[trigger] trees[k])[ends(trees[k], x, missing, 0)].weight_value.v(), trees[k][ends(trees[k], y, missing, 0)].weight_value.v()),
    ensures at_most(d, model(trees, x, missing, base), model(trees, y, missing, base)),
    decreases trees.len()
{
    if trees.len() > 0 {
        let t = trees.drop_last();
        assert forall|k: int| 0 <= k < t.len() implies at_most(d, (#[trigger] t[k])[ends(t[k], x, missing, 0)].weight_value.v(), t[k][ends(t[k], y, missing, 0)].weight_value.v()) by { assert(t[k] == trees[k]); }
        thm_monotone_model(t, x, y, missing, base, d);
        let k = trees.len() - 1;
        assert(trees[k] == trees.last());
    }
}
