/// not a leaf that holds missing values (averaging moves its weight inside the bounds of its parent only)
pub open spec fn inner(nodes: Seq<Node>, g: Gh, i: int) -> bool { i == 0 || !nodes[i].is_leaf || nodes[g.par[i]].missing_node != i }
pub proof fn lemma_inner(nodes: Seq<Node>, g: Gh, v: Env, s: Spl, md: int, i: int) requires tree_inv(nodes, g, v, s, md), 0 <= i < nodes.len(), !nodes[i].is_leaf ensures inner(nodes, g, nodes[i].left_child as int), inner(nodes, g, nodes[i].right_child as int)
{ assert(node_fact(nodes, g, v, s, md, i)); assert(split_fact(nodes, g, v, s, i)); }
pub proof fn lemma_not_inner(nodes: Seq<Node>, g: Gh, v: Env, s: Spl, md: int, i: int, c: int) requires !inner(nodes, g, c) ensures nodes[c].is_leaf {}
pub proof fn lemma_scale(lo: Ext, x: real, hi: Ext, lr: real)
    requires within(lo, x, hi), lr >= 0real,
    ensures wb(lo, x * lr, hi, lr),
{
    if lo is Fin { let a = lo->Fin_0; assert(a * lr <= x * lr) by (nonlinear_arith) requires a <= x, lr >= 0real; }
    if hi is Fin { let a = hi->Fin_0; assert(x * lr <= a * lr) by (nonlinear_arith) requires x <= a, lr >= 0real; }
}
pub proof fn lemma_mean3(a: real, ha: real, b: real, hb: real, c: real, hc: real, k: real)
    requires ha > 0real, hb > 0real, hc >= 0real,
    ensures a >= k && b >= k && (hc > 0real ==> c >= k) ==> mean3(a, ha, b, hb, c, hc) >= k, a <= k && b <= k && (hc > 0real ==> c <= k) ==> mean3(a, ha, b, hb, c, hc) <= k,
{
    let d = hb + ha + hc;
    let n = a * ha + b * hb + c * hc;
    assert(d > 0real);
    assert(k * d == k * ha + k * hb + k * hc) by (nonlinear_arith) requires d == hb + ha + hc;
    if a >= k && b >= k && (hc > 0real ==> c >= k) {
        assert(a * ha >= k * ha) by (nonlinear_arith) requires a >= k, ha > 0real;
        assert(b * hb >= k * hb) by (nonlinear_arith) requires b >= k, hb > 0real;
        assert(c * hc >= k * hc) by (nonlinear_arith) requires hc >= 0real, hc > 0real ==> c >= k;
        assert(n / d >= k) by (nonlinear_arith) requires n >= k * d, d > 0real;
    }
    if a <= k && b <= k && (hc > 0real ==> c <= k) {
        assert(a * ha <= k * ha) by (nonlinear_arith) requires a <= k, ha > 0real;
        assert(b * hb <= k * hb) by (nonlinear_arith) requires b <= k, hb > 0real;
        assert(c * hc <= k * hc) by (nonlinear_arith) requires hc >= 0real, hc > 0real ==> c <= k;
        assert(n / d <= k) by (nonlinear_arith) requires n <= k * d, d > 0real;
    }
}
/// an average stays inside the bounds of its node
pub proof fn lemma_avgm_bounds(a: Seq<Node>, g: Gh, v: Env, s: Spl, md: int, i: int)
    requires tree_inv(a, g, v, s, md), weights_inv(a, g, s.learning_rate), tree_par(a, g.par), s.learning_rate.fin(), s.learning_rate.v() >= 0real, 0 <= i < a.len(),
    ensures wb(g.lo[i], avgm(a, i), g.hi[i], s.learning_rate.v()),
    decreases a.len() - i
{
    broadcast use ideal_arith;
    let lr = s.learning_rate.v();
    assert(node_fact(a, g, v, s, md, i));
    assert(par_at(a, g.par, i));
    if a[i].is_leaf { assert(a[i].weight_value == g.uw[i].mul_(s.learning_rate)); lemma_scale(g.lo[i], g.uw[i].v(), g.hi[i], lr); }
    else {
        assert(split_fact(a, g, v, s, i));
        let (l, r, m) = (a[i].left_child as int, a[i].right_child as int, a[i].missing_node as int);
        assert(kid_fact(a, g, v, i, l) && kid_fact(a, g, v, i, r) && kid_fact(a, g, v, i, m));
        assert(node_fact(a, g, v, s, md, l) && node_fact(a, g, v, s, md, r) && node_fact(a, g, v, s, md, m));
        lemma_avgm_bounds(a, g, v, s, md, l); lemma_wb_wider(g.lo[l], g.hi[l], g.lo[i], g.hi[i], avgm(a, l), lr);
        lemma_avgm_bounds(a, g, v, s, md, r); lemma_wb_wider(g.lo[r], g.hi[r], g.lo[i], g.hi[i], avgm(a, r), lr);
        lemma_avgm_bounds(a, g, v, s, md, m); lemma_wb_wider(g.lo[m], g.hi[m], g.lo[i], g.hi[i], avgm(a, m), lr);
        lemma_avgm_step(a, g.par, i);
        let mh = if a[m].is_leaf { 0real } else { a[m].hessian_sum.v() };
        let mw = if a[m].is_leaf { 0real } else { avgm(a, m) };
        if g.lo[i] is Fin { lemma_mean3(avgm(a, r), a[r].hessian_sum.v(), avgm(a, l), a[l].hessian_sum.v(), mw, mh, g.lo[i]->Fin_0 * lr); }
        if g.hi[i] is Fin { lemma_mean3(avgm(a, r), a[r].hessian_sum.v(), avgm(a, l), a[l].hessian_sum.v(), mw, mh, g.hi[i]->Fin_0 * lr); }
    }
}
pub proof fn lemma_stored_bounds(nodes: Seq<Node>, g: Gh, v: Env, s: Spl, md: int, i: int)
    requires tree_inv(nodes, g, v, s, md), stored(nodes, g, s), s_ok(s), env_ok(v), s.learning_rate.fin(), s.learning_rate.v() >= 0real, 0 <= i < nodes.len(), nodes[i].is_leaf, inner(nodes, g, i),
    ensures leaf_bounds(nodes, g, s.learning_rate.v(), i, i),
{
    broadcast use ideal_arith;
    assert(node_fact(nodes, g, v, s, md, i));
    lemma_scale(g.lo[i], g.uw[i].v(), g.hi[i], s.learning_rate.v());
    if !keeps_weights(s) {
        let a = choose|a: Seq<Node>| #[trigger] averaged(a, nodes, g, s);
        assert(at_tgt(a, nodes, g.par, i));
        assert(same_shape_node(a[i], nodes[i]));
        if i > 0 { assert(same_shape_node(a[g.par[i]], nodes[g.par[i]])); }
        assert(a[i].weight_value == g.uw[i].mul_(s.learning_rate));
    }
}
pub proof fn lemma_stored_bounds_missing(nodes: Seq<Node>, g: Gh, v: Env, s: Spl, md: int, i: int)
    requires tree_inv(nodes, g, v, s, md), stored(nodes, g, s), s_ok(s), env_ok(v), s.learning_rate.fin(), s.learning_rate.v() >= 0real, 0 <= i < nodes.len(), !nodes[i].is_leaf, nodes[nodes[i].missing_node as int].is_leaf,
    ensures leaf_bounds(nodes, g, s.learning_rate.v(), i, nodes[i].missing_node as int),
{
    broadcast use ideal_arith;
    let m = nodes[i].missing_node as int;
    let lr = s.learning_rate.v();
    assert(node_fact(nodes, g, v, s, md, i));
    assert(split_fact(nodes, g, v, s, i));
    assert(kid_fact(nodes, g, v, i, m));
    assert(node_fact(nodes, g, v, s, md, m));
    lemma_scale(g.lo[m], g.uw[m].v(), g.hi[m], lr);
    lemma_wb_wider(g.lo[m], g.hi[m], g.lo[i], g.hi[i], g.uw[m].v() * lr, lr);
    if !keeps_weights(s) {
        let a = choose|a: Seq<Node>| #[trigger] averaged(a, nodes, g, s);
        assert(at_tgt(a, nodes, g.par, m));
        assert(same_shape_node(a[i], nodes[i]) && same_shape_node(a[m], nodes[m]));
        lemma_back(a, nodes, g, v, s, md);
        lemma_tree_par(a, g, v, s, md);
        lemma_avgm_bounds(a, g, v, s, md, i);
    }
}
/// nothing but weights differs, in this direction too
pub proof fn lemma_back(a: Seq<Node>, b: Seq<Node>, g: Gh, v: Env, s: Spl, md: int)
    requires same_but_weights(a, b), tree_inv(b, g, v, s, md),
    ensures tree_inv(a, g, v, s, md),
{
    assert forall|i: int| 0 <= i < b.len() implies same_shape_node(b[i], #[trigger] a[i]) by { assert(same_shape_node(a[i], b[i])); }
    lemma_same_tree(b, a, g, v, s, md);
}
