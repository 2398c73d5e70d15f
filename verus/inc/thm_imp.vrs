/// every node has its own bounds
pub open spec fn inner(nodes: Seq<Node>, g: Gh, i: int) -> bool { true }
pub proof fn lemma_inner(nodes: Seq<Node>, g: Gh, v: Env, s: Spl, md: int, i: int) requires tree_inv(nodes, g, v, s, md), 0 <= i < nodes.len(), !nodes[i].is_leaf ensures inner(nodes, g, nodes[i].left_child as int), inner(nodes, g, nodes[i].right_child as int) {}
pub proof fn lemma_not_inner(nodes: Seq<Node>, g: Gh, v: Env, s: Spl, md: int, i: int, c: int) requires !inner(nodes, g, c) ensures nodes[c].is_leaf {}
pub proof fn lemma_stored_bounds(nodes: Seq<Node>, g: Gh, v: Env, s: Spl, md: int, i: int)
    requires tree_inv(nodes, g, v, s, md), stored(nodes, g, s), s.learning_rate.fin(), s.learning_rate.v() >= 0real, 0 <= i < nodes.len(), nodes[i].is_leaf,
    ensures leaf_bounds(nodes, g, s.learning_rate.v(), i, i),
{ broadcast use ideal_arith; assert(node_fact(nodes, g, v, s, md, i)); lemma_scale(g.lo[i], g.uw[i].v(), g.hi[i], s.learning_rate.v()); }
pub proof fn lemma_stored_bounds_missing(nodes: Seq<Node>, g: Gh, v: Env, s: Spl, md: int, i: int)
    requires false, ensures leaf_bounds(nodes, g, s.learning_rate.v(), i, nodes[i].missing_node as int),
{}
pub proof fn lemma_scale(lo: Ext, x: real, hi: Ext, lr: real)
    requires within(lo, x, hi), lr >= 0real,
    ensures wb(lo, x * lr, hi, lr),
{
    if lo is Fin { let a = lo->Fin_0; assert(a * lr <= x * lr) by (nonlinear_arith) requires a <= x, lr >= 0real; }
    if hi is Fin { let a = hi->Fin_0; assert(x * lr <= a * lr) by (nonlinear_arith) requires x <= a, lr >= 0real; }
}
