/*@prelude*/
/*@include ../inc/ext.vrs*/
/*@include ../inc/rsum.vrs*/
/*@include ../inc/matrix.vrs*/
/*@include ../inc/rowmajor.vrs*/
/*@include ../inc/tree.vrs*/
/*@include ../inc/walk.vrs*/
/*@include ../inc/avg.vrs*/
/*@include ../inc/booster_types.vrs*/
/*@include ../inc/used.vrs*/
impl Tree {
    /// splits on the feature follow the value, every other split averages its children by cover
    pub open spec fn pd(&self, i: int, feature: int, v: F64, missing: F64) -> real
        decreases self.nodes@.len() - i
    {
        if self.wf() && 0 <= i < self.nodes@.len() && !self.nodes@[i].is_leaf {
            let n = self.nodes@[i];
            let (l, r, m) = (n.left_child as int, n.right_child as int, n.missing_node as int);
            let c = child_of(n, v, missing) as int;
            if i < l < self.nodes@.len() && i < r < self.nodes@.len() && i < m < self.nodes@.len() {
                if n.split_feature == feature { self.pd(c, feature, v, missing) } else {
                    let tot = self.total(i);
                    rmul(rdiv(self.h(l), tot), self.pd(l, feature, v, missing)) + rmul(rdiv(self.h(r), tot), self.pd(r, feature, v, missing))
                        + if ternary(n) { rmul(rdiv(self.h(m), tot), self.pd(m, feature, v, missing)) } else { 0real }
                }
            } else { 0real }
        } else { self.w(i) }
    }
    pub open spec fn total(&self, i: int) -> real {
        let n = self.nodes@[i];
        self.h(n.left_child as int) + self.h(n.right_child as int) + if ternary(n) { self.h(n.missing_node as int) } else { 0real }
    }
    pub open spec fn total_ok(&self) -> bool { forall|i: int| 0 <= i < self.nodes@.len() && !self.nodes@[i].is_leaf ==> #[trigger] self.total(i) != 0real }
}
pub proof fn lemma_scale(p: real, a: real, x: real) ensures rmul(rmul(p, a), x) == rmul(p, rmul(a, x)),
{ reveal(rmul); assert((p * a) * x == p * (a * x)) by (nonlinear_arith); }
pub proof fn lemma_distr(p: real, x: real, y: real, z: real) ensures rmul(p, x + y + z) == rmul(p, x) + rmul(p, y) + rmul(p, z), rmul(p, x + y) == rmul(p, x) + rmul(p, y), rmul(1real, x) == x, rmul(p, 0real) == 0real,
{ reveal(rmul); assert(p * (x + y + z) == p * x + p * y + p * z) by (nonlinear_arith); assert(p * (x + y) == p * x + p * y) by (nonlinear_arith); }
/*@fn partial_dependence.rs :: get_node_cover
ret r
spec:
    requires node_idx < tree.nodes@.len(),
    ensures r == tree.nodes@[node_idx as int].hessian_sum,
*/
/*@fn partial_dependence.rs :: tree_partial_dependence
ret r
spec:
    requires tree.wf(), tree.finite(), tree.total_ok(), node_idx < tree.nodes@.len(), val_ok(value, *missing), proportion.fin(),
    ensures r.e() == Ext::Fin(rmul(proportion.v(), tree.pd(node_idx as int, feature as int, value, *missing))),
    decreases tree.nodes@.len() - node_idx,
start:
    broadcast use opaque_arith;
    proof {
        let i = node_idx as int;
        lemma_fin(*tree, i);
        assert(node_wf(tree.nodes@[i], i, tree.nodes@.len() as int));
        let nn = tree.nodes@[i];
        if !nn.is_leaf {
            let p = proportion.v();
            let (a, b, c) = (nn.left_child as int, nn.right_child as int, nn.missing_node as int);
            let (x, y, z) = (tree.pd(a, feature as int, value, *missing), tree.pd(b, feature as int, value, *missing), tree.pd(c, feature as int, value, *missing));
            let tot = tree.total(i);
            lemma_scale(p, rdiv(tree.h(a), tot), x); lemma_scale(p, rdiv(tree.h(b), tot), y); lemma_scale(p, rdiv(tree.h(c), tot), z);
            lemma_distr(p, rmul(rdiv(tree.h(a), tot), x), rmul(rdiv(tree.h(b), tot), y), rmul(rdiv(tree.h(c), tot), z));
        }
    }
*/
impl Tree {
/*@fn tree.rs :: Tree :: value_partial_dependence
ret r
spec:
    requires self.wf(), self.finite(), self.total_ok(), val_ok(value, *missing),
    ensures r.e() == Ext::Fin(self.pd(0, feature as int, value, *missing)),
start:
    proof { lemma_distr(1real, self.pd(0, feature as int, value, *missing), 0real, 0real); }
*/
}
pub open spec fn pds(trees: Seq<Tree>, feature: int, v: F64, missing: F64) -> Seq<real> { Seq::new(trees.len(), |i: int| trees[i].pd(0, feature, v, missing)) }
impl GradientBooster {
/*@fn gradientbooster.rs :: GradientBooster :: value_partial_dependence
std sum=collect::<Vec<F64>>().vx_fsum
ret r
spec:
    requires self.n_used() <= self.trees@.len(), val_ok(value, self.missing), self.base_score.fin(),
        forall|k: int| 0 <= k < self.trees@.len() ==> (#[trigger] self.trees@[k]).wf() && self.trees@[k].finite() && self.trees@[k].total_ok(),
    ensures r.e() == Ext::Fin(self.base_score.v() + rsum(pds(self.used(), feature as int, value, self.missing))),
start:
    broadcast use opaque_arith;
    proof { assert(hint(pds(self.used(), feature as int, value, self.missing))); }
closure 1:
    |t: &Tree| -> (o: F64) requires t.wf(), t.finite(), t.total_ok(), val_ok(value, self.missing), ensures o.e() == Ext::Fin(t.pd(0, feature as int, value, self.missing))
closure 2:
    |t: &Tree| -> (o: F64) requires t.wf(), t.finite(), t.total_ok(), val_ok(value, self.missing), ensures o.e() == Ext::Fin(t.pd(0, feature as int, value, self.missing))
*/
}
} fn main() {}
