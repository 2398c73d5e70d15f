/*@prelude*/
/*@include ../inc/ext.vrs*/
/*@include ../inc/rsum.vrs*/
/*@include ../inc/matrix.vrs*/
/*@include ../inc/tree.vrs*/
/*@include ../inc/walk.vrs*/
/*@include ../inc/avg.vrs*/
/*@fn utils.rs :: odds
lit f64
ret r
spec:
    requires v.fin(),
    ensures r.e() == Ext::Fin(rodds(v.v())),
start:
    broadcast use opaque_arith;
*/
impl Tree {
/*@fn tree.rs :: Tree :: predict_contributions_row_weight
spec:
    requires self.ctx_ok(row@, *missing, old(contribs)@.len() as int), all_fin64(old(contribs)@),
    ensures
        all_fin64(final(contribs)@), final(contribs)@.len() == old(contribs)@.len(),
        vals64(final(contribs)@) == self.walk(Kind::Weight, row@, *missing, 0, Seq::empty(), 0real, add_at(vals64(old(contribs)@), old(contribs)@.len() - 1, self.w(0))),
start:
    broadcast use opaque_arith;
    let ghost goal = self.walk(Kind::Weight, row@, *missing, 0, Seq::empty(), 0real, add_at(vals64(old(contribs)@), old(contribs)@.len() - 1, self.w(0)));
before "let mut node_idx":
    proof { assert(vals64(contribs@) =~= add_at(vals64(old(contribs)@), old(contribs)@.len() - 1, self.w(0))); }
loop 1:
    invariant
        self.ctx_ok(row@, *missing, contribs@.len() as int), all_fin64(contribs@),
        contribs@.len() == old(contribs)@.len(),
        0 <= node_idx < self.nodes@.len(),
        goal == self.walk(Kind::Weight, row@, *missing, node_idx as int, Seq::empty(), 0real, vals64(contribs@)),
    ensures goal == vals64(contribs@),
    decreases self.nodes@.len() - node_idx,
loop 1 start:
    broadcast use opaque_arith;
    let ghost i0 = node_idx as int;
    let ghost cs = contribs@;
    let ghost n = self.nodes@[i0];
    proof {
        lemma_walk_step(*self, Kind::Weight, row@, *missing, i0, Seq::empty(), 0real, vals64(cs));
        assert(node_wf(n, i0, self.nodes@.len() as int));
        if !n.is_leaf {
            assert(val_ok(row@[n.split_feature as int], *missing));
            let j = child_of(n, row@[n.split_feature as int], *missing) as int;
            assert(self.nodes@[j].weight_value.fin() && self.nodes@[n.left_child as int].weight_value.fin() && self.nodes@[n.right_child as int].weight_value.fin());
            assert(self.nodes@[j].hessian_sum.fin() && self.nodes@[n.left_child as int].hessian_sum.fin() && self.nodes@[n.right_child as int].hessian_sum.fin());
            assert(add_at(vals64(cs), n.split_feature as int, 0real) =~= vals64(cs));
        }
    }
loop 1 end:
    proof {
        let j = child_of(n, row@[n.split_feature as int], *missing) as int;
        let f = n.split_feature as int;
        assert(vals64(contribs@) =~= add_at(vals64(cs), f, self.delta(Kind::Weight, i0, j, Seq::empty(), 0real)));
    }
*/
/*@fn tree.rs :: Tree :: predict_contributions_row_average
spec:
    requires self.ctx_ok(row@, *missing, old(contribs)@.len() as int), all_fin64(old(contribs)@),
        weights@.len() == self.nodes@.len(), all_fin64(weights@),
    ensures
        all_fin64(final(contribs)@), final(contribs)@.len() == old(contribs)@.len(),
        vals64(final(contribs)@) == self.walk(Kind::Average, row@, *missing, 0, weights@, 0real, add_at(vals64(old(contribs)@), old(contribs)@.len() - 1, weights@[0].v())),
start:
    broadcast use opaque_arith;
    let ghost goal = self.walk(Kind::Average, row@, *missing, 0, weights@, 0real, add_at(vals64(old(contribs)@), old(contribs)@.len() - 1, weights@[0].v()));
before "let mut node_idx":
    proof { assert(vals64(contribs@) =~= add_at(vals64(old(contribs)@), old(contribs)@.len() - 1, weights@[0].v())); }
loop 1:
    invariant
        self.ctx_ok(row@, *missing, contribs@.len() as int), all_fin64(contribs@),
        weights@.len() == self.nodes@.len(), all_fin64(weights@),
        contribs@.len() == old(contribs)@.len(),
        0 <= node_idx < self.nodes@.len(),
        goal == self.walk(Kind::Average, row@, *missing, node_idx as int, weights@, 0real, vals64(contribs@)),
    ensures goal == vals64(contribs@),
    decreases self.nodes@.len() - node_idx,
loop 1 start:
    broadcast use opaque_arith;
    let ghost i0 = node_idx as int;
    let ghost cs = contribs@;
    let ghost n = self.nodes@[i0];
    proof {
        lemma_walk_step(*self, Kind::Average, row@, *missing, i0, weights@, 0real, vals64(cs));
        assert(node_wf(n, i0, self.nodes@.len() as int));
        if !n.is_leaf {
            assert(val_ok(row@[n.split_feature as int], *missing));
            let j = child_of(n, row@[n.split_feature as int], *missing) as int;
            assert(self.nodes@[j].weight_value.fin() && self.nodes@[n.left_child as int].weight_value.fin() && self.nodes@[n.right_child as int].weight_value.fin());
            assert(self.nodes@[j].hessian_sum.fin() && self.nodes@[n.left_child as int].hessian_sum.fin() && self.nodes@[n.right_child as int].hessian_sum.fin());
            assert(add_at(vals64(cs), n.split_feature as int, 0real) =~= vals64(cs));
        }
    }
loop 1 end:
    proof {
        let j = child_of(n, row@[n.split_feature as int], *missing) as int;
        let f = n.split_feature as int;
        assert(vals64(contribs@) =~= add_at(vals64(cs), f, self.delta(Kind::Average, i0, j, weights@, 0real)));
    }
*/
/*@fn tree.rs :: Tree :: predict_contributions_row_branch_difference
spec:
    requires self.ctx_ok(row@, *missing, old(contribs)@.len() as int), all_fin64(old(contribs)@),
    ensures
        all_fin64(final(contribs)@), final(contribs)@.len() == old(contribs)@.len(),
        vals64(final(contribs)@) == self.walk(Kind::Branch, row@, *missing, 0, Seq::empty(), 0real, vals64(old(contribs)@)),
start:
    broadcast use opaque_arith;
    let ghost goal = self.walk(Kind::Branch, row@, *missing, 0, Seq::empty(), 0real, vals64(old(contribs)@));
before "let mut node_idx":
    proof { assert(vals64(contribs@) =~= vals64(old(contribs)@)); }
loop 1:
    invariant
        self.ctx_ok(row@, *missing, contribs@.len() as int), all_fin64(contribs@),
        contribs@.len() == old(contribs)@.len(),
        0 <= node_idx < self.nodes@.len(),
        goal == self.walk(Kind::Branch, row@, *missing, node_idx as int, Seq::empty(), 0real, vals64(contribs@)),
    ensures goal == vals64(contribs@),
    decreases self.nodes@.len() - node_idx,
loop 1 start:
    broadcast use opaque_arith;
    let ghost i0 = node_idx as int;
    let ghost cs = contribs@;
    let ghost n = self.nodes@[i0];
    proof {
        lemma_walk_step(*self, Kind::Branch, row@, *missing, i0, Seq::empty(), 0real, vals64(cs));
        assert(node_wf(n, i0, self.nodes@.len() as int));
        if !n.is_leaf {
            assert(val_ok(row@[n.split_feature as int], *missing));
            let j = child_of(n, row@[n.split_feature as int], *missing) as int;
            assert(self.nodes@[j].weight_value.fin() && self.nodes@[n.left_child as int].weight_value.fin() && self.nodes@[n.right_child as int].weight_value.fin());
            assert(self.nodes@[j].hessian_sum.fin() && self.nodes@[n.left_child as int].hessian_sum.fin() && self.nodes@[n.right_child as int].hessian_sum.fin());
            assert(add_at(vals64(cs), n.split_feature as int, 0real) =~= vals64(cs));
        }
    }
loop 1 end:
    proof {
        let j = child_of(n, row@[n.split_feature as int], *missing) as int;
        let f = n.split_feature as int;
        assert(vals64(contribs@) =~= add_at(vals64(cs), f, self.delta(Kind::Branch, i0, j, Seq::empty(), 0real)));
    }
*/
/*@fn tree.rs :: Tree :: predict_contributions_row_midpoint_difference
spec:
    requires self.ctx_ok(row@, *missing, old(contribs)@.len() as int), all_fin64(old(contribs)@),
        self.covered(),
    ensures
        all_fin64(final(contribs)@), final(contribs)@.len() == old(contribs)@.len(),
        vals64(final(contribs)@) == self.walk(Kind::Midpoint, row@, *missing, 0, Seq::empty(), 0real, vals64(old(contribs)@)),
start:
    broadcast use opaque_arith;
    let ghost goal = self.walk(Kind::Midpoint, row@, *missing, 0, Seq::empty(), 0real, vals64(old(contribs)@));
before "let mut node_idx":
    proof { assert(vals64(contribs@) =~= vals64(old(contribs)@)); }
loop 1:
    invariant
        self.ctx_ok(row@, *missing, contribs@.len() as int), all_fin64(contribs@),
        self.covered(),
        contribs@.len() == old(contribs)@.len(),
        0 <= node_idx < self.nodes@.len(),
        goal == self.walk(Kind::Midpoint, row@, *missing, node_idx as int, Seq::empty(), 0real, vals64(contribs@)),
    ensures goal == vals64(contribs@),
    decreases self.nodes@.len() - node_idx,
loop 1 start:
    broadcast use opaque_arith;
    let ghost i0 = node_idx as int;
    let ghost cs = contribs@;
    let ghost n = self.nodes@[i0];
    proof {
        lemma_walk_step(*self, Kind::Midpoint, row@, *missing, i0, Seq::empty(), 0real, vals64(cs));
        assert(node_wf(n, i0, self.nodes@.len() as int));
        if !n.is_leaf {
            assert(val_ok(row@[n.split_feature as int], *missing));
            let j = child_of(n, row@[n.split_feature as int], *missing) as int;
            assert(self.nodes@[j].weight_value.fin() && self.nodes@[n.left_child as int].weight_value.fin() && self.nodes@[n.right_child as int].weight_value.fin());
            assert(self.nodes@[j].hessian_sum.fin() && self.nodes@[n.left_child as int].hessian_sum.fin() && self.nodes@[n.right_child as int].hessian_sum.fin());
            assert(add_at(vals64(cs), n.split_feature as int, 0real) =~= vals64(cs));
        }
    }
before "let delta":
    proof {
        let j = child_of(n, row@[n.split_feature as int], *missing) as int;
        let o = opposite(n, j);
        assert(self.covered_at(i0));
        assert(self.h(j) + self.h(o) != 0real);
        assert(mid.e() == Ext::Fin(rmid(self.w(j), self.h(j), self.w(o), self.h(o)))) 
    }
loop 1 end:
    proof {
        let j = child_of(n, row@[n.split_feature as int], *missing) as int;
        let f = n.split_feature as int;
        assert(vals64(contribs@) =~= add_at(vals64(cs), f, self.delta(Kind::Midpoint, i0, j, Seq::empty(), 0real)));
    }
*/
/*@fn tree.rs :: Tree :: predict_contributions_row_mode_difference
lit f32
spec:
    requires self.ctx_ok(row@, *missing, old(contribs)@.len() as int), all_fin64(old(contribs)@),
    ensures
        all_fin64(final(contribs)@), final(contribs)@.len() == old(contribs)@.len(),
        vals64(final(contribs)@) == self.walk(Kind::Mode, row@, *missing, 0, Seq::empty(), 0real, vals64(old(contribs)@)),
start:
    broadcast use opaque_arith;
    let ghost goal = self.walk(Kind::Mode, row@, *missing, 0, Seq::empty(), 0real, vals64(old(contribs)@));
before "let mut node_idx":
    proof { assert(vals64(contribs@) =~= vals64(old(contribs)@)); }
loop 1:
    invariant
        self.ctx_ok(row@, *missing, contribs@.len() as int), all_fin64(contribs@),
        contribs@.len() == old(contribs)@.len(),
        0 <= node_idx < self.nodes@.len(),
        goal == self.walk(Kind::Mode, row@, *missing, node_idx as int, Seq::empty(), 0real, vals64(contribs@)),
    ensures goal == vals64(contribs@),
    decreases self.nodes@.len() - node_idx,
loop 1 start:
    broadcast use opaque_arith;
    let ghost i0 = node_idx as int;
    let ghost cs = contribs@;
    let ghost n = self.nodes@[i0];
    proof {
        lemma_walk_step(*self, Kind::Mode, row@, *missing, i0, Seq::empty(), 0real, vals64(cs));
        assert(node_wf(n, i0, self.nodes@.len() as int));
        if !n.is_leaf {
            assert(val_ok(row@[n.split_feature as int], *missing));
            let j = child_of(n, row@[n.split_feature as int], *missing) as int;
            assert(self.nodes@[j].weight_value.fin() && self.nodes@[n.left_child as int].weight_value.fin() && self.nodes@[n.right_child as int].weight_value.fin());
            assert(self.nodes@[j].hessian_sum.fin() && self.nodes@[n.left_child as int].hessian_sum.fin() && self.nodes@[n.right_child as int].hessian_sum.fin());
            assert(add_at(vals64(cs), n.split_feature as int, 0real) =~= vals64(cs));
        }
    }
loop 1 end:
    proof {
        let j = child_of(n, row@[n.split_feature as int], *missing) as int;
        let f = n.split_feature as int;
        assert(vals64(contribs@) =~= add_at(vals64(cs), f, self.delta(Kind::Mode, i0, j, Seq::empty(), 0real)));
    }
*/
/*@fn tree.rs :: Tree :: predict_contributions_row_probability_change
ret r
spec:
    requires self.ctx_ok(row@, *missing, old(contribs)@.len() as int), all_fin64(old(contribs)@),
        current_logodds.fin(),
    ensures
        all_fin64(final(contribs)@), final(contribs)@.len() == old(contribs)@.len(),
        vals64(final(contribs)@) == self.walk(Kind::Prob, row@, *missing, 0, Seq::empty(), current_logodds.v(), add_at(vals64(old(contribs)@), old(contribs)@.len() - 1, rodds(current_logodds.v() + self.w(0)) - rodds(current_logodds.v()))),
        r.e() == Ext::Fin(current_logodds.v() + self.w(self.leaf(row@, *missing))),
start:
    broadcast use opaque_arith;
    let ghost goal = self.walk(Kind::Prob, row@, *missing, 0, Seq::empty(), current_logodds.v(), add_at(vals64(old(contribs)@), old(contribs)@.len() - 1, rodds(current_logodds.v() + self.w(0)) - rodds(current_logodds.v())));
before "let mut node_idx":
    proof { assert(vals64(contribs@) =~= add_at(vals64(old(contribs)@), old(contribs)@.len() - 1, rodds(current_logodds.v() + self.w(0)) - rodds(current_logodds.v()))); }
loop 1:
    invariant_except_break lo == current_logodds,
    invariant
        self.ctx_ok(row@, *missing, contribs@.len() as int), all_fin64(contribs@),
        current_logodds.fin(),
        contribs@.len() == old(contribs)@.len(),
        0 <= node_idx < self.nodes@.len(),
        self.route(row@, *missing, node_idx as int) == self.leaf(row@, *missing),
        goal == self.walk(Kind::Prob, row@, *missing, node_idx as int, Seq::empty(), current_logodds.v(), vals64(contribs@)),
    ensures goal == vals64(contribs@), lo.e() == Ext::Fin(current_logodds.v() + self.w(self.leaf(row@, *missing))),
    decreases self.nodes@.len() - node_idx,
loop 1 start:
    broadcast use opaque_arith;
    let ghost i0 = node_idx as int;
    let ghost cs = contribs@;
    let ghost n = self.nodes@[i0];
    proof {
        lemma_walk_step(*self, Kind::Prob, row@, *missing, i0, Seq::empty(), current_logodds.v(), vals64(cs));
        assert(node_wf(n, i0, self.nodes@.len() as int));
        if !n.is_leaf {
            assert(val_ok(row@[n.split_feature as int], *missing));
            let j = child_of(n, row@[n.split_feature as int], *missing) as int;
            assert(self.nodes@[j].weight_value.fin() && self.nodes@[n.left_child as int].weight_value.fin() && self.nodes@[n.right_child as int].weight_value.fin());
            assert(self.nodes@[j].hessian_sum.fin() && self.nodes@[n.left_child as int].hessian_sum.fin() && self.nodes@[n.right_child as int].hessian_sum.fin());
            assert(add_at(vals64(cs), n.split_feature as int, 0real) =~= vals64(cs));
        }
    }
loop 1 end:
    proof {
        let j = child_of(n, row@[n.split_feature as int], *missing) as int;
        let f = n.split_feature as int;
        assert(vals64(contribs@) =~= add_at(vals64(cs), f, self.delta(Kind::Prob, i0, j, Seq::empty(), current_logodds.v())));
    }
*/
/*@fn tree.rs :: Tree :: distribute_node_leaf_weights
ret r
spec:
    requires self.wf(), self.finite(), self.cover_ok(), 0 <= i < self.nodes@.len(), old(weights)@.len() == self.nodes@.len(), all_fin64(old(weights)@),
    ensures
        final(weights)@.len() == old(weights)@.len(), all_fin64(final(weights)@),
        r.e() == Ext::Fin(self.avg(i as int)), self.ok_from(final(weights)@, i as int), self.keeps(old(weights)@, final(weights)@),
    decreases self.nodes@.len() - i,
start:
    broadcast use opaque_arith;
    proof { lemma_avg_step(*self, i as int); lemma_fin(*self, i as int); }
before "weights[i] = ":
    broadcast use lemma_keeps;
    let ghost w3 = weights@;
tail:
    proof { assert(self.keeps(w3, weights@)); }
*/
/*@fn tree.rs :: Tree :: distribute_leaf_weights
lit f64
ret r
spec:
    requires self.wf(), self.finite(), self.cover_ok(),
    ensures r@.len() == self.nodes@.len(), all_fin64(r@), self.ok_from(r@, 0),
*/
/*@fn tree.rs :: Tree :: get_average_leaf_weights
ret r
spec:
    requires self.wf(), self.finite(), self.cover_ok(), 0 <= i < self.nodes@.len(),
    ensures r.e() == Ext::Fin(self.avg(i as int)),
    decreases self.nodes@.len() - i,
start:
    broadcast use opaque_arith;
    proof { lemma_avg_step(*self, i as int); lemma_fin(*self, i as int); }
*/
}
} fn main() {}
