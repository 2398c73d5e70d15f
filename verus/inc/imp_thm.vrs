// ---- what an accepted split means (P09, P10)
/// both sides hold at least the minimum hessian, the order of the weights respects the constraint, and the objective improves by more than gamma
pub proof fn thm_accepted(x: SplitInfo, s: Spl, n: SplittableNode, h: Seq<Bin<F32>>, f: usize, i: int)
    requires s_ok(s), n_ok(n), info_is(x, s, n, h, f, i),
    ensures
        x.left_node.cover.v() >= s.min_leaf_weight.v() && x.right_node.cover.v() >= s.min_leaf_weight.v(),
        s_dir(s, f) == 1 ==> x.left_node.weight.v() < x.right_node.weight.v(),
        s_dir(s, f) == -1 ==> x.left_node.weight.v() > x.right_node.weight.v(),
        ext_lt(Ext::Fin(s.gamma.v()), ext_sub(ext_add(ext_add(x.left_node.gain.e(), x.right_node.gain.e()), miss_gain(cand(s, n, h, f, i)->0.m)), n.gain_value.e())),
{
    reveal(spl_ev);
}
/// missing rows join the side that improves the objective more, the right one if there are none
pub proof fn thm_missing_side(x: SplitInfo, s: Spl, n: SplittableNode, h: Seq<Bin<F32>>, f: usize, i: int)
    requires s_ok(s), n_ok(n), info_is(x, s, n, h, f, i),
    ensures ({
        let p = s_par(s, n);
        let (lg, lh) = (pg(h, i), ph(h, i));
        let (mg, mh) = (h[0].gradient_sum.v(), h[0].hessian_sum.v());
        let (rg, rh) = (n.gradient_sum.v() - lg - mg, n.hessian_sum.v() - lh - mh);
        let gl = ext_sub(cull(side(p, lg + mg, lh + mh).gain, s_dir(s, f), cw(p, lg + mg, lh + mh), cw(p, rg, rh)), side(p, lg, lh).gain);
        let gr = ext_sub(cull(side(p, rg + mg, rh + mh).gain, s_dir(s, f), cw(p, lg, lh), cw(p, rg + mg, rh + mh)), side(p, rg, rh).gain);
        &&& x.missing_node is Left || x.missing_node is Right
        &&& mg == 0real && mh == 0real ==> x.missing_node is Right
        &&& x.missing_node is Left <==> (mg != 0real || mh != 0real) && ext_lt(gr, gl)
        &&& x.missing_node is Left ==> x.left_node.grad.e() == Ext::Fin(lg + mg) && x.left_node.cover.e() == Ext::Fin(lh + mh) && x.right_node.grad.e() == Ext::Fin(rg) && x.right_node.cover.e() == Ext::Fin(rh)
        &&& x.missing_node is Right ==> x.left_node.grad.e() == Ext::Fin(lg) && x.left_node.cover.e() == Ext::Fin(lh) && x.right_node.grad.e() == Ext::Fin(rg + mg) && x.right_node.cover.e() == Ext::Fin(rh + mh)
        // without permission both sides hold non-missing rows, enough of them
        &&& !s.allow_missing_splits ==> !(lg == 0real && lh == 0real) && !(rg == 0real && rh == 0real) && lh >= s.min_leaf_weight.v() && rh >= s.min_leaf_weight.v()
    }),
{
    reveal(spl_ev);
}
/// what a child inherits: a finite weight inside its bounds, which lie inside those of the parent
pub open spec fn kid_info(c: NodeInfo, n: SplittableNode) -> bool {
    &&& c.weight.fin() && c.gain.fin() && c.grad.fin() && c.cover.fin()
    &&& bounds_ok(c.bounds.0.e(), c.bounds.1.e()) && within(c.bounds.0.e(), c.weight.v(), c.bounds.1.e())
    &&& ext_le(n.lower_bound.e(), c.bounds.0.e()) && ext_le(c.bounds.1.e(), n.upper_bound.e())
}
pub proof fn thm_bounds(x: SplitInfo, s: Spl, n: SplittableNode, h: Seq<Bin<F32>>, f: usize, i: int)
    requires s_ok(s), n_ok(n), info_is(x, s, n, h, f, i),
    ensures
        kid_info(x.left_node, n), kid_info(x.right_node, n),
        match x.missing_node { MissingInfo::Leaf(m) => kid_info(m, n), MissingInfo::Branch(m) => kid_info(m, n), _ => true },
        s_dir(s, f) == 1 ==> ext_le(x.left_node.bounds.1.e(), x.right_node.bounds.0.e()),
        s_dir(s, f) == -1 ==> ext_le(x.right_node.bounds.1.e(), x.left_node.bounds.0.e()),
        s_dir(s, f) == 1 || s_dir(s, f) == 0 || s_dir(s, f) == -1,
{
    reveal(spl_ev);
    let e = cand(s, n, h, f, i)->0;
    let m = (e.l.w + e.r.w) / 2real;
    assert(s_dir(s, f) == 1 ==> e.l.w < m && m < e.r.w);
    assert(s_dir(s, f) == -1 ==> e.l.w > m && m > e.r.w);
    assert(within(n.lower_bound.e(), e.l.w, n.upper_bound.e()) && within(n.lower_bound.e(), e.r.w, n.upper_bound.e()));
}
