// ---- what an accepted split means (P09, P10)
pub proof fn thm_accepted(x: SplitInfo, s: Spl, n: SplittableNode, h: Seq<Bin<F32>>, f: usize, i: int)
    requires s_ok(s), n_ok(n), info_is(x, s, n, h, f, i),
    ensures
        x.left_node.cover.v() >= s.min_leaf_weight.v() && x.right_node.cover.v() >= s.min_leaf_weight.v(),
        s_dir(s, f) == 1 ==> x.left_node.weight.v() < x.right_node.weight.v(),
        s_dir(s, f) == -1 ==> x.left_node.weight.v() > x.right_node.weight.v(),
        ext_lt(Ext::Fin(s.gamma.v()), ext_sub(ext_add(ext_add(x.left_node.gain.e(), x.right_node.gain.e()), miss_gain(cand(s, n, h, f, i)->0.m)), n.gain_value.e())),
{
    reveal(spl_ev);
}
/// missing rows get a child of their own: a branch only if allowed and not empty, with the weight of the treatment
pub proof fn thm_missing_child(x: SplitInfo, s: Spl, n: SplittableNode, h: Seq<Bin<F32>>, f: usize, i: int)
    requires s_ok(s), n_ok(n), info_is(x, s, n, h, f, i),
    ensures ({
        let p = s_par(s, n);
        let (lg, lh) = (pg(h, i), ph(h, i));
        let (mg, mh) = (h[0].gradient_sum.v(), h[0].hessian_sum.v());
        let (rg, rh) = (n.gradient_sum.v() - lg - mg, n.hessian_sum.v() - lh - mh);
        let m = match x.missing_node { MissingInfo::Leaf(m) => m, MissingInfo::Branch(m) => m, _ => arbitrary() };
        &&& x.missing_node is Leaf || x.missing_node is Branch
        &&& x.missing_node is Branch <==> s.allow_missing_splits && !(mg == 0real && mh == 0real)
        &&& x.left_node.grad.e() == Ext::Fin(lg) && x.left_node.cover.e() == Ext::Fin(lh) && x.right_node.grad.e() == Ext::Fin(rg) && x.right_node.cover.e() == Ext::Fin(rh)
        &&& m.grad.e() == Ext::Fin(mg) && m.cover.e() == Ext::Fin(mh)
        &&& !(lg == 0real && lh == 0real) && !(rg == 0real && rh == 0real)
        &&& s.missing_node_treatment is AssignToParent ==> m.weight.v() == cw(p, n.gradient_sum.v(), n.hessian_sum.v())
        &&& averaging(s.missing_node_treatment) ==> m.weight.v() == lim(cover_avg(x.right_node.weight.v(), rh, x.left_node.weight.v(), lh), p.lo, p.hi)
        &&& s.missing_node_treatment is None && mg == 0real && mh == 0real ==> m.weight.v() == n.weight_value.v()
        &&& s.missing_node_treatment is None && mg != 0real && mh != 0real ==> m.weight.v() == cw(p, mg, mh)
    }),
{
    reveal(spl_ev);
    assert(h[0].gradient_sum.v() + pg(h, i) + (n.gradient_sum.v() - pg(h, i) - h[0].gradient_sum.v()) == n.gradient_sum.v());
    assert(h[0].hessian_sum.v() + ph(h, i) + (n.hessian_sum.v() - ph(h, i) - h[0].hessian_sum.v()) == n.hessian_sum.v());
}
/// asked to, the children bracket the parent (P24)
pub proof fn thm_bracket(x: SplitInfo, s: Spl, n: SplittableNode, h: Seq<Bin<F32>>, f: usize, i: int)
    requires s_ok(s), n_ok(n), info_is(x, s, n, h, f, i), s.force_children_to_bound_parent,
    ensures x.left_node.weight.v() <= n.weight_value.v() <= x.right_node.weight.v() || x.right_node.weight.v() <= n.weight_value.v() <= x.left_node.weight.v(),
{ reveal(spl_ev); }
/// what a child inherits: a finite weight inside its bounds, which lie inside those of the parent
pub open spec fn kid_info(c: NodeInfo, n: SplittableNode) -> bool {
    &&& c.weight.fin() && c.gain.fin() && c.grad.fin() && c.cover.fin()
    &&& bounds_ok(c.bounds.0.e(), c.bounds.1.e()) && within(c.bounds.0.e(), c.weight.v(), c.bounds.1.e())
    &&& ext_le(n.lower_bound.e(), c.bounds.0.e()) && ext_le(c.bounds.1.e(), n.upper_bound.e())
}
pub proof fn thm_bounds(x: SplitInfo, s: Spl, n: SplittableNode, h: Seq<Bin<F32>>, f: usize, i: int)
    requires s_ok(s), n_ok(n), info_is(x, s, n, h, f, i),
    ensures
        kid_info(x.left_node, n), kid_info(x.right_node, n),
        match x.missing_node { MissingInfo::Leaf(m) => kid_info(m, n), MissingInfo::Branch(m) => kid_info(m, n), _ => true },
        s_dir(s, f) == 1 ==> ext_le(x.left_node.bounds.1.e(), x.right_node.bounds.0.e()),
        s_dir(s, f) == -1 ==> ext_le(x.right_node.bounds.1.e(), x.left_node.bounds.0.e()),
        s_dir(s, f) == 1 || s_dir(s, f) == 0 || s_dir(s, f) == -1,
{
    reveal(spl_ev);
    let e = cand(s, n, h, f, i)->0;
    let m = (e.l.w + e.r.w) / 2real;
    assert(s_dir(s, f) == 1 ==> e.l.w < m && m < e.r.w);
    assert(s_dir(s, f) == -1 ==> e.l.w > m && m > e.r.w);
    assert(within(n.lower_bound.e(), e.l.w, n.upper_bound.e()) && within(n.lower_bound.e(), e.r.w, n.upper_bound.e()));
}
