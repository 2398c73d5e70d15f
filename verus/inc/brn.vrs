/*@enum gradientbooster.rs :: MissingNodeTreatment */
/*@struct splitter.rs :: MissingBranchSplitter */
pub type Spl = MissingBranchSplitter;
pub open spec fn averaging(t: MissingNodeTreatment) -> bool { t is AverageLeafWeight || t is AverageNodeWeight }
pub open spec fn s_ok(s: Spl) -> bool {
    &&& reg_ok(s.l1, s.l2, s.max_delta_step) && s.l2.v() > 0real
    &&& s.gamma.fin() && s.min_leaf_weight.fin()
    &&& averaging(s.missing_node_treatment) ==> s.min_leaf_weight.v() > 0real
}
pub open spec fn lim(w: real, lo: Ext, hi: Ext) -> real { clamp(w, lo, hi)->Fin_0 }
/// weights of the two children: the optimum, moved to bracket the parent when asked to
pub open spec fn child_w(s: Spl, p: Par, lg: real, lh: real, rg: real, rh: real, pw: real) -> (real, real) {
    let (l, r) = (cw(p, lg, lh), cw(p, rg, rh));
    if s.force_children_to_bound_parent {
        let b = btp(Ext::Fin(pw), Ext::Fin(l), Ext::Fin(r));
        (b.0->Fin_0, b.1->Fin_0)
    } else { (l, r) }
}
/// the cover weighted average
pub open spec fn cover_avg(a: real, ah: real, b: real, bh: real) -> real { (a * ah + b * bh) / (ah + bh) }
/// weight of the missing child
pub open spec fn miss_w(s: Spl, p: Par, lg: real, lh: real, rg: real, rh: real, mg: real, mh: real, pw: real) -> real {
    let (lw, rw) = child_w(s, p, lg, lh, rg, rh, pw);
    match s.missing_node_treatment {
        MissingNodeTreatment::AssignToParent => cw(p, mg + lg + rg, mh + lh + rh),
        MissingNodeTreatment::AverageLeafWeight => lim(cover_avg(rw, rh, lw, lh), p.lo, p.hi),
        MissingNodeTreatment::AverageNodeWeight => lim(cover_avg(rw, rh, lw, lh), p.lo, p.hi),
        MissingNodeTreatment::None => if mh == 0real || mg == 0real { pw } else { cw(p, mg, mh) },
    }
}
/// branching splitter: the evaluated candidate, or none
#[verifier::opaque]
pub open spec fn spl_ev(s: Spl, p: Par, lg: real, lh: real, rg: real, rh: real, mg: real, mh: real, pw: real, d: int) -> Option<Ev> {
    let mlw = s.min_leaf_weight.v();
    let (lw, rw) = child_w(s, p, lg, lh, rg, rh, pw);
    let m = side_w(p, mg, mh, miss_w(s, p, lg, lh, rg, rh, mg, mh, pw));
    if (lg == 0real && lh == 0real) || (rg == 0real && rh == 0real) { None }
    else if lh < mlw || rh < mlw { None }
    else {
        Some(Ev {
            l: side_w(p, lg, lh, lw), r: side_w(p, rg, rh, rw),
            m: if (mg != 0real || mh != 0real) && s.allow_missing_splits { Miss::Branch(m) } else { Miss::Leaf(m) },
        })
    }
}
pub proof fn lemma_spl_ev(s: Spl, p: Par, lg: real, lh: real, rg: real, rh: real, mg: real, mh: real, pw: real, d: int)
    ensures match spl_ev(s, p, lg, lh, rg, rh, mg, mh, pw, d) { None => true, Some(e) => !(e.l.gain is NaN) && !(e.l.gain is PInf) && !(e.r.gain is NaN) && !(e.r.gain is PInf) && miss_gain(e.m) is Fin },
{ reveal(spl_ev); }
impl MissingBranchSplitter {
/*@fn splitter.rs :: Splitter for MissingBranchSplitter :: get_constraint
ret r
spec:
    ensures dir(r) == s_dir(*self, *feature),
start:
    broadcast use vstd::std_specs::hash::group_hash_axioms;
*/
/*@fn splitter.rs :: Splitter for MissingBranchSplitter :: get_gamma
ret r
spec:
    ensures r == self.gamma,
*/
/*@fn splitter.rs :: Splitter for MissingBranchSplitter :: get_l1
ret r
spec:
    ensures r == self.l1,
*/
/*@fn splitter.rs :: Splitter for MissingBranchSplitter :: get_l2
ret r
spec:
    ensures r == self.l2,
*/
/*@fn splitter.rs :: Splitter for MissingBranchSplitter :: evaluate_split
lit f32
ret r
spec:
    requires
        s_ok(*self), bounds_ok(lower_bound.e(), upper_bound.e()),
        parent_weight.fin(), within(lower_bound.e(), parent_weight.v(), upper_bound.e()),
        left_gradient.fin(), left_hessian.fin(), right_gradient.fin(), right_hessian.fin(), missing_gradient.fin(), missing_hessian.fin(),
        left_hessian.v() >= 0real, right_hessian.v() >= 0real, missing_hessian.v() >= 0real,
    ensures
        ev_is(r, spl_ev(*self, Par { l1: self.l1.v(), l2: self.l2.v(), step: self.max_delta_step.v(), lo: lower_bound.e(), hi: upper_bound.e() },
            left_gradient.v(), left_hessian.v(), right_gradient.v(), right_hessian.v(), missing_gradient.v(), missing_hessian.v(), parent_weight.v(), dir(constraint)), lower_bound.e(), upper_bound.e()),
start:
    broadcast use ideal_arith;
    reveal(spl_ev);
*/
}
